"""Second battery of behaviour-preserving edits (see refac.py, sweep.py)."""
S = 'src/modules/'
U, CS, FL, FR, FH, T, TH = (S + x + '.c' for x in ('utils', 'char_stream', 'frame_list', 'frame', 'frame_header', 'tag', 'tag_header'))
TX, CM, AP = (S + 'frames/' + x + '_frame.c' for x in ('text', 'comment', 'apic'))
L, C = 'src/id3v2lib.c', 'src/id3v2lib.compat.c'
CASES = []
def case(name, *edits, rx=None):
    CASES.append((name, list(edits), rx))

case('r2-unicode-ptr', (U, '''    char* result = (char*) malloc(result_size * sizeof(char));

    // Add BOM
    result[0] = 0xFF;
    result[1] = 0xFE;

    for (int i = 1; i <= strlen(string); i++)
    {
        result[i * 2] = string[i - 1];
        result[(i * 2) + 1] = 0x00;
    }

    // Add new string termination characters
    result[result_size - 2] = 0x00;
    result[result_size - 1] = 0x00;

    return result;''', '''    char* result = (char*) malloc(result_size * sizeof(char));
    char* out = result;

    *out++ = 0xFF;
    *out++ = 0xFE;

    for (const char* in = string; *in != 0; in++)
    {
        *out++ = *in;
        *out++ = 0x00;
    }

    *out++ = 0x00;
    *out = 0x00;

    return result;'''))
case('r2-unicode-calloc', (U, '(char*) malloc(result_size * sizeof(char));', '(char*) calloc(result_size, sizeof(char));'),
     (U, '''    for (int i = 1; i <= strlen(string); i++)
    {
        result[i * 2] = string[i - 1];
        result[(i * 2) + 1] = 0x00;
    }

    // Add new string termination characters
    result[result_size - 2] = 0x00;
    result[result_size - 1] = 0x00;
''', '''    const int length = strlen(string);

    for (int i = 0; i < length; i++)
    {
        result[BOM_LENGTH + i * 2] = string[i];
    }
'''))
case('r2-unicode-back', (U, '''    for (int i = 1; i <= strlen(string); i++)
    {
        result[i * 2] = string[i - 1];
        result[(i * 2) + 1] = 0x00;
    }
''', '''    for (int i = strlen(string); i > 0; i--)
    {
        result[(i * 2) + 1] = 0x00;
        result[i * 2] = string[i - 1];
    }
'''))
case('r2-strlen-memcmp', (U, '''    char a = -1;
    char b = -1;
    int length = 0;

    while (1)
    {
        a = string[length];
        b = string[length + 1];

        if (a == 0x00 && b == 0x00)
        {
            break;
        }

        length += 2;
    }

    return length;''', '''    int length = 0;

    while (memcmp(string + length, "\\0\\0", 2) != 0)
    {
        length += 2;
    }

    return length;'''))
case('r2-strlen-or', (U, '''    char a = -1;
    char b = -1;
    int length = 0;

    while (1)
    {
        a = string[length];
        b = string[length + 1];

        if (a == 0x00 && b == 0x00)
        {
            break;
        }

        length += 2;
    }

    return length;''', '''    int units = 0;

    while (string[units * 2] != 0x00 || string[units * 2 + 1] != 0x00)
    {
        units++;
    }

    return units * 2;'''))
case('r2-strlent', (U, '''    const int termination_character_length = string_has_bom(string) ? 2 : 1;
    return ID3v2_strlen(string) + termination_character_length;''', '''    int size = ID3v2_strlen(string);
    size += string_has_bom(string) ? 2 : 1;
    return size;'''))
case('r2-bom-switch', (U, '''    return (bytes[0] == 0xFF && bytes[1] == 0xFE) || (bytes[0] == 0xFE && bytes[1] == 0xFF);''',
'''    switch (bytes[0])
    {
        case 0xFF: return bytes[1] == 0xFE;
        case 0xFE: return bytes[1] == 0xFF;
        default: return false;
    }'''))
case('r2-bom-char', (U, '''    if (string == NULL)
    {
        return false;
    }
''', ''), (U, '''    const unsigned char* bytes = (const unsigned char*) string;
    return (bytes[0] == 0xFF && bytes[1] == 0xFE) || (bytes[0] == 0xFE && bytes[1] == 0xFF);''',
'''    if (string != NULL && string[0] == (char) 0xFF) return string[1] == (char) 0xFE;
    if (string != NULL && string[0] == (char) 0xFE) return string[1] == (char) 0xFF;

    return false;'''))
case('r2-btoi-ptr', (U, '''    for (int i = 0; i < size; i++)
    {
        result = result << 8;
        result = result | (unsigned char) bytes[i];
    }
''', '''    while (size-- > 0)
    {
        result = (result << 8) + (unsigned char) *bytes++;
    }
'''))
case('r2-btoi-shift', (U, '''    for (int i = 0; i < size; i++)
    {
        result = result << 8;
        result = result | (unsigned char) bytes[i];
    }
''', '''    for (int i = 0; i < size; i++)
    {
        result |= (unsigned int) (unsigned char) bytes[i] << (8 * (size - 1 - i));
    }
'''))
case('r2-itob-direct', (U, '''    // We need to reverse the bytes because Intel uses little endian.
    char* aux = (char*) &integer;

    for (int i = size - 1; i >= 0; i--)
    {
        result[size - 1 - i] = aux[i];
    }
''', '''    result[0] = (char) (integer >> 24);
    result[1] = (char) (integer >> 16);
    result[2] = (char) (integer >> 8);
    result[3] = (char) integer;
'''))
case('r2-itob-mask', (U, '''    // We need to reverse the bytes because Intel uses little endian.
    char* aux = (char*) &integer;

    for (int i = size - 1; i >= 0; i--)
    {
        result[size - 1 - i] = aux[i];
    }
''', '''    const unsigned int value = integer;

    for (int i = 0; i < size; i++)
    {
        result[i] = (value >> ((size - 1 - i) * 8)) & 0xFF;
    }
'''))
case('r2-sync-decode-loop', (U, '''    unsigned int a, b, c, d, result = 0x0;
    a = value & 0xFF;
    b = (value >> 8) & 0xFF;
    c = (value >> 16) & 0xFF;
    d = (value >> 24) & 0xFF;

    result = result | a;
    result = result | (b << 7);
    result = result | (c << 14);
    result = result | (d << 21);

    return result;''', '''    unsigned int result = 0x0;

    for (int i = 0; i < 4; i++)
    {
        const unsigned int byte = (value >> (i * 8)) & 0xFF;
        result |= byte << (i * 7);
    }

    return result;'''))
case('r2-sync-encode-or', (U, '''    unsigned int out = 0, mask = 0x7F;

    while (mask ^ 0x7FFFFFFF)
    {
        out = value & ~mask;
        out <<= 1;
        out |= value & mask;
        mask = ((mask + 1) << 8) - 1;
        value = out;
    }

    return out;''', '''    return (value & 0x7F) | ((value & 0x3F80) << 1) | ((value & 0x1FC000) << 2) |
           ((value & 0xFE00000) << 3);'''))
case('r2-clamp-if', (U, '''    return value < min ? min : (value > max ? max : value);''', '''    if (value < min) return min;
    if (value > max) return max;
    return value;'''))
case('r2-cs-from-new', (CS, '''    CharStream* cs = (CharStream*) malloc(sizeof(CharStream));
    cs->stream = (char*) calloc(size, sizeof(char));
    memcpy(cs->stream, buffer, size);
    cs->cursor = 0;
    cs->size = size;
    return cs;''', '''    CharStream* cs = CharStream_new(size);
    memcpy(cs->stream, buffer, cs->size);
    return cs;'''))
case('r2-cs-read-if', (CS, '''    const int final_size = clamp_int(size, 0, cs->size - cs->cursor);
    memcpy(dest, CharStream_get_cur(cs), final_size);
    cs->cursor += final_size;
    return final_size;''', '''    const int left = cs->size - cs->cursor;
    int n = size;
    if (n > left) n = left;
    if (n < 0) n = 0;
    memcpy(dest, &cs->stream[cs->cursor], n);
    cs->cursor += n;
    return n;'''))
case('r2-cs-read-slice', (CS, '''    memcpy(dest, CharStream_get_cur(cs), final_size);
    cs->cursor += final_size;
    return final_size;''', '''    memcpy(dest, CharStream_slice(cs, final_size), final_size);
    return final_size;'''))
case('r2-cs-seek-base', (CS, '''    switch (whence)
    {
        case SEEK_SET:
            cs->cursor = clamp_int(offset, 0, cs->size);
            break;
        case SEEK_CUR:
            cs->cursor = clamp_int(cs->cursor + offset, 0, cs->size);
            break;
        default:
            cs->cursor = clamp_int(cs->size + offset, 0, cs->size);
            break;
    }''', '''    int base = cs->size;

    if (whence == SEEK_SET) base = 0;
    else if (whence == SEEK_CUR) base = cs->cursor;

    cs->cursor = clamp_int(base + offset, 0, cs->size);'''))
case('r2-cs-getc', (CS, '''    if (cs->cursor >= cs->size) return EOF;
    int c = cs->stream[cs->cursor];
    cs->cursor++;
    return c;''', '''    return cs->cursor < cs->size ? cs->stream[cs->cursor++] : EOF;'''))
case('r2-cs-readstring-read', (CS, '''    memcpy(result, CharStream_get_cur(cs), available);
    CharStream_seek(cs, ID3v2_strlent(result), SEEK_CUR);
    return result;''', '''    const int start = cs->cursor;
    CharStream_read(cs, result, available);
    CharStream_seek(cs, start + ID3v2_strlent(result), SEEK_SET);
    return result;'''))
case('r2-list-pp', (FL, '''        ID3v2_FrameList* last = list;
        while (last->next != NULL)
        {
            last = last->next;
        }

        last->next = current;''', '''        ID3v2_FrameList** link = &list->next;

        while (*link != NULL)
        {
            link = &(*link)->next;
        }

        *link = current;'''))
case('r2-list-find', (FL, '''ID3v2_Frame* FrameList_get_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
{
    while (list != NULL && list->frame != NULL)
    {
        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
        {
            return list->frame;
        }

        list = list->next;
    }

    return NULL;
}
''', '''static ID3v2_FrameList* find_from(ID3v2_FrameList* list, const char* frame_id)
{
    for (; list != NULL && list->frame != NULL; list = list->next)
    {
        if (!strncmp(list->frame->header->id, frame_id, ID3v2_FRAME_HEADER_ID_LENGTH)) return list;
    }

    return NULL;
}

ID3v2_Frame* FrameList_get_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
{
    ID3v2_FrameList* node = find_from(list, frame_id);
    return node != NULL ? node->frame : NULL;
}
'''), (FL, '''    ID3v2_FrameList* sublist = FrameList_new();

    while (list != NULL && list->frame != NULL)
    {
        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
        {
            FrameList_add_frame(sublist, list->frame);
        }

        list = list->next;
    }

    return sublist;''', '''    ID3v2_FrameList* sublist = FrameList_new();
    ID3v2_FrameList* node = list;

    while ((node = find_from(node, frame_id)) != NULL)
    {
        FrameList_add_frame(sublist, node->frame);
        node = node->next;
    }

    return sublist;'''))
case('r2-list-free-rec', (FL, '''    while (list != NULL)
    {
        ID3v2_Frame_free(list->frame);
        ID3v2_FrameList* next_head = list->next;
        free(list);
        list = next_head;
    }''', '''    for (ID3v2_FrameList* node = list; node != NULL; node = node->next)
    {
        ID3v2_Frame_free(node->frame);
    }

    ID3v2_FrameList_unlink(list);'''))
case('r2-remove-by-id', (FL, '''    ID3v2_FrameList* head = list;
    ID3v2_FrameList* previous = NULL;

    while (list != NULL && list->frame != NULL)
    {
        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
        {
            ID3v2_Frame* removed = list->frame;
            FrameList_remove_node(head, previous);
            return removed;
        }

        previous = list;
        list = list->next;
    }

    return NULL;''', '''    ID3v2_Frame* found = FrameList_get_frame_by_id(list, frame_id);
    return found != NULL ? FrameList_remove_frame(list, found) : NULL;'''))
case('r2-replace-for', (FL, '''    if (list == NULL) return;

    while (list != NULL)
    {
        if (list->frame == old_frame)
        {
            list->frame = new_frame;
            return;
        }

        list = list->next;
    }''', '''    while (list != NULL && list->frame != old_frame)
    {
        list = list->next;
    }

    if (list != NULL) list->frame = new_frame;'''))
case('r2-frame-rewind', (FR, '''    if (FrameHeader_isTextFrame(header))
    {
        // Rewind the stream back so the frame can correctly parse the header
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header); // we don't need it, the frame will parse its own header
        return (ID3v2_Frame*) TextFrame_parse(frame_cs, id3_major_version);
    }
    else if (FrameHeader_isCommentFrame(header))
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return (ID3v2_Frame*) CommentFrame_parse(frame_cs, id3_major_version);
    }
    else if (FrameHeader_isApicFrame(header))
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return (ID3v2_Frame*) ApicFrame_parse(frame_cs, id3_major_version);
    }
''', '''    const bool is_text = FrameHeader_isTextFrame(header);
    const bool is_comment = FrameHeader_isCommentFrame(header);
    const bool is_apic = FrameHeader_isApicFrame(header);

    if (is_text || is_comment || is_apic)
    {
        // These frames parse their own header
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);

        if (is_text) return (ID3v2_Frame*) TextFrame_parse(frame_cs, id3_major_version);
        if (is_comment) return (ID3v2_Frame*) CommentFrame_parse(frame_cs, id3_major_version);
        return (ID3v2_Frame*) ApicFrame_parse(frame_cs, id3_major_version);
    }
'''), (FR, '#include <stdlib.h>', '#include <stdbool.h>\n#include <stdlib.h>'))
case('r2-frame-dup', (FR, '''    frame->data = (char*) malloc(header->size * sizeof(char));
    CharStream_read(frame_cs, frame->data, header->size);
''', '''    const char* data = CharStream_slice(frame_cs, header->size);
    frame->data = (char*) malloc(header->size);
    memcpy(frame->data, data, header->size);
'''), (FR, '#include <stdlib.h>', '#include <stdlib.h>\n#include <string.h>'))
case('r2-frame-free', (FR, '''        free(frame->header);
        free(frame->data);
        free(frame);''', '''        free(frame->data);
        FrameHeader_free(frame->header);
        free(frame);'''))
case('r2-raw-order', (FR, '''        CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
        CharStream_free(header_cs);
        CharStream_write(frame_cs, frame->data, frame->header->size);
        return frame_cs;''', '''        CharStream_write(frame_cs, header_cs->stream, header_cs->size);
        CharStream_write(frame_cs, frame->data, frame->header->size);
        CharStream_free(header_cs);
        return frame_cs;'''))
case('r2-text-stack', (TX, '''    CharStream* data_cs = CharStream_from_buffer(CharStream_slice(frame_cs, header->size), header->size);
    CharStream_seek(data_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding

    char* text = CharStream_read_string(data_cs);
''', '''    CharStream data_cs = {
        .stream = CharStream_slice(frame_cs, header->size),
        .cursor = 0,
        .size = header->size,
    };
    CharStream_seek(&data_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding

    char* text = CharStream_read_string(&data_cs);
'''), (TX, '''    CharStream_free(data_cs);
    FrameHeader_free(header);''', '''    FrameHeader_free(header);'''))
case('r2-text-local', (TX, '''    frame->data = TextFrameData_new(text);

    const int frame_size = ID3v2_FRAME_ENCODING_LENGTH + frame->data->size;
    frame->header = FrameHeader_new(id, flags, frame_size);
''', '''    ID3v2_TextFrameData* data = TextFrameData_new(text);
    frame->header = FrameHeader_new(id, flags, data->size + ID3v2_FRAME_ENCODING_LENGTH);
    frame->data = data;
'''), (TX, '''    const char encoding = string_has_bom(text) ? ID3v2_ENCODING_UNICODE : ID3v2_ENCODING_ISO;
    const int str_termination_size = encoding == ID3v2_ENCODING_ISO ? 1 : 2;
    const int size = ID3v2_strlen(text) + str_termination_size;
''', '''    char encoding = ID3v2_ENCODING_ISO;
    int size = ID3v2_strlen(text) + 1;

    if (string_has_bom(text))
    {
        encoding = ID3v2_ENCODING_UNICODE;
        size++;
    }
'''))
case('r2-payload-helper', (CS, '''char* CharStream_slice(''', '''CharStream* CharStream_sub(CharStream* cs, const int n)
{
    CharStream* sub = CharStream_from_buffer(CharStream_get_cur(cs), n);
    CharStream_seek(cs, n, SEEK_CUR);
    return sub;
}

char* CharStream_slice('''), *[(f, 'CharStream_from_buffer(CharStream_slice(frame_cs, header->size), header->size)', 'CharStream_sub(frame_cs, header->size)') for f in (TX, CM, AP)],
     ('src/modules/char_stream.private.h', 'char* CharStream_slice(', 'CharStream* CharStream_sub(CharStream* cs, const int n);\nchar* CharStream_slice('))
case('r2-comment-sizes', (CM, '''    const int short_desc_size = ID3v2_strlent(short_desc);
    const int frame_size = frame->data->size + short_desc_size + ID3v2_FRAME_ENCODING_LENGTH +
                           ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
''', '''    int frame_size = ID3v2_FRAME_ENCODING_LENGTH + ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
    frame_size += ID3v2_strlent(frame->data->short_description);
    frame_size += ID3v2_strlent(frame->data->comment);
'''))
case('r2-comment-order', (CM, '''    data->comment = (char*) malloc(comment_size * sizeof(char));
    memcpy(data->comment, comment, comment_size);

    data->short_description = (char*) malloc(short_desc_size * sizeof(char));
    memcpy(data->short_description, short_desc, short_desc_size);
''', '''    data->short_description = (char*) malloc(short_desc_size * sizeof(char));
    data->comment = (char*) malloc(comment_size * sizeof(char));
    memcpy(data->short_description, short_desc, short_desc_size);
    memcpy(data->comment, comment, comment_size);
'''))
case('r2-comment-write', (CM, '''    CharStream_write(
        frame_cs,
        frame->data->short_description,
        ID3v2_strlent(frame->data->short_description)
    );
    CharStream_write(frame_cs, frame->data->comment, frame->data->size);
''', '''    const ID3v2_CommentFrameData* data = frame->data;
    const int desc_size = ID3v2_strlent(data->short_description);
    CharStream_write(frame_cs, data->short_description, desc_size);
    CharStream_write(frame_cs, data->comment, data->size);
'''))
case('r2-apic-sizes', (AP, '''    const int description_size = ID3v2_strlent(description);
    const int mime_type_size = ID3v2_strlent(mime_type);
    const int frame_size = ID3v2_FRAME_ENCODING_LENGTH + mime_type_size +
                           ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH + description_size +
                           frame->data->picture_size;
''', '''    const int fixed_size = ID3v2_FRAME_ENCODING_LENGTH + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
    const int frame_size = picture_size + fixed_size + ID3v2_strlent(frame->data->mime_type) +
                           ID3v2_strlent(frame->data->description);
'''))
case('r2-apic-read', (AP, '''    const int pic_size = data_cs->size - data_cs->cursor;
    const char* pic_data = CharStream_get_cur(data_cs);

    ID3v2_ApicFrame* frame =
        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);

    free(mime_type);''', '''    const int pic_size = data_cs->size - data_cs->cursor;
    char* pic_data = (char*) malloc(pic_size);
    CharStream_read(data_cs, pic_data, pic_size);

    ID3v2_ApicFrame* frame =
        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);

    free(pic_data);
    free(mime_type);'''))
HW = '''    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
    CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);

    // Header
    CharStream_write(frame_cs, frame_header_cs->stream, frame_header_cs->size);
    CharStream_free(frame_header_cs);
'''
case('r2-frame-begin', (FH, 'bool FrameHeader_isTextFrame(', '''CharStream* FrameHeader_begin_frame(ID3v2_FrameHeader* header, const int id3_major_version)
{
    CharStream* header_cs = FrameHeader_to_char_stream(header, id3_major_version);
    CharStream* frame_cs = CharStream_new(header->size + ID3v2_FRAME_HEADER_LENGTH);
    CharStream_write(frame_cs, header_cs->stream, header_cs->size);
    CharStream_free(header_cs);
    return frame_cs;
}

bool FrameHeader_isTextFrame('''), ('src/modules/frame_header.private.h', 'bool FrameHeader_isTextFrame(', 'CharStream* FrameHeader_begin_frame(ID3v2_FrameHeader* header, const int id3_major_version);\nbool FrameHeader_isTextFrame('),
     *[(f, HW, '    CharStream* frame_cs = FrameHeader_begin_frame(frame->header, id3_major_version);\n') for f in (TX, CM, AP)])
case('r2-fh-order', (FH, '''    int size = btoi(
        CharStream_slice(header_cs, ID3v2_FRAME_HEADER_SIZE_LENGTH),
        ID3v2_FRAME_HEADER_SIZE_LENGTH
    );

    if (id3_major_version == 4)
    {
        size = syncint_decode(size);
    }

    char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
    CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
''', '''    char raw_size[ID3v2_FRAME_HEADER_SIZE_LENGTH];
    char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
    CharStream_read(header_cs, raw_size, ID3v2_FRAME_HEADER_SIZE_LENGTH);
    CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);

    const unsigned int encoded_size = btoi(raw_size, ID3v2_FRAME_HEADER_SIZE_LENGTH);
    const int size = id3_major_version == 4 ? syncint_decode(encoded_size) : encoded_size;
'''))
case('r2-fh-left', (FH, '''    if (size < 0 || size > header_cs->size - header_cs->cursor)
    {''', '''    const int left = header_cs->size - header_cs->cursor;
    const bool fits = size >= 0 && size <= left;

    if (!fits)
    {'''))
case('r2-fh-padding-or', (FH, '''    if (memcmp(id, "\\0\\0\\0\\0", ID3v2_FRAME_HEADER_ID_LENGTH) == 0)''', '''    if ((id[0] | id[1] | id[2] | id[3]) == 0)'''))
case('r2-fh-padding-and', (FH, '''    if (memcmp(id, "\\0\\0\\0\\0", ID3v2_FRAME_HEADER_ID_LENGTH) == 0)''', '''    if (!id[0] && !id[1] && !id[2] && !id[3])'''))
case('r2-fh-comment-chars', (FH, '''    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;''', '''    const char* id = header->id;
    return id[0] == 'C' && id[1] == 'O' && id[2] == 'M' && id[3] == 'M';'''))
case('r2-th-flags', (TH, '''    const int major_version = CharStream_getc(header_cs);
    const int minor_version = CharStream_getc(header_cs);

    if (major_version != 3 && major_version != 4)
    {
        // No supported id3 tag found
        return NULL;
    }

    const int flags = CharStream_getc(header_cs);
''', '''    const int major_version = CharStream_getc(header_cs);
    const int minor_version = CharStream_getc(header_cs);
    const int flags = CharStream_getc(header_cs);
    const bool is_supported = major_version >= 3 && major_version <= 4;

    if (!is_supported) return NULL;
'''), (TH, '(flags & (1 << 6)) == (1 << 6)', 'flags & ID3v2_TAG_EXTENDED_HEADER_FLAG'))
case('r2-th-eh-helper', (TH, '''    int extended_header_size = 0;

    if ((flags & (1 << 6)) == (1 << 6))
    {
        // An extended header exists, retrieve its size
        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
        const int bytes_read =
            CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);

        if (bytes_read == ID3v2_EXTENDED_HEADER_SIZE_LENGTH)
        {
            // In v2.3 it's a regular integer and it doesn't count its own bytes
            const unsigned int size = btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
            extended_header_size = major_version == 4 ? syncint_decode(size)
                                                      : size + ID3v2_EXTENDED_HEADER_SIZE_LENGTH;
        }
    }
''', '''    const int extended_header_size =
        (flags & (1 << 6)) != 0 ? read_extended_size(header_cs, major_version) : 0;
'''), (TH, 'ID3v2_TagHeader* TagHeader_parse(', '''static int read_extended_size(CharStream* cs, const int major_version)
{
    char raw[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];

    if (CharStream_read(cs, raw, sizeof(raw)) < (int) sizeof(raw)) return 0;

    const unsigned int size = btoi(raw, sizeof(raw));

    // In v2.3 it's a regular integer and it doesn't count its own bytes
    if (major_version == 3) return size + sizeof(raw);

    return syncint_decode(size);
}

ID3v2_TagHeader* TagHeader_parse('''))
case('r2-parse-padding', (T, '''    while (tag_cs->cursor < tag_cs->size)
    {
        current_frame = Frame_parse(tag_cs, tag->header->major_version);
        if (current_frame == NULL) break;
        FrameList_add_frame(tag->frames, current_frame);
        frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
''', '''    while (tag_cs->cursor < tag_cs->size &&
           (current_frame = Frame_parse(tag_cs, header->major_version)) != NULL)
    {
        frames_size += ID3v2_FRAME_HEADER_LENGTH + current_frame->header->size;
        FrameList_add_frame(tag->frames, current_frame);
    }
'''))
case('r2-encode-for', (T, '''    ID3v2_FrameList* frames = tag->frames;

    if (frames->frame == NULL)
    {
        // The tag doesn't have any frames
        return tag_cs;
    }

    while (frames != NULL)
    {
        CharStream* frame_cs = Frame_to_char_stream(frames->frame, tag->header->major_version);

        if (frame_cs == NULL) break;

        CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
        CharStream_free(frame_cs);

        frames = frames->next;
    }
''', '''    for (ID3v2_FrameList* node = tag->frames; node != NULL && node->frame != NULL; node = node->next)
    {
        CharStream* frame_cs = Frame_to_char_stream(node->frame, tag->header->major_version);
        CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
        CharStream_free(frame_cs);
    }
'''))
case('r2-encode-header', (T, '''    char* size_bytes = itob(syncint_encode(tag->header->tag_size));
    CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
    free(size_bytes);

    // Write frames''', '''    write_size(tag_cs, tag->header->tag_size);

    // Write frames'''), (T, 'CharStream* Tag_to_char_stream(', '''static void write_size(CharStream* cs, const int size)
{
    char bytes[ID3v2_TAG_HEADER_TAG_SIZE_LENGTH];

    for (int i = 0; i < ID3v2_TAG_HEADER_TAG_SIZE_LENGTH; i++)
    {
        bytes[i] = (size >> (7 * (3 - i))) & 0x7F;
    }

    CharStream_write(cs, bytes, sizeof(bytes));
}

CharStream* Tag_to_char_stream('''))
case('r2-set-text-size', (T, '''    if (existing_frame == NULL)
    {
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
    else
    {
        FrameList_replace_frame(
            tag->frames,
            (ID3v2_Frame*) existing_frame,
            (ID3v2_Frame*) new_frame
        );
        tag->header->tag_size += (new_frame->header->size - existing_frame->header->size);
        ID3v2_Frame_free((ID3v2_Frame*) existing_frame);
    }
}

void ID3v2_Tag_set_artist(''', '''    tag->header->tag_size += new_frame->header->size;

    if (existing_frame != NULL)
    {
        tag->header->tag_size -= existing_frame->header->size;
        FrameList_replace_frame(tag->frames, (ID3v2_Frame*) existing_frame, (ID3v2_Frame*) new_frame);
        TextFrame_free(existing_frame);
        return;
    }

    tag->header->tag_size += ID3v2_FRAME_HEADER_LENGTH;
    FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
}

void ID3v2_Tag_set_artist('''))
case('r2-open-goto', (L, '''    FILE* fp = fopen(file_name, "rb");
    char tag_header_buffer[ID3v2_TAG_HEADER_LENGTH];

    if (fp == NULL) return NULL;

    const int bytes_read = fread(tag_header_buffer, sizeof(char), ID3v2_TAG_HEADER_LENGTH, fp);
    fclose(fp);

    if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return NULL;

    return ID3v2_read_tag_header_from_buffer(tag_header_buffer);''', '''    char tag_header_buffer[ID3v2_TAG_HEADER_LENGTH];
    ID3v2_TagHeader* header = NULL;
    FILE* fp = fopen(file_name, "rb");

    if (fp != NULL)
    {
        if (fread(tag_header_buffer, sizeof(tag_header_buffer), 1, fp) == 1)
        {
            header = ID3v2_read_tag_header_from_buffer(tag_header_buffer);
        }

        fclose(fp);
    }

    return header;'''))
case('r2-copy-do', (L, '''    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, dest_fp);
    }
''', '''    for (;;)
    {
        c = fgetc(temp_fp);
        if (c == EOF) break;
        fputc(c, dest_fp);
    }
'''))
case('r2-stage-helper', (L, '''    // Don't touch the destination file unless the temp file holds everything
    const bool is_staged = !ferror(file_fp) && !ferror(temp_fp) && fflush(temp_fp) == 0;
''', '''    // Don't touch the destination file unless the temp file holds everything
    const bool is_staged = is_complete(file_fp, temp_fp);
'''), (L, '''    const bool is_staged = !ferror(dest_fp) && !ferror(temp_fp) && fflush(temp_fp) == 0;
''', '''    const bool is_staged = is_complete(dest_fp, temp_fp);
'''), (L, 'void ID3v2_write_tag(', '''static bool is_complete(FILE* source, FILE* copy)
{
    if (ferror(source)) return false;
    if (fflush(copy) != 0) return false;
    return !ferror(copy);
}

void ID3v2_write_tag('''))
case('r2-rewrite-helper', (L, 'void ID3v2_write_tag(', '''static void replace_contents(const char* file_name, FILE* temp_fp, const bool is_staged)
{
    FILE* fp = is_staged ? fopen(file_name, "w+b") : NULL;

    if (fp != NULL)
    {
        int c;

        rewind(temp_fp);

        while ((c = getc(temp_fp)) != EOF) putc(c, fp);

        fclose(fp);
    }

    fclose(temp_fp);
}

void ID3v2_write_tag('''), (L, '''    // Finally copy the temp file back into the destination file
    dest_fp = is_staged ? fopen(file_name, "w+b") : NULL;

    if (dest_fp == NULL)
    {
        fclose(temp_fp);
        return;
    }

    fseek(temp_fp, 0L, SEEK_SET);

    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, dest_fp);
    }

    fclose(temp_fp);
    fclose(dest_fp);
''', '''    // Finally copy the temp file back into the destination file
    replace_contents(file_name, temp_fp, is_staged);
'''), (L, '''    // Finally copy the temp file back into the destination file
    file_fp = is_staged ? fopen(file_name, "w+b") : NULL;

    if (file_fp == NULL)
    {
        fclose(temp_fp);
        return;
    }

    fseek(temp_fp, 0L, SEEK_SET);

    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, file_fp);
    }

    fclose(temp_fp);
    fclose(file_fp);
''', '''    // Finally copy the temp file back into the destination file
    replace_contents(file_name, temp_fp, is_staged);
'''))
