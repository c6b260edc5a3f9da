"""Behaviour-preserving edits (see sweep.py): the checks have to stay quiet on all of them."""
U, CS, FL, FH = 'src/modules/utils.c', 'src/modules/char_stream.c', 'src/modules/frame_list.c', 'src/modules/frame_header.c'
TG, TH, FR, L, K = 'src/modules/tag.c', 'src/modules/tag_header.c', 'src/modules/frame.c', 'src/id3v2lib.c', 'src/id3v2lib.compat.c'
TX, CM, AP = 'src/modules/frames/text_frame.c', 'src/modules/frames/comment_frame.c', 'src/modules/frames/apic_frame.c'
CASES = []


def case(n, *e, rx=''):
    CASES.append((n, list(e), rx))


def fn(path, name):
    """source text of a function"""
    import re
    t = open('/repo/' + path).read()
    m = re.search(r'^[^\n]*\b%s\([^;{]*?\)\n\{\n.*?^\}\n' % name, t, re.S | re.M) or re.search(r'^[^\n]*\b%s\([^;{]*?\)\s*\{\n.*?^\}' % name, t, re.S | re.M)
    return m.group(0)


case('unicode-loop', (U, fn(U, 'ID3v2_to_unicode'), '''char* ID3v2_to_unicode(char* string)
{
    if (string_has_bom(string)) return string;

    const size_t length = strlen(string);
    const size_t total = 2 * (length + 2);
    char* result = (char*) malloc(total);
    char* out = result;

    *out++ = (char) 0xFF;
    *out++ = (char) 0xFE;

    for (const char* in = string; *in != '\\0'; in++)
    {
        *out++ = *in;
        *out++ = 0;
    }

    *out++ = 0;
    *out = 0;

    return result;
}
'''), rx='^u_')
case('unicode-hoist', (U, '    for (int i = 1; i <= strlen(string); i++)\n    {\n        result[i * 2] = string[i - 1];\n        result[(i * 2) + 1] = 0x00;\n    }',
  '    const int length = strlen(string);\n    for (int i = 0; i < length; i++)\n    {\n        result[(i * 2) + 2] = string[i];\n        result[(i * 2) + 3] = 0x00;\n    }'), rx='^u_')
case('strlen-loop', (U, fn(U, 'ID3v2_strlen'), '''int ID3v2_strlen(const char* string)
{
    int length = 0;

    if (string_has_bom(string))
    {
        while (string[length] != 0 || string[length + 1] != 0)
        {
            length += 2;
        }
        return length;
    }

    while (string[length] != 0) length++;

    return length;
}
'''), rx='^u_')
case('strlen-for-ptr', (U, fn(U, 'ID3v2_strlen'), '''static int utf16_length(const char* string)
{
    const char* p = string;
    for (; !(p[0] == 0x00 && p[1] == 0x00); p += 2);
    return (int) (p - string);
}

int ID3v2_strlen(const char* string)
{
    return string_has_bom(string) ? utf16_length(string) : (int) strlen(string);
}
'''), rx='^u_')
case('btoi-mul', (U, '        result = result << 8;\n        result = result | (unsigned char) bytes[i];', '        result = result * 256 + (unsigned char) bytes[i];'))
case('itob-shift', (U, fn(U, 'itob'), '''char* itob(int integer)
{
    const unsigned int value = (unsigned int) integer;
    char* result = (char*) malloc(4);

    result[0] = (value >> 24) & 0xFF;
    result[1] = (value >> 16) & 0xFF;
    result[2] = (value >> 8) & 0xFF;
    result[3] = value & 0xFF;

    return result;
}
'''))
case('sync-plain', (U, fn(U, 'syncint_encode'), '''int syncint_encode(int value)
{
    const unsigned int v = (unsigned int) value;
    return ((v & 0xFE00000) << 3) | ((v & 0x1FC000) << 2) | ((v & 0x3F80) << 1) | (v & 0x7F);
}
'''), (U, fn(U, 'syncint_decode'), '''unsigned int syncint_decode(int value)
{
    unsigned int result = 0;

    for (int i = 3; i >= 0; i--)
    {
        result = (result << 7) | ((value >> (8 * i)) & 0xFF);
    }

    return result;
}
'''), rx='read|write|load|size')
case('sync-arith', (U, fn(U, 'syncint_decode'), '''unsigned int syncint_decode(int value)
{
    const unsigned int v = (unsigned int) value;
    return (v & 0xFF) | ((v >> 8 & 0xFF) * 128) | ((v >> 16 & 0xFF) * 128 * 128) | ((v >> 24) << 21);
}
'''), rx='read|write|load|size')
case('sync-encode-loop', (U, fn(U, 'syncint_encode'), '''int syncint_encode(int value)
{
    unsigned int out = 0;

    for (int i = 0; i < 4; i++)
    {
        out |= ((unsigned int) (value >> (7 * i)) & 0x7F) << (8 * i);
    }

    return out;
}
'''), rx='write|set_tag')
case('cs-write-loop', (CS, '    memcpy(CharStream_get_cur(cs), data, size);\n    cs->cursor += size;', '    for (int i = 0; i < size; i++)\n    {\n        cs->stream[cs->cursor + i] = data[i];\n    }\n\n    cs->cursor += size;'), rx='write|set_tag|c_set|load')
case('cs-read-loop', (CS, '    memcpy(dest, CharStream_get_cur(cs), final_size);\n    cs->cursor += final_size;\n', '    for (int i = 0; i < final_size; i++)\n    {\n        dest[i] = cs->stream[cs->cursor++];\n    }\n\n'))
case('cs-seek-if', (CS, fn(CS, 'CharStream_seek'), '''void CharStream_seek(CharStream* cs, const int offset, const int whence)
{
    int base = cs->size;

    if (whence == SEEK_SET) base = 0;
    else if (whence == SEEK_CUR) base = cs->cursor;

    const int target = base + offset;

    if (target < 0) cs->cursor = 0;
    else if (target > cs->size) cs->cursor = cs->size;
    else cs->cursor = target;
}
'''))
case('cs-from-buffer', (CS, fn(CS, 'CharStream_from_buffer'), '''CharStream* CharStream_from_buffer(const char* buffer, const int size)
{
    CharStream* cs = CharStream_new(size);
    memcpy(cs->stream, buffer, size);
    return cs;
}
'''))
case('cs-readstring', (CS, fn(CS, 'CharStream_read_string'), '''char* CharStream_read_string(CharStream* cs)
{
    const int available = cs->size - cs->cursor;
    char* result = (char*) malloc(available + 3);
    memcpy(result, cs->stream + cs->cursor, available);
    memset(result + available, 0, 3);
    const int length = ID3v2_strlent(result);
    cs->cursor = length < available ? cs->cursor + length : cs->size;
    return result;
}
'''))
case('list-add-pp', (FL, fn(FL, 'FrameList_add_frame'), '''void FrameList_add_frame(ID3v2_FrameList* list, ID3v2_Frame* frame)
{
    if (list->start == NULL)
    {
        list->frame = frame;
        list->start = list;
        return;
    }

    ID3v2_FrameList** link = &list->next;
    while (*link != NULL) link = &(*link)->next;

    ID3v2_FrameList* node = FrameList_new();
    node->start = list->start;
    node->frame = frame;
    *link = node;
}
'''))
case('list-helper', (FL, '/**\n * Returns the first frame matching frame_id\n */', '''static int has_id(const ID3v2_FrameList* node, const char* frame_id)
{
    return memcmp(node->frame->header->id, frame_id, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
}

/**
 * Returns the first frame matching frame_id
 */'''), (FL, 'strncmp(list->frame->header->id, frame_id, 4) == 0', 'has_id(list, frame_id)'))
case('list-for', (FL, fn(FL, 'FrameList_get_frame_by_id'), '''ID3v2_Frame* FrameList_get_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
{
    ID3v2_Frame* found = NULL;

    for (ID3v2_FrameList* node = list; node != NULL && node->frame != NULL && found == NULL; node = node->next)
    {
        const char* id = node->frame->header->id;
        if (id[0] == frame_id[0] && id[1] == frame_id[1] && id[2] == frame_id[2] && id[3] == frame_id[3])
        {
            found = node->frame;
        }
    }

    return found;
}
'''))
case('list-remove-by-ptr', (FL, fn(FL, 'FrameList_remove_frame_by_id'), '''ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
{
    ID3v2_Frame* found = FrameList_get_frame_by_id(list, frame_id);
    return found == NULL ? NULL : FrameList_remove_frame(list, found);
}
'''))
case('list-remove-node', (FL, '''    // The first node is the list itself, so it has to stay in place
    ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
    *list = *new_head_old_ptr;
    free(new_head_old_ptr);''', '''    ID3v2_FrameList* second = list->next;

    if (second == NULL)
    {
        list->frame = NULL;
        list->start = NULL;
        return;
    }

    list->frame = second->frame;
    list->next = second->next;
    list->start = second->start;
    free(second);'''), rx='delete')
SET = '''    if (existing_frame == NULL)
    {
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
    else
    {
        FrameList_replace_frame(
            tag->frames,
            (ID3v2_Frame*) existing_frame,
            (ID3v2_Frame*) new_frame
        );
        tag->header->tag_size += (new_frame->header->size - existing_frame->header->size);
        ID3v2_Frame_free((ID3v2_Frame*) existing_frame);
    }
'''
case('setter-helper', (TG, '/**\n * Setter functions\n */', '''static void set_or_add(ID3v2_Tag* tag, ID3v2_Frame* existing, ID3v2_Frame* frame)
{
    int growth = frame->header->size;

    if (existing != NULL)
    {
        growth -= existing->header->size;
        FrameList_replace_frame(tag->frames, existing, frame);
        ID3v2_Frame_free(existing);
    }
    else
    {
        growth += ID3v2_FRAME_HEADER_LENGTH;
        FrameList_add_frame(tag->frames, frame);
    }

    tag->header->tag_size += growth;
}

/**
 * Setter functions
 */'''), (TG, SET, '    set_or_add(tag, (ID3v2_Frame*) existing_frame, (ID3v2_Frame*) new_frame);\n'), rx='set|add')
case('parse-sum-after', (TG, '        frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;\n    }\n', '''    }

    for (ID3v2_FrameList* node = tag->frames; node != NULL && node->frame != NULL; node = node->next)
    {
        frames_size += node->frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
'''), rx='read|load')
case('parse-for', (TG, '''    ID3v2_Frame* current_frame;
    while (tag_cs->cursor < tag_cs->size)
    {
        current_frame = Frame_parse(tag_cs, tag->header->major_version);
        if (current_frame == NULL) break;
        FrameList_add_frame(tag->frames, current_frame);
        frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
''', '''    ID3v2_Frame* current_frame = NULL;
    do
    {
        current_frame = Frame_parse(tag_cs, header->major_version);
        if (current_frame != NULL)
        {
            FrameList_add_frame(tag->frames, current_frame);
            frames_size += ID3v2_FRAME_HEADER_LENGTH + current_frame->header->size;
        }
    } while (current_frame != NULL);
'''), rx='read|load')
COPY = '''static void copy_rest(FILE* from, FILE* to)
{
    for (int c = getc(from); c != EOF; c = getc(from))
    {
        putc(c, to);
    }
}

void ID3v2_write_tag('''
W1 = '''    int c = 0;

    while ((c = getc(dest_fp)) != EOF)
    {
        putc(c, temp_fp);
    }
'''
W2 = '''    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, dest_fp);
    }
'''
D1 = '''    int c = 0;

    while ((c = getc(file_fp)) != EOF)
    {
        putc(c, temp_fp);
    }
'''
D2 = '''    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, file_fp);
    }
'''
FX = 'write|delete_tag|c_set_tag|c_remove'
case('copy-helper', (L, 'void ID3v2_write_tag(', COPY), (L, W1, '    copy_rest(dest_fp, temp_fp);\n'), (L, W2, '    copy_rest(temp_fp, dest_fp);\n'),
     (L, D1, '    copy_rest(file_fp, temp_fp);\n'), (L, D2, '    copy_rest(temp_fp, file_fp);\n'), rx=FX)
BLK = '''static void copy_rest(FILE* from, FILE* to)
{
    char block[4096];
    size_t n;

    while ((n = fread(block, 1, sizeof(block), from)) > 0)
    {
        fwrite(block, 1, n, to);
    }
}

void ID3v2_write_tag('''
case('copy-block', (L, 'void ID3v2_write_tag(', BLK), (L, W1, '    copy_rest(dest_fp, temp_fp);\n'), (L, W2, '    copy_rest(temp_fp, dest_fp);\n'),
     (L, D1, '    copy_rest(file_fp, temp_fp);\n'), (L, D2, '    copy_rest(temp_fp, file_fp);\n'), rx=FX)
STG = '''static bool copy_rest(FILE* from, FILE* to)
{
    char block[4096];
    size_t n;

    do
    {
        n = fread(block, sizeof(char), sizeof(block), from);
        if (n > 0 && fwrite(block, sizeof(char), n, to) != n) return false;
    } while (n == sizeof(block));

    return !ferror(from);
}

void ID3v2_write_tag('''
case('copy-block-checked', (L, 'void ID3v2_write_tag(', STG), (L, W1, '    const bool copied = copy_rest(dest_fp, temp_fp);\n'), (L, '!ferror(dest_fp) && !ferror(temp_fp)', 'copied && !ferror(temp_fp)'),
     (L, W2, '    copy_rest(temp_fp, dest_fp);\n'), rx=FX)
case('write-order', (L, '''    const int original_size =
        existing_tag_header != NULL ? get_tag_length(existing_tag_header) : 0;
    free(existing_tag_header);
''', '''    int original_size = 0;

    if (existing_tag_header != NULL)
    {
        original_size = get_tag_length(existing_tag_header);
        ID3v2_TagHeader_free(existing_tag_header);
    }
'''), (L, '''    // Perform operations on a temp file in case things go wrong
    FILE* temp_fp = tmpfile();

    if (temp_fp == NULL) return;

    FILE* dest_fp = fopen(file_name, "r+b");

    if (dest_fp == NULL)
    {
        fclose(temp_fp);
        return;
    }
''', '''    FILE* dest_fp = fopen(file_name, "rb");
    if (dest_fp == NULL) return;

    FILE* temp_fp = tmpfile();

    if (temp_fp == NULL)
    {
        fclose(dest_fp);
        return;
    }
'''), rx=FX)
case('write-clamp', (L, '''    const int extra_padding_length = clamp_int(
        ID3v2_TAG_DEFAULT_PADDING_LENGTH - tag->padding_size,
        0,
        ID3v2_TAG_DEFAULT_PADDING_LENGTH
    );''', '''    int extra_padding_length = 0;

    if (tag->padding_size < ID3v2_TAG_DEFAULT_PADDING_LENGTH)
    {
        extra_padding_length = ID3v2_TAG_DEFAULT_PADDING_LENGTH - tag->padding_size;
    }'''), rx=FX)
case('delete-goto', (L, fn(L, 'ID3v2_delete_tag'), '''void ID3v2_delete_tag(const char* file_name)
{
    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header(file_name);
    FILE* in = NULL;
    FILE* temp = NULL;
    FILE* out = NULL;
    int c;

    if (tag_header == NULL) goto end;

    in = fopen(file_name, "rb");
    if (in == NULL) goto end;

    temp = tmpfile();
    if (temp == NULL) goto end;

    fseek(in, get_tag_length(tag_header), SEEK_SET);

    for (c = fgetc(in); c != EOF; c = fgetc(in)) fputc(c, temp);

    if (ferror(in) || ferror(temp) || fflush(temp) != 0) goto end;

    fclose(in);
    in = NULL;
    out = fopen(file_name, "wb");
    if (out == NULL) goto end;

    rewind(temp);

    for (c = fgetc(temp); c != EOF; c = fgetc(temp)) fputc(c, out);

end:
    if (out != NULL) fclose(out);
    if (temp != NULL) fclose(temp);
    if (in != NULL) fclose(in);
    if (tag_header != NULL) ID3v2_TagHeader_free(tag_header);
}
'''), rx=FX)
case('compat-sync', (K, 'void tag_set_title(', '''static void present(ID3v2_tag* tag, const char* frame_id)
{
    ID3v2_Frame* frame = ID3v2_Tag_get_frame(tag->tag, frame_id);
    add_uniq_to_list(tag->frames, frame_to_compat_frame(frame));
}

void tag_set_title('''), *[(K, f'''
    ID3v2_Frame* {n}_frame = (ID3v2_Frame*) ID3v2_Tag_get_{n}_frame(tag->tag);
    ID3v2_frame* compat_frame = frame_to_compat_frame({n}_frame);

    add_uniq_to_list(tag->frames, compat_frame);
''', f'    present(tag, ID3v2_{n.upper()}_FRAME_ID);\n') for n in ('title', 'artist', 'album', 'genre', 'track', 'year', 'comment', 'composer', 'album_cover')],
  (K, '#include "modules/frame_list.private.h"', '#include "modules/frame_ids.h"\n#include "modules/frame_list.private.h"'), rx='^c_')
case('compat-frame', (K, '''    CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only the payload is used
    CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_LENGTH, SEEK_SET);
    compat_frame->data = (char*) malloc(compat_frame->size * sizeof(char));
    CharStream_read(frame_cs, compat_frame->data, compat_frame->size);
''', '''    CharStream* frame_cs = Frame_to_char_stream(frame, 3);
    compat_frame->data = (char*) malloc(compat_frame->size);
    memcpy(compat_frame->data, frame_cs->stream + ID3v2_FRAME_HEADER_LENGTH, compat_frame->size);
'''), rx='^c_|load')
case('compat-load', (K, '''    // Frames
    ID3v2_FrameList* head = tag->frames;
    ID3v2_frame_list* compat_frames = new_frame_list();

    while (head != NULL && head->frame != NULL)
    {
        ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
        add_to_list(compat_frames, compat_frame);
        head = head->next;
    }

    compat_tag->frames = compat_frames;
''', '''    // Frames
    compat_tag->frames = new_frame_list();

    for (ID3v2_FrameList* node = tag->frames; node != NULL; node = node->next)
    {
        if (node->frame == NULL) break;
        add_to_list(compat_tag->frames, frame_to_compat_frame(node->frame));
    }
'''), (K, fn(K, 'load_tag'), '''ID3v2_tag* load_tag(const char* file_name)
{
    ID3v2_tag* tag = NULL;
    ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);

    if (header != NULL)
    {
        FILE* fp = fopen(file_name, "rb");

        if (fp != NULL)
        {
            const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
            char* buffer = (char*) calloc(buffer_size, sizeof(char));
            tag = load_tag_with_buffer(buffer, (int) fread(buffer, 1, buffer_size, fp));
            free(buffer);
            fclose(fp);
        }

        ID3v2_TagHeader_free(header);
    }

    return tag;
}
'''), rx='load')
case('read-tag-one-open', (L, fn(L, 'ID3v2_read_tag'), '''ID3v2_Tag* ID3v2_read_tag(const char* file_name)
{
    FILE* file = fopen(file_name, "rb");
    if (file == NULL) return NULL;

    ID3v2_Tag* tag = NULL;
    char start[ID3v2_TAG_HEADER_LENGTH];

    if (fread(start, 1, sizeof(start), file) == sizeof(start))
    {
        ID3v2_TagHeader* header = ID3v2_read_tag_header_from_buffer(start);

        if (header != NULL)
        {
            const int length = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
            char* buffer = (char*) malloc(length);

            if (buffer != NULL)
            {
                fseek(file, 0, SEEK_SET);
                const int available = fread(buffer, 1, length, file);
                tag = ID3v2_read_tag_from_buffer(buffer, available);
                free(buffer);
            }

            ID3v2_TagHeader_free(header);
        }
    }

    fclose(file);
    return tag;
}
'''), rx='read_file')
case('header-switch', (TH, '''    if (major_version != 3 && major_version != 4)
    {
        // No supported id3 tag found
        return NULL;
    }
''', '''    switch (major_version)
    {
        case 3:
        case 4:
            break;
        default:
            return NULL;
    }
'''), (TH, '''    bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
    if (!has_id3v2_tag) return NULL;
''', '''    const char* start = header_cs->stream;
    if (start[0] != 'I' || start[1] != 'D' || start[2] != '3') return NULL;
'''), (TH, '    if ((flags & (1 << 6)) == (1 << 6))', '    if (flags & 0x40)'), rx='read|load|write_tag:empty|delete_tag')
case('header-index', (TH, '''    char id[ID3v2_TAG_HEADER_IDENTIFIER_LENGTH];
    CharStream_read(header_cs, id, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);

    const int major_version = CharStream_getc(header_cs);
    const int minor_version = CharStream_getc(header_cs);
''', '''    const int major_version = header_cs->stream[3];
    const int minor_version = header_cs->stream[4];
    CharStream_seek(header_cs, 5, SEEK_SET);
'''), (TH, '''    char raw_size[ID3v2_TAG_HEADER_TAG_SIZE_LENGTH];
    CharStream_read(header_cs, raw_size, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
    const int tag_size = syncint_decode(btoi(raw_size, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH));
''', '''    const int tag_size =
        syncint_decode(btoi(CharStream_slice(header_cs, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH), 4));
'''), rx='read|load|write_tag:empty|delete_tag')
case('frame-header-ptr', (FH, '''    // There's no room left for another frame
    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;

    char id[ID3v2_FRAME_HEADER_ID_LENGTH];
    CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
''', '''    const int remaining = header_cs->size - header_cs->cursor;
    if (remaining < ID3v2_FRAME_HEADER_LENGTH) return NULL;

    const char* start = CharStream_get_cur(header_cs);
    const char* id = start;
    CharStream_seek(header_cs, ID3v2_FRAME_HEADER_ID_LENGTH, SEEK_CUR);
'''), (FH, '''    char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
    CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);

    if (size < 0 || size > header_cs->size - header_cs->cursor)
''', '''    const char* flags = start + 8;
    CharStream_slice(header_cs, ID3v2_FRAME_HEADER_FLAGS_LENGTH);

    if (size < 0 || size > remaining - ID3v2_FRAME_HEADER_LENGTH)
'''), rx='read|load')
case('frame-header-peek', (FH, '''    char id[ID3v2_FRAME_HEADER_ID_LENGTH];
    CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);

    // If the id is 0000, that means we already reached the end and we're inside the padding
    if (memcmp(id, "\\0\\0\\0\\0", ID3v2_FRAME_HEADER_ID_LENGTH) == 0)
    {
        // Rewind the char stream and return NULL
        CharStream_seek(header_cs, -ID3v2_FRAME_HEADER_ID_LENGTH, SEEK_CUR);
        return NULL;
    }
''', '''    // Inside the padding there are no frames
    bool is_padding = true;

    for (int i = 0; i < ID3v2_FRAME_HEADER_ID_LENGTH; i++)
    {
        if (CharStream_get_cur(header_cs)[i] != 0)
        {
            is_padding = false;
            break;
        }
    }

    if (is_padding) return NULL;

    char id[ID3v2_FRAME_HEADER_ID_LENGTH];
    CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
'''), rx='read|load')
case('frame-header-write', (FH, '''    CharStream_write(header_cs, (const char*) &header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
''', '''    CharStream_write(header_cs, &header->flags[0], 1);
    CharStream_write(header_cs, &header->flags[1], 1);
'''), rx='write|load|c_set')
DUP = '''static char* duplicate(const char* bytes, const int size)
{
    char* copy = (char*) malloc(size);
    if (copy != NULL) memcpy(copy, bytes, size);
    return copy;
}

'''
case('text-strlent', (TX, '''    const int str_termination_size = encoding == ID3v2_ENCODING_ISO ? 1 : 2;
    const int size = ID3v2_strlen(text) + str_termination_size;
''', '''    const int size = ID3v2_strlent(text);
'''), rx='set|read|load')
case('text-dup', (TX, 'ID3v2_TextFrame* TextFrame_new(', DUP + 'ID3v2_TextFrame* TextFrame_new('), (TX, '''    data->text = (char*) malloc(size * sizeof(char));

    data->encoding = encoding;
    data->size = size;
    memcpy(data->text, text, size);
''', '''    data->text = duplicate(text, size);
    data->size = size;
    data->encoding = encoding;
'''), rx='set|read|load')
case('comment-dup', (CM, 'ID3v2_CommentFrame* CommentFrame_new(', DUP + 'ID3v2_CommentFrame* CommentFrame_new('), (CM, '''    data->comment = (char*) malloc(comment_size * sizeof(char));
    memcpy(data->comment, comment, comment_size);

    data->short_description = (char*) malloc(short_desc_size * sizeof(char));
    memcpy(data->short_description, short_desc, short_desc_size);
''', '''    data->short_description = duplicate(short_desc, short_desc_size);
    data->comment = duplicate(comment, comment_size);
'''), rx='comment|read|load')
case('comment-payload', (CM, '''    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
    CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
''', '''    CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
'''), (CM, '''    CharStream_write(
        frame_cs,
        frame->data->short_description,
        ID3v2_strlent(frame->data->short_description)
    );
''', '''    const int used = ID3v2_FRAME_ENCODING_LENGTH + ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
    CharStream_write(
        frame_cs,
        frame->data->short_description,
        frame->header->size - used - frame->data->size
    );
'''), rx='write|c_|load')
case('apic-helper', (AP, 'ID3v2_ApicFrame* ApicFrame_new(', DUP + 'ID3v2_ApicFrame* ApicFrame_new('), (AP, '''    data->description = (char*) malloc(desc_size * sizeof(char));
    memcpy(data->description, description, desc_size);
''', '''    data->description = duplicate(description, desc_size);
'''), (AP, '''    data->mime_type = (char*) malloc(mime_type_size * sizeof(char));
    memcpy(data->mime_type, mime_type, mime_type_size);
''', '''    data->mime_type = duplicate(mime_type, mime_type_size);
'''), (AP, '''    data->data = (char*) malloc(picture_size * sizeof(char));
    memcpy(data->data, picture_data, picture_size);
''', '''    data->data = duplicate(picture_data, picture_size);
'''), rx='apic|cover|read|load')
case('apic-calloc', (AP, '''    data->data = (char*) malloc(picture_size * sizeof(char));
    memcpy(data->data, picture_data, picture_size);
''', '''    data->data = (char*) calloc(picture_size > 0 ? picture_size : 1, sizeof(char));
    for (int i = 0; i < picture_size; i++) data->data[i] = picture_data[i];
'''), rx='apic|cover|read|load')
case('frame-kinds', (FR, 'ID3v2_Frame* Frame_parse(', '''typedef enum { KIND_TEXT, KIND_COMMENT, KIND_APIC, KIND_OTHER } FrameKind;

static FrameKind kind_of(ID3v2_FrameHeader* header)
{
    if (FrameHeader_isTextFrame(header)) return KIND_TEXT;
    if (FrameHeader_isCommentFrame(header)) return KIND_COMMENT;
    if (FrameHeader_isApicFrame(header)) return KIND_APIC;
    return KIND_OTHER;
}

ID3v2_Frame* Frame_parse('''), (FR, fn(FR, 'ID3v2_Frame_free'), '''void ID3v2_Frame_free(ID3v2_Frame* frame)
{
    if (frame == NULL) return;

    switch (kind_of(frame->header))
    {
        case KIND_TEXT:
            TextFrame_free((ID3v2_TextFrame*) frame);
            break;
        case KIND_COMMENT:
            CommentFrame_free((ID3v2_CommentFrame*) frame);
            break;
        case KIND_APIC:
            ApicFrame_free((ID3v2_ApicFrame*) frame);
            break;
        case KIND_OTHER:
            free(frame->data);
            FrameHeader_free(frame->header);
            free(frame);
            break;
    }
}
'''))
case('frame-table', (FR, 'ID3v2_Frame* Frame_parse(', '''typedef ID3v2_Frame* (*FrameParser)(CharStream*, int);

static ID3v2_Frame* parse_text(CharStream* cs, int version) { return (ID3v2_Frame*) TextFrame_parse(cs, version); }
static ID3v2_Frame* parse_comment(CharStream* cs, int version) { return (ID3v2_Frame*) CommentFrame_parse(cs, version); }
static ID3v2_Frame* parse_apic(CharStream* cs, int version) { return (ID3v2_Frame*) ApicFrame_parse(cs, version); }

ID3v2_Frame* Frame_parse('''), (FR, '''    if (FrameHeader_isTextFrame(header))
    {
        // Rewind the stream back so the frame can correctly parse the header
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header); // we don't need it, the frame will parse its own header
        return (ID3v2_Frame*) TextFrame_parse(frame_cs, id3_major_version);
    }
    else if (FrameHeader_isCommentFrame(header))
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return (ID3v2_Frame*) CommentFrame_parse(frame_cs, id3_major_version);
    }
    else if (FrameHeader_isApicFrame(header))
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return (ID3v2_Frame*) ApicFrame_parse(frame_cs, id3_major_version);
    }
''', '''    FrameParser parser = NULL;

    if (FrameHeader_isTextFrame(header)) parser = parse_text;
    else if (FrameHeader_isCommentFrame(header)) parser = parse_comment;
    else if (FrameHeader_isApicFrame(header)) parser = parse_apic;

    if (parser != NULL)
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return parser(frame_cs, id3_major_version);
    }
'''), rx='read|load')
case('delete-helper', (TG, 'void ID3v2_Tag_delete_comment_frame(', '''static void delete_nth(ID3v2_Tag* tag, ID3v2_FrameList* frames, int index)
{
    for (ID3v2_FrameList* node = frames; node != NULL && node->frame != NULL; node = node->next)
    {
        if (index-- != 0) continue;

        ID3v2_Frame* frame = FrameList_remove_frame(tag->frames, node->frame);
        tag->header->tag_size -= frame->header->size;
        tag->header->tag_size -= ID3v2_FRAME_HEADER_LENGTH;
        ID3v2_Frame_free(frame);
        break;
    }

    ID3v2_FrameList_unlink(frames);
}

void ID3v2_Tag_delete_comment_frame('''), (TG, fn(TG, 'ID3v2_Tag_delete_comment_frame').split('{\n', 1)[1], '    delete_nth(tag, ID3v2_Tag_get_comment_frames(tag), index);\n}\n'),
  (TG, fn(TG, 'ID3v2_Tag_delete_apic_frame').split('{\n', 1)[1], '    delete_nth(tag, ID3v2_Tag_get_apic_frames(tag), index);\n}\n'), rx='delete')
case('delete-count', (TG, fn(TG, 'ID3v2_Tag_delete_comment_frame'), '''void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
{
    int seen = 0;

    for (ID3v2_FrameList* node = tag->frames; node != NULL && node->frame != NULL; node = node->next)
    {
        if (!FrameHeader_isCommentFrame(node->frame->header)) continue;
        if (seen++ < index) continue;
        if (index < 0) return;

        ID3v2_Frame* frame = node->frame;
        FrameList_remove_frame(tag->frames, frame);
        tag->header->tag_size -= frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
        ID3v2_Frame_free(frame);
        return;
    }
}
'''), rx='delete')
case('encode-for', (TG, '''    if (frames->frame == NULL)
    {
        // The tag doesn't have any frames
        return tag_cs;
    }

    while (frames != NULL)
    {
        CharStream* frame_cs = Frame_to_char_stream(frames->frame, tag->header->major_version);

        if (frame_cs == NULL) break;

        CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
        CharStream_free(frame_cs);

        frames = frames->next;
    }
''', '''    for (; frames != NULL && frames->frame != NULL; frames = frames->next)
    {
        CharStream* frame_cs = Frame_to_char_stream(frames->frame, tag->header->major_version);
        CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
        CharStream_free(frame_cs);
    }
'''), rx='write|set_tag')
