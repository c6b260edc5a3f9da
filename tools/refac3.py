"""Third battery of behaviour-preserving edits (see refac.py, sweep.py): other ways of writing."""
S = 'src/modules/'
U, CS, FL, FR, FH, T, TH = (S + x + '.c' for x in ('utils', 'char_stream', 'frame_list', 'frame', 'frame_header', 'tag', 'tag_header'))
TX, CM, AP = (S + 'frames/' + x + '_frame.c' for x in ('text', 'comment', 'apic'))
L, C = 'src/id3v2lib.c', 'src/id3v2lib.compat.c'
CASES = []
def case(name, *edits, rx=None):
    CASES.append((name, list(edits), rx))

RD = r'^(read_buffer:v[34]-(any|raw-raw-raw|ext)|read_buffer:other|read_header|tag_free|list_free|write_tag:(text-raw|apic)$|load_buffer:neg)'
ED = r'^(set_(text|title|comment|comment_frame|apic_frame|album_cover)|add_.*|delete_(frame|title|comment|comment_frame|apic_frame)|get_.*|tag_.*|list_.*|c_set_(title|comment|album_cover_from_bytes|cover_file)|read_buffer:v3-raw-raw-raw)$'
WR = r'^(write_tag:(null|empty|text-raw|apic|raw-over|three)|delete_tag|c_set_tag:raw|c_remove_tag|read_file:other|read_file:v3-raw-raw-raw|read_header)$'

case('r3-struct-literal', (FL, '''    if (list != NULL)
    {
        list->frame = NULL;
        list->next = NULL;
        list->start = NULL;
    }
''', '''    if (list != NULL) *list = (ID3v2_FrameList){.frame = NULL, .start = NULL, .next = NULL};
'''), rx=ED)
case('r3-header-literal', (TH, '''        memcpy(tag_header->identifier, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
        tag_header->major_version = major_version;
        tag_header->minor_version = minor_version;
        tag_header->flags = flags;
        tag_header->tag_size = tag_size;
        tag_header->extended_header_size = extended_header_size;
''', '''        *tag_header = (ID3v2_TagHeader){
            .identifier = {'I', 'D', '3'},
            .major_version = major_version,
            .minor_version = minor_version,
            .flags = flags,
            .tag_size = tag_size,
            .extended_header_size = extended_header_size,
        };
'''), rx=RD)
case('r3-frame-header-literal', (FH, '''    ID3v2_FrameHeader* frame_header = (ID3v2_FrameHeader*) malloc(sizeof(ID3v2_FrameHeader));

    memcpy(frame_header->id, id, ID3v2_FRAME_HEADER_ID_LENGTH);
    memcpy(frame_header->flags, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
    frame_header->size = size;
''', '''    ID3v2_FrameHeader* frame_header = (ID3v2_FrameHeader*) malloc(sizeof(ID3v2_FrameHeader));
    ID3v2_FrameHeader value = {.size = size};

    for (int i = 0; i < ID3v2_FRAME_HEADER_ID_LENGTH; i++) value.id[i] = id[i];
    value.flags[0] = flags[0];
    value.flags[1] = flags[1];
    *frame_header = value;
'''), rx=RD + '|' + ED)
case('r3-dispatch-table', (FR, '''ID3v2_Frame* Frame_parse(''', '''typedef enum { KIND_RAW, KIND_TEXT, KIND_COMMENT, KIND_APIC } FrameKind;

static FrameKind Frame_kind(ID3v2_FrameHeader* header)
{
    if (FrameHeader_isTextFrame(header)) return KIND_TEXT;
    if (FrameHeader_isCommentFrame(header)) return KIND_COMMENT;
    return FrameHeader_isApicFrame(header) ? KIND_APIC : KIND_RAW;
}

ID3v2_Frame* Frame_parse('''), (FR, '''    if (FrameHeader_isTextFrame(frame->header))
    {
        TextFrame_free((ID3v2_TextFrame*) frame);
    }
    else if (FrameHeader_isCommentFrame(frame->header))
    {
        CommentFrame_free((ID3v2_CommentFrame*) frame);
    }
    else if (FrameHeader_isApicFrame(frame->header))
    {
        ApicFrame_free((ID3v2_ApicFrame*) frame);
    }
    else
    {
        // Unknown frame id, naively try our best to free it
        free(frame->header);
        free(frame->data);
        free(frame);
    }
''', '''    switch (Frame_kind(frame->header))
    {
        case KIND_TEXT: TextFrame_free((ID3v2_TextFrame*) frame); break;
        case KIND_COMMENT: CommentFrame_free((ID3v2_CommentFrame*) frame); break;
        case KIND_APIC: ApicFrame_free((ID3v2_ApicFrame*) frame); break;
        default:
            free(frame->data);
            FrameHeader_free(frame->header);
            free(frame);
    }
'''), (FR, '''    if (FrameHeader_isTextFrame(frame->header))
    {
        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame, id3_major_version);
    }
    else if (FrameHeader_isCommentFrame(frame->header))
    {
        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame, id3_major_version);
    }
    else if (FrameHeader_isApicFrame(frame->header))
    {
        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame, id3_major_version);
    }
    else
    {''', '''    const FrameKind kind = Frame_kind(frame->header);
    if (kind == KIND_TEXT) return TextFrame_to_char_stream((ID3v2_TextFrame*) frame, id3_major_version);
    if (kind == KIND_COMMENT) return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame, id3_major_version);
    if (kind == KIND_APIC) return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame, id3_major_version);

    {'''), rx=RD + '|' + ED)
case('r3-function-table', (FR, '''ID3v2_Frame* Frame_parse(''', '''typedef ID3v2_Frame* (*ParseFunction)(CharStream*, const int);

static ID3v2_Frame* parse_text(CharStream* cs, const int version) { return (ID3v2_Frame*) TextFrame_parse(cs, version); }
static ID3v2_Frame* parse_comment(CharStream* cs, const int version) { return (ID3v2_Frame*) CommentFrame_parse(cs, version); }
static ID3v2_Frame* parse_apic(CharStream* cs, const int version) { return (ID3v2_Frame*) ApicFrame_parse(cs, version); }

static const struct
{
    bool (*matches)(ID3v2_FrameHeader*);
    ParseFunction parse;
} PARSERS[] = {
    {FrameHeader_isTextFrame, parse_text},
    {FrameHeader_isCommentFrame, parse_comment},
    {FrameHeader_isApicFrame, parse_apic},
};

ID3v2_Frame* Frame_parse('''), (FR, '''    if (FrameHeader_isTextFrame(header))
    {
        // Rewind the stream back so the frame can correctly parse the header
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header); // we don't need it, the frame will parse its own header
        return (ID3v2_Frame*) TextFrame_parse(frame_cs, id3_major_version);
    }
    else if (FrameHeader_isCommentFrame(header))
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return (ID3v2_Frame*) CommentFrame_parse(frame_cs, id3_major_version);
    }
    else if (FrameHeader_isApicFrame(header))
    {
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return (ID3v2_Frame*) ApicFrame_parse(frame_cs, id3_major_version);
    }
''', '''    for (size_t i = 0; i < sizeof(PARSERS) / sizeof(PARSERS[0]); i++)
    {
        if (!PARSERS[i].matches(header)) continue;

        // Rewind the stream back so the frame can correctly parse the header
        CharStream_seek(frame_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
        FrameHeader_free(header);
        return PARSERS[i].parse(frame_cs, id3_major_version);
    }
'''), rx=RD)
case('r3-memmove', (CS, '''    memcpy(CharStream_get_cur(cs), data, size);
    cs->cursor += size;''', '''    memmove(&cs->stream[cs->cursor], data, size);
    cs->cursor = cs->cursor + size;'''), (FR, '''    CharStream_read(frame_cs, frame->data, header->size);
''', '''    memmove(frame->data, CharStream_slice(frame_cs, header->size), header->size);
'''), rx=RD + '|' + WR)
case('r3-fgetc', (L, '''    while ((c = getc(dest_fp)) != EOF)
    {
        putc(c, temp_fp);
    }
''', '''    for (;;)
    {
        c = fgetc(dest_fp);
        if (c == EOF) break;
        fputc(c, temp_fp);
    }
'''), (L, '''    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, dest_fp);
    }

    fclose(temp_fp);
    fclose(dest_fp);
}

void ID3v2_delete_tag''', '''    for (c = fgetc(temp_fp); c != EOF; c = fgetc(temp_fp))
    {
        fputc(c, dest_fp);
    }

    fclose(dest_fp);
    fclose(temp_fp);
}

void ID3v2_delete_tag'''), rx=WR)
case('r3-rewind', (L, '''    fseek(temp_fp, 0L, SEEK_SET);
''', '''    rewind(temp_fp);
'''), rx=WR)
case('r3-fread1', (L, '''    while ((c = getc(dest_fp)) != EOF)
    {
        putc(c, temp_fp);
    }
''', '''    char byte;

    while (fread(&byte, 1, 1, dest_fp) == 1)
    {
        fwrite(&byte, 1, 1, temp_fp);
    }
'''), rx=WR)
case('r3-open-after', (L, '''    // Perform operations on a temp file in case things go wrong
    FILE* temp_fp = tmpfile();

    if (temp_fp == NULL) return;

    FILE* dest_fp = fopen(file_name, "r+b");

    if (dest_fp == NULL)
    {
        fclose(temp_fp);
        return;
    }
''', '''    FILE* dest_fp = fopen(file_name, "r+b");

    if (dest_fp == NULL) return;

    // Perform operations on a temp file in case things go wrong
    FILE* temp_fp = tmpfile();

    if (temp_fp == NULL)
    {
        fclose(dest_fp);
        return;
    }
'''), rx=WR)
case('r3-write-nested', (L, '''    // Finally copy the temp file back into the destination file
    dest_fp = is_staged ? fopen(file_name, "w+b") : NULL;

    if (dest_fp == NULL)
    {
        fclose(temp_fp);
        return;
    }

    fseek(temp_fp, 0L, SEEK_SET);

    while ((c = getc(temp_fp)) != EOF)
    {
        putc(c, dest_fp);
    }

    fclose(temp_fp);
    fclose(dest_fp);
}

void ID3v2_delete_tag''', '''    if (is_staged)
    {
        // Finally copy the temp file back into the destination file
        FILE* const out_fp = fopen(file_name, "wb");

        if (out_fp != NULL)
        {
            fseek(temp_fp, 0L, SEEK_SET);
            while ((c = getc(temp_fp)) != EOF) putc(c, out_fp);
            fclose(out_fp);
        }
    }

    fclose(temp_fp);
}

void ID3v2_delete_tag'''), rx=WR)
case('r3-read-tag-goto', (L, '''    if (tag_buffer == NULL)
    {
        perror("Could not allocate buffer.");
        fclose(file);
        ID3v2_TagHeader_free(tag_header);
        return NULL;
    }

    const int bytes_read = fread(tag_buffer, sizeof(char), buffer_length, file);
    fclose(file);

    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, bytes_read);

    free(tag_buffer);
    ID3v2_TagHeader_free(tag_header);

    return tag;
''', '''    ID3v2_Tag* tag = NULL;

    if (tag_buffer != NULL)
    {
        const size_t bytes_read = fread(tag_buffer, 1, (size_t) buffer_length, file);
        tag = ID3v2_read_tag_from_buffer(tag_buffer, (int) bytes_read);
    }
    else
    {
        perror("Could not allocate buffer.");
    }

    free(tag_buffer);
    fclose(file);
    ID3v2_TagHeader_free(tag_header);

    return tag;
'''), rx=r'^(read_file:(other|v[34]-any|v3-raw-raw-raw)|read_header)')
case('r3-table-setters', (T, '''void ID3v2_Tag_set_artist(ID3v2_Tag* tag, const char* artist)
{
    ID3v2_Tag_set_text_frame(
        tag,
        &(ID3v2_TextFrameInput){
            .id = ID3v2_ARTIST_FRAME_ID,
            .flags = "\\0\\0",
            .text = artist,
        }
    );
}

void ID3v2_Tag_set_album(ID3v2_Tag* tag, const char* album)
{
    ID3v2_Tag_set_text_frame(
        tag,
        &(ID3v2_TextFrameInput){
            .id = ID3v2_ALBUM_FRAME_ID,
            .flags = "\\0\\0",
            .text = album,
        }
    );
}
''', '''typedef enum { FIELD_ARTIST, FIELD_ALBUM } Field;

static void set_field(ID3v2_Tag* tag, const Field field, const char* value)
{
    static const char* const IDS[] = {
        [FIELD_ARTIST] = ID3v2_ARTIST_FRAME_ID,
        [FIELD_ALBUM] = ID3v2_ALBUM_FRAME_ID,
    };
    const char flags[2] = {0, 0};
    ID3v2_TextFrameInput input;

    memset(&input, 0, sizeof(input));
    input.id = IDS[field];
    input.flags = flags;
    input.text = value;
    ID3v2_Tag_set_text_frame(tag, &input);
}

void ID3v2_Tag_set_artist(ID3v2_Tag* tag, const char* artist)
{
    set_field(tag, FIELD_ARTIST, artist);
}

void ID3v2_Tag_set_album(ID3v2_Tag* tag, const char* album)
{
    set_field(tag, FIELD_ALBUM, album);
}
'''), rx='^(c_)?set_(artist|album)$')
case('r3-size-helper', (T, '''ID3v2_Tag* ID3v2_Tag_new_empty()''', '''static int Frame_encoded_size(const ID3v2_Frame* frame)
{
    return frame == NULL ? 0 : ID3v2_FRAME_HEADER_LENGTH + frame->header->size;
}

static void Tag_grow(ID3v2_Tag* tag, const ID3v2_Frame* added, const ID3v2_Frame* removed)
{
    tag->header->tag_size += Frame_encoded_size(added);
    tag->header->tag_size -= Frame_encoded_size(removed);
}

ID3v2_Tag* ID3v2_Tag_new_empty()'''), (T, '''        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
''', '''        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        Tag_grow(tag, (ID3v2_Frame*) new_frame, NULL);
'''), (T, '''        tag->header->tag_size += (new_frame->header->size - existing_frame->header->size);
''', '''        Tag_grow(tag, (ID3v2_Frame*) new_frame, (ID3v2_Frame*) existing_frame);
'''), rx=ED)
case('r3-setter-lookup-first', (T, '''    ID3v2_TextFrame* new_frame = TextFrame_new(input->id, input->flags, input->text);
    ID3v2_TextFrame* existing_frame =
        (ID3v2_TextFrame*) FrameList_get_frame_by_id(tag->frames, input->id);

    if (existing_frame == NULL)
    {
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
    else
    {
''', '''    ID3v2_Frame* existing_frame = FrameList_get_frame_by_id(tag->frames, input->id);
    ID3v2_TextFrame* new_frame = TextFrame_new(input->id, input->flags, input->text);

    if (!existing_frame)
    {
        tag->header->tag_size += ID3v2_FRAME_HEADER_LENGTH + new_frame->header->size;
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
    }
    else
    {
'''), rx=ED)
case('r3-realloc', (CS, '''    const int available = cs->size - cs->cursor;
    char* result = (char*) calloc(available + termination_size, sizeof(char));
    memcpy(result, CharStream_get_cur(cs), available);
''', '''    const int available = cs->size - cs->cursor;
    char* result = (char*) malloc(available + termination_size);
    memcpy(result, cs->stream + cs->cursor, available);
    memset(result + available, 0, termination_size);
'''), rx=RD)
case('r3-read-string-loop', (CS, '''    memcpy(result, CharStream_get_cur(cs), available);
    CharStream_seek(''', '''    for (int i = 0; i < available; i++)
    {
        result[i] = cs->stream[cs->cursor + i];
    }
    CharStream_seek('''), rx=RD)
case('r3-bom-helper', (U, '''    const unsigned char* bytes = (const unsigned char*) string;
    return (bytes[0] == 0xFF && bytes[1] == 0xFE) || (bytes[0] == 0xFE && bytes[1] == 0xFF);
''', '''    const unsigned char first = (unsigned char) string[0];

    if (first != 0xFF && first != 0xFE) return false;

    return (unsigned char) string[1] == (first == 0xFF ? 0xFE : 0xFF);
'''), rx='^u_|' + RD + '|' + ED)
case('r3-bom-memcmp', (U, '''    const unsigned char* bytes = (const unsigned char*) string;
    return (bytes[0] == 0xFF && bytes[1] == 0xFE) || (bytes[0] == 0xFE && bytes[1] == 0xFF);
''', '''    return strncmp(string, "\\xFF\\xFE", 2) == 0 || strncmp(string, "\\xFE\\xFF", 2) == 0;
'''), rx='^u_|' + RD + '|' + ED)
case('r3-strlen-units', (U, '''    char a = -1;
    char b = -1;
    int length = 0;

    while (1)
    {
        a = string[length];
        b = string[length + 1];

        if (a == 0x00 && b == 0x00)
        {
            break;
        }

        length += 2;
    }

    return length;
''', '''    int units = 0;

    while (string[2 * units] != 0 || string[2 * units + 1] != 0)
    {
        units++;
    }

    return units * 2;
'''), rx='^u_')
case('r3-index-loop', (FL, '''        ID3v2_FrameList* last = list;
        while (last->next != NULL)
        {
            last = last->next;
        }

        last->next = current;
''', '''        ID3v2_FrameList* last;
        for (last = list; last->next; last = last->next);

        last->next = current;
'''), rx=ED)
case('r3-lookup-do', (FL, '''    while (list != NULL && list->frame != NULL)
    {
        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
        {
            return list->frame;
        }

        list = list->next;
    }

    return NULL;
''', '''    ID3v2_Frame* found = NULL;

    for (ID3v2_FrameList* node = list; node != NULL && found == NULL; node = node->next)
    {
        if (node->frame == NULL) break;
        if (memcmp(node->frame->header->id, frame_id, sizeof(node->frame->header->id)) == 0) found = node->frame;
    }

    return found;
'''), rx=ED)
case('r3-lookup-recursive', (FL, '''    while (list != NULL && list->frame != NULL)
    {
        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
        {
            return list->frame;
        }

        list = list->next;
    }

    return NULL;
''', '''    if (list == NULL || list->frame == NULL) return NULL;
    if (strncmp(list->frame->header->id, frame_id, 4) == 0) return list->frame;
    return FrameList_get_frame_by_id(list->next, frame_id);
'''), rx=ED)
case('r3-id-compare', (FL, '''/**
 * Returns the first frame matching frame_id
 */''', '''static bool has_id(const ID3v2_Frame* frame, const char* id)
{
    for (int i = 0; i < ID3v2_FRAME_HEADER_ID_LENGTH; i++)
    {
        if (frame->header->id[i] != id[i]) return false;
    }

    return true;
}

/**
 * Returns the first frame matching frame_id
 */'''), (FL, 'if (strncmp(list->frame->header->id, frame_id, 4) == 0)', 'if (has_id(list->frame, frame_id))'), rx=ED)
case('r3-compat-cover', (C, '''    const char* extension = strrchr(filename, '.');
    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
                                                                       : ID3v2_MIME_TYPE_JPG;
''', '''    const size_t name_length = strlen(filename);
    mimetype = ID3v2_MIME_TYPE_JPG;
    if (name_length >= 4 && strcmp(filename + name_length - 4, ".png") == 0) mimetype = ID3v2_MIME_TYPE_PNG;
'''), rx='c_set_cover')
case('r3-compat-cover2', (C, '''    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
                                                                       : ID3v2_MIME_TYPE_JPG;
''', '''    const bool is_png = extension && !strcmp(extension, ".png");
    mimetype = is_png ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
'''), (C, '''    fseek(album_cover, 0, SEEK_SET);

    album_cover_bytes =''', '''    rewind(album_cover);

    album_cover_bytes ='''), rx='c_set_cover')
case('r3-compat-loop', (C, '''    while (head != NULL && head->frame != NULL)
    {
        ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
        add_to_list(compat_frames, compat_frame);
        head = head->next;
    }
''', '''    for (; head != NULL; head = head->next)
    {
        if (head->frame == NULL) break;
        add_to_list(compat_frames, frame_to_compat_frame(head->frame));
    }
'''), rx=r'^load_(buffer:v3-(raw-raw-raw|any)|tag:other)')
case('r3-version-array', (TH, '''    if (major_version != 3 && major_version != 4)
    {''', '''    static const int SUPPORTED[] = {3, 4};
    bool is_supported = false;

    for (unsigned i = 0; i < sizeof(SUPPORTED) / sizeof(*SUPPORTED); i++)
    {
        is_supported = is_supported || SUPPORTED[i] == major_version;
    }

    if (!is_supported)
    {'''), rx=RD)
case('r3-id-chars', (TH, '''    bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
    if (!has_id3v2_tag) return NULL;
''', '''    const char* const start = header_cs->stream;
    if (start[0] != 'I' || start[1] != 'D' || start[2] != '3') return NULL;
'''), rx=RD)
case('r3-size-struct', (FH, '''    int size = btoi(
        CharStream_slice(header_cs, ID3v2_FRAME_HEADER_SIZE_LENGTH),
        ID3v2_FRAME_HEADER_SIZE_LENGTH
    );

    if (id3_major_version == 4)
    {
        size = syncint_decode(size);
    }
''', '''    const unsigned char* raw_size =
        (const unsigned char*) CharStream_slice(header_cs, ID3v2_FRAME_HEADER_SIZE_LENGTH);
    const int bits = id3_major_version == 4 ? 7 : 8;
    const int size = (int) (((unsigned) raw_size[0] << (3 * bits)) | ((unsigned) raw_size[1] << (2 * bits)) |
                            ((unsigned) raw_size[2] << bits) | raw_size[3]);
'''), rx=RD)
case('r3-write-stack', (FH, '''    char* size_bytes = itob(id3_major_version == 4 ? syncint_encode(header->size) : header->size);
    CharStream_write(header_cs, size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
    free(size_bytes);
''', '''    const unsigned value = id3_major_version == 4 ? syncint_encode(header->size) : header->size;
    const char size_bytes[] = {(char) (value >> 24), (char) (value >> 16), (char) (value >> 8), (char) value};
    CharStream_write(header_cs, size_bytes, sizeof(size_bytes));
'''), rx=WR + '|' + ED)
case('r3-apic-cursor', (AP, '''    const int description_size = ID3v2_strlent(description);''', '''    const int description_size = ID3v2_strlen(description) + (string_has_bom(description) ? 2 : 1);'''), rx=RD + '|' + ED)
