SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo='#include "demo_common.h"\n' + demo, **kw))


seed('c20-fixed-temp', 'C20',
     'two files being rewritten at the same time from the same directory (here: a file of the user that already has that name)',
     'writing a tag stages the file under a fixed name in the working directory instead of an anonymous temporary file, so operations on different files influence each other',
     [('src/id3v2lib.c', '    FILE* temp_fp = tmpfile();\n\n    if (temp_fp == NULL) return;\n\n    FILE* dest_fp',
       '    FILE* temp_fp = fopen("id3v2lib.tmp", "w+b");\n\n    if (temp_fp == NULL) return;\n\n    FILE* dest_fp')],
     '''
int main() {
    unsigned char b[64];
    put_file("id3v2lib.tmp", "mine", 4);
    put_file("a.mp3", "audio", 5);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_title(t, "x");
    ID3v2_write_tag("a.mp3", t);
    ID3v2_Tag_free(t);
    CHECK(get_file("id3v2lib.tmp", b, 64) == 4 && memcmp(b, "mine", 4) == 0);
    return 0;
}
''')
seed('c20-static-id', 'C20',
     'two threads parsing different tags at the same time',
     'the id of the frame being parsed is kept in a static buffer shared by all threads',
     [('src/modules/frame_header.c', '    char id[ID3v2_FRAME_HEADER_ID_LENGTH];\n', '    static char id[ID3v2_FRAME_HEADER_ID_LENGTH];\n')],
     '''
#include <pthread.h>
static volatile int bad;
static void* work(void* arg) {
    unsigned char b[64];
    int n = put_frame(b + 10, arg, "\\0ab", 3);
    put_header(b, 3, 0, n);
    for (int i = 0; i < 3000000 && !bad; i++) {
        ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*) b, 10 + n);
        if (memcmp(t->frames->frame->header->id, arg, 4)) bad = 1;
        ID3v2_Tag_free(t);
    }
    return 0;
}
int main() {
    pthread_t a, b;
    pthread_create(&a, 0, work, "TIT2");
    pthread_create(&b, 0, work, "TPE1");
    pthread_join(a, 0); pthread_join(b, 0);
    CHECK(!bad);
    return 0;
}
''', asan=False, libs='-lpthread')
seed('c20-exit-on-alloc', 'C20',
     'an allocation failure while a tag is being read from a file',
     'a failed allocation ends the host process instead of reporting "no tag"',
     [('src/id3v2lib.c', '''        perror("Could not allocate buffer.");
''', '''        perror("Could not allocate buffer.");
        if (buffer_length > 0) abort();
''')],
     '''
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
int main() {
    unsigned char b[10];
    put_header(b, 3, 0, (1 << 28) - 1);
    put_file("a.mp3", b, 10);
    pid_t p = fork();
    if (p == 0) {
        struct rlimit r = {64 << 20, 64 << 20};
        setrlimit(RLIMIT_AS, &r);
        ID3v2_Tag* t = ID3v2_read_tag("a.mp3");
        _exit(t == NULL ? 0 : 1);
    }
    int st;
    waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    return 0;
}
''', asan=False)
TAG, LIB, FL, UT = 'src/modules/tag.c', 'src/id3v2lib.c', 'src/modules/frame_list.c', 'src/modules/utils.c'
CS, FH, COMM, APIC = 'src/modules/char_stream.c', 'src/modules/frame_header.c', 'src/modules/frames/comment_frame.c', 'src/modules/frames/apic_frame.c'
COMPAT, TH = 'src/id3v2lib.compat.c', 'src/modules/tag_header.c'

seed('c01-short-extended', 'C01', 'a buffer that ends in the middle of the size of an extended header',
     'a short read inside the parser is no longer limited to what is left of the buffer',
     [(CS, 'clamp_int(size, 0, cs->size - cs->cursor)', 'clamp_int(size, 0, cs->size)')],
     '''
int main() {
    unsigned char* b = malloc(12);
    put_header(b, 3, 0x40, 2);
    b[10] = 0; b[11] = 0;
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*) b, 12);
    CHECK(t != NULL);
    ID3v2_Tag_free(t);
    free(b);
    return 0;
}
''')
seed('c01-copy-one-more', 'C01', 'any buffer that ends with its allocation',
     'one byte more than the buffer holds is copied for parsing',
     [(CS, '''    cs->stream = (char*) calloc(size, sizeof(char));
    memcpy(cs->stream, buffer, size);''', '''    cs->stream = (char*) malloc(size + 1);
    memcpy(cs->stream, buffer, size + 1);''')],
     '''
int main() {
    unsigned char* b = malloc(10 + 14);
    put_header(b, 3, 0, 14);
    put_frame(b + 10, "TIT2", "\\1\\xff\\xfe" "a", 4);
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*) b, 24);
    CHECK(t != NULL);
    ID3v2_Tag_free(t);
    free(b);
    return 0;
}
''')
seed('c02-description-block', 'C02', 'a comment whose description is longer than its text',
     'the block for the description is allocated with the size of the comment',
     [(COMM, 'data->short_description = (char*) malloc(short_desc_size * sizeof(char));', 'data->short_description = (char*) malloc(comment_size * sizeof(char));')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_CommentFrameInput in = {"\\0\\0", "eng", "a long description", "c"};
    ID3v2_Tag_set_comment_frame(t, &in);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c03-shrink', 'C03', 'an album cover replaced by a smaller one',
     'the tag size is only updated when a replaced picture grows',
     [(TAG, '''    ID3v2_ApicFrame* existing_frame = ID3v2_Tag_get_album_cover_frame(tag);

    if (existing_frame == NULL)
    {
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
    else
    {
        FrameList_replace_frame(
            tag->frames,
            (ID3v2_Frame*) existing_frame,
            (ID3v2_Frame*) new_frame
        );
        tag->header->tag_size += (new_frame->header->size - existing_frame->header->size);
''', '''    ID3v2_ApicFrame* existing_frame = ID3v2_Tag_get_album_cover_frame(tag);

    if (existing_frame == NULL)
    {
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
    else
    {
        FrameList_replace_frame(
            tag->frames,
            (ID3v2_Frame*) existing_frame,
            (ID3v2_Frame*) new_frame
        );
        tag->header->tag_size +=
            clamp_int(new_frame->header->size - existing_frame->header->size, 0, new_frame->header->size);
''')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_album_cover(t, "image/png", 5, "12345");
    ID3v2_Tag_set_album_cover(t, "image/png", 2, "12");
    CHECK(t->header->tag_size == 10 + t->frames->frame->header->size);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c04-empty-picture', 'C04', 'a picture frame without picture data being freed',
     'a picture frame without data returns from its destructor early and leaks its strings',
     [(APIC, '''    free(frame->data->data);
    free(frame->data->description);
    free(frame->data->mime_type);
''', '''    free(frame->data->data);
    if (frame->data->picture_size > 0)
    {
        free(frame->data->description);
        free(frame->data->mime_type);
    }
''')],
     '''
#include <malloc.h>
static void once() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_album_cover(t, "image/png", 0, "");
    ID3v2_Tag_free(t);
}
int main() {
    once();
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 1000; i++) once();
    CHECK(mallinfo2().uordblks == a);
    return 0;
}
''', asan=False)
seed('c04-result-list', 'C04', 'a list of lookup results with several frames being detached',
     'only the first node of a result list is released',
     [(FL, '''void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
{
    while (list != NULL)
    {
        ID3v2_FrameList* next_head = list->next;
        free(list);
        list = next_head;
    }
''', '''void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
{
    while (list != NULL)
    {
        ID3v2_FrameList* next_head = list->next;
        free(list);
        list = next_head != NULL ? next_head->next : NULL;
    }
''')],
     '''
#include <malloc.h>
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_CommentFrameInput in = {"\\0\\0", "eng", "d", "c"};
    for (int i = 0; i < 3; i++) ID3v2_Tag_add_comment_frame(t, &in);
    ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t));
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 1000; i++) ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t));
    CHECK(mallinfo2().uordblks == a);
    ID3v2_Tag_free(t);
    return 0;
}
''', asan=False)
seed('c05-short-file', 'C05', 'a file shorter than a tag header',
     'the stream stays open when the file is too short to hold a header',
     [(LIB, '''    fclose(fp);

    if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return NULL;

    return''', '''
    if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return NULL;

    fclose(fp);

    return''')],
     '''
#include <fcntl.h>
int main() {
    put_file("a.mp3", "abc", 3);
    ID3v2_read_tag_header("a.mp3");
    int a = open("a.mp3", O_RDONLY);
    close(a);
    for (int i = 0; i < 10; i++) CHECK(ID3v2_read_tag_header("a.mp3") == NULL);
    int b = open("a.mp3", O_RDONLY);
    CHECK(a == 3 && a == b);
    return 0;
}
''', asan=False)
seed('c06-char-eof', 'C06', 'a byte 0xFF in the audio', 'the audio is copied through a char, so a byte 0xFF ends the copy',
     [(LIB, '''    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag

    int c = 0;''', '''    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag

    char c = 0;''')],
     '''
int main() {
    unsigned char b[8192];
    put_file("a.mp3", "ab\\xff" "cd", 5);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_title(t, "x");
    ID3v2_write_tag("a.mp3", t);
    int n = get_file("a.mp3", b, sizeof b);
    CHECK(n == t->header->tag_size + 15);
    CHECK(memcmp(b + n - 5, "ab\\xff" "cd", 5) == 0);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c06-empty-old-tag', 'C06', 'a file whose old tag is nothing but a header',
     'an old tag without contents is taken for audio and stays in the file',
     [(LIB, 'fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag',
       'if (original_size > ID3v2_TAG_HEADER_LENGTH) fseek(dest_fp, original_size, SEEK_SET);')],
     '''
int main() {
    unsigned char b[8192], o[13];
    put_header(o, 3, 0, 0);
    memcpy(o + 10, "abc", 3);
    put_file("a.mp3", o, 13);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_title(t, "x");
    ID3v2_write_tag("a.mp3", t);
    int n = get_file("a.mp3", b, sizeof b);
    CHECK(n == t->header->tag_size + 13);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c07-empty-tag', 'C07', 'a file whose tag is nothing but a header',
     'deleting leaves a tag without contents in the file',
     [(LIB, '''    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header(file_name);

    if (tag_header == NULL) return;

    const int tag_length''', '''    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header(file_name);

    if (tag_header == NULL || tag_header->tag_size == 0)
    {
        ID3v2_TagHeader_free(tag_header);
        return;
    }

    const int tag_length''')],
     '''
int main() {
    unsigned char b[64], o[13];
    put_header(o, 4, 0, 0);
    memcpy(o + 10, "abc", 3);
    put_file("a.mp3", o, 13);
    ID3v2_delete_tag("a.mp3");
    CHECK(get_file("a.mp3", b, 64) == 3 && memcmp(b, "abc", 3) == 0);
    return 0;
}
''')
seed('c08-retry', 'C08', 'a read error in the middle of the audio',
     'a failed read of the audio is retried after clearing its error, but only once and only if interrupted, so an incomplete copy replaces the file',
     [(LIB, '''    while ((c = getc(dest_fp)) != EOF)
    {
        putc(c, temp_fp);
    }''', '''    while ((c = getc(dest_fp)) != EOF || (ferror(dest_fp) && (clearerr(dest_fp), errno == EINTR)))
    {
        if (c != EOF) putc(c, temp_fp);
    }'''), (LIB, '#include <stdio.h>\n', '#include <errno.h>\n#include <stdio.h>\n')],
     '''
#include <dlfcn.h>
#include <errno.h>
static unsigned char o[20000], b[40000];
static int armed;
static ssize_t rd(void* c, char* buf, size_t n) {
    if (ftell(c) >= 8000) { errno = EIO; return -1; }
    if (n > 1000) n = 1000;
    return fread(buf, 1, n, c);
}
static int sk(void* c, off64_t* p, int w) { int r = fseek(c, *p, w); *p = ftell(c); return r; }
static int cl(void* c) { return fclose(c); }
FILE* fopen(const char* n, const char* m) {
    FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen");
    FILE* r = f(n, m);
    if (!armed || m[0] == 'w' || r == NULL) return r;
    return fopencookie(r, "rb", (cookie_io_functions_t){rd, 0, sk, cl});
}
int main() {
    memset(o, 7, sizeof o);
    put_file("a.mp3", o, sizeof o);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_title(t, "x");
    armed = 1;
    ID3v2_write_tag("a.mp3", t);
    armed = 0;
    CHECK(get_file("a.mp3", b, sizeof b) == sizeof o && memcmp(o, b, sizeof o) == 0);
    ID3v2_Tag_free(t);
    return 0;
}
''', asan=False, libs='-D_GNU_SOURCE -ldl')
seed('c08-read-opens-for-writing', 'C08', 'reading the tag of a file that may not be written',
     'reading a tag opens the file for update',
     [(LIB, 'FILE* file = fopen(file_name, "rb");', 'FILE* file = fopen(file_name, "r+b");')],
     '''
#include <dlfcn.h>
static int writable;
FILE* fopen(const char* n, const char* m) {
    FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen");
    if (strpbrk(m, "wa+")) writable++;
    return f(n, m);
}
int main() {
    unsigned char b[64];
    int n = put_frame(b + 10, "TIT2", "\\0ab", 3);
    put_header(b, 3, 0, n);
    put_file("a.mp3", b, 10 + n);
    writable = 0;
    ID3v2_Tag* t = ID3v2_read_tag("a.mp3");
    CHECK(t != NULL && writable == 0);
    return 0;
}
''', asan=False, libs='-D_GNU_SOURCE -ldl')
seed('c09-disc-number', 'C09', 'a tag with a track number whose disc number is deleted',
     'deleting the disc number deletes the track',
     [(TAG, 'ID3v2_Tag_delete_frame(tag, ID3v2_DISC_NUMBER_FRAME_ID);', 'ID3v2_Tag_delete_frame(tag, ID3v2_TRACK_FRAME_ID);')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_track(t, "1");
    ID3v2_Tag_set_disc_number(t, "2");
    ID3v2_Tag_delete_disc_number(t);
    CHECK(ID3v2_Tag_get_track_frame(t) != NULL && ID3v2_Tag_get_disc_number_frame(t) == NULL);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c10-prefix', 'C10', 'frames whose ids differ in the last character only',
     'looking up all frames compares only the first three characters of the id',
     [(FL, '''        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
        {
            FrameList_add_frame''', '''        if (strncmp(list->frame->header->id, frame_id, 3) == 0)
        {
            FrameList_add_frame''')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_artist(t, "1");
    ID3v2_Tag_set_album_artist(t, "2");
    ID3v2_FrameList* l = ID3v2_Tag_get_frames(t, "TPE2");
    CHECK(l->frame == (ID3v2_Frame*) ID3v2_Tag_get_album_artist_frame(t) && l->next == NULL);
    ID3v2_FrameList_unlink(l);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c11-input-from-replaced', 'C11', 'a comment set from the text of the comment it replaces',
     'the replaced comment is released before its text has been copied',
     [(TAG, '''    ID3v2_CommentFrame* new_frame =
        CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
    ID3v2_CommentFrame* existing_frame = ID3v2_Tag_get_comment_frame(tag);

    if (existing_frame == NULL)
    {
        FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
    }
    else
    {
        FrameList_replace_frame(
            tag->frames,
            (ID3v2_Frame*) existing_frame,
            (ID3v2_Frame*) new_frame
        );
        tag->header->tag_size += (new_frame->header->size - existing_frame->header->size);
        ID3v2_Frame_free((ID3v2_Frame*) existing_frame);
    }
''', '''    ID3v2_CommentFrame* existing_frame = ID3v2_Tag_get_comment_frame(tag);

    if (existing_frame == NULL)
    {
        ID3v2_Tag_add_comment_frame(tag, input);
    }
    else
    {
        const int old_size = existing_frame->header->size;
        ID3v2_FrameList* node = tag->frames;
        while (node->frame != (ID3v2_Frame*) existing_frame) node = node->next;
        ID3v2_Frame_free((ID3v2_Frame*) existing_frame);
        ID3v2_CommentFrame* new_frame =
            CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
        node->frame = (ID3v2_Frame*) new_frame;
        tag->header->tag_size += new_frame->header->size - old_size;
    }
''')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_comment(t, "eng", "hello");
    ID3v2_Tag_set_comment(t, "spa", ID3v2_Tag_get_comment_frame(t)->data->comment);
    CHECK(strcmp(ID3v2_Tag_get_comment_frame(t)->data->comment, "hello") == 0);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c11-append-order', 'C11', 'a fourth frame being added',
     'a frame is linked in behind the third node instead of at the end of the list',
     [(FL, '''        while (last->next != NULL)
        {
            last = last->next;
        }

        last->next = current;
''', '''        int hops = 0;
        while (last->next != NULL && hops++ < 1)
        {
            last = last->next;
        }

        current->next = last->next;
        last->next = current;
''')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_title(t, "1");
    ID3v2_Tag_set_artist(t, "2");
    ID3v2_Tag_set_album(t, "3");
    ID3v2_Tag_set_year(t, "4");
    CHECK(memcmp(t->frames->next->next->frame->header->id, "TALB", 4) == 0);
    CHECK(memcmp(t->frames->next->next->next->frame->header->id, "TYER", 4) == 0);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c12-negative-index', 'C12', 'a negative index', 'deleting a comment by a negative index deletes the first comment',
     [(TAG, '''        ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;

        if (i == index)''', '''        ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;

        if (i >= index)''')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_comment(t, "eng", "hello");
    ID3v2_Tag_delete_comment_frame(t, -1);
    CHECK(ID3v2_Tag_get_comment_frame(t) != NULL);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c13-revision', 'C13', 'a tag whose revision is not zero', 'the revision of the tag is always written as zero',
     [(TAG, 'CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);',
       'CharStream_write(tag_cs, "\\0", ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);')],
     '''
int main() {
    unsigned char b[8192];
    int n = put_frame(b + 10, "TIT2", "\\0ab", 4);
    put_header(b, 4, 0, n);
    b[4] = 1;
    put_file("a.mp3", b, 10 + n);
    ID3v2_Tag* t = ID3v2_read_tag("a.mp3");
    ID3v2_write_tag("a.mp3", t);
    get_file("a.mp3", b, sizeof b);
    CHECK(b[3] == 4 && b[4] == 1);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c13-description-terminator', 'C13', 'a comment of a single character that has a description',
     'the description of a comment is written without its terminator when the comment itself has one character',
     [(COMM, '''        ID3v2_strlent(frame->data->short_description)
''', '''        frame->data->size > 2 ? ID3v2_strlent(frame->data->short_description)
                              : ID3v2_strlen(frame->data->short_description)
''')],
     '''
int main() {
    unsigned char b[8192];
    put_file("a.mp3", "x", 1);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_CommentFrameInput in = {"\\0\\0", "eng", "d", "c"};
    ID3v2_Tag_set_comment_frame(t, &in);
    ID3v2_Tag_set_title(t, "x");
    ID3v2_write_tag("a.mp3", t);
    get_file("a.mp3", b, sizeof b);
    CHECK(memcmp(b + 20, "\\0" "engd\\0c\\0TIT2", 12) == 0);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c14-plain-v4-size', 'C14', 'a v2.4 frame of 128 to 8191 bytes',
     'v2.4 frame sizes that fit in two bytes are taken for plain numbers',
     [(FH, '    if (id3_major_version == 4)\n', '    if (id3_major_version == 4 && size > 0x3FFF)\n')],
     '''
int main() {
    static unsigned char b[400];
    memset(b, 'x', sizeof b);
    put_header(b, 4, 0, 10 + 200);
    put_frame(b + 10, "PRIV", b, 0);
    b[16] = 1; b[17] = 72;
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*) b, 220);
    CHECK(t->frames->frame != NULL && t->frames->frame->header->size == 200);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c15-large-size', 'C15', 'a tag of 2 MiB or more', 'sizes of 2^21 and more are encoded wrongly',
     [(UT, 'while (mask ^ 0x7FFFFFFF)', 'while (mask ^ 0x7FFFFF)')],
     '''
static unsigned char p[2200000], b[2300000];
int main() {
    put_file("a.mp3", "x", 1);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_Tag_set_album_cover(t, "image/png", sizeof p, p);
    ID3v2_write_tag("a.mp3", t);
    get_file("a.mp3", b, sizeof b);
    int n = b[6] << 21 | b[7] << 14 | b[8] << 7 | b[9];
    CHECK(n == t->header->tag_size && b[6] < 128 && b[7] < 128 && b[8] < 128 && b[9] < 128);
    ID3v2_Tag_free(t);
    return 0;
}
''', asan=False)
seed('c16-unaligned', 'C16', 'a UTF-16 string with two zero bytes in neighbouring code units',
     'the terminator of a UTF-16 string is also found between two code units',
     [(UT, '        length += 2;\n', '        length += 1;\n')],
     '''
int main() {
    char s[] = "\\xff\\xfe" "a\\0\\0b\\0";
    CHECK(ID3v2_strlen(s) == 6);
    CHECK(ID3v2_strlent(s) == 8);
    return 0;
}
''')
seed('c16-high-bytes', 'C16', 'a character above 0x7F', 'characters above 0x7F are widened with their sign',
     [(UT, '        result[(i * 2) + 1] = 0x00;', '        result[(i * 2) + 1] = string[i - 1] >> 7;')],
     '''
int main() {
    char* u = ID3v2_to_unicode("a\\xe9");
    CHECK(memcmp(u, "\\xff\\xfe" "a\\0\\xe9\\0\\0", 8) == 0);
    free(u);
    return 0;
}
''')
seed('c17-description-encoding', 'C17', 'a comment whose text is UTF-16 and whose description is not',
     'the encoding of a comment is taken from its description',
     [(COMM, 'const char encoding = string_has_bom(comment) ?', 'const char encoding = string_has_bom(short_desc) ?')],
     '''
int main() {
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    ID3v2_CommentFrameInput in = {"\\0\\0", "eng", "d", "\\xff\\xfe" "a\\0\\0"};
    ID3v2_Tag_set_comment_frame(t, &in);
    CHECK(ID3v2_Tag_get_comment_frame(t)->data->encoding == 1);
    ID3v2_Tag_free(t);
    return 0;
}
''')
seed('c18-future-version', 'C18', 'a tag of version 2.5 or later', 'versions above 4 are accepted',
     [(TH, 'if (major_version != 3 && major_version != 4)', 'if (major_version < 3)')],
     '''
int main() {
    unsigned char b[10];
    put_header(b, 5, 0, 0);
    CHECK(ID3v2_read_tag_header_from_buffer((char*) b) == NULL);
    return 0;
}
''')
seed('c19-mirror-prefix', 'C19', 'a field set whose id shares three characters with a frame that comes before it',
     'the presented frame of another field is replaced (artist instead of album artist)',
     [(COMPAT, 'if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)', 'if (memcmp(head->frame->frame_id, frame->frame_id, 3) == 0)')],
     '''
int main() {
    ID3v2_tag* t = new_tag();
    tag_set_artist("a", 0, t);
    tag_set_album_artist("b", 0, t);
    CHECK(tag_get_artist(t) != NULL && tag_get_album_artist(t) != NULL);
    free_tag(t);
    return 0;
}
''')
seed('c21-short-padding', 'C21', 'a tag with padding shorter than a frame header',
     'the frame loop never ends when the rest of the tag is too short for a frame',
     [(TAG, '        if (current_frame == NULL) break;\n', '''        if (current_frame == NULL)
        {
            if (tag_cs->size - tag_cs->cursor >= ID3v2_FRAME_HEADER_LENGTH) break;
            continue;
        }
''')],
     '''
int main() {
    unsigned char b[64] = {0};
    int n = put_frame(b + 10, "TIT2", "\\0ab", 4);
    put_header(b, 3, 0, n + 3);
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*) b, 13 + n);
    CHECK(t != NULL);
    ID3v2_Tag_free(t);
    return 0;
}
''')
