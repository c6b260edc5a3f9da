From 0f69561404f8bab22b55cb4b3c1ce82dd100d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 01/32] fix: do not read past the end of an empty string when
 looking for a BOM

---
 src/modules/utils.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..e3e2623 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,10 +152,7 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
-    {
-        return true;
-    }
-
-    return false;
+    // Look at the second byte only after seeing the first one, the string may be just a terminator
+    const unsigned char* bytes = (const unsigned char*) string;
+    return (bytes[0] == 0xFF && bytes[1] == 0xFE) || (bytes[0] == 0xFE && bytes[1] == 0xFF);
 }
-- 
2.43.0


From 3966404477ebc49b7868161d13ad00dde9fc674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 02/32] fix: keep the cursor inside the stream when seeking to
 an absolute offset

---
 src/modules/char_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index 7a6924e..f4a34ec 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -73,7 +73,7 @@ void CharStream_seek(CharStream* cs, const int offset, const int whence)
     switch (whence)
     {
         case SEEK_SET:
-            cs->cursor = offset;
+            cs->cursor = clamp_int(offset, 0, cs->size);
             break;
         case SEEK_CUR:
             cs->cursor = clamp_int(cs->cursor + offset, 0, cs->size);
-- 
2.43.0


From d266a58338f983c068277cd7e84ebae5a0139d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 03/32] fix: report no tag for buffers too short to hold a tag
 header

---
 src/id3v2lib.c           | 2 ++
 src/modules/tag_header.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..79f113f 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -73,6 +73,8 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
 
 ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_length)
 {
+    if (buffer_length < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     CharStream* tag_cs = CharStream_from_buffer(tag_buffer, buffer_length);
     ID3v2_Tag* tag = Tag_parse(tag_cs);
     CharStream_free(tag_cs);
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..bd41bf1 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
-- 
2.43.0


From 45a5746595c56d38eb55438fd84321c9124a243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 04/32] fix: reject frames whose header or payload does not fit
 in the tag

---
 src/modules/frame_header.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..8e54953 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -30,6 +30,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // There's no room left for another frame
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -54,6 +57,13 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    if (size < 0 || size > header_cs->size - header_cs->cursor)
+    {
+        // The frame claims more data than there is, so there are no more valid frames
+        CharStream_seek(header_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
+        return NULL;
+    }
+
     return FrameHeader_new(id, flags, size);
 }
 
-- 
2.43.0


From e6154362fe76063780adf37460645a732f616e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 05/32] fix: do not rely on text frames being terminated

---
 src/modules/char_stream.c         | 11 +++++++++++
 src/modules/char_stream.private.h |  6 ++++++
 src/modules/frames/text_frame.c   | 10 ++++++----
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index f4a34ec..f541a4c 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -61,6 +61,17 @@ int CharStream_getc(CharStream* cs)
     return c;
 }
 
+char* CharStream_read_string(CharStream* cs)
+{
+    // Wherever an unicode string ends, three zeros make room for a whole termination character
+    const int termination_size = 3;
+    const int available = cs->size - cs->cursor;
+    char* result = (char*) calloc(available + termination_size, sizeof(char));
+    memcpy(result, CharStream_get_cur(cs), available);
+    CharStream_seek(cs, ID3v2_strlent(result), SEEK_CUR);
+    return result;
+}
+
 char* CharStream_slice(CharStream* cs, const int n)
 {
     char* result = CharStream_get_cur(cs);
diff --git a/src/modules/char_stream.private.h b/src/modules/char_stream.private.h
index ef86764..74e73e2 100644
--- a/src/modules/char_stream.private.h
+++ b/src/modules/char_stream.private.h
@@ -24,6 +24,12 @@ char* CharStream_get_cur(CharStream* cs);
 void CharStream_write(CharStream* cs, const char* data, const int size);
 int CharStream_read(CharStream* cs, char* dest, const int size);
 int CharStream_getc(CharStream* cs);
+
+/**
+ * Reads a string (unicode or not) that ends either at its terminator or at the end of
+ * the stream. The result is always terminated and the caller is responsible for freeing it.
+ */
+char* CharStream_read_string(CharStream* cs);
 char* CharStream_slice(CharStream* cs, const int n);
 
 void CharStream_seek(CharStream* cs, const int offset, const int whence);
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..cef334f 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -33,15 +33,17 @@ ID3v2_TextFrame* TextFrame_new(const char* id, const char* flags, const char* te
 ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_version)
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
+    if (header == NULL) return NULL;
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    CharStream* data_cs = CharStream_from_buffer(CharStream_slice(frame_cs, header->size), header->size);
+    CharStream_seek(data_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
 
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
+    char* text = CharStream_read_string(data_cs);
 
     ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
 
+    free(text);
+    CharStream_free(data_cs);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From e99ef2e2412ad20953438d6a88f75598a47e4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 06/32] fix: do not read comment frames past the end of their
 payload

---
 src/modules/frames/comment_frame.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..12b3f03 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -42,22 +42,22 @@ ID3v2_CommentFrame* CommentFrame_new(
 ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major_version)
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
+    if (header == NULL) return NULL;
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    CharStream* data_cs = CharStream_from_buffer(CharStream_slice(frame_cs, header->size), header->size);
+    CharStream_seek(data_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
 
-    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
-    CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH] = {0};
+    CharStream_read(data_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
 
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
-
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
+    char* short_desc = CharStream_read_string(data_cs);
+    char* comment = CharStream_read_string(data_cs);
 
     ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
 
+    free(short_desc);
+    free(comment);
+    CharStream_free(data_cs);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From b188446d00fd63cc13e870be523ba78d691b7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 07/32] fix: do not read apic frames past the end of their
 payload nor through the stack

---
 src/modules/frames/apic_frame.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..11b7989 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -47,27 +47,25 @@ ID3v2_ApicFrame* ApicFrame_new(
 ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_version)
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
+    if (header == NULL) return NULL;
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    CharStream* data_cs = CharStream_from_buffer(CharStream_slice(frame_cs, header->size), header->size);
+    CharStream_seek(data_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
 
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
+    char* mime_type = CharStream_read_string(data_cs);
+    const char picture_type = CharStream_getc(data_cs);
+    char* description = CharStream_read_string(data_cs);
 
-    const char picture_type = CharStream_getc(frame_cs);
-
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
-
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
+    // Whatever is left is the picture
+    const int pic_size = data_cs->size - data_cs->cursor;
+    const char* pic_data = CharStream_get_cur(data_cs);
 
     ID3v2_ApicFrame* frame =
         ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
 
+    free(mime_type);
+    free(description);
+    CharStream_free(data_cs);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From 69942cac615ffc996859d39e73793fcd8410da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 08/32] fix: treat as comments and pictures only COMM and APIC
 frames

---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 8e54953..3514130 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -87,12 +88,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From 3bdca56c9cffdfc2dacbae0784f233a545dc8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 09/32] fix: do not leak frames with an unknown id

---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..257ae51 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -78,6 +78,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
+        CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         return frame_cs;
     }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From 7a7d85787ea6883b292fdbf47744ae637a8a0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 10/32] fix: account for the frame header when adding a frame
 to a tag

---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..acd153c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -207,7 +207,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -341,7 +341,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -360,7 +360,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -394,7 +394,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -419,7 +419,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 2eae978a84bc82087073172758db25f7a55dbe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 11/32] fix: keep the size of a parsed tag in step with its
 frames and inside the tag

---
 src/modules/tag.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index acd153c..4aedd48 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -54,15 +54,21 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
     }
 
+    // The buffer may hold more than the tag
+    tag_cs->size = clamp_int(tag_cs->size, 0, header->tag_size + ID3v2_TAG_HEADER_LENGTH);
+
+    unsigned int frames_size = 0;
     ID3v2_Frame* current_frame;
     while (tag_cs->cursor < tag->header->tag_size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
         FrameList_add_frame(tag->frames, current_frame);
+        frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
 
     tag->padding_size = tag_cs->size - tag_cs->cursor;
+    tag->header->tag_size = frames_size + tag->padding_size; // what it takes to write it back
 
     return tag;
 }
-- 
2.43.0


From bb9bb56f195206b71b4a0a4d81173e3caee58ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:52 +0000
Subject: [PATCH 12/32] fix: skip the extended header by its actual size and
 position

---
 src/modules/tag.c        | 13 ++++++++-----
 src/modules/tag_header.c | 12 ++++++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 4aedd48..ad680a3 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,15 +48,18 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // The buffer may hold more than the tag
+    tag_cs->size = clamp_int(tag_cs->size, 0, header->tag_size + ID3v2_TAG_HEADER_LENGTH);
+
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip it. It comes after the tag header and inside the tag
+        const unsigned int size = header->extended_header_size < header->tag_size
+                                      ? header->extended_header_size
+                                      : header->tag_size;
+        CharStream_seek(tag_cs, ID3v2_TAG_HEADER_LENGTH + size, SEEK_SET);
     }
 
-    // The buffer may hold more than the tag
-    tag_cs->size = clamp_int(tag_cs->size, 0, header->tag_size + ID3v2_TAG_HEADER_LENGTH);
-
     unsigned int frames_size = 0;
     ID3v2_Frame* current_frame;
     while (tag_cs->cursor < tag->header->tag_size)
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index bd41bf1..837a97a 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -76,8 +76,16 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     {
         // An extended header exists, retrieve its size
         char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
-        CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
-        extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
+        const int bytes_read =
+            CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
+
+        if (bytes_read == ID3v2_EXTENDED_HEADER_SIZE_LENGTH)
+        {
+            // In v2.3 it's a regular integer and it doesn't count its own bytes
+            const unsigned int size = btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
+            extended_header_size = major_version == 4 ? syncint_decode(size)
+                                                      : size + ID3v2_EXTENDED_HEADER_SIZE_LENGTH;
+        }
     }
 
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
-- 
2.43.0


From 7baa5a0deafb557cc2f236d6910d87b774e0f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 13/32] fix: do not leave an empty node behind when removing
 the last frame of a list

---
 src/modules/frame_list.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..04d35dd 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -113,21 +113,40 @@ void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
     }
 }
 
+/**
+ * Takes out the node right after previous or, if there's no previous node, the first one.
+ */
+static void FrameList_remove_node(ID3v2_FrameList* list, ID3v2_FrameList* previous)
+{
+    if (previous != NULL)
+    {
+        ID3v2_FrameList* removed = previous->next;
+        previous->next = removed->next;
+        free(removed);
+        return;
+    }
+
+    // The first node is the list itself, so it has to stay in place
+    ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
+    *list = *new_head_old_ptr;
+    free(new_head_old_ptr);
+}
+
 ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
-    if (list == NULL) return NULL;
+    ID3v2_FrameList* head = list;
+    ID3v2_FrameList* previous = NULL;
 
-    while (list != NULL)
+    while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
             ID3v2_Frame* removed = list->frame;
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            FrameList_remove_node(head, previous);
             return removed;
         }
 
+        previous = list;
         list = list->next;
     }
 
@@ -136,18 +155,18 @@ ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* fra
 
 ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remove)
 {
-    if (list == NULL) return NULL;
+    ID3v2_FrameList* head = list;
+    ID3v2_FrameList* previous = NULL;
 
-    while (list != NULL)
+    while (list != NULL && list->frame != NULL)
     {
         if (list->frame == to_remove)
         {
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            FrameList_remove_node(head, previous);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From ef7abd1be177e5c40fa31c0348785893e311e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 14/32] fix: make deleting a frame that is not in the tag a
 no-op

---
 src/modules/tag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index ad680a3..6385a38 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -464,6 +464,8 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+    if (deleted == NULL) return;
+
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From 8c142ab099fbb61d13aff550e73f40a22e6f83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:54 +0000
Subject: [PATCH 15/32] fix: update the size of the tag and free the whole
 sublist when deleting a frame by its index

---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 6385a38..a8ed23b 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -520,15 +520,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* frames = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -537,7 +539,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(frames);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -548,15 +550,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* frames = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -565,7 +569,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(frames);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From 9192c77a83b69f96bcaf193fba003ae90133e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:54 +0000
Subject: [PATCH 16/32] fix: do not terminate the host process when there is no
 frame to write

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index a8ed23b..126c166 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -103,7 +103,7 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     {
         CharStream* frame_cs = Frame_to_char_stream(frames->frame);
 
-        if (frame_cs == NULL) exit(1);
+        if (frame_cs == NULL) break;
 
         CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
         CharStream_free(frame_cs);
-- 
2.43.0


From 0d43ad655b706f8bde65fd1ac5c49b85474de783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:54 +0000
Subject: [PATCH 17/32] fix: write the frame sizes of v2.4 tags as synchsafe
 integers

---
 src/id3v2lib.compat.c                      |  2 +-
 src/modules/frame.c                        | 10 +++++-----
 src/modules/frame.private.h                |  2 +-
 src/modules/frame_header.c                 |  4 ++--
 src/modules/frame_header.private.h         |  2 +-
 src/modules/frames/apic_frame.c            |  4 ++--
 src/modules/frames/apic_frame.private.h    |  2 +-
 src/modules/frames/comment_frame.c         |  4 ++--
 src/modules/frames/comment_frame.private.h |  2 +-
 src/modules/frames/text_frame.c            |  4 ++--
 src/modules/frames/text_frame.private.h    |  2 +-
 src/modules/tag.c                          |  2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..4830dd3 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -44,7 +44,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     // Frame data
-    CharStream* frame_cs = Frame_to_char_stream(frame);
+    CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only the payload is used
     CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_LENGTH, SEEK_SET);
     compat_frame->data = (char*) malloc(compat_frame->size * sizeof(char));
     CharStream_read(frame_cs, compat_frame->data, compat_frame->size);
diff --git a/src/modules/frame.c b/src/modules/frame.c
index 257ae51..202f96d 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -56,27 +56,27 @@ ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version)
     return frame;
 }
 
-CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
+CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
     if (FrameHeader_isTextFrame(frame->header))
     {
-        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame);
+        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame, id3_major_version);
     }
     else if (FrameHeader_isCommentFrame(frame->header))
     {
-        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame);
+        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame, id3_major_version);
     }
     else if (FrameHeader_isApicFrame(frame->header))
     {
-        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame);
+        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame, id3_major_version);
     }
     else
     {
         // Unknown frame type, dump whatever we have in memory for that frame
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
-        CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
+        CharStream* header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
         CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
diff --git a/src/modules/frame.private.h b/src/modules/frame.private.h
index 0e90da2..808eb8b 100644
--- a/src/modules/frame.private.h
+++ b/src/modules/frame.private.h
@@ -16,6 +16,6 @@ typedef struct _CharStream CharStream;
 
 ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version);
 
-CharStream* Frame_to_char_stream(ID3v2_Frame* frame);
+CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version);
 
 #endif
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 3514130..9254056 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -68,12 +68,12 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     return FrameHeader_new(id, flags, size);
 }
 
-CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header)
+CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header, const int id3_major_version)
 {
     CharStream* header_cs = CharStream_new(ID3v2_FRAME_HEADER_LENGTH);
 
     CharStream_write(header_cs, header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
-    char* size_bytes = itob(header->size);
+    char* size_bytes = itob(id3_major_version == 4 ? syncint_encode(header->size) : header->size);
     CharStream_write(header_cs, size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
     free(size_bytes);
     CharStream_write(header_cs, (const char*) &header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
diff --git a/src/modules/frame_header.private.h b/src/modules/frame_header.private.h
index 6ca82fb..66694c1 100644
--- a/src/modules/frame_header.private.h
+++ b/src/modules/frame_header.private.h
@@ -19,7 +19,7 @@ typedef struct _CharStream CharStream;
 ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int size);
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version);
 
-CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header);
+CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header, const int id3_major_version);
 
 bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header);
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header);
diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index 11b7989..1795475 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -71,11 +71,11 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
     return frame;
 }
 
-CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame)
+CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/apic_frame.private.h b/src/modules/frames/apic_frame.private.h
index b968d58..bcc8a35 100644
--- a/src/modules/frames/apic_frame.private.h
+++ b/src/modules/frames/apic_frame.private.h
@@ -23,7 +23,7 @@ ID3v2_ApicFrame* ApicFrame_new(
     const char* data
 );
 ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame);
+CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major_version);
 
 void ApicFrame_free(ID3v2_ApicFrame* frame);
 
diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 12b3f03..f9b750e 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -63,11 +63,11 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
     return frame;
 }
 
-CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame)
+CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/comment_frame.private.h b/src/modules/frames/comment_frame.private.h
index b956fed..8c95bc6 100644
--- a/src/modules/frames/comment_frame.private.h
+++ b/src/modules/frames/comment_frame.private.h
@@ -21,7 +21,7 @@ ID3v2_CommentFrame* CommentFrame_new(
     const char* comment
 );
 ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame);
+CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3_major_version);
 
 void CommentFrame_free(ID3v2_CommentFrame* frame);
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index cef334f..4b624a4 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -49,11 +49,11 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
     return frame;
 }
 
-CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame)
+CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/text_frame.private.h b/src/modules/frames/text_frame.private.h
index da96c2b..ab069d8 100644
--- a/src/modules/frames/text_frame.private.h
+++ b/src/modules/frames/text_frame.private.h
@@ -16,7 +16,7 @@ typedef struct _CharStream CharStream;
 
 ID3v2_TextFrame* TextFrame_new(const char* id, const char* flags, const char* text);
 ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame);
+CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame, const int id3_major_version);
 
 void TextFrame_free(ID3v2_TextFrame* frame);
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 126c166..b1fc464 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -101,7 +101,7 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
     while (frames != NULL)
     {
-        CharStream* frame_cs = Frame_to_char_stream(frames->frame);
+        CharStream* frame_cs = Frame_to_char_stream(frames->frame, tag->header->major_version);
 
         if (frame_cs == NULL) break;
 
-- 
2.43.0


From a5193b4c70dfa4cdf20836d9b64dfdb6d8aa51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:06 +0000
Subject: [PATCH 18/32] fix: parse only the bytes that were actually read from
 the file

---
 src/id3v2lib.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 79f113f..71ec438 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,6 +49,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
@@ -60,10 +67,10 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    const int bytes_read = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
-    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
+    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, bytes_read);
 
     free(tag_buffer);
     ID3v2_TagHeader_free(tag_header);
-- 
2.43.0


From 3f2e158a38eb0d6f11e8759b565fa63c21a6d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:06 +0000
Subject: [PATCH 19/32] fix: do not write a tag unless the file can be opened
 and its new contents are staged

---
 src/id3v2lib.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 71ec438..1a6843c 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -102,18 +103,29 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         0,
         ID3v2_TAG_DEFAULT_PADDING_LENGTH
     );
-    tag->padding_size += extra_padding_length;
-    CharStream* tag_cs = Tag_to_char_stream(tag);
-
     // Perform operations on a temp file in case things go wrong
     FILE* temp_fp = tmpfile();
 
+    if (temp_fp == NULL) return;
+
+    FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (dest_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
+
+    tag->padding_size += extra_padding_length;
+    tag->header->tag_size += extra_padding_length;
+    CharStream* tag_cs = Tag_to_char_stream(tag);
+
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
+    CharStream_free(tag_cs);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
     fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
 
     int c = 0;
@@ -123,9 +135,19 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    // Don't touch the destination file unless the temp file holds everything
+    const bool is_staged = !ferror(dest_fp) && !ferror(temp_fp) && fflush(temp_fp) == 0;
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
+
+    // Finally copy the temp file back into the destination file
+    dest_fp = is_staged ? fopen(file_name, "w+b") : NULL;
+
+    if (dest_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
+
     fseek(temp_fp, 0L, SEEK_SET);
 
     while ((c = getc(temp_fp)) != EOF)
@@ -135,8 +157,6 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     fclose(temp_fp);
     fclose(dest_fp);
-
-    CharStream_free(tag_cs);
 }
 
 void ID3v2_delete_tag(const char* file_name)
-- 
2.43.0


From eec2d6523b9e97cdaa5c05f1ac32ea0db893799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:07 +0000
Subject: [PATCH 20/32] fix: do not delete a tag unless the remaining contents
 of the file are staged

---
 src/id3v2lib.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 1a6843c..142bcd2 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -165,10 +165,22 @@ void ID3v2_delete_tag(const char* file_name)
 
     if (tag_header == NULL) return;
 
+    const int tag_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+    ID3v2_TagHeader_free(tag_header);
+
     FILE* file_fp = fopen(file_name, "rb");
+
+    if (file_fp == NULL) return;
+
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    if (temp_fp == NULL)
+    {
+        fclose(file_fp);
+        return;
+    }
+
+    fseek(file_fp, tag_length, SEEK_SET);
 
     int c = 0;
 
@@ -177,9 +189,19 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    // Don't touch the destination file unless the temp file holds everything
+    const bool is_staged = !ferror(file_fp) && !ferror(temp_fp) && fflush(temp_fp) == 0;
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
+
+    // Finally copy the temp file back into the destination file
+    file_fp = is_staged ? fopen(file_name, "w+b") : NULL;
+
+    if (file_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
+
     fseek(temp_fp, 0L, SEEK_SET);
 
     while ((c = getc(temp_fp)) != EOF)
@@ -187,8 +209,6 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, file_fp);
     }
 
-    ID3v2_TagHeader_free(tag_header);
-
     fclose(temp_fp);
     fclose(file_fp);
 }
-- 
2.43.0


From 782a6664a03d4a6a089c748d61ad4056666113f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:07 +0000
Subject: [PATCH 21/32] fix: do not announce an extended header nor a footer
 that are not written

---
 include/modules/tag_header.h | 3 +++
 src/modules/tag.c            | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/modules/tag_header.h b/include/modules/tag_header.h
index be6c46f..4fef031 100644
--- a/include/modules/tag_header.h
+++ b/include/modules/tag_header.h
@@ -18,6 +18,9 @@
 #define ID3v2_TAG_HEADER_TAG_SIZE_LENGTH 4
 #define ID3v2_EXTENDED_HEADER_SIZE_LENGTH 4
 
+#define ID3v2_TAG_EXTENDED_HEADER_FLAG 0x40
+#define ID3v2_TAG_FOOTER_FLAG 0x10
+
 typedef struct _ID3v2_TagHeader
 {
     char identifier[ID3v2_TAG_HEADER_IDENTIFIER_LENGTH];
diff --git a/src/modules/tag.c b/src/modules/tag.c
index b1fc464..c72572a 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -84,7 +84,11 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    CharStream_write(tag_cs, &tag->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+
+    // Neither the extended header nor the footer are written back
+    const char flags =
+        tag->header->flags & ~(ID3v2_TAG_EXTENDED_HEADER_FLAG | ID3v2_TAG_FOOTER_FLAG);
+    CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
     CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
-- 
2.43.0


From 38964f3d5a671eaf192b12d374792f4a5f9a6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 22/32] fix: encode the empty description of a comment like the
 comment itself

---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index c72572a..6998304 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -383,7 +383,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // the whole frame has a single encoding
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 201debf758e1253b12f0c722eb5badfa28c174d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 23/32] fix: copy both bytes of the frame flags to the compat
 frames

---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 4830dd3..d855ebc 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -41,7 +41,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only the payload is used
-- 
2.43.0


From 18bc7d23a3ed609167f8271d07c89b5ff03ac7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:09 +0000
Subject: [PATCH 24/32] fix: let the compat setters add frames that are not in
 the tag yet

---
 src/id3v2lib.compat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index d855ebc..1701547 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -76,9 +76,11 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
     }
 }
 
-void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
+void add_uniq_to_list(ID3v2_frame_list* list, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* head = list;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -91,7 +93,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(list, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
-- 
2.43.0


From b2a5c648f90d9c130e6cea4978d6b90739aad0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:09 +0000
Subject: [PATCH 25/32] fix: initialize new compat tags so they can be freed

---
 src/id3v2lib.compat.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 1701547..14f7b78 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -29,6 +29,7 @@ ID3v2_frame_list* new_frame_list()
         list->frame = NULL;
         list->next = NULL;
         list->start = NULL;
+        list->last = NULL;
     }
 
     return list;
@@ -116,12 +117,18 @@ ID3v2_tag* new_tag()
     ID3v2_tag* tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
     ID3v2_header* header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
 
-    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
-
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
 
+    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
+
     return tag;
 }
 
@@ -206,7 +213,7 @@ void free_tag(ID3v2_tag* tag)
 
     while (list != NULL)
     {
-        free_frame(list->frame);
+        if (list->frame != NULL) free_frame(list->frame);
         ID3v2_frame_list* new_head = list->next;
         free(list);
         list = new_head;
-- 
2.43.0


From b41f94bca15cea4d56fc546fe2b9afe57597861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:09 +0000
Subject: [PATCH 26/32] fix: let the compat layer load files without a tag and
 tags without frames

---
 src/id3v2lib.compat.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 14f7b78..4c8ff2b 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -135,13 +135,23 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
     const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    const int bytes_read = fread(buffer, sizeof(char), buffer_size, fp);
     fclose(fp);
 
-    ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
+    ID3v2_tag* tag = load_tag_with_buffer(buffer, bytes_read);
 
     free(buffer);
     ID3v2_TagHeader_free(header);
@@ -152,6 +162,9 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
@@ -175,7 +188,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
-- 
2.43.0


From d4d9fce1129d56fcfc108a80b07c4e9b8a4aba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:10 +0000
Subject: [PATCH 27/32] fix: let the compat layer parse the contents of missing
 frames

---
 src/id3v2lib.compat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 4c8ff2b..072ac15 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -292,6 +292,8 @@ ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -306,6 +308,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -322,6 +326,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From e6fda903a2925c2fcd0bd78a5a0847034b7e7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:10 +0000
Subject: [PATCH 28/32] fix: do not crash on album covers that cannot be opened
 or have no extension

---
 src/id3v2lib.compat.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 072ac15..98a7cfe 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -449,17 +449,20 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
+    if (album_cover == NULL) return;
+
     fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
 
     album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+    image_size = (int) fread(album_cover_bytes, sizeof(char), image_size, album_cover);
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                       : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From bcc001da099429e8fa924a2b1f82658471b50fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:56 +0000
Subject: [PATCH 29/32] fix: do not overflow while encoding synchsafe integers

---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index e3e2623..3cf4b50 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -110,7 +110,7 @@ char* itob(int integer)
 
 int syncint_encode(int value)
 {
-    int out, mask = 0x7F;
+    unsigned int out = 0, mask = 0x7F;
 
     while (mask ^ 0x7FFFFFFF)
     {
-- 
2.43.0


From d7344cdb97363806bc45ba42e1f44e9edbbbe1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 30/32] fix: parse the frames up to the end of the tag

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 6998304..c3ea4a4 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -62,7 +62,7 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     unsigned int frames_size = 0;
     ID3v2_Frame* current_frame;
-    while (tag_cs->cursor < tag->header->tag_size)
+    while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-- 
2.43.0


From 640faaf94edea3800052ebe97d0e4e9835d3e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:35 +0000
Subject: [PATCH 31/32] fix: start parsing frames inside the tag when its
 extended header is truncated

---
 src/modules/tag.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index c3ea4a4..78c18ec 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -51,14 +51,11 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     // The buffer may hold more than the tag
     tag_cs->size = clamp_int(tag_cs->size, 0, header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
-    if (header->extended_header_size > 0)
-    {
-        // An extended header exists, skip it. It comes after the tag header and inside the tag
-        const unsigned int size = header->extended_header_size < header->tag_size
-                                      ? header->extended_header_size
-                                      : header->tag_size;
-        CharStream_seek(tag_cs, ID3v2_TAG_HEADER_LENGTH + size, SEEK_SET);
-    }
+    // If an extended header exists, skip it. It comes after the tag header and inside the tag
+    const unsigned int extended_header_size =
+        header->extended_header_size < header->tag_size ? header->extended_header_size
+                                                        : header->tag_size;
+    CharStream_seek(tag_cs, ID3v2_TAG_HEADER_LENGTH + extended_header_size, SEEK_SET);
 
     unsigned int frames_size = 0;
     ID3v2_Frame* current_frame;
-- 
2.43.0


From 3469cdf000fe64ab37ac9ffb5edc9d9409d4be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 32/32] fix: leave no footer of a v2.4 tag behind when
 replacing or deleting it

---
 src/id3v2lib.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 142bcd2..360cca8 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -89,13 +89,20 @@ ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_l
     return tag;
 }
 
+static int get_tag_length(const ID3v2_TagHeader* header)
+{
+    // In v2.4 the tag may end with a footer as long as the header, which its size doesn't include
+    const bool has_footer = header->major_version == 4 && (header->flags & ID3v2_TAG_FOOTER_FLAG) != 0;
+    return header->tag_size + ID3v2_TAG_HEADER_LENGTH + (has_footer ? ID3v2_TAG_HEADER_LENGTH : 0);
+}
+
 void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 {
     if (tag == NULL) return;
 
     ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
     const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+        existing_tag_header != NULL ? get_tag_length(existing_tag_header) : 0;
     free(existing_tag_header);
 
     const int extra_padding_length = clamp_int(
@@ -165,7 +172,7 @@ void ID3v2_delete_tag(const char* file_name)
 
     if (tag_header == NULL) return;
 
-    const int tag_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+    const int tag_length = get_tag_length(tag_header);
     ID3v2_TagHeader_free(tag_header);
 
     FILE* file_fp = fopen(file_name, "rb");
-- 
2.43.0

