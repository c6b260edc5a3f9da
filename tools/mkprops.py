#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
T='The one stable test only opens a missing and an empty file; '
p('C01','Reading arbitrary bytes is memory-safe',
 'Reading a tag or a tag header from any buffer (of any stated length) or from any file never reads or writes outside a live object, never dereferences a null pointer and never uses uninitialised memory, whatever the bytes are. Truncated, oversized, negative or overlapping sizes, missing terminators and missing payloads are all inputs, not errors of the caller.',
 ['inputs'],'every byte sequence and length given to the buffer readers, every file content given to the file readers, in both APIs',
 T+'no test parses a single frame, let alone a malformed one; the inputs are unbounded.',
 ['src/id3v2lib.c','src/id3v2lib.compat.c','src/modules/char_stream.c','src/modules/tag.c','src/modules/tag_header.c','src/modules/frame.c','src/modules/frame_header.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/utils.c'],
 [('bounded cursor reads','CharStream_read / CharStream_seek / CharStream_read_string'),('frame bounds check','FrameHeader_parse'),('tag bounds','Tag_parse'),('short buffers','ID3v2_read_tag_from_buffer, TagHeader_parse')],
 ['ID3v2_read_tag','ID3v2_read_tag_from_buffer','ID3v2_read_tag_header','load_tag','load_tag_with_buffer'])
p('C02','Editing and writing a tag is memory-safe',
 'For every tag obtained from this library (read or new, edited in any order through its setters, adders and deleters) and every terminated string or sized blob passed in, no getter, setter, deleter, writer or conversion reads or writes outside a live object or dereferences a null pointer; asking for or deleting something that is not there is harmless.',
 ['inputs','histories'],'every tag reachable through the API, every argument satisfying its documented contract',
 T+'no test edits or writes a tag here; frame lists, contents and lengths are unbounded.',
 ['src/id3v2lib.c','src/id3v2lib.compat.c','src/modules/tag.c','src/modules/frame.c','src/modules/frame_list.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/char_stream.c','src/modules/utils.c'],
 [('size of the output buffer','Tag_to_char_stream, *_to_char_stream'),('size fields of the frames','TextFrame_new, CommentFrame_new, ApicFrame_new'),('frame list shape','FrameList_add_frame, FrameList_remove_*')],
 ['every public function'])
p('C03','A tag always declares exactly the size of its frames plus padding',
 'After reading a tag and after every later setter, adder, deleter or write, the tag size recorded in the tag header equals the sum of the encoded sizes of its frames (ten bytes of frame header plus payload each) plus the recorded padding, and each frame header declares exactly the number of payload bytes that frame is encoded to.',
 ['inputs','histories'],'every edit history on every tag',
 T+'accounting drifts only show after particular edit sequences and sizes.',
 ['src/modules/tag.c','src/id3v2lib.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c'],
 [('size accounting on every edit','ID3v2_Tag_set_*_frame, ID3v2_Tag_add_*_frame, ID3v2_Tag_delete_*'),('size of a parsed tag','Tag_parse'),('padding added on write','ID3v2_write_tag')],
 ['tag->header->tag_size','frame->header->size'])
p('C04','Every allocation is released exactly once',
 'No call leaks memory it allocated and did not hand to the caller, frees anything twice, frees memory it does not own, or leaves a tag, list or frame pointing to freed memory - on every path, early returns and failed lookups included. Freeing a tag (in either API) releases everything it owns, and detaching a result list releases its nodes but none of the frames.',
 ['inputs','histories'],'every path of every public function from every valid tag',
 T+'leaks and double frees on error paths, replaced or deleted frames are invisible to it.',
 ['src/id3v2lib.c','src/id3v2lib.compat.c','src/modules/tag.c','src/modules/frame.c','src/modules/frame_list.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/char_stream.c','src/modules/frame_header.c'],
 [('destructors','ID3v2_Tag_free, ID3v2_FrameList_free, ID3v2_Frame_free, *Frame_free, free_tag'),('scratch streams','CharStream_free callers')],
 ['heap at return of every public function'])
p('C05','File handles are opened, checked, used and closed correctly on every path',
 'Every stream a call opens is closed exactly once before the call returns, on every path; no stream is used before it is known to be open or after it is closed. A file that is missing, unreadable, too short or not taggable makes the call report "no tag" or do nothing instead of crashing.',
 ['inputs','fault_sequences'],'every outcome (success or failure) of every open, and every file content',
 T+'the failure of the second and later opens, of the temporary file and of reads is never exercised.',
 ['src/id3v2lib.c','src/id3v2lib.compat.c'],
 [('open checks and closes','ID3v2_read_tag_header, ID3v2_read_tag, ID3v2_write_tag, ID3v2_delete_tag, load_tag, tag_set_album_cover')],
 ['fopen/tmpfile/fclose call sites'])
p('C06','Writing a tag puts the tag first and keeps the audio byte for byte',
 'When writing a tag to a file completes, the file consists of the encoded tag followed by exactly the bytes that followed the old tag (all of the old bytes when there was none): nothing of the audio lost, duplicated, reordered or altered, and nothing of the old tag (its v2.4 footer included) left behind.',
 ['inputs'],'every file content (with or without a tag, any length, any byte values including 0xFF and 0x00) and every tag',
 T+'no test writes a file here.',
 ['src/id3v2lib.c'],
 [('offset of the audio','ID3v2_write_tag (original_size)'),('copy out and back','ID3v2_write_tag')],
 ['the file after ID3v2_write_tag / set_tag'])
p('C07','Deleting a tag leaves exactly the audio',
 'After deleting the tag of a file that starts with a supported tag, the file consists of exactly the bytes that followed the tag (and its footer, if a v2.4 tag has one); a file without a supported tag is left untouched, not even rewritten.',
 ['inputs'],'every file content',
 T+'no test deletes a tag here.',
 ['src/id3v2lib.c','src/id3v2lib.compat.c'],
 [('copy of what follows the tag','ID3v2_delete_tag')],
 ['the file after ID3v2_delete_tag / remove_tag'])
p('C08','A file is never truncated before its new contents are staged',
 'Writing or deleting a tag modifies the target file only after the complete replacement contents have been staged elsewhere and the staging has been checked for errors: if opening, reading or staging fails at any point, the target still has its original contents. An old tag header that cannot be read counts as no old tag. Read-only operations never open a file for writing.',
 ['fault_sequences','inputs'],'every combination of failing opens, reads, temporary-file writes',
 T+'no fault is ever injected.',
 ['src/id3v2lib.c'],
 [('staging in a temporary file','ID3v2_write_tag, ID3v2_delete_tag'),('error check before the truncating open','ID3v2_write_tag, ID3v2_delete_tag')],
 ['the truncating open of the target'])
p('C09','Each named field is stored under its own ID3 frame id',
 'The title, artist, album, album artist, genre, track, year, comment, disc number, composer and album cover operations - getters, setters and deleters of the main API and getters and setters of the compatibility API - act on the frames TIT2, TPE1, TALB, TPE2, TCON, TRCK, TYER, COMM, TPOS, TCOM and APIC respectively and on no other frame.',
 ['inputs'],'every named operation, on every tag',
 T+'none of the roughly sixty named operations is executed.',
 ['include/modules/frame_ids.h','src/modules/tag.c','src/id3v2lib.compat.c'],
 [('frame id table','include/modules/frame_ids.h'),('thin wrappers','ID3v2_Tag_{get,set,delete}_*, tag_{get,set}_*')],
 ['id looked up, stored or removed by each wrapper'])
p('C10','Lookups return the first, or all, frames with exactly that id, in order',
 'Looking up a frame returns the first frame in tag order whose four-character id is exactly the requested one, and nothing only if there is no such frame; looking up all frames returns every such frame exactly once, in tag order, and an empty list if there is none. Lookups modify neither the tag nor its frames.',
 ['inputs','histories'],'every frame list and every id',
 T+'no lookup is executed on a non-empty tag.',
 ['src/modules/frame_list.c','src/modules/tag.c','src/id3v2lib.compat.c'],
 [('list traversal','FrameList_get_frame_by_id, FrameList_get_frames_by_id, get_from_list')],
 ['ID3v2_Tag_get_frame','ID3v2_Tag_get_frames','ID3v2_Tag_get_*','tag_get_*'])
p('C11','Setters replace the first matching frame or append, and copy their input',
 'Setting a field replaces the first frame with that id in place, or appends one frame at the end if there is none; adding always appends one frame. The new frame holds the given id, flags, text, language, description, mime type, picture type and data, the other frames and their order are unchanged, and the tag keeps its own copy of everything it was given (the input may be reused, freed, or even come from the replaced frame).',
 ['inputs','histories'],'every tag and every input',
 T+'no setter is executed.',
 ['src/modules/tag.c','src/modules/frame_list.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c'],
 [('replace or append','ID3v2_Tag_set_text_frame, ID3v2_Tag_set_comment_frame, ID3v2_Tag_set_apic_frame, FrameList_replace_frame, FrameList_add_frame'),('deep copies','TextFrameData_new, CommentFrameData_new, ApicFrameData_new')],
 ['the frame list after each setter'])
p('C12','Deleters remove exactly the requested frame',
 'Deleting by id removes the first frame with that id and only that one; deleting a comment or picture by index removes exactly the frame at that position among the comments or pictures; deleting something that does not exist changes nothing. The remaining frames keep their order and contents, and the tag stays usable for every later operation.',
 ['inputs','histories'],'every tag, id and index, and every later operation',
 T+'no deleter is executed.',
 ['src/modules/tag.c','src/modules/frame_list.c'],
 [('node removal','FrameList_remove_frame_by_id, FrameList_remove_frame'),('index walk','ID3v2_Tag_delete_comment_frame, ID3v2_Tag_delete_apic_frame')],
 ['the frame list after each deleter'])
p('C13','Tags and frames are encoded in the ID3v2.3/2.4 byte layout',
 'A written tag is "ID3", version, revision, flags and a big-endian synchsafe size, then every frame once in list order, then zero padding up to the declared size. A written frame is its id, a four-byte big-endian size (plain in v2.3, synchsafe in v2.4), its two flag bytes and its payload: encoding and text; encoding, language, description and comment; encoding, mime type, picture type, description and picture data; or, for any other frame, its raw bytes unchanged.',
 ['inputs'],'every tag and frame, both versions, every size below 2^28',
 T+'no byte is ever encoded.',
 ['src/modules/tag.c','src/modules/frame.c','src/modules/frame_header.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/utils.c'],
 [('encoders','Tag_to_char_stream, Frame_to_char_stream, FrameHeader_to_char_stream, *Frame_to_char_stream')],
 ['bytes written by ID3v2_write_tag'])
p('C14','Parsing recovers every field from its place in the byte layout',
 'Parsing a tag yields, for every frame that lies completely inside the tag and in order, its id and flags from the frame header, and its contents from the payload that the size in the frame header (plain in v2.3, synchsafe in v2.4) delimits, at the positions the ID3v2 layout defines - the text; the language, description and comment; the mime type, picture type, description and picture; or the raw payload - each string ending at its terminator or at the end of the frame. Parsing starts after the tag header and any extended header, stops at padding or at the first frame that does not fit, and never takes bytes beyond the declared tag.',
 ['inputs'],'every well-formed or malformed tag',
 T+'no frame is ever parsed.',
 ['src/modules/tag.c','src/modules/frame.c','src/modules/frame_header.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/tag_header.c'],
 [('parsers','Tag_parse, Frame_parse, FrameHeader_parse, *Frame_parse')],
 ['ID3v2_read_tag_from_buffer'])
p('C15','Sizes are decoded and encoded without losing or mixing bits',
 'A big-endian synchsafe tag or frame size is decoded to the 28-bit number it stands for and encoded back to the same four bytes, each below 0x80; a plain four-byte big-endian size is decoded and encoded likewise. Decoding and encoding are inverse to each other on all representable sizes.',
 ['inputs'],'all 2^28 synchsafe and 2^31 plain sizes',
 T+'no size other than those of a missing or empty file is decoded, and none encoded.',
 ['src/modules/utils.c','src/modules/tag_header.c','src/modules/frame_header.c','src/modules/tag.c'],
 [('codecs','btoi, itob, syncint_encode, syncint_decode')],
 ['size fields read and written'])
p('C16','String helpers measure and convert ISO and UTF-16 strings correctly',
 'The length helpers return the number of bytes before the terminator (and with it, for the terminated length): up to the first zero byte for strings without a byte order mark, up to the first zero code unit for strings that start with one. Converting to unicode yields a byte order mark, then every byte of the input widened to a 16-bit little-endian unit in order, then a two-byte terminator, and returns strings that already have a byte order mark unchanged.',
 ['inputs'],'every terminated string of any length, the empty string and strings containing zero bytes inside code units included',
 T+'the helpers are not executed.',
 ['src/modules/utils.c','include/modules/utils.h'],
 [('helpers','ID3v2_strlen, ID3v2_strlent, ID3v2_to_unicode, string_has_bom')],
 ['ID3v2_strlen','ID3v2_strlent','ID3v2_to_unicode'])
p('C17','The encoding byte of a frame agrees with its text, and text is terminated',
 'Every text, comment and picture frame the library builds marks its text as unicode exactly when that text starts with a byte order mark and as ISO otherwise, and stores its strings complete with the matching one- or two-byte terminator inside the declared size. A comment or album cover set through the short setters uses one encoding for its (empty) description consistent with that mark.',
 ['inputs'],'every string given to a setter or found in a payload',
 T+'no frame is built.',
 ['src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/tag.c'],
 [('encoding choice','TextFrameData_new, CommentFrameData_new, ApicFrameData_new'),('short setters','ID3v2_Tag_set_comment, ID3v2_Tag_set_album_cover')],
 ['encoding, size and text of every frame'])
p('C18','A tag is recognised exactly when a supported ID3v2 header is present',
 'Reading a header or tag succeeds exactly when the input starts with "ID3" and major version 3 or 4 and holds at least a full tag header, and then reports the version, revision, flags and tag size found there; otherwise it reports that there is no tag. Files and buffers, header-only and full reads, and both APIs agree on this.',
 ['inputs'],'every file and buffer',
 T+'the magic and version checks are never reached with data.',
 ['src/modules/tag_header.c','src/id3v2lib.c','src/id3v2lib.compat.c'],
 [('header parser','TagHeader_parse'),('short reads','ID3v2_read_tag_header')],
 ['ID3v2_read_tag_header','ID3v2_read_tag_header_from_buffer','ID3v2_read_tag','ID3v2_read_tag_from_buffer','load_tag','load_tag_with_buffer'])
p('C19','The compatibility API mirrors the underlying tag',
 'Through the compatibility API, a loaded tag presents the same header and, in order, the same frames (id, size, both flag bytes and payload bytes) as the underlying tag; each compatibility setter changes the underlying tag and the presented frame together, so that what is presented, what is written and what the content parsers return are the same data. Content parsers report the encoding, size, text, language, description, mime type, picture type and picture of the frame they are given. Setting the cover from a file embeds exactly the bytes of that file, as image/png if its name ends in .png and image/jpeg if it ends in .jpg or .jpeg.',
 ['inputs','histories'],'every tag and every sequence of compatibility calls',
 T+'the compatibility layer is not executed.',
 ['src/id3v2lib.compat.c'],
 [('mirror frames','frame_to_compat_frame, load_tag_with_buffer, add_uniq_to_list, tag_set_*'),('content parsers','parse_text_frame_content, parse_comment_frame_content, parse_apic_frame_content')],
 ['ID3v2_tag.frames','ID3v2_tag.tag'])
p('C20','The library has no hidden shared state and never ends the host process',
 'Operations on different tags and files do not influence each other and may run in different threads: the library keeps no mutable state outside the objects it is given or returns, and calls no non-reentrant service that does. No operation terminates the process, writes to standard output, or changes process-wide settings.',
 ['schedules','programs','inputs'],'every interleaving of calls on distinct tags and files',
 T+'it is single-threaded and runs two calls.',
 ['src/id3v2lib.c','src/id3v2lib.compat.c','src/modules'],
 [('absence of globals','all translation units'),('no exit or abort','Tag_to_char_stream')],
 ['writable data of the library','external calls of the library'])
p('C21','Parsing always terminates, in time bounded by the input',
 'Reading any buffer or file returns: every parsed frame consumes at least its ten-byte header, the position never moves backwards from one frame to the next and never leaves the tag, and every search for a string terminator ends within the payload.',
 ['inputs'],'every byte sequence',
 T+'no loop of the parser is entered.',
 ['src/modules/tag.c','src/modules/frame.c','src/modules/frame_header.c','src/modules/frames/text_frame.c','src/modules/frames/comment_frame.c','src/modules/frames/apic_frame.c','src/modules/char_stream.c','src/modules/utils.c'],
 [('progress of the cursor','Tag_parse, Frame_parse'),('terminator search','CharStream_read_string, ID3v2_strlen')],
 ['ID3v2_read_tag_from_buffer'])
p('C22','An interrupted write leaves either the old or the new file',
 'If the process or machine stops at any point while a tag is being written or deleted, the file on disk holds either its complete old contents or its complete new contents.',
 ['crash_points'],'every crash point during a write or delete',
 T+'no crash is simulated.',
 ['src/id3v2lib.c'],
 [('copy back over the target','ID3v2_write_tag, ID3v2_delete_tag')],
 ['the target file after a crash'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
