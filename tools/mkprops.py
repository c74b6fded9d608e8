#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L = "lofty/src/"
p("C01", "Tag edits never disturb the audio or the container around it",
  "Saving or removing any tag in any supported container leaves the encoded audio stream byte-for-byte unchanged, "
  "and the container's own bookkeeping (chunk, block, atom and page sizes, padding, sample offset tables, page checksums and sequence numbers) still describes the file exactly. "
  "Every offset the container stores still addresses the bytes it addressed before, and the audio properties read afterwards equal those read before.",
  ["histories", "inputs", "configurations"],
  "every format, every layout of metadata around the audio (before, after, in the middle, absent, odd-sized, padded, junk-prefixed), every write option and every sequence of saves and removals",
  "Tests save one tag into one fixture per format and read the tag back; they never compare the audio, offsets or container sizes over sequences of edits and unusual layouts.",
  [L+"id3/v2/write/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"id3/v1/write.rs", L+"ape/tag/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"mp4/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", "ogg_pager/src/lib.rs"],
  [("chunk/FORM/RIFF size bookkeeping", L+"id3/v2/write/chunk_file.rs, "+L+"iff/"), ("stco/co64/tfhd offset fix-up and padding reuse", L+"mp4/ilst/write.rs, "+L+"mp4/write.rs"), ("repagination", L+"ogg/tag/write.rs, ogg_pager/src/paginate.rs"), ("header/footer tag splicing", L+"id3/v2/write/mod.rs, "+L+"ape/tag/write.rs, "+L+"id3/v1/write.rs")],
  [("layout", "ordered regions of the file: tags, other metadata, audio, and the sizes/offsets that describe them", "the file's bytes")],
  ["file bytes after each save/remove", "AudioFile::properties"])
p("C02", "A saved tag reads back as the tag that was saved",
  "For every format and every tag type writable in it, a tag whose values the tag format can represent reads back, after being saved, as the same tag: same items with the same keys, values and relative order, same pictures, same format specific fields. "
  "This holds whatever the file held before and whichever way the tag was saved (through a path, a file handle, or together with other tags).",
  ["inputs", "configurations"],
  "every writable (format, tag type) pair, every file layout, tag contents covering empty, repeated, long, multi-byte and binary values and pictures, every write option",
  "Tests round-trip a single fixed tag per format; boundary lengths, repeated keys, odd sizes and pre-existing tags of other sizes are not explored.",
  [L+"id3/", L+"ape/tag/", L+"ogg/tag.rs", L+"ogg/tag/", L+"flac/", L+"mp4/ilst/", L+"iff/", L+"tag/utils.rs"],
  [("tag writers and their readers", L+"*/tag/{read,write}.rs, "+L+"id3/v2/{read.rs,write/}, "+L+"mp4/ilst/{read,write}.rs")],
  [("stored tag", "the abstract content of the tag on disk", "file bytes")], ["TagExt::save_to / read_from"])
p("C03", "Editing one tag leaves all other metadata in the file alone",
  "Saving or removing a tag of one type leaves every tag of another type in the file readable with the same content, and leaves metadata the library does not model as a tag (unknown chunks, atoms and blocks, seek tables, cue sheets, encoder strings, stream headers) byte-for-byte intact and in its original order.",
  ["histories", "configurations"],
  "every format, every combination of co-existing tags and foreign metadata, every order of edits",
  "Fixtures hold at most one or two tags and no test compares what was not edited.",
  [L+"id3/v2/write/mod.rs", L+"ape/tag/write.rs", L+"id3/v1/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs"],
  [("only the edited region is spliced", L+"*/write.rs"), ("vendor string kept", L+"ogg/tag/write.rs, "+L+"flac/write.rs"), ("unknown atoms/chunks/blocks skipped", L+"mp4/ilst/write.rs, "+L+"iff/chunk.rs, "+L+"flac/block.rs")],
  None, ["file bytes after each save/remove"])
p("C04", "Removing a tag removes all of it, once, and nothing when absent",
  "After a successful removal of a tag type, the file no longer contains a tag of that type and reading it reports none of its items or pictures; removing it again, or removing a tag type the file never had, succeeds and leaves the file bytes as they were. "
  "A tag type that can be read from a format can be removed from it; one the format does not support at all is refused with an error.",
  ["histories", "configurations"],
  "every (format, tag type) pair, every layout, removal at any point in a history of edits",
  "Tests remove a tag once from one fixture and only check that a re-read finds no tag.",
  [L+"tag/tag_type.rs", L+"tag/utils.rs", L+"id3/v2/write/mod.rs", L+"id3/v1/write.rs", L+"ape/tag/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"iff/"],
  [("empty tag means removal", L+"*/write.rs"), ("support table", L+"file/file_type.rs")],
  None, ["TagType::remove_from", "file bytes"])
p("C05", "Saving is stable: the result depends on the tag, not on the history",
  "Saving the same tag again, with the same options, changes nothing: the second save produces the same bytes (or, where the order of items or the placement of padding is unspecified, the same items and the same size), so repeated saves never grow the file. "
  "Reading a tag and saving it back unchanged leaves its content unchanged, and what a save stores does not depend on which tags of that type were saved before it.",
  ["histories"],
  "every sequence of saves and removals of tags of different sizes, over every format, layout and padding option",
  "Tests save at most once or twice from one starting point.",
  [L+"id3/v2/write/", L+"ape/tag/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"iff/"],
  [("existing tag replaced in place / padding reused", L+"*/write.rs")], None, ["file bytes after each save"])
p("C06", "A refused edit leaves the file exactly as it was",
  "When a save or removal is refused because of the request itself (unsupported tag type for the format, value the format cannot hold, tag too large, unreadable container), it returns an error and not one byte of the file has changed. It never panics and never reports success for something it did not store.",
  ["inputs", "configurations"],
  "every unsupported (format, tag type) pair, every unencodable key, value or size, every malformed target",
  "Tests check that an error is returned for a few of these cases but not that the file is untouched.",
  [L+"tag/utils.rs", L+"io.rs", L+"id3/v2/write/mod.rs", L+"ape/tag/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"iff/"],
  [("validation before writing", L+"*/write.rs"), ("support check", L+"tag/utils.rs")], None, ["Result of save_to/remove_from", "file bytes"])
p("C07", "Reading arbitrary bytes terminates without panicking or over-allocating",
  "For every byte sequence, every format reader, every parsing mode and every option, reading returns a value or an error: it never panics, never overflows, never loops, and never allocates more than the configured limit allows on behalf of a size field. Whatever is returned can be inspected, converted and re-saved without panicking.",
  ["inputs", "configurations"],
  "all byte sequences, in particular valid files with any truncation, any corrupted size, count, offset or flag field",
  "The fuzz corpus is a fixed set of past crashes; tests cannot enumerate truncations and field corruptions of every structure.",
  [L+"probe.rs", L+"util/io.rs", L+"util/alloc.rs", L+"id3/", L+"ape/", L+"mp4/", L+"iff/", L+"flac/", L+"ogg/", L+"mpeg/", L+"aac/", L+"musepack/", L+"wavpack/", "ogg_pager/src/"],
  [("checked size arithmetic and fallible allocation", L+"util/alloc.rs, "+L+"util/io.rs"), ("parsing modes", L+"config/parse_options.rs")],
  None, ["Result of Probe::read / per-format read_from"])
p("C08", "I/O failures surface as errors",
  "If any read, seek, write or truncate of the underlying stream fails during an operation, the operation returns an error (never a panic and never a success that silently lost data); if an operation reports success, every byte it needed was delivered and its result equals the fault-free result. "
  "A failure before the first modification leaves the stream unmodified.",
  ["fault_sequences"],
  "every operation (probe, read, save, remove) on every format, with a failure injected at every single I/O call",
  "The tests run on healthy in-memory or on-disk files; no I/O fault is injected anywhere.",
  [L+"util/io.rs", L+"io.rs", L+"*/write.rs", L+"probe.rs", "ogg_pager/src/lib.rs"],
  [("error propagation with ?", L+"**"), ("FileLike/Truncate/Length abstractions", L+"util/io.rs")], None, ["Result of the operation", "stream content"])
p("C09", "Results do not depend on how the stream delivers its bytes",
  "Probing, reading and writing give the same result, and the same final file, whether the stream returns whole buffers, single bytes, arbitrary short reads and writes or interrupted calls, and whether it is a file, a memory buffer or a buffered reader starting at the same position.",
  ["schedules", "fault_sequences"],
  "every partition of every read and write into shorter ones, with interruptions at any call",
  "Tests use readers that always fill the buffer.",
  [L+"util/io.rs", L+"probe.rs", L+"**/read.rs", "ogg_pager/src/lib.rs"],
  [("read_exact / read_to_end style loops", L+"**")], None, ["Result of the operation", "final bytes"])
p("C10", "File type detection is decided by content and leaves the stream where it was",
  "The detected type is that of the content: it follows the documented signatures, including behind a leading ID3v2 tag or bounded junk for the formats that may follow one (a leading APE tag counts as junk), prefers content over the extension, and falls back to the extension only when the content is not recognised. Probing restores the stream position and gives the same answer for the same bytes however often it is asked; resolvers registered by the user are consulted before the built-in rules.",
  ["inputs", "configurations"],
  "every prefix layout (tags, junk of any length up to and beyond the limit, padding), every signature, every extension in any letter case",
  "Tests probe one fixture per format.",
  [L+"probe.rs", L+"file/file_type.rs", L+"resolve.rs", L+"mpeg/header.rs"],
  [("signature table", L+"file/file_type.rs"), ("guess_inner / ID3v2 skipping / junk search", L+"probe.rs"), ("custom resolvers", L+"resolve.rs")], None,
  ["Probe::guess_file_type", "FileType::from_buffer/from_ext/from_path", "stream position"])
p("C11", "A generic tag behaves as an ordered multimap of items and a list of pictures",
  "Insertion replaces all items with that key and appends, pushing appends, both only if the target format maps the key; removal, retention and taking select exactly the matching items, return them in order and keep the order of the rest; lookups return the first match in order and never change the tag. "
  "Counts, emptiness and membership always agree with the contents, pictures are independent of items, and remapping keeps exactly the items the new format can express.",
  ["histories"],
  "every sequence of item and picture operations, for every tag type",
  "Doc examples exercise each operation once on one- or two-item tags.",
  [L+"tag/mod.rs", L+"tag/item.rs"],
  [("Vec-backed item list", L+"tag/mod.rs"), ("key mapping gate", L+"tag/item.rs")],
  [("items", "ordered list of (key, value, language, description)", L+"tag/mod.rs"), ("pictures", "ordered list of pictures", L+"tag/mod.rs")],
  ["Tag's public methods"])
p("C12", "A tagged file holds at most one tag per type and saves exactly what it holds",
  "A tagged file keeps at most one tag of each type: inserting replaces and returns the previous one, unsupported types are refused, removal returns what was held, and primary/first lookups follow the documented precedence. "
  "Saving it writes every held tag (a tag held without items is a removal), leaves tags it does not hold untouched, and a bound file behaves as the unbound one while returning its file handle with the edits applied.",
  ["histories"],
  "every sequence of insert, remove, clear, edit, save and re-open over every file type",
  "Tests insert or remove a single tag in one or two formats.",
  [L+"file/tagged_file.rs", L+"file/audio_file.rs", L+"file/file_type.rs"],
  [("tag list and support check", L+"file/tagged_file.rs")],
  [("tags", "tags held in memory", L+"file/tagged_file.rs"), ("disk", "tags in the file", "file bytes")], ["TaggedFileExt", "AudioFile::save_to"])
p("C13", "Ogg pagination and page codec are lossless and well-formed",
  "Splitting packets into pages and reading the pages back returns exactly the same packets in order, whatever their lengths; every page has a correct checksum, at most 255 segments and 65025 content bytes, consecutive sequence numbers, a continuation flag exactly when it continues a packet, and a granule position only on pages where a packet ends, with begin/end-of-stream flags on the requested pages only. "
  "Writing a page that was read reproduces its bytes, and a malformed or short page is an error.",
  ["inputs", "histories"],
  "all lists of packet lengths including 0, 254, 255, 256, multiples of 255 and beyond one page, all flags and sequence numbers, all reading patterns (whole, partial, reset)",
  "Tests paginate two or three fixed packets.",
  ["ogg_pager/src/lib.rs", "ogg_pager/src/paginate.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/header.rs", "ogg_pager/src/crc.rs"],
  [("segment tables and page splitting", "ogg_pager/src/paginate.rs"), ("packet reassembly", "ogg_pager/src/packets.rs"), ("checksum", "ogg_pager/src/crc.rs")],
  [("packets", "sequence of byte strings", "ogg_pager/src/packets.rs")], ["paginate", "Packets", "Page::read/as_bytes", "PageHeader"])
p("C14", "Splitting a tag into generic and specific parts and merging loses nothing",
  "Splitting a format specific tag into a generic tag and a remainder and merging the two back yields a tag with the same content: the remainder keeps everything the generic form cannot express (unmapped keys, private and binary items, the vendor or header fields), and no item is in both parts. "
  "Converting an ID3v2 or MP4 tag to a generic tag and back under the default options likewise keeps what the generic form cannot express. Edits made to the generic part (inserting, pushing, removing items, adding and removing pictures) are reflected in the merged tag and touch nothing else. "
  "Only the documented normalisations apply (values of one key joined, aliases written under the canonical key, numbers without leading zeros, frame flags and encodings reset; RIFF INFO keeps no remainder).",
  ["inputs", "histories"],
  "all tags of every format mixing mappable, unmappable, repeated, binary and picture items, and all generic edits in between",
  "Tests split and merge one or two fixed tags per format.",
  [L+"tag/split_merge_tag.rs", L+"tag/companion_tag.rs", L+"id3/v2/tag/conversion.rs", L+"id3/v2/tag.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs"],
  [("SplitTag/MergeTag", L+"tag/split_merge_tag.rs and implementors"), ("companion tag", L+"tag/companion_tag.rs")], None, ["split_tag/merge_tag", "From conversions"])
p("C15", "Key mapping is consistent and conversions keep every expressible value",
  "A generic key that maps to a format key maps back to a generic key naming the same format key, and lookup ignores letter case where the format does. Converting a generic tag to a format keeps the value of every item the format can express under the format's key for it and invents nothing; converting back yields the same value, so the same logical field survives a trip through any format that supports it, in memory and through a file. Several values of one key are kept, in order, wherever the format is documented to hold several. (RIFF INFO ratings are excluded; ID3v1 keeps only genres of its list.)",
  ["inputs"],
  "every generic key, every format and every combination of keys that share a format key",
  "Tests convert one tag with a handful of keys.",
  [L+"tag/item.rs", L+"id3/v2/tag/conversion.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v1/tag.rs"],
  [("key tables", L+"tag/item.rs"), ("From<Tag> and From<format tag>", L+"*/tag*")], None, ["ItemKey::map_key/from_key", "From conversions"])
p("C16", "Global options are per thread, resolvers are process wide and consistent",
  "Options applied on one thread take effect for later operations on that thread and never on another; a thread that applied none sees the defaults. Registering a resolver makes it available to every thread from then on, under any interleaving of registrations, probes and reads; a name is registered at most once, and concurrent reads give the same results as sequential ones.",
  ["schedules", "histories"],
  "every interleaving of option changes, registrations, probes and reads over several threads",
  "Tests run each on one thread.",
  [L+"config/global_options.rs", L+"resolve.rs", L+"probe.rs", L+"util/alloc.rs"],
  [("thread local options", L+"config/global_options.rs"), ("mutex-protected resolver map", L+"resolve.rs")],
  [("options", "options per thread", L+"config/global_options.rs"), ("registry", "name -> resolver", L+"resolve.rs")], ["apply_global_options", "register_custom_resolver", "Probe"])
p("C17", "Parse options switch off exactly what they name",
  "Reading with tags disabled gives the same audio properties and no tags (of FLAC and Ogg files at most an empty comment), reading with properties disabled gives the same tags and default properties (no duration and no bitrate, rate, depth or channel count), and reading without cover art gives the same tags minus their pictures. On well formed files every parsing mode gives the same result, and whatever a stricter mode accepts, a more lenient mode accepts too, even for damaged files.",
  ["configurations", "inputs"],
  "every combination of options and modes over every format and layout",
  "Tests use the default options, or one option on one fixture.",
  [L+"config/parse_options.rs", L+"*/read.rs", L+"id3/v2/read.rs", L+"mp4/read/", L+"ogg/tag/read.rs"],
  [("option checks in every reader", L+"*/read.rs")], None, ["Probe::options + read"])
p("C18", "Format specific tags keep their own multimap semantics",
  "Each format specific tag behaves as its documented collection: keys compare the way the format compares them (case-insensitively where the format does), inserting replaces and returns what was there, pushing appends, removing returns exactly the removed values in order, and unrelated entries keep their values and stay retrievable. "
  "Invalid keys are refused, pictures obey the format's uniqueness rules, and length and emptiness agree with the contents.",
  ["histories"],
  "every sequence of collection operations for Vorbis comments, APE, MP4 ilst, ID3v2 and RIFF INFO tags",
  "Tests exercise single operations.",
  [L+"ogg/tag.rs", L+"ogg/picture_storage.rs", L+"ape/tag/mod.rs", L+"mp4/ilst/mod.rs", L+"mp4/ilst/atom.rs", L+"id3/v2/tag.rs", L+"id3/v2/frame/list.rs", L+"iff/wav/tag/mod.rs"],
  [("collection implementations", L+"*/tag*")],
  [("entries", "ordered list of entries", L+"*/tag*")], ["public methods of each tag"])
p("C19", "Accessors obey get/set/remove laws on every tag type",
  "After setting a common field, reading it returns the value set, for every tag type that supports the field; after removing it, reading returns nothing; and neither changes any other common field or any unrelated item. Setting twice leaves only the last value. Where a format stores a number and its total together, setting either keeps the other, and so does removing the total; removing the number removes the pair. Setting or removing a field that the format cannot store changes nothing.",
  ["histories"],
  "every sequence of set, remove and get over all fields and all tag types, with boundary numbers and texts, and after a save and re-read",
  "Tests set and read fields once, on fresh tags.",
  [L+"tag/accessor.rs", L+"tag/mod.rs", L+"id3/v1/tag.rs", L+"id3/v2/tag.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs"],
  [("Accessor implementations", L+"*/tag*")],
  [("fields", "field -> value or absent", "tag")], ["Accessor"])
p("C20", "Value formats parse and print consistently",
  "Timestamps, synchsafe integers, text encodings, frame identifiers, MIME types, picture types, genre references, popularimeter ratings and file extensions convert to text or bytes and back to the same value; parsing follows the documented grammar in each parsing mode, a value outside its field's range is refused rather than encoded, and decoding (synchsafe, unsynchronised streams, every text encoding) does not depend on how the bytes are chunked.",
  ["inputs"],
  "all values and all candidate texts up to a bounded length over the significant characters",
  "Tests list a few examples per type.",
  [L+"tag/items/timestamp.rs", L+"tag/items/popularimeter.rs", L+"id3/v2/util/synchsafe.rs", L+"util/text.rs", L+"picture/mod.rs"],
  [("parsers and Display impls", L+"tag/items/, "+L+"picture/, "+L+"id3/v2/util/")], None, ["parse / Display / From"])
p("C21", "All ways of writing a tag store the same thing",
  "Serialising a tag to a writer yields the same tag bytes that saving it embeds in a file; saving a generic tag stores what converting it to the format's own tag and saving that would store; and saving via a path, a file handle, an in-memory buffer or a tagged file gives the same result.",
  ["inputs", "configurations"],
  "every tag type, content, option and entry point",
  "Tests use one entry point at a time.",
  [L+"tag/tag_ext.rs", L+"tag/utils.rs", L+"id3/v2/write/", L+"ape/tag/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs", L+"iff/"],
  [("shared create_* routines", L+"*/write.rs"), ("tag dispatch", L+"tag/utils.rs")], None, ["TagExt::dump_to, save_to, save_to_path", "AudioFile::save_to"])
p("C22", "ID3v2 tags are encoded and decoded per the standard, in every version",
  "Written ID3v2.4 and ID3v2.3 tags are well formed per the standard (identifier, version, flags, synchsafe sizes, frame headers, encodings, terminators, no data beyond the declared size), and reading any standard-conforming v2.2, v2.3 or v2.4 tag, with or without unsynchronisation, extended header, footer, padding, grouping, data length indicators or compression, yields the frames it encodes under their v2.4 names.",
  ["inputs", "configurations"],
  "every frame type, version, text encoding and combination of tag and frame flags",
  "Tests decode a few fixtures per frame.",
  [L+"id3/v2/header.rs", L+"id3/v2/read.rs", L+"id3/v2/write/", L+"id3/v2/frame/", L+"id3/v2/items/", L+"id3/v2/util/"],
  [("header/frame codecs", L+"id3/v2/"), ("v2.2/v2.3 upgrades", L+"id3/v2/util/upgrade.rs")], None, ["Id3v2Tag::dump_to / read via Probe"])
p("C23", "Pictures survive every container unchanged",
  "A picture attached to any tag type that supports pictures reads back with the same image bytes and, as far as the format stores them, the same type, MIME type and description; picture kinds with uniqueness rules (the two file icons in ID3v2 and Vorbis comments, every kind in APE) are kept unique; dimensions, colour depth and palette size of PNG and baseline/progressive JPEG images and the kind of image are recognised from the image bytes alone; a MIME type a format has no code for is refused rather than changed.",
  ["inputs"],
  "every picture type, MIME type, description and data length (including empty, odd and multi-page), in every picture-capable tag",
  "Tests use one or two pictures.",
  [L+"picture/", L+"ogg/picture_storage.rs", L+"id3/v2/items/attached_picture_frame.rs", L+"ape/tag/mod.rs", L+"mp4/ilst/"],
  [("picture codecs", L+"picture/mod.rs, "+L+"id3/v2/items/attached_picture_frame.rs")], None, ["pictures()", "Picture::from_reader", "PictureInformation"])
p("C24", "Reported audio properties are those the stream headers encode",
  "Sample rate, channel count and mask, bit depth, duration and bitrate reported for a file are the ones its stream headers encode, for every valid header value, whatever the parsing mode, and independent of tags, junk or padding around the audio; so are the format's own properties (MPEG version and layer, codec, object type, encoder profile, replay gain fields, and so on). A channel count the format-independent properties cannot hold is left out of them.",
  ["inputs"],
  "all valid combinations of header fields of every format",
  "Tests read one fixture per format and compare constants.",
  [L+"mpeg/header.rs", L+"mpeg/properties.rs", L+"aac/header.rs", L+"aac/properties.rs", L+"flac/properties.rs", L+"iff/wav/properties.rs", L+"iff/aiff/properties.rs", L+"ape/properties.rs", L+"wavpack/properties.rs", L+"ogg/", L+"mp4/properties.rs", L+"musepack/"],
  [("header decoders", L+"*/properties.rs, "+L+"*/header.rs")], None, ["AudioFile::properties"])
p("C25", "The smaller tag formats are read and written as their definitions say",
  "A conforming APE (version 1 or 2), Vorbis comments, MP4 item list, RIFF INFO, AIFF text chunk or ID3v1 tag yields exactly the items its bytes encode, with their kinds, types, flags, numbers and pictures, in every layout the definition allows (with and without APE header, extended atom sizes, padding, free atoms, integers of one to four bytes, any type of data atom); the documented conversions of numbers, genres and cover art apply and parse options take out what they name. What these tags are written as conforms to the definition and encodes exactly the items of the tag.",
  ["inputs"],
  "all tags of these formats: every item kind, value and layout",
  "Tests read and write a few fixtures.",
  [L+"ape/tag/read.rs", L+"ape/tag/write.rs", L+"ogg/read.rs", L+"ogg/write.rs", L+"mp4/ilst/read.rs", L+"mp4/ilst/write.rs", L+"iff/wav/tag/", L+"iff/aiff/tag/", L+"id3/v1/"],
  [("decoders and encoders of the tags", L+"*/read.rs, "+L+"*/write.rs")], None, ["TagExt::dump_to", "AudioFile::read_from"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
