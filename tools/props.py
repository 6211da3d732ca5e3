import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
IO="src/metadata/metadata_io.rs"
FM=["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/vec.rs","src/tiff/file.rs"]
p("C01","Written metadata is read back, from every supported container",
  "After metadata has been written successfully into a well-formed JPEG, PNG, WebP, JPEG XL, HEIF or TIFF image, reading that image yields exactly the metadata written: the same tags with the same types and values in the same directories, and the same byte order. Writing valid metadata into a well-formed image succeeds, except where the metadata cannot be stored (a JPEG whose metadata does not fit into one APP1 segment, a TIFF without the tags that describe its pixels, a HEIF image whose item table has no room for the location or whose Exif item lies in several extents or inside the meta box). Reading a well-formed image yields the EXIF block it carries, in every standard place the library supports (for PNG also eXIf and raw profile text chunks, for JPEG XL also Brotli-compressed boxes).",
  ["inputs","histories"],"every supported format, every well-formed image of that format, every metadata content, after any history of earlier operations",
  "The tests write one or two tags into a handful of sample files; they do not vary the chunk layout, the presence and position of earlier EXIF carriers, padding parities, payload sizes or repeated edits.",
  [IO]+FM,[("write_to_vec / write_to_file dispatch",IO),("per format encode_metadata_*/read_metadata",", ".join(FM))],
  ["Metadata::write_to_vec","Metadata::write_to_file","Metadata::new_from_vec","Metadata::new_from_path"])
p("C02","Writing metadata leaves everything else in the image untouched",
  "Writing metadata into a well-formed image changes nothing but its EXIF: all image data, colour profiles, comments, text, unknown chunks, segments and boxes and trailing data remain, byte for byte and in the same order. The only further changes are the ones the format needs to hold EXIF (the WebP extended header, the JPEG XL container around a bare codestream, HEIF item tables and offsets) and, in PNG, the removal of EXIF items from XMP. A TIFF image is described by its tags, so writing replaces it as a whole.",
  ["inputs","histories"],"every supported format, every well-formed image, every metadata content, after any history of earlier operations",
  "No test compares the non-EXIF part of an image before and after a write; only the bundled sample files are ever written.",
  [IO]+FM,[("clear then insert at a computed position",", ".join(FM)),("range removal and insertion","src/util.rs")],
  ["Metadata::write_to_vec","Metadata::write_to_file"])
p("C03","Clearing removes all EXIF and nothing else",
  "After clearing the metadata of a well-formed JPEG, PNG, WebP or JPEG XL image no EXIF carrier of any supported kind is left in it and reading it yields no EXIF tag, however many carriers there were. A HEIF image with an Exif item keeps that item (the first, if there are several), reduced to orientation, resolution and resolution unit of the first directory; everything else in the image stays byte for byte and in order, and clearing an image without EXIF succeeds and changes nothing (except that a bare JPEG XL codestream is refused). For TIFF, where the image is described by tags, exactly the tags of the documented minimal set remain in every page, and no byte of the old file stays behind.",
  ["inputs","histories"],"every supported format, every well-formed image including images with several carriers of different kinds, after any history",
  "Tests clear a few samples with one carrier each and check that a read fails afterwards.",
  [IO]+FM,[("clear_metadata / file_clear_metadata",", ".join(FM)),("reduce_to_a_minimum","src/metadata/edit.rs")],
  ["Metadata::clear_metadata","Metadata::file_clear_metadata"])
p("C04","At most one EXIF carrier; results do not depend on earlier metadata",
  "After a successful write an image holds exactly one EXIF carrier, however many it held before (in HEIF the first Exif item; further Exif items, which belong to other pictures of the file, are items like any other), and writing the same metadata again leaves the image byte for byte unchanged. The resulting image depends only on the non-EXIF part of the image and on the metadata written last: any two histories of writes, edits and clears that agree on these end in identical bytes.",
  ["histories","inputs"],"all sequences of write, read-modify-write and clear on every well-formed image",
  "Tests perform single writes; accumulation, leftovers and drift only show over several operations with payloads of different sizes.",
  FM,[("clear before write",", ".join(FM)),("file truncation after a shorter write","src/jpg.rs, src/jxl.rs, src/tiff/file.rs")],
  ["Metadata::write_to_vec","Metadata::write_to_file","Metadata::clear_metadata"])
p("C05","The in-memory and the file interface do the same",
  "For every image and operation, operating on a file and operating on a byte vector with the file's content give the same result: the same outcome (success or failure), the same resulting bytes and the same metadata read. This includes clearing APP12 and APP13 segments.",
  ["inputs","histories"],"every supported format, every image (well-formed or not), every operation and history",
  "The two interfaces are separate code for WebP, TIFF and partly the other formats; tests never compare them.",
  [IO]+FM,[("vec and file variants",", ".join(FM))],["Metadata::write_to_vec vs write_to_file","new_from_vec vs new_from_path","clear_metadata vs file_clear_metadata"])
p("C06","Images stay structurally valid after every write or clear",
  "After a successful write or clear a well-formed image is still well-formed: lengths, checksums, padding, RIFF size and VP8X feature flags, box sizes, item locations and offsets agree with the content. The EXIF carrier sits where the format specification allows it (JPEG: after SOI and before the image data; PNG: after IHDR and before IEND; WebP: after VP8X and the image data; JPEG XL: after the file type box; HEIF: an Exif item described in the meta box and referring to the primary item).",
  ["inputs","histories"],"every supported format, well-formed image, metadata content (odd and even sizes), history",
  "Tests do not parse the written images with a format checker; only size parities and layouts that happen to occur in the samples are exercised.",
  FM+["src/png/chunk.rs","src/webp/riff_chunk.rs","src/heif/boxes/iloc.rs"],[("size, CRC and offset bookkeeping",", ".join(FM))],["bytes produced by write_to_vec / write_to_file / clear"])
p("C07","Reading never crashes or hangs, whatever the bytes",
  "Reading metadata from any byte string, with any declared file type, through memory or from a file, returns a result or an error; it does not panic, loop forever, overflow the stack or allocate memory out of proportion to the input (and to the size its compressed parts expand to).",
  ["inputs"],"all byte strings, in particular truncated, corrupted and adversarial images and EXIF blocks, and all file types",
  "Tests read a few regression samples; the failing inputs are structured corruptions (length fields, offsets, cyclic directories).",
  FM+["src/metadata/mod.rs","src/ifd/mod.rs","src/exif_tag/decode.rs","src/u8conversion.rs","src/heif/box_header.rs"],[("bounds checks in the parsers",", ".join(FM)),("decode of directories","src/metadata/mod.rs, src/ifd/mod.rs, src/exif_tag/decode.rs")],
  ["Metadata::new_from_vec","Metadata::new_from_path"])
p("C08","Writing and clearing never crash or hang on malformed images",
  "Writing metadata into, or clearing metadata from, any byte string with any declared file type returns success or an error; it does not panic, loop forever or exhaust memory.",
  ["inputs"],"all byte strings as image content, all file types, all modifying operations of both interfaces",
  "Tests modify intact images only.",
  [IO]+FM,[("bounds checks in the writers",", ".join(FM))],["Metadata::write_to_vec","write_to_file","clear_metadata","file_clear_metadata","clear_app12_segment","clear_app13_segment"])
p("C09","A failing operation leaves the image as it was",
  "When writing or clearing returns an error, the byte vector or file it was applied to is byte for byte what it was before (unless the file system refuses to put the old content back, too), and metadata that cannot be stored faithfully is refused rather than stored in truncated or corrupt form.",
  ["inputs","histories"],"every image (well-formed or malformed), metadata content and modifying operation that returns an error",
  "Tests never look at the target after an error; failures are rare inputs such as metadata beyond 64 KiB in JPEG or corruption discovered half way.",
  [IO,"src/jpg.rs","src/webp/file.rs","src/jxl.rs"],[("work on a copy / restore on failure",IO),("size check for APP1","src/jpg.rs")],["target bytes after Err from write_to_vec, write_to_file, clear_metadata, file_clear_metadata"])
p("C10","The metadata object behaves as a map from (group, tag) to value",
  "Setting a tag makes it retrievable with exactly that value under its group and number and replaces a previous value of the same tag; removing a tag removes it from every directory of that group and leaves all others alone. Iterating, querying by tag or by number and listing directories show exactly the tags that were set and not removed, each once, ordered by directory and tag number.",
  ["histories","inputs"],"all sequences of set, get, remove and directory operations, all tags and groups",
  "Tests set and read back a few tags; interactions between groups, directories, equal numbers in different groups and removal are combinatorial.",
  ["src/metadata/set.rs","src/metadata/get.rs","src/metadata/edit.rs","src/metadata/iterator.rs","src/ifd/set.rs","src/ifd/get.rs"],[("set_tag / get_tag / remove_tag","src/metadata/set.rs, src/metadata/get.rs, src/metadata/edit.rs")],["Metadata::{set_tag,get_tag,get_tag_by_hex,remove_tag,remove_tag_by_hex_group,get_ifds,into_iter}"],
  state=[("image_file_directories","the directories and their tags","src/metadata/mod.rs")])
p("C11","Directories are created, numbered and ordered consistently",
  "Asking for a directory that does not exist creates exactly it and the directories it hangs from, asking again returns the same one, and directories are always listed ordered by number and group with no duplicates. The reported highest generic directory number is the highest one present, and every tag of every directory survives an encode and decode under the same group and number.",
  ["histories"],"all sequences of directory creation, tag placement and encode/decode steps",
  "Tests use directory 0 and one thumbnail directory only.",
  ["src/metadata/get.rs","src/metadata/set.rs","src/metadata/mod.rs","src/ifd/mod.rs"],[("get_ifd_mut / create_ifd / sort_data","src/metadata/get.rs, src/metadata/mod.rs")],["Metadata::{get_ifd,get_ifd_mut,create_ifd,get_ifds,get_max_generic_ifd_number}"])
p("C12","The encoded EXIF block is a well-formed TIFF structure",
  "Encoding any metadata object gives a block in which every directory lies inside the block, has its entries in ascending tag order with no tag twice (unless the block the object was read from already had it twice), and every entry's type, count and value are exactly those of the tag set, with values of at most four bytes stored inline and longer ones at offsets inside the block that overlap nothing else. Sub-directories and following directories are linked by the right offsets, and no tag of the object is left out, apart from those the tag table marks as not writable.",
  ["inputs","histories"],"all metadata objects that can be built through the public interface: all tags, types, counts, directories, both byte orders",
  "Tests decode their own output with the library itself; errors that encoder and decoder share, or that only external readers notice (order, overlap, inline rule), stay invisible.",
  ["src/metadata/mod.rs","src/ifd/mod.rs","src/exif_tag/mod.rs"],[("encode / encode_ifd","src/metadata/mod.rs, src/ifd/mod.rs"),("tag value to bytes","src/exif_tag/mod.rs, src/u8conversion.rs")],["Metadata::as_u8_vec","Metadata::encode","written images"])
p("C13","Both byte orders are read and written faithfully",
  "An EXIF block gives the same tags and values whether it is stored in big or in little endian order, metadata read from a block is written back in the byte order it was read in, and the byte order of a block concerns multi-byte numbers only, not byte or character strings.",
  ["inputs"],"all types, counts and values, both byte orders, read, write and read-modify-write",
  "Big endian is only exercised by single sample files.",
  ["src/endian.rs","src/u8conversion.rs","src/rational.rs","src/metadata/mod.rs"],[("endian dispatch in conversions","src/u8conversion.rs"),("endianness detection","src/metadata/mod.rs")],["Metadata::get_endian","new_from_vec","write_to_vec"])
p("C14","Decoded types follow the tag table, or are rejected, never altered",
  "When a stored entry has the type its tag is defined with, its value is decoded exactly; when it has another type, the value is either converted to the defined type without changing the number it denotes, or the entry is reported as an error. Entries of unknown tags keep their stored type and bytes exactly.",
  ["inputs"],"all known tags, all stored types, counts and values, both byte orders",
  "There is one test per conversion at most; the product of tags, stored types and boundary values is never covered.",
  ["src/exif_tag/decode.rs","src/exif_tag/mod.rs","src/exif_tag_format.rs"],[("decode_tag_with_format_exceptions","src/exif_tag/decode.rs"),("tag table","src/exif_tag/mod.rs")],["Metadata::new_from_vec followed by get_tag"])
p("C15","Any legal layout of an EXIF block decodes to the same content",
  "The decoded content of an EXIF block does not depend on where directories and values are placed in it: directories in any order, gaps, shared or unsorted value areas, sub-directory pointers and a chain of following directories all give the tags they describe. A block whose directories refer back to themselves is decoded or rejected in finite time.",
  ["inputs"],"all layouts of well-formed EXIF blocks, and all directory graphs including cyclic ones",
  "Sample images come from a few writers with similar layouts.",
  ["src/metadata/mod.rs","src/ifd/mod.rs"],[("general_decoding / decode_ifd","src/metadata/mod.rs, src/ifd/mod.rs")],["Metadata::new_from_vec"])
p("C16","EXIF is removed from XMP without damaging the packet",
  "When metadata is written to or cleared from a PNG with an XMP text chunk (compressed or not), every element and attribute of the exif namespace prefix is removed from the packet, with all its descendants, and every other element, attribute, text, comment and processing instruction stays, in order. The chunk keeps its type, keyword, language and compression, and the packet stays well-formed XML.",
  ["inputs"],"all well-formed XMP packets: nesting, empty elements, attributes, text, CDATA, and the three PNG text chunk types",
  "Two sample packets are tested; nesting of other elements inside exif elements and compressed chunks are not.",
  ["src/xmp.rs","src/png/text.rs","src/png/mod.rs"],[("remove_exif_from_xmp","src/xmp.rs"),("construct_similar_with_new_data","src/png/text.rs")],["PNG bytes after write_to_vec / clear_metadata"])
p("C17","Clearing APP12 or APP13 removes exactly these JPEG segments",
  "Clearing the APP12 (or APP13) segments of a JPEG removes every such segment in front of the image data and nothing else, in memory and in files; for other formats the request is refused and nothing changes.",
  ["inputs","histories"],"all well-formed JPEG segment sequences, all other formats",
  "There is no test with several such segments or with look-alike bytes in other segments or image data.",
  ["src/jpg.rs",IO],[("clear_segment / file_clear_segment","src/jpg.rs")],["Metadata::{clear_app12_segment,clear_app13_segment,file_clear_app12_segment,file_clear_app13_segment}"])
p("C18","HEIF items keep their data when EXIF is added, replaced or removed",
  "After writing or clearing metadata in a HEIF/HEIC/AVIF image, every item other than the EXIF item (the first Exif item, if there are several) has the same type, name, properties, references and the same data bytes at the location its item entry gives, for every way of storing items (any offset and length field sizes, several extents, base offsets, data in mdat or idat, mdat before or after meta).",
  ["inputs","histories"],"all HEIF item layouts of the supported box versions and all histories of writes and clears",
  "Tests write to one or two sample files and check the EXIF only, not whether the other items still resolve to their data.",
  ["src/heif/container.rs","src/heif/boxes/iloc.rs","src/heif/boxes/meta.rs","src/heif/boxes/iinf.rs","src/heif/boxes/iref.rs"],[("generic_write_metadata / generic_clear_metadata","src/heif/container.rs"),("item location update","src/heif/boxes/iloc.rs")],["bytes of the image after write_to_vec / clear_metadata, resolved through iloc"])
p("C19","The file type decides the format, consistently",
  "Each supported file name extension, in any letter case, selects its format, an unsupported one is refused, and a missing file is an error. When reading from a path the format recognised from the content takes precedence over the extension, so a well-formed image is read correctly under the extension of any other supported format. Writing and clearing follow the extension, and are refused without touching the file when the content is of another format (a TIFF is written as a whole); calls on byte vectors follow the declared format in the same way.",
  ["inputs","configurations"],"all extensions and letter cases, all pairs of content format and extension",
  "Tests cover a few matching pairs.",
  ["src/filetype.rs",IO],[("get_file_type / auto_detect","src/filetype.rs"),("precedence in new_from_path",IO)],["Metadata::new_from_path","Metadata::write_to_file","FileExtension parsing"])
p("C20","Simple WebP files are converted to the extended format correctly",
  "Writing metadata to a simple WebP file (one VP8 or VP8L chunk) puts a VP8X chunk in front whose canvas is exactly the size in the bitstream and whose alpha flag is the one of a VP8L bitstream, sets the EXIF flag and keeps the bitstream chunk as it is. For every width and height the bitstream can express, the in-memory and the file interface agree.",
  ["inputs"],"all widths and heights from 1 to 16383 (VP8) or 16384 (VP8L), alpha bit, payload sizes",
  "One simple file is tested, through one interface; the dimension arithmetic is only wrong for sizes that do not occur there.",
  ["src/webp/vec.rs","src/webp/file.rs","src/webp/mod.rs"],[("convert_to_extended_format","src/webp/vec.rs, src/webp/file.rs"),("get_dimension_info_from_*","src/webp/mod.rs, src/webp/vec.rs, src/webp/file.rs")],["WebP bytes after write_to_vec / write_to_file"])
p("C21","TIFF image data stays reachable after metadata is written or cleared",
  "After reading a TIFF image's metadata, changing it and writing it back, or clearing it, every page of the image has the same strips (same bytes, same count and order), the same thumbnail and the same layout tags as before (after clearing: those of the documented minimal set), whatever the layout of the original file and its byte order. Writing metadata that lack the tags needed to show an image (dimensions, compression, interpretation, strips, resolution) is refused and leaves the file alone.",
  ["inputs","histories"],"all TIFF files with strips (single and multi strip, several pages, arbitrary placement) and histories of edits and clears",
  "Tests edit one sample file and do not compare pixel data.",
  ["src/tiff/vec.rs","src/tiff/file.rs","src/ifd/mod.rs","src/metadata/edit.rs"],[("strip data carried as tag data","src/ifd/mod.rs, src/exif_tag/mod.rs"),("check_for_required_tags","src/tiff/mod.rs")],["TIFF bytes after write_to_vec / write_to_file / clear_metadata"])
p("C22","Reducing metadata keeps exactly the tags needed to decode a TIFF",
  "Reducing a metadata object to a minimum keeps, in every generic directory, exactly the tags that describe the stored image (dimensions, compression, interpretation, strips, resolution and the like) with their values, and removes every other tag and all EXIF, GPS and interoperability directories.",
  ["inputs","histories"],"all metadata objects",
  "No test compares the remaining tags with the full list.",
  ["src/metadata/edit.rs"],[("reduce_to_a_minimum","src/metadata/edit.rs")],["Metadata::reduce_to_a_minimum followed by iteration"])
p("C23","The exported EXIF block is the one a write embeds",
  "The bytes exported for a format are exactly the carrier that writing the same metadata puts into an image of that format: the APP1 segment for JPEG, the text chunk content for PNG, the EXIF chunk for WebP and the item data for HEIF (of an image without Exif item: an existing one keeps the header in front of its EXIF block). Exporting for a format without such a form is an error, and exporting does not change the metadata.",
  ["inputs"],"all metadata objects and file types",
  "Tests embed the exported bytes of single samples by hand.",
  [IO,"src/jpg.rs","src/png/mod.rs","src/webp/mod.rs","src/heif/mod.rs"],[("as_u8_vec",IO)],["Metadata::as_u8_vec vs write_to_vec"])
p("C24","Unedited tags survive a read-modify-write bit for bit",
  "Reading the metadata of an image, setting or removing one tag and writing it back changes that tag only: every other tag, known or unknown to the library, in every directory, keeps its type, count and value bits, and thumbnails keep their bytes. Exempt are tags the tag table marks as not writable, known tags stored with another type than the defined one (which are converted), terminators and non-UTF-8 bytes of strings, and offset or length tags without their counterpart.",
  ["histories","inputs"],"all EXIF contents with all types and values (including NaN payloads, non-ASCII text, empty values) and all edit sequences",
  "Tests check the tag they edit, not the ones they do not.",
  ["src/metadata/mod.rs","src/exif_tag/decode.rs","src/u8conversion.rs","src/ifd/mod.rs"],[("decode followed by encode","src/metadata/mod.rs, src/ifd/mod.rs")],["new_from_vec / set_tag / write_to_vec round trip"])
p("C25","Numbers are converted to rationals and back without distortion",
  "Converting a floating point number to an EXIF rational gives a fraction in lowest terms that differs from the number (for the unsigned type from its magnitude) by at most one part in 10^9 of it, or of one where it is smaller; a fraction of two integers up to 10^5 comes back as exactly that fraction. The sign is kept by the signed type, numbers beyond the range give the largest value of the type, NaN gives 0/0, integers stay integers. The way back gives the value of the fraction, and no conversion panics.",
  ["inputs"],"all floating point numbers and integers, all rationals of both types, including zero denominators",
  "There are no tests of the conversions beyond single values; the limits of the integer types and the end of the continued fraction are only reached by special numbers.",
  ["src/rational.rs"],[("f64_to_rational","src/rational.rs"),("From implementations","src/rational.rs")],["uR64::from, iR64::from, f64::from, u32::from"])
p("C26","Tags and the tag table describe themselves consistently",
  "A tag can be looked up by its number and group exactly if the table defines it there (strip and thumbnail tags: in every group), and every tag reports the number, group, type, component count, writability, directory it points to and bytes that belong to its definition and value. Making a tag from raw data gives the defined tag (or an unknown tag of the given type where the number is not defined) with the value these bytes denote in the given byte order, or an error if they are no whole number of components; turning values into bytes and back is the identity in both byte orders for all supported numeric types, single or in vectors.",
  ["inputs"],"all 65536 numbers in all groups, all types, byte orders and raw data",
  "Tests look up a handful of tags; the table is generated by macros over some 150 rows, 12 types and 24 conversions.",
  ["src/exif_tag/mod.rs","src/exif_tag_format.rs","src/u8conversion.rs","src/ifd/get.rs"],[("build_tag_enum","src/exif_tag/mod.rs"),("U8conversion","src/u8conversion.rs"),("get_offset_tag_for_parent_ifd","src/ifd/get.rs")],["ExifTag::from_u16, from_u16_with_data and the accessors of ExifTag, ExifTagFormat, U8conversion"])
p("C27","A failing file system call never damages an image",
  "When any one of the calls an operation on a file makes (opening, reading, writing, seeking, resizing) fails, is interrupted or handles less than it was asked for, or when the disk has no room for the larger file, the operation either has exactly the effect it has otherwise, or returns an error and leaves the file byte for byte as it was. A read gives the same metadata or an error. A refused write is never reported as success, and nothing panics.",
  ["fault_sequences","inputs"],"all files of the supported formats, operations, positions and kinds of a single failing call, all limits of the file size",
  "Tests run on a file system that never fails; every call is a failure point of its own.",
  ["src/metadata/metadata_io.rs","src/webp/file.rs","src/heif/mod.rs","src/jxl.rs","src/jpg.rs","src/png/mod.rs","src/tiff/file.rs","src/general_file_io.rs"],[("modify_file","src/metadata/metadata_io.rs")],["file content and result of write_to_file, file_clear_metadata, new_from_path under injected faults"])
p("C28","File calls change nothing but the content of the file they are given",
  "Reading metadata or determining a file type changes nothing in the file system and opens nothing for writing. Writing or clearing changes the content of the file its path leads to and nothing else: no file is created, removed, renamed or replaced, permissions and owner stay, symbolic links still lead to it and all its names (hard and symbolic links) show the new content. This holds however the path is spelled and whether the call succeeds or fails, and no descriptor stays open.",
  ["inputs","histories"],"all trees of files, directories, symbolic and hard links, all paths (relative, absolute, through links, to missing files and directories), all histories of calls",
  "Tests copy a sample to a new name, call one function and look at that file only.",
  [IO,"src/general_file_io.rs","src/webp/file.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/heif/mod.rs","src/tiff/file.rs","src/filetype.rs"],[("open_read_file / open_write_file","src/general_file_io.rs"),("modify_file",IO)],["directory listings, attributes and contents after write_to_file, file_clear_metadata, new_from_path, get_file_type"])
p("C29","Calls on different files do not influence each other",
  "Calls on different files (or different byte vectors), and calls that only read the same file, may go on at the same time in several threads: each gives the result it gives alone and leaves its file as it would alone, whatever the order in which their steps are executed. The result of a call does not depend on earlier calls either, but only on its arguments and on what the file it is given holds at the time, whoever wrote that.",
  ["schedules","histories"],"all interleavings of the file system calls of concurrent calls on any files, all earlier calls",
  "Tests that run in parallel by chance use different sample files and no controlled interleaving.",
  [IO,"src/general_file_io.rs","src/webp/file.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/heif/mod.rs","src/tiff/file.rs"],[("modify_file",IO)],["results and files after concurrent write_to_file, file_clear_metadata and new_from_path"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
