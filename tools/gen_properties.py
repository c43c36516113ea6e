#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property). Source of truth for the property texts."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

p("C01", "A built disc image reads back exactly as it was defined",
  "For every partition definition handed to the disc builder, opening the finished image with this library's reader gives back the same directory tree (names, nesting, order, lengths), the same bytes for every file, the boot executable (DOL), the apploader and bi2, and the same partition header fields, disc header, region, ticket and certificates. The TMD is also unchanged except for the fields the builder recomputes (signature, fake-sign filler, size and hash of the first content). This holds for every size and placement, including data that spans or ends exactly on block (0x7C00), group (0x1F0000) and 16 MiB boundaries and images larger than 4 GiB.",
  ["inputs", "configurations"],
  "all partition definitions: trees, file sizes and paddings, sizes of bi2/apploader/DOL/FST, tickets (both common keys), TMDs, certificates, 1..n partitions",
  "No existing test builds an image at all; test_write exercises the encrypted stream once with one size and has its cross-group assertion commented out.",
  ["src/builder.rs", "src/reader_writer.rs", "src/new_reader.rs", "src/fst.rs", "src/structs.rs", "src/window.rs"],
  [("partition assembly and offset bookkeeping", "src/builder.rs add_partition"), ("group cache write-back and reload", "src/reader_writer.rs Write impl"), ("group load and decrypt", "src/new_reader.rs do_load_group")],
  ["WiiDiscBuilder::add_partition/finish then WiiIsoReader::open/open_partition, open_file, read_dol, read_apploader, read_bi2, read_tmd, read_certificates"])

p("C02", "Built images are valid Wii discs for an independent decoder",
  "Every finished image decodes under an independent implementation of the Wii disc format: each 0x8000 block is AES-CBC encrypted under the ticket's title key with the stored IV rule, the H0/H1/H2 tables of every block and the H3 table entry of every group match the data, the TMD carries the SHA-1 of the H3 table and the content size, has a zeroed signature and a SHA-1 starting with a zero byte, and the decoded tree and contents equal the inputs. All header offsets and sizes (partition table, partition header, disc header, file table, files) lie inside the partition, point at the right data and never overlap.",
  ["inputs", "configurations"],
  "all partition definitions, in particular those whose data, file table or executable cross group boundaries or whose files force earlier groups to be rewritten",
  "A mistake made symmetrically by writer and reader is invisible to round trips, and the reader never checks hashes; no test verifies a hash, an H3 entry, a TMD or an offset.",
  ["src/builder.rs", "src/reader_writer.rs", "src/structs.rs", "src/fst.rs", "src/lib.rs"],
  [("hash tree and encryption", "src/reader_writer.rs hash_encrypt_block"), ("H3 slot per group", "src/reader_writer.rs Write impl / flush"), ("TMD fix-up and fake signing", "src/builder.rs add_partition"), ("title key encryption", "src/structs.rs Ticket")],
  ["bytes of the finished image"])

p("C03", "The reader returns the exact plaintext of any well-formed image",
  "For every well-formed image with encrypted DATA, UPDATE and CHANNEL partitions, whoever produced it and wherever it places its partition tables, partitions (also beyond 4 GiB), system areas, file table and files, the reader reports the right partitions, header, region and file tree, and every read returns exactly the bytes stored there, up to the end of the partition data and never beyond it. This holds for every sequence and interleaving of reads and seeks over files, raw partition streams and several open partitions of the same image.",
  ["inputs", "histories", "configurations"],
  "all well-formed images times all histories of open/seek/read operations over their partitions",
  "No test opens an image; caching of the current decrypted group makes results depend on the history of previous reads.",
  ["src/new_reader.rs", "src/structs.rs", "src/fst.rs", "src/window.rs"],
  [("group cache keyed by group index", "src/new_reader.rs EncryptedPartState"), ("partition table walk", "src/structs.rs read_parts"), ("system area readers", "src/new_reader.rs read_bi2/read_apploader/read_dol")],
  ["WiiIsoReader, WiiPartitionReadInfo, CryptPartReader public methods"],
  [dict(name="group_cache/current_group", meaning="last decrypted group", where="src/new_reader.rs")])

p("C04", "Opened files and I/O windows behave like bounded files",
  "For every sequence of reads, exact reads, writes and seeks (from start, from the current position and, when the length is known, from the end), an I/O window or an opened file of a partition behaves like an ordinary file whose byte 0 is the window start and whose size is the window length: reads stop at the end, exact reads succeed exactly when enough bytes remain, the reported position is right, and no operation ever reads or changes a byte outside the window. The state of the underlying stream before the window was created does not matter.",
  ["inputs", "histories"],
  "all windows (start, optional length) over all sources and all operation histories",
  "The two window tests run one fixed sequence each; they never call read_exact with a length-limited window, never seek relative before reading and never write near the end.",
  ["src/window.rs", "src/new_reader.rs"],
  [("position arithmetic and clamping", "src/window.rs IOWindow"), ("file windows", "src/new_reader.rs open_file/open_window")],
  ["IOWindow Read/Write/Seek; WiiPartitionReadInfo::open_file/open_window"])

p("C05", "File-table edits follow a case-insensitive sorted tree model",
  "For every history of add, find, remove and reorder operations, the in-memory file table equals a reference tree: adding resolves path components ignoring ASCII case, creates missing directories, replaces and returns an existing node of that name, and fails without any change when a path component is a file; finding and removing match names exactly and affect only the addressed node. Every directory stays ordered by name ignoring ASCII case, reordering only permutes siblings, and the visitor functions see every node (or file) exactly once, in order, with its full path.",
  ["histories", "inputs"],
  "all operation histories over all trees and names (colliding spellings, prefixes, non-ASCII names, odd slashes)",
  "test_add/test_remove/test_find check a handful of fixed calls on lower-case names.",
  ["src/fst.rs"],
  [("binary search insert", "src/fst.rs add_node_iter"), ("exact lookup", "src/fst.rs find_node_iter/remove_node_iter"), ("ordering", "src/fst.rs ordering_ignore_case/fix_ordering"), ("visitors", "src/fst.rs callback_all_files*")],
  ["Fst and FstToBytes public methods"])

p("C06", "File-table encoding is lossless and well-formed, or refused",
  "For every tree, serialising the file table and reading it back gives the identical tree (names, nesting, order, offsets, lengths, empty directories included), and the bytes are a well-formed table for an independent parser: entry count, parent and next indices, 24-bit name offsets and NUL-terminated Shift-JIS names. A name that Shift-JIS cannot represent exactly is refused with an error instead of being stored as something else.",
  ["inputs"],
  "all trees: depth, fan-out, empty directories, single- and double-byte names, table position in the stream, offsets up to 16 GiB",
  "test_build round-trips one four-node ASCII tree and never inspects the bytes.",
  ["src/fst.rs"],
  [("serialiser", "src/fst.rs FstToBytes"), ("parser", "src/fst.rs Fst::read")],
  ["FstToBytes::try_from/write_to, Fst::read"])

p("C07", "Rebuilding from a directory packs exactly that directory",
  "Building an image from an extracted directory yields an image whose DATA partition contains exactly the regular files found under the directory's files folder (symbolic links count as what they point to), each once, under its path and with its content, with siblings ordered by name ignoring case, plus the given system files, ticket, certificates, TMD and region, and with the disc header's disable-hash and disable-encryption flags cleared. The image depends only on names and contents, not on the order in which the file system lists or received them. A directory that cannot be represented (missing system file, names that collide ignoring case, names not representable, malformed metadata, special files, files too large for the format) is refused with an error.",
  ["inputs", "configurations"],
  "all directory trees and contents, creation orders, and unrepresentable trees",
  "test_dir_read only lists ./src and counts the entries; build_from_directory is never called.",
  ["src/builder.rs", "src/dir_reader.rs", "src/fst.rs"],
  [("directory walk", "src/dir_reader.rs"), ("file supplier", "src/builder.rs DirPartitionBuilder"), ("header fix-up", "src/builder.rs build_from_directory")],
  ["builder::build_from_directory"])

p("C08", "Extraction writes every file of a section exactly",
  "Extracting prepared sections of an image through the Python extractor writes, for every file of the section, a file at that path with exactly that content, plus the system files (boot header, bi2, apploader, main.dol, fst), ticket, TMD, certificates, disc header and region with exactly the content stored in the image, each under the section's own folder, and nothing else. If some content cannot be read completely the extraction raises an error instead of leaving a silently shortened file.",
  ["inputs", "configurations"],
  "all well-formed images and choices of sections, and images whose data ends early",
  "The Python crate has no tests at all and is only compile-checked.",
  ["disc-riider-py/src/lib.rs", "src/new_reader.rs"],
  [("copy loop", "disc-riider-py/src/lib.rs extract_to"), ("system files", "src/new_reader.rs extract_system_files")],
  ["disc_riider_py.WiiIsoExtractor.extract_to"])

p("C09", "Selective extraction removes exactly the files the callback names",
  "After any sequence of section preparations and filter calls, extraction leaves out exactly the files for which some filter callback, called once per still-remaining file with its slash-separated path, returned a true value (an exception counts as false), and everything else is extracted unchanged. Section names are accepted in any letter case; unknown, absent, unprepared or twice-prepared sections raise an exception and change nothing; the reported DOL hash is the SHA-1 of the section's main.dol.",
  ["histories", "inputs"],
  "all histories of prepare/filter/hash/extract calls over all images",
  "The Python crate has no tests at all.",
  ["disc-riider-py/src/lib.rs"],
  [("filter", "disc-riider-py/src/lib.rs remove_files_by_callback"), ("section bookkeeping", "disc-riider-py/src/lib.rs prepare_extract_section")],
  ["disc_riider_py.WiiIsoExtractor methods"])

p("C10", "Malformed images are rejected with an error, never a crash",
  "For every byte stream offered as an image (truncated, bit-flipped, or with arbitrary values in any header, table, ticket, file-table, DOL or apploader field), opening it, opening its partitions, reading its metadata, system areas and files, copying it and extracting it either succeeds or returns an error: it never panics, overflows the stack or uses memory out of proportion to the stream because of an untrusted field. The same holds for parsing each on-disc structure from arbitrary bytes.",
  ["inputs"],
  "all byte streams, in particular near-valid images with one or several corrupted fields",
  "Existing tests never feed malformed data; the code itself carries 'can bad data cause a panic here?' notes.",
  ["src/new_reader.rs", "src/fst.rs", "src/structs.rs"],
  [("binrw parsing and Result plumbing", "src/structs.rs, src/new_reader.rs"), ("file-table index checks", "src/fst.rs Fst::read")],
  ["WiiIsoReader::open/open_partition and all read_* methods, Fst::read, structs::* read_be"])

p("C11", "I/O failures are reported and leave no wrong data behind",
  "If any single read, write, seek or flush of the underlying stream fails at any point while building or reading, the operation in progress returns an error, unless the result is still complete and correct; it never panics and never reports success for an incomplete image or wrong data; a finished image has been flushed, so a failing flush cannot go unnoticed. After a failed read the reader stays usable: later reads that succeed return the right bytes. A failing file supplier or callback error of a partition definition is passed through as that error. Storage that runs full makes the command-line tool exit with an error and the Python functions raise.",
  ["fault_sequences", "crash_points"],
  "every I/O operation index at which a failure can be injected, for all builds and read histories",
  "Existing tests run only on infallible in-memory cursors.",
  ["src/builder.rs", "src/reader_writer.rs", "src/new_reader.rs", "src/window.rs"],
  [("error propagation", "src/builder.rs, src/reader_writer.rs"), ("cache invalidation before load", "src/new_reader.rs do_load_group"), ("re-seek after error", "src/window.rs")],
  ["return values of builder and reader calls over failing streams"])

p("C12", "Short reads, short writes and interruptions do not change results",
  "Building onto or reading from a stream that transfers fewer bytes than asked, or reports an interruption that may be retried, gives byte-identical images and identical read results to a stream that always transfers everything. This holds for every pattern of short transfers and interruptions.",
  ["schedules", "inputs", "fault_sequences"],
  "all schedules of partial transfers and Interrupted errors over all builds and read histories",
  "Existing tests run only on in-memory cursors, which never transfer partially.",
  ["src/builder.rs", "src/reader_writer.rs", "src/new_reader.rs", "src/window.rs"],
  [("write_all/read_exact use", "src/reader_writer.rs, src/new_reader.rs, src/builder.rs")],
  ["image bytes and read results over throttled streams"])

p("C13", "The disc's partition list is exactly the partitions that were added",
  "After any history of adding partitions (some of which fail) and finishing, the image lists exactly the successfully added partitions, in order, with the right types, at non-overlapping places, and each one reads back as if it had been built alone. Adding a partition or finishing again never damages partitions added before, and the destination's initial stream position does not matter.",
  ["histories", "fault_sequences"],
  "all histories of add (succeeding, failing at any stage) and finish calls",
  "No test uses the disc builder.",
  ["src/builder.rs", "src/window.rs"],
  [("running data offset and partition list", "src/builder.rs WiiDiscBuilder"), ("partition window", "src/window.rs")],
  ["WiiDiscBuilder::create/add_partition/finish, then WiiIsoReader::partitions/open_partition"],
  [dict(name="current_data_offset/partitions", meaning="where the next partition goes and what is listed", where="src/builder.rs")])

p("C14", "On-disc structures keep their byte layout and round-trip",
  "For every field value (titles of at most 64 bytes without NUL or private-use characters), each on-disc structure (disc header, partition header, ticket, TMD, certificate, DOL header, apploader header, partition table entry) is parsed from and written to the byte offsets of the Wii format, has the format's total size, and decoding an encoded value gives the same value. The ticket's title key is decrypted and encrypted under the common key the ticket selects, with the title id as IV.",
  ["inputs"],
  "all field values of all structures",
  "No test touches structs.rs.",
  ["src/structs.rs", "src/lib.rs"],
  [("binrw derive layouts", "src/structs.rs"), ("shifted offsets", "src/lib.rs ShiftedU64")],
  ["BinRead/BinWrite of the public structures"])

p("C15", "Progress reports are monotone percentages that end at 100",
  "While rebuilding a directory or extracting a section, the progress callback is first called with 0, never with a value above 100, never with a smaller value than before within the same section, and its last value is 100 whenever there was at least one byte to process (for rebuilding, at least one file). Reporting progress never influences the output, even when a Python callback raises.",
  ["inputs", "histories"],
  "all trees, file sizes (empty, tiny, larger than one batch) and filters",
  "No test observes a callback value.",
  ["src/builder.rs", "disc-riider-py/src/lib.rs"],
  [("byte and file based progress", "src/builder.rs add_partition"), ("extraction progress", "disc-riider-py/src/lib.rs extract_to")],
  ["callback arguments of build_from_directory, rebuild_from_directory, extract_to"])

p("C16", "The command-line tool reports and extracts what the image holds",
  "For every well-formed image the tool lists each partition with its type and offset in table order, prints every node of the chosen section's file tree once in tree order with two blanks of indentation per level, and extracts exactly the section's system files; section names are accepted in any letter case. Rebuilding a directory with the tool gives the same image as the library. Unknown or absent sections, unreadable images and unbuildable directories give a non-zero exit status with a message, without a panic.",
  ["inputs", "configurations"],
  "all images, sections and argument spellings",
  "iso-tool has no tests and is only compile-checked.",
  ["iso-tool/src/main.rs", "src/new_reader.rs", "src/fst.rs"],
  [("subcommands", "iso-tool/src/main.rs"), ("tree printing", "src/fst.rs print_tree")],
  ["stdout, exit status and output files of the iso-tool binary"])

p("C17", "Extraction never writes outside the destination directory",
  "Whatever names an image's file table contains (parent references, absolute paths, embedded separators, dots), extracting it creates or modifies nothing outside the section folders of the destination directory; such names make the extraction fail with an error. Ordinary names that merely contain dots or blanks are still extracted.",
  ["inputs"],
  "all file tables, in particular hostile names at any depth",
  "The Python crate has no tests; no test has hostile names.",
  ["disc-riider-py/src/lib.rs", "src/fst.rs"],
  [("path construction", "disc-riider-py/src/lib.rs extract_to")],
  ["file system outside the destination after extract_to"])

p("C18", "Copy-building keeps the DATA partition apart from trimmed movies",
  "Copying an image with the copy builder produces a valid image with a single DATA partition whose system areas, ticket, certificates, header, region, directory tree and file contents equal the source's DATA partition, except that the top-level THP directory keeps only the entries whose names start with Demo. The source image is not modified.",
  ["inputs", "configurations"],
  "all well-formed source images with a DATA partition and a THP directory, whatever other partitions and layouts they have",
  "build_copy is never called by a test.",
  ["src/builder.rs", "src/new_reader.rs"],
  [("copy definition", "src/builder.rs CopyBuilder/build_copy")],
  ["builder::build_copy"])

p("C19", "Extract and rebuild is lossless and stabilises",
  "Extracting the DATA section of any well-formed image, rebuilding the extracted directory and extracting again gives the same directory (apart from file-table and header offsets and the recomputed TMD fields), so no file, system area or metadata is lost or altered by a repack. From the second rebuild on, extracting and rebuilding reproduces the image byte for byte.",
  ["inputs", "histories"],
  "all well-formed images; arbitrarily long chains of extract/rebuild",
  "No test runs either half of the pipeline.",
  ["disc-riider-py/src/lib.rs", "src/builder.rs", "src/new_reader.rs", "src/structs.rs"],
  [("extract_to", "disc-riider-py/src/lib.rs"), ("build_from_directory", "src/builder.rs")],
  ["disc_riider_py.WiiIsoExtractor and rebuild_from_directory"])

p("C20", "Commands change nothing but the output they were given",
  "Listing, printing, extracting, rebuilding and copying (command-line tool, Python module and library) need no more than read access to their inputs and leave them exactly as they were, whether they succeed or fail. They create and change nothing except the named output: extract-sys only the five system files below the destination's sys folder, extraction only the section folders below the destination, rebuilding and copying only the destination file; other files next to inputs, outputs or in the working directory stay untouched.",
  ["inputs", "histories"],
  "all images and directories, all sequences of successful and failing commands",
  "No test runs the tool or the Python module, or looks at the file system after an operation.",
  ["iso-tool/src/main.rs", "disc-riider-py/src/lib.rs", "src/builder.rs", "src/new_reader.rs"],
  [("tool commands", "iso-tool/src/main.rs main"), ("extraction and rebuild", "disc-riider-py/src/lib.rs extract_to/rebuild_from_directory"), ("system files", "src/new_reader.rs extract_system_files"), ("copy and directory builds", "src/builder.rs build_copy/build_from_directory")],
  ["file system before and after each command"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
