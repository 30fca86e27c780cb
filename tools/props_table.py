ENGINE = "whole-program abstract interpretation of the LLVM IR, "
ALLFILES = ["src/drpm.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c",
            "src/drpm_deltarpm.c", "src/drpm_diff.c", "src/drpm_make.c", "src/drpm_options.c", "src/drpm_read.c",
            "src/drpm_rpm.c", "src/drpm_search.c", "src/drpm_utils.c", "src/drpm_write.c"]
ENGNOTE = ("Every path through every exported function is over-approximated in both build configurations with every "
           "modelled external call forked into its documented outcomes; a report must survive three different "
           "path partitionings. Trusted: the models of libc, librpm and codec calls (sa/models.py); abstract loop "
           "iterations beyond the first are merged, so a defect that needs two different iterations of one loop to "
           "disagree can be missed.")

prop("M01", "Memory is owned exactly once on every path",
     "Whatever the inputs and whichever allocation, read, write or library call fails, every call of the library "
     "releases each block of memory it allocated exactly once or hands it to the caller in the documented "
     "handle, and never touches or frees a block already released. Destroying a handle releases everything it owns.",
     ["inputs", "fault_sequences", "configurations"],
     "all arguments, file contents and all combinations of failing external calls, in every build configuration",
     "The tests drive successful calls on two package pairs; failure paths (a failing allocation in the middle of "
     "reading a delta, a short write, a truncated stream) are never taken, so what they release is never observed.",
     ALLFILES,
     [("cleanup sections and destructors of every structure", "src/*.c: *_free, *_destroy, cleanup labels")],
     ENGINE + "ownership domain (allocation typestate with reachability)", ENGNOTE)

prop("M02", "Descriptors, streams, children and temporary files never outlive a call",
     "Every file descriptor, stream, child process, temporary file, package header or database handle and codec "
     "state acquired by a call is released exactly once before the call returns, on its failing paths as well as "
     "its succeeding one, and is not used after release. The library removes no file except temporary ones it created.",
     ["inputs", "fault_sequences", "configurations"],
     "all arguments, file contents and all combinations of failing external calls, in every build configuration",
     "Tests only observe completed calls and valgrind's heap summary; descriptors, children and temporary files left "
     "behind on failing paths are invisible to them.",
     ["src/drpm_apply.c", "src/drpm_make.c", "src/drpm_read.c", "src/drpm_write.c", "src/drpm_rpm.c",
      "src/drpm_decompstrm.c", "src/drpm_compstrm.c"],
     [("close/fclose/unlink/waitpid/headerFree/… in cleanup sections", "src/*.c cleanup labels")],
     ENGINE + "resource typestate", ENGNOTE)

prop("M03", "No null pointer is ever dereferenced",
     "No call of the library dereferences a null pointer, whatever optional arguments are omitted, whichever "
     "allocation or lookup fails and whatever optional parts the package or delta lacks.",
     ["inputs", "fault_sequences", "configurations"],
     "all arguments including NULL, all file contents and all combinations of failing external calls",
     "Needs a failing allocation or library lookup, or packages lacking tags; the tests use four complete packages.",
     ALLFILES, [("argument checks and result checks", "src/*.c")],
     ENGINE + "nullness domain", ENGNOTE)

prop("M04", "Behaviour never depends on indeterminate storage",
     "No decision, dereference, output or returned value of the library depends on storage that nothing was written "
     "to on the path taken, on failing paths included.",
     ["inputs", "fault_sequences", "configurations"],
     "all arguments, file contents and all combinations of failing external calls",
     "Indeterminate values show only on paths the tests do not take, and there often with a plausible value.",
     ALLFILES, [("initialisers before the first goto to a cleanup section", "src/*.c")],
     ENGINE + "initialisation domain", ENGNOTE)

prop("M05", "A failing operation is never reported as success",
     "Whenever an allocation, read, write, seek, open, codec or package-library operation that a call depends on "
     "fails, the call ends with a code other than success, so success means that every operation it needed was "
     "carried out.",
     ["fault_sequences", "inputs", "configurations"],
     "every single failing external operation on every path, in every build configuration",
     "Tests cannot make a write, allocation or codec call fail, and check no failing path except a few bad arguments.",
     ALLFILES, [("every call's result is tested and mapped to an error code", "src/*.c")],
     ENGINE + "first-failure tracking to the entry point's result",
     ENGNOTE + " Failures whose outcome is an answer rather than an error (probing for prelink, closing files only "
     "read, removing temporaries, a missing librpm configuration) are exempt and listed in DESIGN.md.")

APINOTE = ("Abstract interpretation of the entry point with each argument class as a premise; exact on these loop-free or "
           "string-copying functions. Trusted: the models of libc string and allocation functions.")

prop("V01", "Success of drpm_apply means the output was verified",
     "Whenever drpm_apply reports success, the MD5 digest computed of the package it wrote was compared over its full "
     "length with the target MD5 the delta carries and found equal. If, and only if, the delta carries no target "
     "MD5 (all zero), the comparison with the MD5 recorded in the new package's signature takes its place, unless that "
     "signature has none. No way through the delta kinds, versions or prelink handling reaches success around it.",
     ["inputs", "fault_sequences", "configurations"],
     "all deltas, old packages and installed systems, all failing external calls, in both build configurations",
     "Every applied delta in the tests is intact, so the comparison always succeeds and its absence, shortening or "
     "bypass on one of the paths changes no test result.",
     ["src/drpm.c", "src/drpm_apply.c", "src/drpm_write.c", "src/drpm_rpm.c"],
     [("final digest comparison", "src/drpm.c: drpm_apply, final_check"),
      ("digest of the output", "src/drpm_apply.c, src/drpm_write.c, src/drpm_rpm.c: MD5_Update/MD5_Final")],
     ENGINE + "comparison facts that must hold at every successful exit",
     "Comparisons are forked into equal/different and the facts carried to the exits; what bytes went into the digest "
     "is not decided here. " + ENGNOTE)

prop("V02", "Success of apply and check means the old package was verified",
     "Whenever drpm_apply, drpm_check or drpm_check_sequence reports success, the name-epoch-version-release of the "
     "old package was found equal to the one the delta (or sequence) was made for, and the delta's sequence was found "
     "to match it: its leading 16 bytes equal the digest recomputed over the old package's files, or, for rpm-only "
     "deltas, the MD5 in the old package's signature. A mismatch on any path ends in failure.",
     ["inputs", "fault_sequences", "configurations"],
     "all deltas, sequences, old packages and installed systems, in both build configurations",
     "The tests check matching packages only, so a verification that is skipped for one delta kind goes unnoticed.",
     ["src/drpm.c", "src/drpm_apply.c"],
     [("NEVR comparison", "src/drpm.c: drpm_apply, drpm_check, drpm_check_sequence"),
      ("sequence digest", "src/drpm_apply.c: expand_sequence; src/drpm.c: signature MD5 comparison")],
     ENGINE + "comparison facts that must hold at every successful exit",
     "Comparisons are forked into equal/different and the facts carried to the exits; which bytes enter the sequence "
     "digest is not decided here. " + ENGNOTE)

prop("A01", "Bad arguments are refused as such, with no effect",
     "Every exported function answers a call with a NULL where a pointer is required, an unknown tag, type, mode, "
     "format version or compression, a compression level above 9, a tag of another type, two missing packages, an "
     "rpm-only request in a version without it, or a NULL handle with the bad-arguments code. It then has touched no "
     "file, package or other external resource and stored nothing through its arguments.",
     ["inputs", "configurations"],
     "every value of the offending argument with every value of all others, in both build configurations",
     "Tests sample single bad values; the statement is about all 2^16 or 2^32 values of each argument in each combination.",
     ["src/drpm.c", "src/drpm_options.c", "src/drpm.h"],
     [("argument checks at function entry", "src/drpm.c, src/drpm_options.c: every exported function")],
     "abstract interpretation of each exported function per class of bad argument (intervals), effect and store rule", APINOTE)

prop("A02", "Option functions change exactly the documented options",
     "On success drpm_make_options_init and _defaults establish the documented defaults, each setter gives its options "
     "the requested values and leaves all others as they were, and _copy makes every option equal with strings of "
     "its own, its source unchanged. Setters accept every documented value, and one that fails leaves the "
     "non-string options as they were.",
     ["inputs", "fault_sequences", "configurations"],
     "all prior states of the options, all argument values, failing allocation included, in both build configurations",
     "Tests set a few options and never look at the others; a setter that disturbs another option or a copy that misses "
     "one shows only in combinations.",
     ["src/drpm_options.c", "src/drpm_options.h", "src/drpm.h"],
     [("setters, defaults, copy", "src/drpm_options.c")],
     "abstract interpretation of each option function over symbolic option structures; member-by-member post-state rule", APINOTE)

prop("A04", "Every error code has its own constant description",
     "drpm_strerror returns a non-NULL constant text for every int, different for each defined error code and from that "
     "for undefined codes, and describing the condition.",
     ["inputs", "configurations"],
     "all values of the error code, in both build configurations",
     "Tests print a few codes without comparing them.",
     ["src/drpm.c", "src/drpm.h"],
     [("drpm_strerror", "src/drpm.c: drpm_strerror")],
     "abstract interpretation of drpm_strerror per code and for the complement range", APINOTE)

prop("A03", "Every query answers with its own part of the delta",
     "After drpm_read, each tag given to the query function of its type answers with exactly the documented part of the "
     "delta as read: the number itself, all characters of the string, the hexadecimal digits of all the bytes, or all "
     "the elements in order together with their number; a target name-epoch-version-release comes from the header of a "
     "standard delta and the stored string of an rpm-only one. An optional part is nothing only if absent.",
     ["inputs", "configurations"],
     "all deltas (every value of every part) and all tags, in both build configurations",
     "Tests print the answers for two deltas, in which several parts are absent or equal; a pair of swapped or shortened "
     "answers shows only for deltas in which they differ.",
     ["src/drpm.c", "src/drpm_read.c", "src/drpm_private.h", "src/drpm.h"],
     [("deltarpm_to_drpm", "src/drpm_read.c"), ("drpm_get_*", "src/drpm.c")],
     "abstract interpretation with one symbol per structure member (value provenance), composed over the two steps",
     "Exact on numbers and strings; copying loops are summarised by first element, stride and count. Trusted: models of "
     "libc string functions; dump_hex itself is taken as writing all digits.")

FMTNOTE = ("The stream primitives (integers, blobs, strings) are cut: their own inverse behaviour is the matter of F03. "
           "Loops are summarised by first element, stride and count. For the sign convention of adjustment and copy "
           "lists only the presence of the conversion is decided. Trusted: models of libc calls.")

prop("F01", "The delta writer emits the documented layout",
     "For every delta handed to it, of each type (standard and rpm-only) and format version 1 to 3, the writer emits "
     "exactly the documented sequence of items: magics with type and version, lead and header or target "
     "name, source name, sequence, MD5, target size, compression, parameters, header length, adjustment elements, "
     "lead, payload format offset, internal and external copies, external and internal data; each taken from its own "
     "member, with the length written before it.",
     ["inputs", "fault_sequences", "configurations"],
     "all contents of the delta structure, both types, all versions, in both build configurations",
     "Tests read back deltas with the same library, and use two packages: an item swapped on both sides, or "
     "missing only in version 1 or in an rpm-only delta, passes.",
     ["src/drpm_write.c", "src/drpm_private.h"],
     [("write_deltarpm, write_be32_array…", "src/drpm_write.c")],
     "abstract interpretation of the writer per version and type; sequence of emitted items compared with the format", FMTNOTE)

prop("F02", "The delta reader accepts the documented layout and nothing malformed",
     "For each type and format version 1 to 3, drpm_read and drpm_apply take the documented items from the file in "
     "order, each of the length that precedes it, into the member it belongs to. Unknown magics, versions outside 1 "
     "to 3, an rpm-only delta of version 1 or 2, parts that disagree on the version, a sequence shorter than its digest (or, for "
     "rpm-only deltas, longer), an rpm-only delta without header in the difference or with data where none belongs, and counts too large to represent never succeed.",
     ["inputs", "fault_sequences", "configurations"],
     "all file contents, both types, all versions, in both build configurations",
     "Tests read four well-formed files.",
     ["src/drpm_read.c", "src/drpm_private.h"],
     [("read_deltarpm, readdelta_rpmonly, readdelta_standard, readdelta_rest", "src/drpm_read.c")],
     "abstract interpretation of the reader per version and type; sequence of consumed items compared with the format", FMTNOTE)

CODECNOTE = ("Values are followed symbolically or as constants through the IR after constant folding and complete unrolling "
             "of counted loops; a loop whose length depends on the data is beyond this check and would be reported.")

prop("F03", "Numbers in files are big-endian, written and read as exact inverses",
     "Every function that stores a 16, 32 or 64 bit number to a buffer, file, stream or checksum hands on exactly its "
     "bytes, most significant first, and every function that takes one from there returns exactly the number whose "
     "bytes it took: every bit of every number, and neither more nor fewer bytes.",
     ["inputs", "configurations"],
     "all numbers, all conversion functions, in both build configurations",
     "Tests write small numbers, whose upper bytes are zero and whose bytes are below 128.",
     ["src/drpm_utils.c", "src/drpm_read.c", "src/drpm_write.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c"],
     [("parse_be16/32/64, create_be32/64, md5_update_be32", "src/drpm_utils.c"), ("read_be32/64", "src/drpm_read.c"),
      ("write_be32/64", "src/drpm_write.c"), ("compstrm_write_be32/64", "src/drpm_compstrm.c"),
      ("decompstrm_read_be32/64", "src/drpm_decompstrm.c")],
     "bit-provenance dataflow over the LLVM IR of each conversion function", CODECNOTE)

prop("C01", "Compression codes of the format stand for one compression and level each",
     "Writing a delta turns each supported target compression and each level from 0 to 255 into the code of the "
     "format (0 none, 1 gzip, 2 bzip2, 5 lzma, 6 xz, 7 zstd where built in, plus 256 times the level), and reading turns "
     "each code back into the same compression and level (3 also stands for gzip, 4 for bzip2). All other compressions and codes are refused.",
     ["inputs", "configurations"],
     "all 256 codes, all compressions and levels, in both build configurations",
     "Tests write gzip, xz and zstd targets at one level each.",
     ["src/drpm_deltarpm.c"],
     [("deltarpm_encode_comp, deltarpm_decode_comp", "src/drpm_deltarpm.c")],
     "constant propagation per code and bit-provenance dataflow per compression over the LLVM IR", CODECNOTE)

prop("C02", "Each compression gets its own codec, settings and detection",
     "Opening a compression stream for a supported compression sets up its codec at the level asked for, or at the "
     "default level (gzip and bzip2 9, lzma 2, xz 3, zstd 19), in the format of that compression (gzip wrapper, xz with "
     "SHA-256, lzma alone), and installs functions of that codec. Opening a decompression stream tells the "
     "compression by the first bytes of the data and nothing else, reports it, installs its decoder without a memory limit, "
     "and leaves the file where it was. New streams are empty. Unsupported compressions are refused.",
     ["inputs", "fault_sequences", "configurations"],
     "all compressions and levels, all beginnings of data next to the known magics, from file and memory, in both build configurations",
     "Tests use two compressions at fixed levels, and read only what the same library or rpmbuild wrote; a level or magic that "
     "is wrong for another compression still gives a readable file, whose rebuilt package differs.",
     ["src/drpm_compstrm.c", "src/drpm_decompstrm.c"],
     [("compstrm_init, init_*", "src/drpm_compstrm.c"), ("decompstrm_init, init_*, MAGIC_*", "src/drpm_decompstrm.c")],
     "constant propagation and value provenance through stream set-up, call-graph closure of the installed functions",
     "The magics are tried with each of their bits wrong and with three different remainders, not with all 2^64 beginnings. "
     "Trusted: codecs produce and accept the format their parameters ask for.")

prop("C03", "Compression streams pass on every byte once",
     "Whatever part of its input a codec takes and however much output it has at a time: it is given exactly the data to "
     "write or read, then exactly what it left over, with the size of the output buffer it may fill; all of its output is "
     "appended to the stream, behind what is there and into room made for it; compressing, finishing and decompressing "
     "succeed only when the codec has taken its input and given its output. Input read is counted, added to the checksum "
     "and moved on over once; its end is reported as such. Writing to a stream hands on all of the data and writes what "
     "came out to the file once; finishing returns everything; reading returns the next bytes asked for, "
     "reading to the end all that are left.",
     ["inputs", "fault_sequences", "configurations"],
     "all inputs, all ways codecs can take input and give output, all seven compressions, in both build configurations",
     "How much a codec takes and gives at a time depends on the data: tests with small files see one call per chunk and never "
     "a full output buffer.",
     ["src/drpm_compstrm.c", "src/drpm_decompstrm.c"],
     [("writechunk_*, finish_*, compstrm_write, compstrm_finish", "src/drpm_compstrm.c"),
      ("readchunk_*, decompstrm_read, decompstrm_read_until_eof", "src/drpm_decompstrm.c")],
     "abstract interpretation with models of the codecs that take any part of the input and give any amount of output, and symbolic data positions",
     "Trusted: what codecs report as taken and given. Single writes up to 1023 bytes are followed exactly, larger ones only as to where "
     "their pieces are and how large. Truncated compressed input is accepted as its end (see DESIGN.md).")

prop("P01", "Every part of a delta comes from the right package and option",
     "Whenever drpm_make succeeds, it wrote one delta to the named file, of the type and version asked for, compressed as asked "
     "(or, if not asked, like the new package; an rpm-only identity delta then with gzip). Its source name and, for rpm-only, sequence (digest of "
     "header and archive) are the old package's; lead, signature, size, digest, compression, level, header (or name and header size) "
     "and payload format offset the new package's. What is compared: the old package's installed files, or its header and archive if "
     "rpm-only, with the new package's archive, or its header and archive; all of each. Add block, its compression, "
     "patched files and sequence file follow the options. A new package whose payload is not in cpio format is refused.",
     ["inputs", "configurations"],
     "all pairs of packages and single packages, both types, all versions, all options, in both build configurations",
     "Tests make six deltas of two packages that agree in compression, level and more; a part taken from the other package goes unnoticed "
     "unless the delta is applied, and some are never used when it is.",
     ["src/drpm.c", "src/drpm_make.c"],
     [("drpm_make", "src/drpm.c: drpm_make"), ("fill_nodiff_deltarpm", "src/drpm_make.c: fill_nodiff_deltarpm")],
     "abstract interpretation of drpm_make with every part of a package as a named symbol (provenance of each member of the delta)",
     "The functions that take parts from a package (rpm_get_nevr, rpm_fetch_header and so on), rebuild the installed files and compare are "
     "taken at their word here; numbers wider than their member are not followed beyond that.")

prop("P02", "Applying a delta follows its instructions to the letter",
     "What drpm_apply writes is the delta's lead and signature, for a standard delta the new header with its payload format set back to cpio, and the "
     "compressed payload, in this order and in full; for an rpm-only identity delta the old package with the lead and signature replaced. The payload is "
     "made by the instructions: each internal copy is preceded by its external copies, each moves the place in the old data by its "
     "signed offset and then by what was copied, and copies its whole length; the add block, if any, is added byte by byte to every "
     "byte of old data; internal copies take the delta's new data one after the other. Every instruction is carried out once. Old data are "
     "asked for at the right place, length, copy and block. The digest compared at the end covers what was written.",
     ["inputs", "configurations"],
     "all deltas of both types, with any number of instructions and pieces, applied to a package file or the installed package, in both build configurations",
     "Tests apply a handful of small deltas, whose copies fit into one block and whose offsets are positive; a slip in a counter or "
     "offset shows only with several blocks per copy, negative offsets, an add block or without a digest to compare.",
     ["src/drpm.c"],
     [("drpm_apply", "src/drpm.c: drpm_apply")],
     "abstract interpretation of drpm_apply with the expected place, length and counts carried along; loops are joined by value numbering (linear relations)",
     "The functions that read the delta and the old package, hand out blocks of old data and compress are taken at their word here (F01-F03, "
     "C01-C03 and V01 judge them). Instructions are taken as read; sums wrap as in 64 bits.")

prop("P03", "The instructions of a delta describe exactly the differences found",
     "The differences found between old and new data become instructions one after the other: external copies lead, by signed 31-bit steps "
     "where one is not enough, from the end of the last copy to the old data of the difference and copy all of it; internal copies follow, "
     "count the external copies before them since the last one, and insert all new data; external copies left at the end are asked for by "
     "an empty internal copy; lengths fit into 31 bits; the counts given are those of what was written. The new data of each internal copy are those that follow the "
     "ones before. Differences begin where the last match ended, continue it in old and new data (without add block only with equal bytes), and "
     "all new data are covered; each byte of the add block is the new byte less the old one, for every byte of old data copied and in order.",
     ["inputs", "configurations"],
     "all lists of differences of any length and sizes, all data compared with and without add block, in both build configurations",
     "Tests make six small deltas: no copy needs to be split, few lie before the last one, and a delta that copies too little "
     "or inserts too much can still be read and applied.",
     ["src/drpm_diff.c"],
     [("create_diff_copies, create_int_data_array", "src/drpm_diff.c"), ("make_diff", "src/drpm_diff.c: make_diff")],
     "abstract interpretation with the expected position, lengths and counts carried along; loops are joined by value numbering (linear relations)",
     "hash_search and the compression streams are taken at their word; fewer than 2^28 instructions and places below 2^62 are assumed. Which "
     "of two overlapping extensions wins is not judged. In make_diff what the joins of its loops blur is not judged (the evidence counts it as undecided); "
     "in the other two functions everything is decided on the present code.")

prop("P04", "A delta whose instructions leave the old or new data is refused",
     "A delta is read successfully only if its instructions stay within the data: following the external copies one after the other, each "
     "adjustment, taken as signed, leads to a place within the old data (ext_data_len) and never before their beginning, and each copy ends within them; "
     "the lengths of the internal copies add up to no more than the new data the delta carries (int_data_len). Every copy of both lists is looked at, "
     "places and sums are 64 bits wide and do not wrap around.",
     ["inputs", "configurations"],
     "all standard and rpm-only deltas with any numbers in them, of versions 2 and 3, in both build configurations",
     "Tests read deltas the library made itself or with broken headers; instructions that leave the data by a little, before "
     "the beginning or after 4 GiB, never occur, and reading beyond a buffer while applying need not fail.",
     ["src/drpm_read.c"],
     [("readdelta_rest", "src/drpm_read.c: readdelta_rest"), ("read_deltarpm", "src/drpm_read.c: read_deltarpm")],
     "abstract interpretation of read_deltarpm() with every number read a symbol and the expected places carried along; on each way to success the comparisons made must imply that they lie within the data",
     "Which copies the list holds after reading is F02. Sums are compared as linear terms: that as many copies as there is memory for do not exceed 2^64 in sum is "
     "assumed. The first two copies of each list are judged exactly, later ones as far as joins keep linear relations (on the present code: all).")

prop("S01", "Only the files the caller named are created or written",
     "Making a delta creates and writes its output file and its sequence file, applying one its output file; these are "
     "named by the caller and emptied when created. No other function creates or writes a file. The packages, deltas "
     "and patch lists handed in, and installed files, are opened for reading only. Temporary files are made in /tmp by "
     "mkstemp, and only they are removed. Nothing is run but /usr/sbin/prelink, without a shell, on a "
     "temporary file and an installed one. No file is renamed, no settings of the process are changed.",
     ["inputs", "histories", "configurations"],
     "all calls of all public functions, in both build configurations",
     "Tests look at the output file only, not at what else was touched; prelinked files never occur in them.",
     ALLFILES,
     [("prelink_open", "src/drpm_apply.c"), ("rpm_write", "src/drpm_rpm.c"), ("write_deltarpm, write_seqfile", "src/drpm_write.c"),
      ("drpm_apply", "src/drpm.c")],
     "interprocedural, field-based backward slice of every file name to arguments of the public functions",
     "Files librpm opens on its own (its database and configuration) are out of sight. The slice does not tell the order of calls. "
     "That temporary files are removed on every path is part of M02.")

prop("S02", "The library keeps no state between calls",
     "No function of the library changes a static variable or calls a library function with hidden state, or one whose result "
     "depends on time, randomness or the environment; what a call gives depends on its arguments and the files alone, and calls in "
     "different threads do not affect each other through the library itself.",
     ["inputs", "histories", "schedules", "configurations"],
     "all functions of the library, in both build configurations",
     "Tests are single-threaded and make each call once or twice.",
     ALLFILES,
     [("all functions", "src")],
     "scan of all variables of static storage with a forward slice of each use, and of all calls",
     "State inside librpm (configuration, macros, database) and errno are out of sight.")

prop("N01", "Applying a delta made from two packages reproduces the new package exactly",
     "For any two packages a delta can be made of, applying the delta to the old package, or to the files installed from it, yields the "
     "new package byte for byte (or, for an rpm-only delta, its uncompressed form as recorded).",
     ["inputs"],
     "all pairs of packages and all options",
     "Tests make and apply a handful of deltas between two small pairs of packages.",
     ["src/drpm.c", "src/drpm_make.c", "src/drpm_diff.c", "src/drpm_apply.c"],
     [("drpm_make, drpm_apply", "src/drpm.c")],
     na="It quantifies over the contents of both packages, the search for common strings and the output of compressors, which no static argument "
        "in reach bounds. Its structural parts are claimed on their own: P01-P04, F01-F03, C01-C03, V01.")

prop("N02", "No access leaves its buffer, whatever packages and deltas are given",
     "No function reads or writes outside of the memory it allocated or was given, for any package, delta or sequence, damaged ones included.",
     ["inputs"],
     "all inputs of all public functions",
     "Tests use few damaged inputs; an access just beyond a buffer need not fail.",
     ALLFILES,
     [("pages and blocks", "src/drpm_block.c"), ("cpio and header lists", "src/drpm_utils.c, src/drpm_rpm.c")],
     na="It needs relations between lengths read from packages and sizes of allocations that value ranges do not carry; a check by ranges would mostly "
        "report its own ignorance. The accesses conversions, streams and pipelines make are judged where they are claimed: A04, C03, F01-F03, P02, P04.")
