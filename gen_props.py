import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","A built image reads back as what was supplied",
 "For every partition content supplied to the disc builder (any file tree with names unique ignoring ASCII case and directories nested at most 256 deep, any file bytes, any disc header, boot info of 0x2000 bytes, and an apploader and executable whose own headers state their lengths), opening the finished image with the reader yields the same disc header and region, the same tree of directories and files with the same names and lengths, and for every file exactly the supplied bytes. The boot info, apploader, executable, title key and certificates read from the image equal the supplied ones.",
 ["inputs","configurations"],"all trees, names, contents and sizes accepted by the builder, including contents that straddle block and group boundaries",
 "No existing test builds an image at all; sampled images would miss contents whose size or position falls on a block or group boundary.",
 ["src/builder.rs","src/new_reader.rs","src/reader_writer.rs","src/fst.rs","src/structs.rs"],
 [("add_partition / finish lay out and write the image","src/builder.rs"),("WiiIsoReader::open, open_partition, CryptPartReader read it","src/new_reader.rs")],
 ["WiiDiscBuilder::add_partition + finish, then WiiIsoReader::open, open_partition, open_file, read_bi2, read_apploader, read_dol"])
p("C02","Encrypted writer: the last bytes written at a position read back",
 "For every sequence of writes, seeks and flushes on the encrypted partition writer starting from an empty data area, after a flush every position that was written reads back as the bytes written there last, both through the writer itself and through a fresh reader of the underlying file. This holds however the writes are split over blocks and groups, in whatever order groups are visited, and when writing continues after a flush.",
 ["inputs","histories"],"all operation sequences, positions and lengths",
 "The one existing test performs a single fixed sequence with constant bytes, and its assertion about the second group is commented out.",
 ["src/reader_writer.rs"],[("group cache with write-back and load-before-modify","src/reader_writer.rs Write::write, flush, do_load_group")],
 ["bytes on the underlying file; read back through the stream"],[("current_group / is_dirty / filled_groups","what the group cache holds and whether it must be written back","src/reader_writer.rs")],
 "cfg(disc_riider_verif) re-export of the writer type")
p("C03","Encrypted reader returns the right bytes for any read/seek sequence",
 "For every sequence of seeks and reads on an opened partition, each read returns exactly the decrypted partition bytes starting at the current position, at least one byte whenever the position is inside the data area and the buffer is non-empty, none at or past its end, and the position advances by exactly the number of bytes returned. Random-access reads into a vector return exactly the requested range cut at the end of the data area and leave the position unchanged. A read that fails with an I/O error never causes a later successful read to return wrong bytes.",
 ["inputs","histories","fault_sequences"],"all sequences of seek/read operations, positions, lengths, and failing underlying reads",
 "No existing test reads an encrypted partition with the reader; cache state depends on the order of operations and on where an I/O error falls.",
 ["src/new_reader.rs"],[("read_into / read_into_vec / do_load_group with a one-group cache","src/new_reader.rs")],
 ["CryptPartReader read, seek, read_into_vec, into_window; WiiPartitionReadInfo::open_file/open_window"],[("current_group, group_cache, current_position","cache and position","src/new_reader.rs")])
p("C04","Every written group carries a valid hash tree and encryption",
 "Every data group in a built partition satisfies the console's verification rules: decrypted with the title key, each block's hash area holds the SHA-1 of each of its 31 data chunks, of each block hash list in its subgroup and of each subgroup list in its group, with zero padding in between, and the global hash table entry of the group is the SHA-1 of its subgroup hash list. The hash area is encrypted with a zero initialisation vector and the data with the vector taken from the encrypted hash area at 0x3D0.",
 ["inputs","histories"],"all data contents and write histories",
 "No existing test looks at hashes; every one of the 64x31 chunks of every group must be covered for all data.",
 ["src/reader_writer.rs","src/builder.rs"],[("hash_encrypt_block","src/reader_writer.rs"),("take_h3 and the write of the global hash table at 0x8000","src/builder.rs")],
 ["bytes of the image"],None,"cfg(disc_riider_verif) re-export of the writer type")
p("C05","File system table: serialising then parsing is the identity",
 "For every tree whose names are representable in Shift-JIS without NUL and whose directories are nested at most 256 deep, serialising it and parsing the bytes yields an equal tree: same structure, order, names, file lengths, and file offsets (multiples of 4). Parsing the serialised table at any offset in the source gives the same result, and a name that cannot be represented is reported as an error and never silently altered.",
 ["inputs"],"all trees, names, offsets and lengths","The single round-trip test uses one fixed tree of four nodes with zero offsets and lengths.",
 ["src/fst.rs"],[("FstToBytes::try_from / write_to","src/fst.rs"),("Fst::read / transform_fst_rec","src/fst.rs")],["FstToBytes::write_to bytes; Fst::read"])
p("C06","Serialised file system table is well-formed for the console",
 "In every serialised table the root entry is a directory whose end index is the number of entries, every directory entry holds the index of its parent and the index one past its last descendant, every file entry holds offset/4 and length, and every name offset points at that node's NUL-terminated name inside the string table that follows the entries. Entries appear in depth-first order.",
 ["inputs"],"all trees","The round-trip test cannot see fields the parser ignores (parent indexes) or errors that cancel out in writer and parser.",
 ["src/fst.rs"],[("build_node_bytes_rec, rec_build_fst_bytes","src/fst.rs")],["bytes produced by FstToBytes::write_to"])
p("C07","Adding a node keeps the tree sorted, complete and exact",
 "Adding a node to a sorted tree under a path puts it, unaltered, in the directory reached by that path, matching existing directories ignoring ASCII case (they keep their spelling) and creating exactly the missing ones with the given spelling, and keeps every directory sorted by case-insensitive order without duplicates, leaves all other nodes unchanged, and returns the node it replaced if and only if one with the same name ignoring ASCII case was there. If a path component is a file the call reports an error and the tree is unchanged.",
 ["inputs","histories"],"all sorted trees, paths and names, and all sequences of additions","The test adds seven fixed nodes.",
 ["src/fst.rs"],[("add_node_iter with binary search","src/fst.rs")],["Fst::add_node_path / add_node_iter, then get_entries, find_node_path"])
p("C08","Removing a node removes exactly that node",
 "Removing a path returns the node at that path together with its subtree and deletes it, leaving every other node and the order unchanged; when no node exists at the path (including a path through a file, and the empty path) nothing is returned and the tree is unchanged.",
 ["inputs"],"all trees and paths","The test removes three fixed paths that exist.",
 ["src/fst.rs"],[("remove_node_iter","src/fst.rs")],["Fst::remove_node_path / remove_node_iter"])
p("C09","Path lookup finds exactly the node spelled by the path",
 "Looking up a path returns the node reached by following its components by exact name, and nothing when a component is missing or is a file with further components after it, or the path is empty; leading, trailing and repeated slashes are ignored. The mutable lookup refers to the same node.",
 ["inputs"],"all trees and paths","The test looks up three fixed paths that exist.",
 ["src/fst.rs"],[("find_node_iter, find_node_iter_mut, find_node_path","src/fst.rs")],["Fst::find_node_path, find_node_path_mut"])
p("C10","Node order is case-insensitive, total and restored by sorting",
 "Node comparison is the byte-wise order of the names with ASCII letters folded to lower case and a shorter name before its extensions: it is antisymmetric, transitive, and equal exactly when the names are equal ignoring ASCII case. Re-sorting a tree leaves every directory sorted in that order at every depth and neither loses, duplicates nor alters any node.",
 ["inputs"],"all names and trees","No test compares names or sorts a tree.",
 ["src/fst.rs"],[("ordering_ignore_case, node_compare, fix_ordering","src/fst.rs")],["FstNode::node_compare, Fst::fix_ordering"])
p("C11","Traversals visit every node exactly once with its full path",
 "Traversing a tree calls the callback for every node (every file, for the serialisation variant) exactly once, parents before children and siblings in order, with the path of names from the root to that node; in the mutable variant children of a renamed directory see the new name and changes made through the callback are kept. An error returned by the callback stops the traversal and is returned, and the reported file count equals the number of file nodes.",
 ["inputs"],"all trees and callback behaviours","No test uses a traversal.",
 ["src/fst.rs"],[("callback_all_files(_mut) in Fst and FstToBytes, get_total_file_count","src/fst.rs")],["callback arguments"])
p("C12","A window confines reads, writes and seeks to its range",
 "A window over a source at a start offset with an optional length behaves like a file of its own: reads and writes at window position p access the source at start+p and nowhere else, never touch anything outside the range, and transfer no more than what is left of it; an exact read succeeds if and only if enough bytes are left. Seeks from start, current and end use window coordinates (end only when the length is known), and the reported position always equals the position where the next access happens.",
 ["inputs","histories","fault_sequences"],"all starts, lengths, operation sequences and failing source operations","Two tests run one fixed sequence each; neither uses exact reads on a bounded window nor a relative seek before the first access.",
 ["src/window.rs"],[("IOWindow Read/Write/Seek","src/window.rs")],["IOWindow over a recording source; WiiPartitionReadInfo::open_file"])
p("C13","Malformed images produce errors, never crashes",
 "Whatever bytes an image contains, opening it, opening a partition, reading its file system table, system files, tickets, certificates and metadata either succeeds or returns an error: no panic, no arithmetic overflow, no unbounded recursion, and no allocation that is not bounded by what the image can back up.",
 ["inputs"],"all byte contents of headers, partition tables, partition headers, encrypted headers and file system tables","No test feeds malformed data.",
 ["src/fst.rs","src/structs.rs","src/new_reader.rs"],[("validation in Fst::read, struct parsers, read_apploader, read_dol","src/fst.rs, src/structs.rs, src/new_reader.rs")],["return values of the reading API"])
p("C14","Header structures keep their fixed layout in both directions",
 "For every field value, writing a disc header, ticket, title metadata, certificate, partition header or partition table entry places each field big-endian at its documented offset (total sizes 0x440 for the disc header, 0x2A4 for the ticket, 0x1E4 plus 0x24 per content for the metadata, 0x2C0 for the partition header), and parsing those bytes gives back equal values. A title of more than 64 bytes or containing a zero byte is refused.",
 ["inputs"],"all field values, including all title strings that fit","No test parses or writes any header.",
 ["src/structs.rs","src/lib.rs"],[("binrw declarations","src/structs.rs"),("ShiftedU64","src/lib.rs")],["BinRead/BinWrite of the public structs"])
p("C15","Title keys are unwrapped and wrapped with the right key and IV",
 "Parsing a ticket yields the title key obtained by AES-128-CBC decryption of the stored key under the common key selected by the ticket, with the title id followed by zeros as initialisation vector; writing the ticket stores the key encrypted the same way, so that parse and write are inverse for every ticket.",
 ["inputs"],"all keys, title ids and both common keys","No test touches tickets.",
 ["src/structs.rs","src/lib.rs"],[("decrypt_title_key, encrypt_title_key","src/structs.rs"),("COMMON_KEYS","src/lib.rs")],["Ticket BinRead/BinWrite"])
p("C16","Built images have a consistent, non-overlapping layout",
 "In every built image the partition table lists every added partition once with its type and a distinct offset at or after 0x50000, the metadata, certificates, hash table and data of a partition lie at the offsets and sizes recorded in its header without overlapping each other or another partition, and within the data area the system blobs, file system table and files do not overlap and every file starts at a multiple of 0x40 (and is listed with offset and size inside the data area). The recorded file system table size covers the whole table and the recorded data size is a whole number of groups covering all content. Metadata and certificates that do not fit before the hash table are refused.",
 ["inputs","configurations"],"all numbers of partitions, trees, sizes and paddings","No test builds an image.",
 ["src/builder.rs"],[("offset computation in add_partition, finish","src/builder.rs")],["headers and tables in the produced image"])
p("C17","Built partitions carry correctly updated, fake-signed metadata",
 "In every built partition the stored title metadata has its first content's hash equal to the SHA-1 of the stored global hash table and its size equal to the recorded data size, an all-zero signature, and padding chosen so that the SHA-1 of the signed part starts with a zero byte; every other field equals the supplied metadata.",
 ["inputs"],"all metadata values and partition contents","No test builds an image.",
 ["src/builder.rs"],[("TMD patching and brute force at the end of add_partition","src/builder.rs")],["metadata bytes in the image"])
p("C18","A directory tree becomes exactly the file system table it spells",
 "Building from a directory yields a table with exactly one file node per regular file at the same relative path with its size, all directories that contain files, and every level sorted case-insensitively; two entries (files, or directories with files below them) whose names collide ignoring ASCII case within one directory are reported as an error when a file is involved, and no file is ever silently dropped. A missing required file, a file of 4 GiB or more, an unreadable entry or file, or a name that is not valid text is reported as an error.",
 ["inputs","configurations"],"all directory trees, names, enumeration orders and sizes","The test lists the source directory once and only counts entries.",
 ["src/dir_reader.rs","src/builder.rs"],[("build_fst_from_directory_tree","src/dir_reader.rs"),("try_open, build_from_directory","src/builder.rs")],["image built by build_from_directory"])
p("C19","Extraction never writes outside the destination directory",
 "Extracting an image, whatever names its file system table contains, creates and writes files only at or below the destination directory.",
 ["inputs"],"all file system tables, names and nesting","No test extracts an image.",
 ["disc-riider-py/src/lib.rs","src/new_reader.rs"],[("path construction in extract_to","disc-riider-py/src/lib.rs"),("extract_system_files","src/new_reader.rs")],["paths passed to file creation"])
p("C20","Extraction writes exactly the image's files and system files",
 "Extracting a section writes every file of the partition at its path with exactly its bytes, plus the system files (boot header, boot info, apploader, executable, file system table), disc header, region, ticket, metadata and certificates in the documented places, with contents equal to those in the image. Files for which the removal callback answered true are left out and no others; rebuilding an image from the extracted directory gives the same files again. A file that is not completely there or a failing file operation is reported as an error, never as success with something missing.",
 ["inputs","configurations"],"all trees, contents and removal choices","No test extracts an image.",
 ["disc-riider-py/src/lib.rs","src/new_reader.rs","src/builder.rs"],[("extract_to, remove_files_by_callback","disc-riider-py/src/lib.rs"),("extract_system_files","src/new_reader.rs"),("build_from_directory","src/builder.rs")],["files written below the destination"])
p("C21","Progress reports are monotone percentages that end at 100",
 "While building a partition whose declared file lengths equal the supplied data (or are all zero), the progress callback first receives 0, then values that never decrease and never exceed 100, and the last value is 100 when the partition contains at least one file (at least one byte, when byte-based).",
 ["inputs","configurations"],"all numbers and sizes of files, with and without declared lengths","No test builds an image.",
 ["src/builder.rs"],[("progress computation in add_partition","src/builder.rs")],["arguments of the progress callback"])
p("C22","The partition list is exactly the contents of the four tables",
 "Opening an image lists, in order, every entry of each of the four partition tables: the counts and table offsets at 0x40000 are honoured, each entry has its stored type and four times its stored offset, and nothing else is listed. An entry or table that cannot be read is an error, not a shorter list.",
 ["inputs"],"all counts, offsets and entries","No test opens an image.",
 ["src/structs.rs","src/new_reader.rs"],[("read_parts","src/structs.rs")],["WiiIsoReader::partitions"])
p("C23","Build failures surface and a failed partition is not listed",
 "If any read, write, seek or flush of the output, or any callback supplying content, fails while building, the build call returns an error; a build that reports success has stored everything. After a failed attempt to add a partition, the failed partition does not appear in the partition table and the builder can still add others.",
 ["fault_sequences","inputs"],"every position of a failing operation and every failing content callback","No test injects a failure.",
 ["src/builder.rs","src/reader_writer.rs","src/window.rs"],[("error propagation in add_partition, finish, the encrypted writer and the window","src/builder.rs, src/reader_writer.rs, src/window.rs")],["return values of add_partition and finish; partition table of the image"])
p("C24","System file extents cover the whole executable and apploader",
 "The executable read from a partition spans from its start to the end of its last section (the largest file offset plus size over all non-empty text and data sections), the apploader spans its 32-byte header plus both declared sizes, and the boot info is the 0x2000 bytes at 0x440; sizes that overflow are reported as errors.",
 ["inputs"],"all executable and apploader headers","No test reads system files.",
 ["src/new_reader.rs"],[("read_dol, read_apploader, read_bi2","src/new_reader.rs")],["WiiPartitionReadInfo::read_dol, read_apploader, read_bi2"])
p("C25","Section names select the partition of that type",
 "A section name selects DATA, UPDATE or CHANNEL ignoring ASCII case and anything else is rejected; operations on a named section use the first partition of that type in the image's table and report an error if there is none or, in the Python module, if it was not prepared; removals from one section do not affect others.",
 ["inputs"],"all section strings and partition tables","No test parses section names.",
 ["src/structs.rs","disc-riider-py/src/lib.rs"],[("WiiPartType::try_from_str","src/structs.rs"),("prepare_extract_section, parse_section, get_partition","disc-riider-py/src/lib.rs")],["return values"])
p("C26","The command line listings show exactly what the image contains",
 "The tool's section listing prints one line for every entry of the image's partition tables, in order, with its type and its position in the image (in bytes, hexadecimal, without leading zeros); the tool's file listing prints every file and directory of the selected section exactly once, one per line, each directory before what it contains and siblings in table order, indented by two spaces per level of nesting.",
 ["inputs"],"all partition tables and file trees","No test runs the tool.",
 ["iso-tool/src/main.rs","src/fst.rs"],[("Sections, PrintFiles","iso-tool/src/main.rs"),("print_tree","src/fst.rs")],["standard output of the tool"])
p("C27","Extraction and rebuilding report their progress as rising percentages",
 "While a section is extracted with the Python module, the callback first receives 0, then values that never decrease within a section and never exceed 100, and the last value for a section whose files (those not removed) hold at least one byte is 100. A rebuild from a directory reports the same way to the Python callback and on the tool's standard output. A callback that fails does not stop the work.",
 ["inputs","configurations"],"all trees, file sizes, removals and sets of sections","No test extracts or rebuilds an image.",
 ["disc-riider-py/src/lib.rs","iso-tool/src/main.rs","src/builder.rs"],[("extract_to, rebuild_from_directory","disc-riider-py/src/lib.rs"),("Rebuild","iso-tool/src/main.rs"),("build_from_directory","src/builder.rs")],["arguments of the Python callback; standard output of the tool"])
p("C28","Copying an image keeps its data partition except for the filtered movies",
 "Copying an image gives an image with the same header and region whose only partition is the data partition of the source: same system files, title key and certificates, and the same tree with the same file contents, except that entries of the top-level directory named THP whose name does not start with Demo are left out. An image without a data partition is reported as an error, and so is any failing file operation.",
 ["inputs","fault_sequences"],"all images, trees and failing operations","No test copies an image.",
 ["src/builder.rs"],[("build_copy, CopyBuilder","src/builder.rs")],["image written by build_copy"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
