"""What each check runs: harnesses (harness/t_*.rs), their size arguments per tier, and the bounds these imply."""

COMMON_ASSUMPTIONS = [
    "the LLVM IR that rustc/LTO produces from /repo's source (opt-level 1, panic=abort, overflow checks on) has the semantics of the source",
    "the symbolic executor in engine/ interprets that IR faithfully; every counterexample is replayed on the natively compiled code and a sample of completed paths is re-run natively",
    "undefined (padding) bits are given the value 0",
]

FST_OUT = "trees with more nodes, longer names or paths than stated; multi-byte names outside the character ranges of h_fst_char"

CHECKS = {
    "C01": {
        "feature": "image",
        "jobs": [
            {"h": "h_img_rt", "args": [13, 911, 300011, 700011, 900011], "targs": [13, 14, 911, 912, 300011, 700011, 300012, 900011], "cost": 8, "reach": ["done", "file"]},
            {"h": "h_img_rt", "args": [213, 812, 1211, 1012, 100011], "targs": [213, 313, 323, 523, 812, 813, 1211, 1312, 1012, 100011, 2011], "cost": 5, "reach": ["done", "file"]},
            {"h": "h_img_rt", "args": [12, 10012, 200011, 400811, 500811, 600011, 1000011], "targs": [12, 10012, 200012, 400811, 500811, 600011, 1000011], "cost": 2, "reach": ["done", "file"]},
        ],
        "bounds": "every tree of at most 3 nodes (thorough 4) and depth 3 with ASCII names of 1 byte (2), unique ignoring case; file lengths: any length of at most 0x90 bytes for every file, any length of at most 3 blocks for one file (2), 8 lengths up to a group and a bit for 2 files, 72 lengths with which the contents end at or next to the end of a group, 3 lengths of 16 MiB and more; symbolic contents, keys, headers, tickets, certificates; apploader of any length up to 0x100, executable of any length up to 0x200, long ones of more than a block and a group; two partitions; any padding of at most 0x100 bytes; a disc that transfers in short pieces; 1 to 3 contents in the metadata; the search for the fake signature is followed for one attempt",
        "outside": "larger trees, longer names; titles other than 3 and 5 ASCII characters (see C14) and names other than ASCII (see C05); boot info of other than 0x2000 bytes; files of 4 GiB and more; partitions of more than 4915 groups",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C16": {
        "feature": "image",
        "jobs": [
            {"h": "h_img_layout", "args": [911, 300011, 700011, 813, 900011], "targs": [911, 912, 300011, 700011, 300012, 813, 900011], "cost": 8, "reach": ["done", "file"]},
            {"h": "h_img_layout", "args": [13, 23, 1011, 1211, 10012, 200011, 400811, 500811, 100011, 600011, 2011], "targs": [13, 14, 23, 24, 1011, 1012, 1211, 1312, 10012, 200012, 400811, 500811, 100011, 600011, 2011], "cost": 4, "reach": ["done", "file"]},
            {"h": "h_img_contents", "args": [0, 1, 2, 20, 800, 835, 838, 850, 900, 1000], "targs": [0, 1, 2, 3, 20, 800] + list(range(820, 860)) + [900, 1000, 3600, 10000], "reach": ["accepted", "refused"]},
        ],
        "bounds": "as for C01, with up to three partitions; metadata of 0 to 1000 (thorough 10000) contents",
        "outside": "as for C01",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C18": {
        "feature": "extract",
        "jobs": [
            {"h": "h_dir_tree", "args": [13, 14, 22, 32, 112, 113], "targs": [15, 23, 32, 33, 113, 114, 122], "cost": 4, "reach": ["ok", "error"]},
            {"h": "h_dir_build", "args": [12, 21, 812, 911, 3011, 4011], "targs": [12, 13, 22, 812, 813, 911, 912, 3012, 4012], "cost": 5, "reach": ["built", "file"]},
            {"h": "h_dir_build", "args": [1012] + [10000 * i + 2010 for i in range(4)] + [10000 * i + 2011 for i in range(5)], "targs": [1013] + [10000 * i + k for i in range(6) for k in (2011, 2012)], "cost": 3, "reach": ["reported", "built"]},
            {"h": "h_dir_merge", "args": [1, 2], "targs": [1, 2, 3], "reach": ["refused"]},
        ],
        "bounds": "every directory of at most 4 entries (thorough 5) and depth 3 with names of 1 byte, 3 (3) entries with names of up to 2 bytes and 2 (3) with up to 3 bytes, in every order of enumeration, any bytes that file names may have, any size up to 2^40 bytes; any one of the first 16 file system calls failing; whole images built from directories of at most 2 (3) entries with ASCII names, symbolic contents and lengths up to 0x90 bytes or 3 blocks, through the library, the command line tool and the Python module, with any one required file missing or any one of the file system calls failing; directories whose names differ in case only",
        "outside": "larger directories and longer names; symbolic links, special files, case-insensitive host file systems",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector", "pyo3 and clap are replaced by stand-ins (stubs/): the functions of the Python module and the command line tool are called directly"],
    },
    "C19": {
        "feature": "extract",
        "jobs": [
            {"h": "h_ext_names", "args": [1, 2, 3, 4, 11, 12, 13, 22, 33, 42, 101, 111], "targs": [1, 2, 3, 4, 5, 11, 12, 13, 14, 22, 23, 32, 33, 34, 42, 43, 101, 111, 121], "cost": 2, "reach": ["extracted", "refused"]},
            {"h": "h_ext_sys", "args": [1, 2, 3], "reach": ["extracted"]},
        ],
        "bounds": "tables with one file, a file in one to three directories, or two files, whose names are any ASCII bytes of up to 4 (thorough 5) bytes for one file and 2 to 3 (4) for nested ones, or any single byte; extracted by the Python module; the command line tool's extraction of system files",
        "outside": "longer names and deeper nesting; symbolic links already in the destination; Windows paths",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector", "pyo3 and clap are replaced by stand-ins (stubs/): the functions of the Python module and the command line tool are called directly"],
    },
    "C20": {
        "feature": "extract",
        "jobs": [
            {"h": "h_ext_rt", "args": [213, 222, 811, 1211, 100211, 500211, 600211, 1000213, 4000212], "targs": [214, 223, 812, 1211, 100212, 500212, 600212, 1000213, 1000222, 4000213], "cost": 5, "reach": ["done", "file"]},
            {"h": "h_ext_rt", "args": [2800212, 3800212, 3800811], "targs": [2800213, 2800222, 3800213, 3800812], "cost": 6, "reach": ["done", "file", "rebuilt"]},
            {"h": "h_ext_rt", "args": [10000000 * i + k for i in range(4) for k in (5000210, 5000211)], "targs": [10000000 * i + k for i in range(5) for k in (5000211, 5000212)], "cost": 4, "reach": ["reported", "done"]},
            {"h": "h_ext_short", "args": [32, 31760], "targs": [16, 32, 64, 31744, 31760, 65536, 65552], "reach": ["extracted", "refused"]},
        ],
        "bounds": "images of C01 with trees of at most 3 nodes (thorough 4), ASCII names of 1 byte, 2 nodes (3) with names of 2, file lengths 0, 1 (and others up to a group and a bit for one file, thorough 2), symbolic contents; every removal answer per file; failing callbacks; extraction followed by a rebuild; any one file system call failing; files that reach over the end of the data",
        "outside": "larger trees; other file lengths (the percentage is computed in floating point, on concrete lengths here); several sections (see C25); names that are refused (see C19)",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector", "pyo3 and clap are replaced by stand-ins (stubs/): the functions of the Python module and the command line tool are called directly"],
    },
    "C25": {
        "feature": "extract",
        "jobs": [
            {"h": "h_sec_name", "args": list(range(0, 9)) + [11, 12, 13, 14], "targs": list(range(0, 10)) + [11, 12, 13, 14, 15, 16], "reach": ["unknown", "known"]},
            {"h": "h_sec_py", "args": [200, 203, 204, 205, 206, 207, 208, 212, 304], "targs": [200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 214, 304, 306, 307, 404], "cost": 2, "reach": ["present", "absent", "unknown"]},
            {"h": "h_sec_tool", "args": [200, 203, 204, 205, 206, 207, 208, 212, 304], "targs": [200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 214, 304, 306, 307, 404], "cost": 2, "reach": ["present", "absent", "unknown"]},
            {"h": "h_sec_multi", "args": [1, 2], "targs": [1, 2, 3], "cost": 8, "reach": ["done"]},
        ],
        "bounds": "every ASCII string of at most 8 (thorough 9) bytes and strings of up to 4 (6) characters of one or two bytes; images with up to 3 (4) partitions of any types, in one or two tables; sections prepared in every combination and upper or lower case",
        "outside": "longer strings; more partitions",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector", "pyo3 and clap are replaced by stand-ins (stubs/): the functions of the Python module and the command line tool are called directly"],
    },
    "C26": {
        "feature": "extract",
        "jobs": [
            {"h": "h_list_files", "args": [314, 323, 1313, 415], "targs": [315, 316, 324, 333, 1314, 415, 425], "cost": 3, "reach": ["done", "nested"]},
            {"h": "h_list_sections", "args": [10, 11, 22, 42, 13], "targs": [10, 11, 22, 42, 13, 23, 43, 14], "reach": ["done"]},
        ],
        "bounds": "every tree of at most 4 nodes (thorough 6) and depth 3, or 5 nodes and depth 4, with names of 1 printable ASCII character, 3 nodes (4) with up to 2; images with up to 3 partitions (4) of any types in the four partition tables, at any position for the first and any position of 6 hexadecimal digits for the others",
        "outside": "larger trees, longer and other names; more partitions",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector", "pyo3 and clap are replaced by stand-ins (stubs/): the functions of the Python module and the command line tool are called directly"],
    },
    "C27": {
        "feature": "extract",
        "jobs": [
            {"h": "h_ext_progress", "args": [213, 812, 1000213, 1000811], "targs": [214, 223, 813, 1000214, 1000812], "cost": 3, "reach": ["done", "complete"]},
            {"h": "h_ext_progress", "args": [2000211, 2000811, 3000211, 3000811], "targs": [2000212, 2000811, 3000212, 3000811], "cost": 6, "reach": ["done", "complete", "rebuilt"]},
            {"h": "h_sec_progress", "args": [1, 2], "targs": [1, 2, 3], "cost": 2, "reach": ["done", "complete"]},
        ],
        "bounds": "images of C01 with trees of at most 3 nodes (thorough 4) and file lengths 0 and 1, or 2 nodes (3) and 8 lengths up to a group and a bit; every removal answer; rebuilds with the Python module and the tool of 1 file (2); up to 2 (3) partitions of any types, prepared in every combination; symbolic contents",
        "outside": "larger trees, other file lengths (the percentage is computed in floating point, on concrete lengths here)",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector", "pyo3 and clap are replaced by stand-ins (stubs/): the functions of the Python module and the command line tool are called directly"],
    },
    "C28": {
        "feature": "extract",
        "jobs": [
            {"h": "h_copy", "args": [210, 211, 10, 290, 281, 801], "targs": [210, 211, 220, 212, 12, 11, 820, 810, 811, 281, 291, 292, 802], "cost": 3, "reach": ["done", "file"]},
            {"h": "h_copy", "args": [1210, 1291], "reach": ["none"]},
            {"h": "h_copy", "args": [2200 + 10000 * i for i in range(4)], "targs": [k + 10000 * i for i in range(5) for k in (2200, 2210, 2211)], "cost": 2, "reach": ["reported", "done"]},
        ],
        "bounds": "images with a data partition (or without) whose tree has at most 1 node (thorough 2) with a name of 1 ASCII character, one more file, and a directory THP with up to 1 (2) entries, files or directories with a file, of names of 5 or 6 characters of which 1 or 2 are symbolic, or a file of that name, or neither; file lengths 0 to 0x90, 0 and 1, or 8 lengths up to a group and a bit; symbolic contents, keys, headers; any one of the first 3200 file system calls fails",
        "outside": "larger trees; other images (see C01 and C03 for what is read and built)",
        "assumptions": ["the file system is modelled by harness/vfs.rs, behind the libc calls of Rust's standard library", "AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C17": {
        "feature": "image",
        "jobs": [
            {"h": "h_img_tmd", "args": [13, 3000011, 2600011, 100010, 1001011, 811, 500811, 400811], "targs": [13, 14, 7000011, 3600012, 100011, 1001011, 812, 500811, 400811, 2011], "cost": 3, "reach": ["signed"]},
        ],
        "bounds": "every title metadata with 1 to 3 contents (all bytes symbolic), in the partitions of C01; the search for the fake signature is followed for up to 4 (thorough 8) attempts, whatever SHA-1 returns",
        "outside": "signatures that are found after more attempts (the loop body does not depend on the number of the attempt)",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C21": {
        "feature": "image",
        "jobs": [
            {"h": "h_img_progress", "args": [33, 133, 62, 162, 1022, 1121, 1051, 24], "targs": [33, 34, 133, 134, 63, 163, 1032, 1122, 1051, 24, 124, 15, 115], "cost": 4, "reach": ["complete", "done"]},
        ],
        "bounds": "every tree of at most 3 nodes (thorough 5), each file with 2 to 6 lengths; files around the size of one and two batches (0x1000000 bytes); declared lengths exact or all zero; symbolic contents",
        "outside": "other file lengths (the percentage is computed in floating point, on concrete lengths here)",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C23": {
        "feature": "image",
        "jobs": [
            {"h": "h_img_fail", "args": [1, 0, 2] + [11 + 100 * i for i in range(0, 13)] + [k + 100 * i for i in range(0, 13) for k in (21, 31, 41, 51, 61)], "targs": [1, 0, 2, 3] + [k + 100 * i for i in range(0, 16) for k in (11, 12, 21, 22, 31, 32, 41, 42, 51, 61)], "cost": 3, "reach": ["failed", "finish failed", "none failed", "done"]},
            {"h": "h_img_contents", "args": [0, 900], "reach": ["refused"]},
        ],
        "bounds": "two partitions with 1 file (thorough 2), of which the first is short or longer than a group, or whose apploader or executable is longer than a group, are built and the disc is finished while any one of the first 650 (800) operations on the output, or any one callback, fails; the output transfers everything or in pieces of at most 0x100001 bytes, and what fails reports an error or, for writes, transfers nothing; afterwards the disc is finished (again) and everything that was added is read back",
        "outside": "several failures in one build; other partitions (the sequence of operations on the output does not depend on contents)",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C05": {
        "feature": "fst",
        "jobs": [
            {"h": "h_fst_rt", "args": [13, 15, 24, 33], "targs": [13, 15, 16, 24, 25, 33, 34], "cost": 5, "reach": ["done", "nested"]},
            {"h": "h_fst_char", "args": list(range(0, 14)) + [16, 17, 40], "targs": list(range(0, 14)) + list(range(16, 16 + 326)), "reach": ["accepted"]},
            {"h": "h_fst_big", "args": [0, 1], "targs": [0, 1, 100], "cost": 3, "reach": ["done"]},
        ],
        "bounds": "every tree of at most 5 nodes (thorough 6) and depth 3 with ASCII names of at most 1 byte, 4 nodes (5) with names of at most 2 bytes, 3 nodes (4) with at most 3; symbolic name bytes, offsets and lengths; symbolic position in the source; plus one name with every code point of 17 ranges (thorough: all CJK ideographs); three large tables: more than 64 KiB of names, 256 directories deep (thorough: 30000 entries), with symbolic offsets and lengths",
        "outside": FST_OUT,
    },
    "C06": {
        "feature": "fst",
        "jobs": [
            {"h": "h_fst_layout", "args": [16, 24, 33], "targs": [16, 17, 25, 34], "cost": 5, "reach": ["done"]},
            {"h": "h_fst_big", "args": [0, 1], "targs": [0, 1, 100], "cost": 3, "reach": ["done"]},
        ],
        "bounds": "every tree of at most 6 nodes (thorough 7) with names of 1 byte, 4 (5) with at most 2 bytes, 3 (4) with at most 3; symbolic bytes, offsets, lengths; three large tables: more than 64 KiB of names, 256 directories deep (thorough: 30000 entries)",
        "outside": FST_OUT,
    },
    "C07": {
        "feature": "fst",
        "jobs": [{"h": "h_fst_add", "args": [2114, 2123, 3133, 2222, 3103, 1104, 2912, 1903], "targs": [2114, 3115, 3124, 3133, 2223, 2322, 3103, 1104, 2912, 3922, 2911, 1903], "cost": 5, "reach": ["added", "replaced", "error"]}],
        "bounds": "sorted trees of at most 4 nodes (thorough 5), paths of at most 3 components, names of 1 or 2 symbolic bytes or one character of one or two bytes; the node added is a file or a directory with or without a file in it",
        "outside": FST_OUT,
    },
    "C08": {
        "feature": "fst",
        "jobs": [{"h": "h_fst_remove", "args": [3124, 2222, 3104, 2922], "targs": [3125, 3134, 2223, 3104, 2922], "cost": 3, "reach": ["removed", "absent"]}],
        "bounds": "trees of at most 4 nodes (thorough 5) of depth 3, paths of at most 3 components, names of 1 or 2 symbolic bytes or one character of one or two bytes",
        "outside": FST_OUT,
    },
    "C09": {
        "feature": "fst",
        "jobs": [{"h": "h_fst_find", "args": [3124, 3134, 2222, 2922], "targs": [3125, 3135, 2223, 2922], "cost": 3, "reach": ["found", "absent"]}],
        "bounds": "trees of at most 4 nodes (thorough 5) of depth 3, path strings of at most 3 components with symbolic extra slashes, names of 1 or 2 symbolic bytes or one character of one or two bytes",
        "outside": FST_OUT,
    },
    "C10": {
        "feature": "fst",
        "jobs": [
            {"h": "h_fst_ord", "args": [1, 4], "targs": [1, 6], "reach": ["done"]},
            {"h": "h_fst_ord3", "args": [2, 12], "targs": [3, 13], "reach": ["chain"]},
            {"h": "h_fst_sort", "args": [214, 223, 293], "targs": [215, 224, 293], "cost": 4, "reach": ["done", "several"]},
            {"h": "h_fst_sort_wide", "args": [25], "targs": [26], "cost": 4},
        ],
        "bounds": "names of at most 4 bytes (thorough 6) for comparison, trees of at most 4 nodes (5) and one directory of 5 (6) for sorting",
        "outside": FST_OUT + "; directories of more than 20 nodes take another branch of the standard library's sort, which is trusted",
    },
    "C11": {
        "feature": "fst",
        "jobs": [
            {"h": "h_fst_walk", "args": [324, 1324, 2324], "targs": [325, 1325, 2325], "cost": 3, "reach": ["done", "error"]},
            {"h": "h_fst_walk_mut", "args": [324, 2315, 1324, 393], "targs": [325, 2316, 1325, 393], "cost": 5, "reach": ["done"]},
        ],
        "bounds": "trees of at most 4 nodes (thorough 5) with names of at most 2 symbolic bytes, 5 (6) nodes with 1 byte; callback failing at a symbolic call; symbolic renames",
        "outside": FST_OUT,
    },
    "C12": {
        "feature": "window",
        "jobs": [
            {"h": "h_win_probe", "args": [1, 11, 2, 12, 112], "targs": [1, 11, 2, 12, 112, 3, 13, 113], "cost": 5,
             "reach": ["seek", "seek refused", "access", "transfer", "transfer failed", "end"]},
            {"h": "h_win_disk", "args": [1, 11, 2, 12, 112, 1003, 1013, 1113, 1004, 1014], "targs": [1, 11, 2, 12, 112, 1003, 1013, 1113, 1004, 1014, 1114, 3],
             "reach": ["end", "exact", "exact refused", "read", "written"]},
        ],
        "bounds": "every history of at most 2 operations (thorough 3) - seek, read, read_exact, write, write_all, flush, position - on a window with any 64-bit start, length and arguments over a source that records every access, transfers a symbolic number of bytes and fails at a symbolic point; histories of 4 operations on a small in-memory disc with symbolic contents",
        "outside": "longer histories",
    },
    "C02": {
        "feature": "stream",
        "jobs": [
            {"h": "h_stream_hist", "args": [122], "targs": [122, 212, 222, 113], "cost": 9, "reach": ["readback", "flushed"]},
            {"h": "h_stream_hist", "args": [112, 10133], "targs": [112, 10133, 20123, 20133, 10213, 20114], "cost": 8, "reach": ["readback", "flushed"]},
            {"h": "h_stream_hist", "args": [111, 121, 211, 221, 20411, 20621, 20113, 10122, 11113, 21122], "cost": 3, "reach": ["readback", "flushed"]},
            {"h": "h_stream_long", "args": [71, 171, 32], "targs": [71, 171, 32, 72, 132], "cost": 6, "reach": ["written"]},
        ],
        "bounds": "every history of at most 2 operations (write at any offset in the first 2 groups / flush) with 32-byte writes, 1 write of 32 or BLOCK+7 bytes anywhere in 2 groups, 1 write of up to 2 groups of bytes starting anywhere in the first or last block, 3 operations (thorough 4) with writes starting anywhere in the first or last block of up to 3 groups; over two full groups, 2 writes that start at (1: up to 256 bytes after) the start of a group with 0, 1, 62..65 or 127 whole blocks (2 writes: 0, 63, 64) plus any rest, everything compared; symbolic data and key; also over a disc that transfers in short pieces",
        "outside": "longer histories, more than 3 groups, other write lengths; SHA-1 and AES are uninterpreted functions (AES-CBC decryption inverts encryption under the same key and vector)",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions, with decryption inverse to encryption under equal key and vector"],
    },
    "C04": {
        "feature": "image",
        "jobs": [
            {"h": "h_stream_hash", "args": [1, 2, 12, 102, 112], "targs": [1, 2, 12, 102, 112, 202, 3, 13, 103], "cost": 3, "reach": ["group", "later group"]},
            {"h": "h_img_hash", "args": [12, 1011, 811, 300011, 500811, 400811, 900011, 1000011], "targs": [13, 213, 1011, 1012, 2011, 812, 911, 300011, 500811, 400811, 900011, 1000011], "cost": 3, "reach": ["group", "later group", "done"]},
        ],
        "bounds": "whole images as for C01 (trees of at most 2 nodes, thorough 3): every group of every partition is there and valid; every history of at most 2 writes (thorough 3) of 0x30 bytes anywhere or a whole group in at most 2 groups (3), with and without flushes in between; symbolic data and key",
        "outside": "longer histories and more groups; larger trees",
        "assumptions": ["AES-128-CBC and SHA-1 are modelled as uninterpreted functions: which bytes are hashed and encrypted, under which key and vector and where the results go is checked, not the primitives"],
    },
    "C13": {
        "feature": "malf",
        "jobs": [
            {"h": "h_malf_open", "args": [0, 1], "cost": 8, "reach": ["opened", "error"]},
            {"h": "h_malf_struct", "args": [0, 1, 2, 3, 4, 5, 6, 7, 8], "cost": 6, "reach": ["parsed", "error"]},
            {"h": "h_malf_part", "args": [3, 0, 1, 2, 4], "cost": 6, "reach": ["opened", "error", "parsed", "not parsed", "file"]},
            {"h": "h_malf_fst", "args": [12, 22, 112, 203, 204, 205, 213, 214], "targs": [12, 22, 32, 112, 122, 203, 204, 205, 206, 213, 214, 215], "cost": 3, "reach": ["parsed", "error"]},
            {"h": "h_malf_deep", "args": [1, 20], "reach": ["error"]},
            {"h": "h_malf_wide", "args": [50, 1000], "targs": [50, 1000, 4000], "reach": ["parsed"]},
        ],
        "bounds": "file system tables of 2 entries and 2 bytes of names (thorough 3) with every byte symbolic, also cut off at every point; tables of up to 5 entries (6) with symbolic kinds and ends; chains of 1000 and 20000 nested directories; 1000 (4000) empty directories side by side; every structure (disc header, ticket, metadata with up to 1 content, certificates, partition header, executable and apploader headers, table entry) from any bytes cut off anywhere; two partition tables with any offset and any count; a partition with any signature type, sizes, common key, metadata and certificate positions at, near or past the end of the image, any table position and counts, any apploader sizes, any two executable sections, any two title bytes; memory: a single allocation is at most 32 times the source plus 4 KiB, all together at most 64 times plus 64 KiB",
        "outside": "larger tables; partitions with several of these fields malformed at once; stack use is checked by recursion depth against an 8 MB stack",
        "assumptions": ["the data area is encrypted by the harness from symbolic plaintext, so every plaintext is covered"],
    },
    "C14": {
        "feature": "layout",
        "jobs": [
            {"h": "h_lay_header", "args": [0, 1, 2, 3, 7, 16, 31, 62, 63, 64, 102, 164, 203, 264, 304, 364], "targs": list(range(0, 65)) + [102, 117, 164, 203, 264, 304, 364], "reach": ["written"]},
            {"h": "h_lay_title", "args": [1, 64, 65, 66, 100], "reach": ["written", "refused"]},
            {"h": "h_lay_ticket", "args": [0, 1], "reach": ["written"]},
            {"h": "h_lay_tmd", "args": [0, 1, 2, 5], "targs": [0, 1, 2, 5, 16, 40], "reach": ["written"]},
            {"h": "h_lay_cert", "args": [0, 1, 2, 10, 11, 12, 100], "reach": ["written"]},
            {"h": "h_lay_code", "args": [0, 1, 2], "reach": ["known", "unknown"]},
        ],
        "bounds": "every byte of a disc header, ticket, partition header, title metadata with 0, 1, 2 or 5 contents (thorough up to 40), certificate of every signature and key type and chain of three symbolic; titles of 16 lengths (all 65) of symbolic ASCII, ending in any character of 2, 3 or 4 bytes; titles of 65, 66 and 100 bytes refused; every 32-bit type code",
        "outside": "titles with other arrangements of multi-byte characters; titles that are not UTF-8 (they are converted when read)",
    },
    "C15": {
        "feature": "layout",
        "jobs": [
            {"h": "h_lay_ticket", "args": [0, 1], "reach": ["written"]},
            {"h": "h_lay_rekey", "args": [0, 1], "reach": ["written", "refused"]},
        ],
        "bounds": "every ticket (all bytes symbolic), every title key, title id and common key index, parsed, changed and written",
        "outside": "AES-128 itself is an uninterpreted function pair",
        "assumptions": ["AES-128-CBC is modelled as an uninterpreted function pair with decryption inverse to encryption under equal key and vector"],
    },
    "C22": {
        "feature": "layout",
        "jobs": [
            {"h": "h_lay_parts", "args": [12, 13, 21, 22, 31, 41, 111, 211, 212, 221], "targs": [12, 13, 14, 21, 22, 23, 31, 32, 41, 42, 111, 112, 211, 212, 221, 222], "cost": 3, "reach": ["listed", "several", "refused"]},
        ],
        "bounds": "four tables of which up to 4 hold at most 1 entry, 2 hold at most 2 (thorough: 4 hold 2, 2 hold 3), 1 holds at most 3 (4), at three places; symbolic offsets and types, symbolic pointers of empty tables; unknown types; a table that starts past or at the end of the image",
        "outside": "larger tables",
    },
    "C24": {
        "feature": "layout",
        "jobs": [
            {"h": "h_lay_extent", "args": [0, 1, 2, 12, 22, 102, 112, 202, 302, 312, 402, 422, 502, 3, 103, 313] + [602 + 100 * k for k in range(18)], "cost": 2, "reach": ["read", "refused"]},
        ],
        "bounds": "any two apploader sizes; executables at three places (block boundary, end of data) with any offsets and sizes of two sections out of 24 pairs that cover all 18; data areas of 3 and 64 blocks; symbolic contents and key",
        "outside": "executables with more than two non-empty sections",
        "assumptions": ["AES-128-CBC is modelled as an uninterpreted function pair with decryption inverse to encryption under equal key and vector"],
    },
    "C03": {
        "feature": "reader",
        "jobs": [
            {"h": "h_reader_hist", "args": [121, 100121, 1121], "targs": [121, 100121, 1121, 2121, 211, 221, 131, 100211], "cost": 9, "reach": ["read", "end", "random access", "far"]},
            {"h": "h_reader_hist", "args": [20123, 20222, 21122, 22122, 111122, 20421, 121122], "targs": [20123, 20222, 21122, 22122, 111122, 20422, 121122, 10124, 11124, 30133, 20133, 21123], "cost": 4, "reach": ["read", "random access", "end"]},
        ],
        "bounds": "partitions of at most 2 groups (thorough 3) with symbolic contents and key, ending at a group boundary or anywhere in the last block; every single operation (absolute seek + read, relative seek + read, random-access read, far seek) at any position; every history of 3 operations (4) positioned anywhere in the first and last block of a group; reads of 17, BLOCK+3, 1, GROUP+5 bytes; a disc operation failing at a symbolic point; a disc that transfers in short pieces",
        "outside": "longer histories, other read lengths, more groups",
        "assumptions": ["AES-128-CBC is modelled as an uninterpreted function pair with decryption inverse to encryption under equal key and vector"],
    },
}
NOT_APPLICABLE = {}
