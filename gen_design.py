#!/usr/bin/env python3
"""writes DESIGN.md: the text below plus, per property, statement, bounds and exclusions from properties.jsonl and checks.py"""
import json, os
import checks
V = os.path.dirname(os.path.abspath(__file__))
CAUGHT = {}  # where it is not the check of the property alone
PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

HEAD = """# Solver-based checking of disc-riider

(Generated by gen_design.py from its own text, properties.jsonl and checks.py.)

## Approach

Every property is decided by one method: symbolic execution of the real code, with Z3 answering whether a branch is
feasible and whether an assertion can fail.

1. `build_sym.sh FEATURE` compiles a harness group (`harness/t_*.rs`) together with /repo's crate, its dependencies and
   the Rust standard library (fat LTO, opt-level 1, panic=abort, overflow checks on) to one LLVM module. This happens on every
   run, from /repo's current working tree; nothing about the code under test is written down by hand.
2. `engine/` (Rust, about 8000 lines, written for this task) interprets that module with symbolic values. Terms are bit vectors; memory objects
   are byte arrays with symbolic contents, symbolic offsets and (within a bound) symbolic lengths; copies of large ranges
   are kept as ranges, so that a whole group (2 MiB of symbolic data) is handled without touching every byte. A branch on a symbolic condition forks if both
   sides are satisfiable. Memory accesses are bounds checked, `panic`, `abort`, arithmetic overflow, unreachable
   code, out-of-bounds accesses, excessive recursion and allocation are violations in every harness, not only in C13.
   Every query goes to Z3 (in process; SMT-LIB text, per-query time limit); an unknown answer, a time limit or an
   unsupported instruction makes a path *inconclusive*, which is reported in the evidence (`no_verdict_because`) and is never
   counted as explored. `--strict` turns this into exit 2; all checks pass with `--strict` on the unchanged tree.
3. Inputs (`sv::bytes`, `sv::val`, `sv::range`, `sv::choose`) are symbolic variables. `sv::check` is the assertion; it is put to
   the solver on every path for all values that the path allows. `sv::reach` labels are the guard against vacuity: a label listed
   in checks.py that no path reaches makes the check end without a verdict.
4. SHA-1 and AES-128-CBC are replaced in the symbolic build by stand-ins (`stubs/sha1`, `stubs/cbc`) that call uninterpreted
   functions: SHA-1 of equal inputs is equal, CBC decryption inverts encryption under equal key and vector. Nothing else is known
   about them, so a property that passes holds whatever the primitives compute. pyo3 and clap are replaced by stand-ins
   that keep the functions of the Python module and the tool callable from Rust (the sources of both
   are included as they are in /repo). Files: `harness/vfs.rs` implements the libc calls that Rust's std::fs makes
   on an in-memory file system with symbolic names, sizes, contents, order of enumeration and one failing call; the code of
   std::fs itself is executed symbolically. No check touches real files below any path the code under test computes.
5. A counterexample is replayed: the harness is also compiled natively with the real sha1, aes and cbc crates
   (`native/`), is run with the solver's values, and only if the real code fails the check prints VIOLATION, with the
   input file as replay. A counterexample that does not reproduce is reported as unexplored, not as a violation. In addition three (thorough: eight)
   completed paths per job are run natively; a native failure there is a violation as well, since it would mean that the engine
   is wrong about the code or the code about the property. The evidence counts them (`traces_validated_against_impl`).

Evidence per run: functions of the crate that were interpreted, paths, instructions, queries, solver time, assertions with the number that needed the
solver, reach labels, bounds, exclusions.

Why this reaches what tests cannot: a path stands for all contents, keys, names, offsets and lengths that take it; the
existing tests use eight fixed inputs, none of which builds an image.

"Quick" and "thorough" run the same harnesses with different size arguments (`args`, `targs` in checks.py). A harness argument is a number whose digits
are sizes (documented at each harness).

## Exclusions that apply to several properties

- Bounds are finite: trees of 3 to 6 nodes, names of 1 to 3 bytes, 1 to 3 groups. Outside them nothing is claimed. The code has no
  constant between these bounds and 4 GiB that changes its behaviour except the sizes that the harnesses include on purpose (chunk, block,
  group, 64 KiB extraction buffer, 16 MiB batch).
- The encrypted writer's overwrite mode (`max_group`, `filled_groups` > 0) is not used by the crate and not checked, nor are reads through the
  writer while a group is dirty (C02 speaks of reads after a flush).
- More than 4915 groups do not fit the global hash table: the builder panics there (9.7 GB, more than a dual layer disc); not checked.
- Percentages are computed in floating point. The engine executes floating point on concrete values only, so C20, C21 and C27 use concrete file lengths (chosen from
  lists, all combinations) with symbolic contents.
- File sizes of 4 GiB and more only occur as sizes reported by the file system (C18).

## Not applicable

No property is listed as not applicable: all 28 are decided with this method.
"""

METHOD = {
"C01": ("h_img_rt", "The builder is given symbolic trees, contents, keys, headers, tickets, certificates; the image is opened with the reader and everything compared with what was supplied. The oracle is the input itself."),
"C02": ("h_stream_hist, h_stream_long", "Histories of seeks, writes and flushes on the writer against a plain byte array as model; afterwards every written range is compared at a symbolic position, through the writer and through a fresh reader."),
"C03": ("h_reader_hist", "An image encrypted by the harness itself (independently of the builder) from symbolic plaintext; histories of seeks, reads and random-access reads are compared with the plaintext and a position counter; disc failures at a symbolic point."),
"C04": ("h_stream_hash, h_img_hash", "The console's verification rules are written down in verify_group (harness/img.rs) and asserted of every group of a stream history and of every group of every partition of a built image."),
"C05": ("h_fst_rt, h_fst_char", "Serialise and parse symbolic trees, compare node by node; names with every code point of given ranges, with the real encoding_rs."),
"C06": ("h_fst_layout", "The serialised bytes are compared with an independent computation of every entry (depth-first index, parent, end, name offset)."),
"C07": ("h_fst_add", "One add on an arbitrary sorted tree (arbitrary pre-state, one step) against a reference implementation on the harness's own tree type."),
"C08": ("h_fst_remove", "One removal from an arbitrary tree against a reference implementation."),
"C09": ("h_fst_find", "Lookup of a symbolic path string in an arbitrary tree against a reference implementation, both variants."),
"C10": ("h_fst_ord, h_fst_ord3, h_fst_sort, h_fst_sort_wide", "Comparison of two and three symbolic names against a byte-wise reference; sorting of arbitrary trees: sorted, and a permutation (every node marked by a symbolic offset)."),
"C11": ("h_fst_walk, h_fst_walk_mut", "The sequence of callback calls is compared with a reference traversal; callbacks fail at a symbolic call or rename nodes symbolically."),
"C12": ("h_win_probe, h_win_disk", "Histories on a window over a source that records each access (any 64-bit start, length, offsets) and over a small disc; the oracle is the window's range and a position counter."),
"C13": ("h_malf_*", "Bytes of tables, structures and images are symbolic; a violation is any panic, overflow, out-of-bounds access, recursion beyond an 8 MB stack or allocation out of proportion to the source."),
"C14": ("h_lay_header, h_lay_title, h_lay_ticket, h_lay_tmd, h_lay_cert, h_lay_code", "Every byte symbolic: parse, compare each field with the bytes at its documented offset, write, compare with the input (reserved bytes zero)."),
"C15": ("h_lay_ticket, h_lay_rekey", "The title key and the stored key are compared with the uninterpreted AES applied to the common key (constants written down in the harness), vector and data the rules name."),
"C16": ("h_img_layout, h_img_contents", "Symbolic images of C01, read without the crate: offsets and sizes are taken from the bytes and compared pairwise for overlap, alignment and containment."),
"C17": ("h_img_tmd", "The stored metadata of symbolic images is compared byte by byte with the supplied one; the hash of the signed part is whatever the uninterpreted SHA-1 gives, the search is followed for a bounded number of attempts."),
"C18": ("h_dir_tree, h_dir_build, h_dir_merge", "Symbolic directories (names, sizes, order, a failing call) are read by the real directory reader through std::fs; the table is compared with the model file system; whole builds through the library, the tool and the Python module."),
"C19": ("h_ext_names, h_ext_sys", "Tables with symbolic names are extracted; the model file system logs where anything is created or written."),
"C20": ("h_ext_rt, h_ext_short", "Symbolic images are built, extracted, compared with what was supplied, rebuilt and compared again; every removal answer; failing calls; files that reach past the end."),
"C21": ("h_img_progress", "All reports of a build are recorded and compared."),
"C22": ("h_lay_parts", "Tables with symbolic entries at different places are compared with the list that is returned."),
"C23": ("h_img_fail, h_img_contents", "One operation of the output or one callback (symbolic number) fails; the build must report it; afterwards the disc is finished and everything that was added successfully is read back."),
"C24": ("h_lay_extent", "Symbolic apploader sizes and executable sections in a hand-made image; the extent is compared with a direct computation and the bytes with the plaintext."),
"C25": ("h_sec_name, h_sec_py, h_sec_tool, h_sec_multi", "Symbolic section names and partition tables through the library function, the Python module's functions and the tool's main."),
"C26": ("h_list_files, h_list_sections", "Symbolic trees and partition tables in hand-made images; what the tool's main writes to standard output is compared byte by byte with a listing made from the model (hexadecimal digits of symbolic positions included)."),
"C28": ("h_copy", "Symbolic images are built, copied by the real function through the model file system, and the copy is compared with what was supplied, less the entries that are to be left out; any one file system call (symbolic number) fails."),
"C27": ("h_ext_progress, h_sec_progress", "All numbers given to the callback (or printed by the tool) during extractions and rebuilds of symbolic images are recorded and compared."),
}
TAIL = open(os.path.join(V, "design_tail.md")).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))
TAIL = TAIL.replace("FIXED_LIST", "\n".join("- " + x[len("fixed: property="):] for x in kf["fixed"]))
rows = ["| bug | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], CAUGHT.get(d, m["property"])))
TAIL = TAIL.replace("SEEDED_TABLE", "\n".join(rows))

out = [HEAD, "\n## Properties\n"]
for p in PROPS:
    c = checks.CHECKS.get(p["id"])
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    if not c:
        out.append("Not applicable: %s\n" % checks.NOT_APPLICABLE[p["id"]])
        continue
    h, m = METHOD[p["id"]]
    out.append("- harnesses: %s\n- method and oracle: %s\n- bounds: %s\n- outside: %s\n" % (h, m, c["bounds"], c.get("outside", "larger sizes")))
    if c.get("assumptions"):
        out.append("- assumptions: %s\n" % "; ".join(c["assumptions"]))
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
