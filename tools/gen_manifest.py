#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Techniques and level notes are maintained here."""
import json, os

T = {}
def t(pid, technique, note):
    T[pid] = (technique, note)

COMMON = " Inputs are steered by the constants in the current machine code and (except M04, M07, M09, M10, N05) by a libFuzzer-guided stage over the same oracles. Trusts the compilers' sanitizers, the MMU and the oracles in harness/; says nothing about inputs that were not run."
t("M01", "ASan+UBSan and guard-page monitoring of all operations under hostile inputs",
  "Every public operation on exactly sized buffers that end or begin at an inaccessible page, in a plain build and in a clang ASan+UBSan build (all UB kinds except pointer-overflow), over random operations and two enumerated grids (JSON texts over a small alphabet, Base64 lengths x capacities); a watchdog reports calls that do not return.")
t("M02", "canary and shadow-copy monitor around every output",
  "Outputs sit inside larger valid areas filled with canaries; after each call all bytes outside the documented output must be unchanged, for all capacities from zero up, success and failure.")
t("M03", "read-only page monitor (write faults) on inputs and queried objects",
  "All inputs are on pages mapped read-only during the call, as are containers, storage and tables during queries and scheduler passes; a write of any kind faults even if it would be undone.")
t("M04", "single-step preemption, nesting and ThreadSanitizer monitoring against isolated results",
  "Jobs over all modules are preempted by other jobs at chosen machine instructions (trap flag single-stepping of the real code), nested from comparators and tasks, and run in parallel under TSan; results are compared with the isolated ones. Interleavings are sampled, except the first call of each job, which is preempted at every stage of initialisation.")
t("M05", "twin-execution monitor: object bytes and later behaviour with and without the rejected call",
  "Snapshots around each rejected call plus comparison of the continued history with a model that never saw the call.")
t("M06", "differential runs under different stale memory plus MemorySanitizer",
  "Each operation is executed under several prior contents of outputs, storage, objects and stack, and results compared; clang MSan with poisoned memory checks that reported outputs are initialised and no branch depends on uninitialised bytes.")
t("M07", "sparse multi-GiB storage with tagged elements, guard regions and trapping-overflow build",
  "Real containers and sorts on 2..12 GiB of address space (one shared file mapped repeatedly), tags on both sides of the 2 and 4 GiB lines, guard regions of 9 GiB on either side; also a build in which signed overflow in the library traps. Few, chosen sizes.")
t("M08", "cross-build differential monitor over 10 compiler configurations",
  "The same random documented call sequences run in gcc and clang builds at -O0..-O3/-Os with signed and unsigned char; digests of all results and outputs must agree. x86-64 only.")
t("M09", "stack painting, allocator interposition and system-call trapping around every call",
  "The stack below each call is painted and inspected, the allocator replaced and system calls delivered as signals (syscall user dispatch), over random operations of all modules and families of calls on data up to 200 KB, with the library at -O2 and -O0. Stack frames are those of gcc on x86-64.")
t("M10", "work counters (sancov edges, wrapped libc calls) against a linear bound per call",
  "Edges executed in an instrumented build of the library plus bytes handled by libc on its behalf, for every function on data up to 300 KB and histories that fill the containers; the bounds leave about an order of magnitude of room, so constant-factor changes are not reported.")
t("M11", "differential runs of the same call at nine placements of its data",
  "Random documented operations of all modules run with their buffers apart, packed in ascending, descending and random order, at odd addresses and across the 2, 4 and 8 GiB lines; digests of results and outputs must agree; at -O2, at gcc -O3 -funroll-loops, and under UBSan's alignment check.")
t("M12", "differential runs of the same call on 32-bit x86 and big-endian MIPS32/MIPS64",
  "Random documented operations of all modules run natively, in two 32-bit x86 programs (gcc, clang) and in MIPS32 and MIPS64 big-endian programs executed by an interpreter that traps misaligned, wild and read-only accesses; digests of every result must agree. The small C library of these programs is the harness's own; 16-bit machines are not covered.")
t("B01", "runtime oracle (independent RFC 4648 encoder) on every length, tail and capacity",
  "All lengths up to 2200 (thorough 9000) with all nearby capacities, all one-byte tails, groups of three bytes, random data and one multi-hundred-MiB input.")
t("B02", "runtime oracle on padded and unpadded standard texts and all capacities",
  "As B01, plus round trips through the library's encoder.")
t("N01", "runtime oracle over enumerated positions and words",
  "All positions 0..255, widths and rotations for special words; the complete 2^32 word range is covered in the thorough tier and sampled in slices in the quick tier.")
t("N02", "runtime oracle (independent decimal reader) over enumerated and random texts",
  "All 256 characters at every position, values around 2^32 and powers of ten, dense slices of the value range, unterminated buffers at page ends.")
t("N03", "runtime oracle over values, byte orders and alignments",
  "All 8/16-bit values, slices of the 24/32-bit values (complete in the thorough tier).")
t("N04", "runtime oracle over sizes, alignments and contents",
  "All sizes up to 2400 and random larger ones; beyond 2 GiB see M07.")
t("N05", "exhaustive runtime enumeration",
  "All 256 characters and all 256 exponents, in two builds: the input space is complete; both builds are x86-64.")
t("C01", "runtime oracle (bit-by-bit CRC from the published parameters) for all 45 variants",
  "Every variant: all one-byte messages, all lengths to 300 (2100), random and very long messages; parameters are the published ones with their check values and are verified at start.")
t("C02", "runtime oracle over message partitions",
  "All two-way and exhaustive partitions of short messages, random partitions of long ones, all intermediate byte states, empty chunks.")
t("C03", "runtime oracle (textbook CRC model) over polynomials and parameters",
  "All 8-bit polynomials, all 16-bit polynomials in slices, sampled 32-bit ones; all flag combinations.")
t("E01", "runtime oracle (independent RFC 8439 implementation) over lengths and counters",
  "All lengths to 2600 (9000), counters around the 32-bit wrap, random keys, one long message that crosses 2^32 bytes.")
t("E02", "metamorphic runtime monitor: inverse, in place, block-wise",
  "Related calls compared with each other for all lengths to 1300 (4500) and random partitions.")
t("E03", "runtime oracle, exhaustive over shift x character",
  "All 256 shifts with all 255 characters in changing neighbourhoods, random messages, every alignment; both directions.")
t("E04", "runtime oracle over all message/key character pairs and lengths",
  "All 255x255 character pairs, both directions, mismatching lengths including ones that differ by multiples of 2^8, 2^16 and 2^32.")
t("Q01", "online FIFO model monitor over call histories",
  "All operation words up to a bounded length on small queues, random long histories, dimensions around 2^8, 2^16, 2^32 boundaries and two marathons past 2^32 operations.")
t("Q02", "online priority-queue model monitor over call histories",
  "All short words over three priorities, random histories with full-range priorities and sizes around width boundaries.")
t("Q03", "online map model monitor over call histories",
  "All short words on small maps, keys that differ in single bits or only in the last byte, random histories, wide dimensions.")
t("Q04", "event-log monitor of task invocations against a table model",
  "Random histories of table edits, adds and passes, including tasks that add, activate, deactivate and clear slots while running, and large tables.")
t("Q05", "runtime oracle over enumerated configurations",
  "Grid of boundary dimensions x missing arguments for each init function on fresh and used objects.")
t("S01", "permutation and order monitor over enumerated and random arrays",
  "All permutations up to 8 (10) elements, all words over small alphabets, random and adversarial arrays, element sizes 1..4096 (insertion sort up to its documented 64).")
t("S02", "tagged-element stability monitor", "All small words with distinguishable equal elements, random and large arrays.")
t("S03", "comparator-argument monitor and hostile comparators",
  "Each argument of each comparison must be an element of the array or a faithful copy of one; comparators answering by script (all 2^n scripts for small arrays), at random, NaN-like or always the same; guard pages around the array.")
t("S04", "comparison-count monitor against algorithmic bounds",
  "Counts against explicit generous bounds (heap sort 6n(log2 n + 2) + 100, others 2n^2 + 10n + 20, presorted 4n + 20) for random, adversarial and scripted comparators.")
t("J01", "online text model monitor over builder histories", "Exact and off-by-one buffer sizes, refused steps followed by continued building; each text is compared with the model's and parsed by an independent JSON reader.")
t("J02", "runtime oracle (independent flat-object parser) over documents and keys",
  "Systematic small documents in which keys, values and fragments coincide, random whitespace, truncated sizes, exact capacities.")
t("J03", "end-to-end recovery monitor over the encode, build, find, decode pipeline", "Random payload sets and buffers both roomy and tight.")

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert sorted(ids) == sorted(T), (set(ids) ^ set(T))
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import shutil,sys; sys.exit(any(shutil.which(c) is None for c in (\"gcc\",\"clang\")))'",
    "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "exploration", "level_note": T[i][1] + COMMON} for i in ids],
    "not_applicable": [],
    "notes": "check.py builds the library from /repo's working tree together with the monitors in harness/ on every run (2 s), so setup only checks for the compilers. No hooks in /repo are needed.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
