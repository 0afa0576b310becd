"""Which harness decides which property, and how the harness binaries are built."""
import os
from .build import H, LIBC, SETTINGS, K34, VERIF, REPO

PHASES = H("phase_1.cpp", "phase_2.cpp", "phase_3.cpp", "phase_4.cpp")
BINS = {}
def both(name, src, **kw):
    fl = kw.pop("flags", [])
    BINS[name + "32"] = dict(src=src, flags=fl, **kw)
    BINS[name + "34"] = dict(src=src, flags=fl + K34, **kw)
both("e2e", PHASES + H("e2e.cpp") + [SETTINGS] + LIBC)
both("sort", H("sort.cpp") + [SETTINGS])

DEPS = {}
def with_deps(names):
    r = {}
    def add(n):
        if n not in r:
            r[n] = BINS[n]
            for d in DEPS.get(n, []): add(d)
    for n in names: add(n)
    return r
def env_for(name, paths):
    e = dict(os.environ)
    for d in DEPS.get(name, []):
        e["VP_BIN_" + d.split("_san_")[0].upper()] = paths[d]
        if "_san_" in d: e["VP_SAN"] = "1"; e["VP_BIN_CHIA_PLOT34"] = paths[d]     # the suites used with it only make small plots
    return e

COMMON_ASSUMPTIONS = ["BLAKE3 is provided by /verif/stubs (the submodule is not in the tree); it was validated against LLVM's implementation",
                      "the harness is compiled by g++ -O1 from /repo's working tree"]
PROPS = {}
def prop(id, suites, **kw):
    PROPS[id] = dict(suites=suites, **kw)
def S(bin, suite, quick, rule, **kw):
    return dict(bin=bin, suite=suite, quick=quick, rule=rule, **kw)

E2E = "a case is a random (k, id, memo, thread/bucket/buffer configuration, schedule noise); the whole pipeline plots it"
SORT = "a case is a record type, key width, bucket count, 0..40000 records from one of 9 key distributions, 1..13 writers, buffer sizes, reader threads and re-reads; non-trivial: at least 2 records with differing keys"
prop("C05", [S("sort32", "sort", 10, SORT), S("sort34", "sort", 8, SORT + " (k34 build)")])

both("codec", H("codec.cpp") + [SETTINGS])
CODEC = "a case is a record type, its k-dependent field values (boundary-biased) and the surrounding bytes; non-trivial: a field is non-zero"
prop("C06", [S(b, s, t, CODEC + x) for b, x in (("codec32", ""), ("codec34", " (k34 build)")) for s, t in (("codec", 5), ("codec_file", 6), ("codec_assign", 3))])

both("table", H("table.cpp") + [SETTINGS])
TABLE = "a case is a table of rows written by several threads in several calls and read back with random thread counts, buffer sizes and repeats; non-trivial: at least two rows"
prop("C09", [S(b, s, t, TABLE + x) for b, x in (("table32", ""), ("table34", " (k34 build)")) for s, t in (("table", 8), ("table_4gib", 3), ("table_2pow32_rows", 3))])

BINS["bits"] = dict(src=H("bits.cpp") + [SETTINGS])
BINS["bits_san"] = dict(src=H("bits.cpp") + [SETTINGS], flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
BITS = "a case is a random sequence of bit string operations against a std::string model; non-trivial: it crosses a word boundary"
prop("C23", [S("bits", s, 4, BITS) for s in ("bits_seq", "bits_large", "bits_park", "bits_util", "bits_words")] + [S("bits_san", s, 2, BITS + " (ASan+UBSan)") for s in ("bits_seq", "bits_large", "bits_park", "bits_util", "bits_words")])

BINS["pool"] = dict(src=H("pool.cpp") + [SETTINGS])
BINS["pool_tsan"] = dict(src=H("pool.cpp") + [SETTINGS], flags=["-fsanitize=thread", "-g", "-DVP_TSAN"])
POOL = "a case is a chain of 1..4 worker threads / pools (1..17 workers, fan-out 0..3) with delays, waits and schedule noise, against the sequential order; non-trivial: more than one item through a pool or more than one stage"
PRODS = "a case is 1..6 producers feeding one worker thread; non-trivial: at least two producers and two items"
prop("C07", [S("pool", "pipeline", 12, POOL), S("pool", "producers", 6, PRODS), S("pool", "long_run", 8, "a case sends 66000..131800 items through a pool (or two) and a consumer, with slow jobs around multiples of 2^15; non-trivial: always"), S("pool_tsan", "pipeline", 8, POOL + " (ThreadSanitizer)"), S("pool_tsan", "producers", 4, PRODS + " (ThreadSanitizer)")])
both("failio", PHASES + H("failio.cpp", "fault.cpp") + [SETTINGS] + LIBC)
prop("C08", [S("pool", "failing", 8, POOL + ", in which a job of one stage throws; non-trivial: the throwing job is reached"), S("pool", "failing_thread", 4, PRODS + ", one execution throws"),
  S("failio32", "fail_sort", 7, "a case is an external sort with the n-th read/write/open/close of a bucket file failing, cut short or hitting end of file; non-trivial: the fault fired"),
  S("failio32", "fail_table", 6, "a case is a table written and read back with such a fault, or with the file truncated or removed in between; non-trivial: the fault fired"),
  S("failio32", "fail_plot", 25, "a case is a k=16 plot with such a fault at any point of the four phases; non-trivial: the fault fired")])

both("p2", H("phase_2.cpp", "p2.cpp") + [SETTINGS])
P2 = "a case is seven random tables (1..30000 rows, 6 reference patterns), k, thread/bucket/buffer configuration and schedule noise; non-trivial: entries are dropped and kept"
P2B = "as phase2, with table 1 of more than 2^32 entries and references around 2^31, 2^32 and the end"
prop("C10", [S("p2" + b, s, t, r + x, **kw) for b, x in (("32", ""), ("34", " (k34 build)")) for s, t, r, kw in (("phase2", 9, P2, {}), ("phase2_big", 6, P2B, {"workers": 3}))])

BINS["bf"] = dict(src=H("bf.cpp") + [SETTINGS])
BINS["bf_tsan"] = dict(src=H("bf.cpp") + [SETTINGS], flags=["-fsanitize=thread", "-g", "-DVP_TSAN"])
prop("C11", [S("bf", "set_and_rank", 10, "a case is a set size, one of 7 patterns, 1..8 marking threads, count ranges and rank queries; non-trivial: more than 3 elements in more than one word"),
  S("bf", "hammer", 6, "a case is several threads marking interleaved positions of the same few words at once; non-trivial: always"),
  S("bf_tsan", "set_and_rank", 4, "as set_and_rank, under ThreadSanitizer"), S("bf_tsan", "hammer", 3, "as hammer, under ThreadSanitizer"),
  S("bf", "rank_big", 6, "a case is a set over more than 2^32 positions with marks around 2^31, 2^32 and the end; non-trivial: always", workers=6),
  S("bf", "rank_full", 5, "a case is a set with more than 2^32 marked positions; non-trivial: always", workers=4)])

BINS["enc"] = dict(src=H("enc.cpp") + LIBC + [SETTINGS])
BINS["enc_san"] = dict(src=H("enc.cpp") + LIBC + [SETTINGS], flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
BINS["enc_tsan"] = dict(src=H("enc.cpp") + LIBC + [SETTINGS], flags=["-fsanitize=thread", "-g", "-DVP_TSAN"])
prop("C13", [S("enc", "line_point", 12, "a case is a pair of positions of up to 36 bits (boundary-biased), the neighbouring line point and a second pair, against x(x-1)/2+y; non-trivial: larger position above 2"), S("enc_san", "line_point", 5, "as line_point, under UBSan")])
ANS = "a case is a distribution parameter of the format and 3..9999 deltas from one of 8 shapes; decoded by the bundled and by an independent decoder; non-trivial: at least two different symbols"
ANST = "a case is 2..8 threads coding random sequences at once, starting from cold tables; non-trivial: always"
prop("C14", [S("enc", "ans", 12, ANS), S("enc", "ans_threads", 7, ANST), S("enc_tsan", "ans_threads", 5, ANST + " (ThreadSanitizer)"), S("enc_san", "ans", 5, ANS + " (ASan+UBSan)")])

both("p4", H("phase_4.cpp", "p4.cpp") + [SETTINGS] + LIBC)
P4 = "a case is a multiset of up to 60000 function values (7 shapes, anchored at 0, at 2^k-1 or between; sizes around park and checkpoint borders), positions of full width, k, configuration and schedule noise; non-trivial: more than 3 entries and 2 different values"
F23 = dict(match=r"function values are not stored: C3 park has size 0$", what="phase4::compute with n%10000 in {2,3} table 7 entries: the last C3 park is written with size 0 (FSE cannot code fewer than 3 symbols and C3 has no raw mode), so the last 1 or 2 function values cannot be found")
prop("C15", [S("p4" + b, "lookup", t, P4 + x) for b, t, x in (("32", 14, ""), ("34", 10, " (k34 build)"))] + [S("p4" + b, "lookup_c2", 3, "more than 10^8 entries, so that there is a second C2 entry; every C1 and C2 entry and about 120 lookups are checked; non-trivial: always", workers=1) for b in ("32", "34")] + [S("p432", "lookup_tail23", 2, "as lookup, with 2 or 3 entries after the last checkpoint: demonstrates the recorded finding", finding=F23, shrink=1)])

both("p3", H("phase_3.cpp", "p3.cpp") + [SETTINGS] + LIBC)
P3 = "a case is a set of pruned tables (x values over the whole k range, 6 reference patterns, unused rows), k, configuration and schedule noise; non-trivial: table 2 or 7 spans several parks"
both("p3far", H("p3far.cpp") + [SETTINGS] + LIBC)
FAR = "a case is a table of line points stored twice: near the start of the plot file and beyond 2 GiB, 4 GiB or 100 GiB (sparse file); non-trivial: more than one entry"
prop("C12", [S("p3" + b, "phase3", t, P3 + x) for b, t, x in (("32", 16, ""), ("34", 14, " (k34 build)"))] + [S("p3far" + b, "far", 4, FAR + x, optional=True) for b, x in (("32", ""), ("34", " (k34 build)"))])

BINS["copy"] = dict(src=H("copy.cpp", "fault.cpp") + [SETTINGS])
prop("C16", [S("copy", "move", 15, "a case is a plot file (sizes around buffer borders), directories on one or two file systems, other files present, and up to three attempts at moving it, each with one system call failing, being cut short or killing the process, then one without faults; non-trivial: a fault fired and the file is not empty"), S("copy", "move_big", 2, "a file of more than 4 GiB moved across file systems; non-trivial: always", workers=1)], level="fault_enumeration")

both("p1", H("phase_1.cpp", "p1.cpp") + [SETTINGS] + LIBC)
both("fx", H("fx.cpp") + [SETTINGS] + LIBC)
P1 = "a case is a plot id, k of 16..18, configuration and schedule noise; all seven tables phase 1 writes are compared with the naive definition; non-trivial: more than 1000 table 7 entries"
FM = "a case is a table number, any k of the build, up to 14 adjacent groups of entries with random metadata, configuration and schedule noise, matched and evaluated by the plotter and by the definition; non-trivial: more than 10 matches"
MP = "a case is two adjacent groups placed anywhere in a table, up to the last position a record can refer to; non-trivial: at least one match"
F1 = "a case is an id, any k of the build and a block of x values (boundary-biased); non-trivial: several x"
CH = "a case is a key, block number (around 2^32 too) and length; non-trivial: at least one block"
prop("C17", [S("p1" + b, "tables", t, P1 + x) for b, t, x in (("32", 9, ""), ("34", 7, " (k34 build)"))] +
  [S("fx" + b, s, t, r + x, optional=True) for b, x in (("32", ""), ("34", " (k34 build)")) for s, t, r in (("matches", 6, FM), ("match_pos", 2, MP), ("f1", 2, F1), ("chacha", 1, CH))])

F2K = dict(match=r"bucket index out of range: (\d+) >= \1", what="k=16, id 09f82659b3fd7727405638b91eab6fae2b79f738d066440821a795331cf4087e (and other small-k ids for which back-propagation keeps more than 2^k entries of a table): phase 3 ends with 'bucket index out of range', no plot is made")
# whole plots are affordable up to k=22; the same stages are driven separately at every k of the format
def parts(*names):
    return [S(b + x, s, t, "component of the pipeline at every k: " + r + y, optional=b == "fx") for b, s, t, r in names for x, y in (("32", ""), ("34", " (k34 build)"))]
FXP, P3P, P4P, P2P = ("fx", "matches", 4, FM), ("p3", "phase3", 5, P3), ("p4", "lookup", 3, P4), ("p2", "phase2", 3, P2)
prop("C01", [S("e2e32", "soundness", 11, E2E + "; non-trivial: more than 1000 proofs, all followed and verified"), S("e2e34", "soundness", 7, E2E + " (k34 build)"), S("e2e32", "soundness_mid", 10, E2E + ", k of 19 or 20"), S("e2e32", "soundness_big", 0, E2E + ", k of 19..22", thorough=300)] + parts(FXP, P3P, P4P, P2P))
prop("C02", [S("e2e32", "completeness", 10, E2E + "; non-trivial: more than 1000 proofs compared with the reference plotter"), S("e2e34", "completeness", 7, E2E + " (k34 build)"), S("e2e32", "overfull", 1, "plots an id for which a pruned table keeps more than 2^16 entries: demonstrates the recorded finding", finding=F2K, shrink=1, workers=2), S("e2e32", "completeness_mid", 14, E2E + ", k of 19 or 20"), S("e2e32", "completeness_big", 0, E2E + ", k of 19..22", thorough=300)] + parts(FXP, P3P, P4P, P2P))
prop("C03", [S("e2e32", "independence", 15, E2E + ", twice with different configurations; non-trivial: the configurations differ and there are more than 1000 proofs"), S("e2e34", "independence", 8, E2E + ", twice (k34 build)"), S("e2e32", "independence_mid", 12, E2E + ", twice, k of 19 or 20")] + parts(("p3", "phase3", 4, P3), P4P, P2P))
prop("C04", [S("e2e32", "layout", 12, E2E + "; non-trivial: always, the header, pointers and length are recomputed"), S("e2e34", "layout", 8, E2E + " (k34 build)"), S("e2e32", "layout_mid", 8, E2E + ", k of 19 or 20")] + parts(P3P, P4P))

# the program itself, with stand-ins for the submodules that are not in the tree
both("chia_plot", [REPO + "/src/chia_plot.cpp"] + H("cli_hook.cpp", "fault.cpp") + [SETTINGS] + LIBC, flags=["-I" + VERIF + "/stubs/cli", '-DGIT_COMMIT_HASH="x"'])
BINS["cli"] = dict(src=H("cli.cpp", "fault.cpp") + LIBC + [SETTINGS])
DEPS["cli"] = ["chia_plot32", "chia_plot34"]
CLI_ASSUMPTIONS = ["chia_plot is built with stand-ins for bls-signatures (a toy group with the same interface), libsodium's random source (seeded) and libbech32 (BIP 350), whose sources are not in the tree"]
FN = "a case is a k=16 run of chia_plot with one file operation (or all from the n-th on) failing, cut short, hitting end of file or killing the process before, in the middle of or after it, with random directories, staging and direct output; non-trivial: the fault fired"
prop("C18", [S("cli", "final_name", 45, FN)], level="fault_enumeration", assumptions=CLI_ASSUMPTIONS)
prop("C19", [S("cli", "leftovers", 30, "a case is 1..3 k=16 plots with random temporary, staging and final directories (possibly equal, nested, spelled differently), options, and unrelated files present; non-trivial: a plot was made and directories or files differ")], assumptions=CLI_ASSUMPTIONS)
prop("C20", [S("cli", "options", 30, "a case is a random command line with 0..3 defects out of 15 kinds (k, threads, thread multiplier, buckets, directories, keys, address, id, contradictions, open file limit); non-trivial: always"), S("cli", "effects", 20, "a case is a k=16 run (or two that differ in -r or -K) with random -u, -v, -r, -K, -2, -d, -s, -D, -G, whose created files, bytes written per directory and started threads are recorded; non-trivial: always")], assumptions=CLI_ASSUMPTIONS)
prop("C21", [S("cli", "derive", 15, "a case is random keys or contract address, port, k, uniqueness or fixed id and random source; the name is compared with an independent derivation; non-trivial: derived id"), S("cli", "derive_plot", 20, "as derive, and the finished k=16..17 plot is read back; non-trivial: always")], assumptions=CLI_ASSUMPTIONS)
prop("C22", [S("cli", "delivery", 30, "a case is 1..4 k=16 plots with random directories and options, a slow, failing or normal copy; non-trivial: more than one plot or a disturbed copy"), S("cli", "interrupt", 25, "a case is such a run interrupted by SIGINT or SIGTERM at a random time of the first or second plot; non-trivial: further plots were due")], assumptions=CLI_ASSUMPTIONS)
prop("C27", [S("cli", "neighbours", 40, "a case is 2 or 3 chia_plot processes at work at the same time in random (half the time the same) directories, with unrelated files present and in a quarter of the cases one of them killed; non-trivial: always")], assumptions=CLI_ASSUMPTIONS)

# resources
BINS["mem"] = dict(src=H("mem.cpp") + [SETTINGS])
prop("C24", [S("e2e32", "disk_space", 35, "a case is a random (k of 18..20, id, threads, buckets, buffers) with two temporary directories, whose sizes are sampled about every 0.3 ms while the plot is made; non-trivial: at least 100 samples and the usual peak was seen")], assumptions=["record sizes do not depend on k, so the documented k=32 needs scale with the number of entries"])
prop("C25", [S("mem", "accepted", 8, "a case is a chain of 1..4 worker threads and pools in front of a consumer that stops; non-trivial: the chain filled up"),
  S("mem", "sort_window", 10, "a case is a sort of 150000..400000 records read with 1..8 threads by a consumer that stalls at random, with all allocations counted; non-trivial: the bound is below 80 % of the data"),
  S("mem", "table_window", 8, "as sort_window, reading a table"),
  S("e2e32", "memory", 25, "a case is a plot of k 20..21 with 1..4 threads and 64..256 buckets, with the allocations of each phase counted; non-trivial: the part of the bound that depends on buckets is below the size of a table")])

# instrumented builds
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute", "-fno-sanitize-recover=undefined", "-g1"]
TSAN = ["-fsanitize=thread", "-g1", "-DVP_TSAN"]
for n, fl in (("asan", ASAN), ("tsan", TSAN)):
    BINS["plot_" + n] = dict(src=PHASES + H("san.cpp") + [SETTINGS] + LIBC, flags=fl)
    BINS["chia_plot32_san_" + n] = dict(BINS["chia_plot32"], flags=BINS["chia_plot32"]["flags"] + fl)
    BINS["cli_" + n] = BINS["cli"]; DEPS["cli_" + n] = ["chia_plot32_san_" + n]
for b in ("sort34", "p232", "p332", "p334", "p434", "fx34"): BINS[b + "_asan"] = dict(BINS[b], flags=BINS[b]["flags"] + ASAN)
INS = {"asan": " (AddressSanitizer and UBSan; any report is a violation)", "tsan": " (ThreadSanitizer; any report is a violation)"}
prop("C26", [S("plot_tsan", "plot_instrumented", 14, "a case is a random id, k of 16..17 and configuration; the whole pipeline plots it; non-trivial: always" + INS["tsan"]), S("plot_asan", "plot_instrumented", 14, "as above" + INS["asan"]),
  S("cli_tsan", "delivery", 20, "a case is a run of chia_plot for several plots as in C22" + INS["tsan"]), S("cli_asan", "delivery", 20, "a case is a run of chia_plot for several plots as in C22" + INS["asan"])] +
  [S(b + "_asan", s, t, r + INS["asan"], optional=b.startswith("fx")) for b, s, t, r in (("sort34", "sort", 5, SORT), ("p232", "phase2", 4, P2), ("p332", "phase3", 8, P3), ("p334", "phase3", 6, P3 + " (k34 build)"), ("p434", "lookup", 6, P4), ("fx34", "matches", 6, FM))], assumptions=CLI_ASSUMPTIONS + ["alignment and null-argument findings of UBSan are not counted (x86-64, sizes of 0)"])
