#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H = "include/chia/"
prop("C01", "Every proof stored in a finished plot is a valid proof of space",
 "For every plot the plotter finishes, following any stored table-7 entry down the line points to its 64 leaves gives x values that an independent verifier accepts under the plot's id and k: every level's pair matches, and the final function value equals the one the plot's lookup tables give for that entry. This holds for every supported k, in the k32 and the k34 build.",
 ["inputs", "configurations", "schedules"], "every plot id, every k from 16 to 32 (34 in the k34 build), every thread/bucket configuration and schedule",
 "No test runs the pipeline end to end: the built tests cover an external sort of one record type, a rename and FSE. Whether 2^k stored proofs all verify quantifies over plot ids and configurations.",
 [H+"phase1.hpp", H+"phase2.hpp", H+"phase3.hpp", H+"phase4.hpp", H+"encoding.hpp", "src/chia_plot.cpp"],
 [("f-function evaluation and matching", "phase1.hpp FxCalculator, FxMatcher"), ("position rewriting", "phase2.hpp compute_table, phase3.hpp compute_stage1/2"), ("park encoding", "phase3.hpp WritePark"), ("f7 order and checkpoint tables", "phase4.hpp compute")],
 ["bytes of the finished .plot file"])
prop("C02", "A finished plot holds every proof its id and k define, exactly once",
 "The set of (f7, 64-leaf tree) proofs stored in a finished plot equals the set obtained by computing all seven tables naively from the plot id: none is missing, none is added, none is stored twice. Tables below the last keep exactly the entries some proof still needs.",
 ["inputs", "configurations", "schedules"], "every plot id, k, thread/bucket configuration and schedule",
 "Losing a few entries at a bucket, chunk or park boundary leaves a plot that looks healthy; only a comparison with an independent full computation, over many ids and configurations, can see it. No test computes a plot.",
 [H+"phase1.hpp", H+"phase2.hpp", H+"phase3.hpp", H+"phase4.hpp", H+"DiskSort.hpp", H+"DiskTable.h"],
 [("matching over adjacent groups, including the last pair", "phase1.hpp compute_matches"), ("reachability marking", "phase2.hpp compute_table"), ("final partial park / checkpoint", "phase3.hpp compute_stage2, phase4.hpp compute")],
 ["bytes of the finished .plot file"])
prop("C03", "Plot content does not depend on threads, buckets, buffers or schedule",
 "Plotting the same id with the same k and memo gives the same header, the same table sizes and offsets, the same file size and the same stored proofs, whatever the number of threads, thread multiplier, bucket counts, buffer sizes, temporary directories or thread interleaving.",
 ["schedules", "configurations"], "every pair of configurations (threads 1..1024, 2^4..2^16 buckets, multiplier, chunk sizes) and every schedule of the worker threads",
 "Tests use one fixed configuration of one component and whatever interleaving occurs; the property compares runs under different configurations and adversarial schedules.",
 [H+"ThreadPool.h", H+"Thread.h", H+"DiskSort.hpp", H+"phase1.hpp", H+"phase2.hpp", H+"phase3.hpp", H+"phase4.hpp"],
 [("ordered output of worker pools", "ThreadPool.h wrapper"), ("double buffered merge of two tables", "phase3.hpp compute_stage1"), ("order-independent bucket sort", "DiskSort.hpp read")],
 ["bytes of the finished .plot files of two runs"])
prop("C04", "Header, table pointers and announced size describe the file exactly",
 "A finished plot starts with the version 1.0 header carrying the given k, id and memo verbatim; its ten big-endian pointers are the exact start offsets implied by the number of entries of each table, tables are contiguous and do not overlap, and the file length equals the plot size the plotter reports. A reader that relies only on the header can find every park.",
 ["inputs", "configurations"], "every k, memo, id and every number of entries per table, including empty remainders and exact multiples of the park and checkpoint sizes",
 "The existing tests never write a plot file. The boundary counts (multiples of 2048 and 10000, plus or minus one) occur in a real plot only with tiny probability.",
 [H+"phase3.hpp", H+"phase4.hpp", H+"util.hpp"],
 [("header writer", "phase3.hpp WriteHeader"), ("park size formulas", "phase3.hpp CalculateParkSize, phase4.hpp CalculateC3Size"), ("pointer computation", "phase3.hpp compute, phase4.hpp compute")],
 ["plot file bytes", "reported plot size"])
prop("C05", "External sort returns the input, sorted, once, with exact offsets",
 "Whatever records are added, from any number of threads and caches, reading an external sort delivers them in non-decreasing key order, as blocks whose announced offset is the number of records delivered before; the delivered multiset equals the added one bit for bit. Re-reading kept files, or opening them read-only later, delivers the same again.",
 ["inputs", "histories", "schedules", "configurations"], "every key distribution, record type (k32 and k34), key width, bucket count, chunk size, number of writers and readers, and interleaving",
 "The one test sorts 2^24 uniform keys of one type with one configuration, single-threaded adds, and does not check its output.",
 [H+"DiskSort.h", H+"DiskSort.hpp", H+"buffer.h"],
 [("bucket selection by high key bits", "DiskSort.hpp WriteCache::add"), ("second-level split and ordered emission", "DiskSort.hpp read_bucket"), ("per-thread write caches", "DiskSort.hpp WriteCache")],
 ["blocks delivered to the consumer"])
prop("C06", "Temporary record formats lose no bits for any in-range value",
 "Every temporary record type written to disk and read back yields exactly the same fields for all values within the widths its build supports (k up to 32, resp. 34, and 10-bit offsets), independently of what the buffer or the target object held before, and writing one record touches only its own fixed number of bytes.",
 ["inputs", "configurations"], "every field value in range, for every record type of both builds",
 "Packed fields share bytes; the test never compares fields, and only the 32-bit build's first record type is ever serialised. A wrong mask or shift shows only for values using the top bits.",
 [H+"phase1.h", H+"phase2.h", H+"phase3.h", H+"entries.h"],
 [("packed read/write", "phase1.h entry_1, entry_xm, entry_7, tmp_entry_x; phase2.h entry_x; phase3.h entry_lp, entry_np")],
 ["fields after write+read", "bytes outside the record"])
prop("C07", "Pipeline stages process each item once and hand it on in order",
 "For any chain of worker threads and pools, every item given to a stage is executed exactly once, results reach the next stage exactly once and in submission order, and waiting or closing returns only after everything submitted before has been delivered. A per-worker local state is never used by two jobs at the same time.",
 ["schedules", "histories"], "every interleaving of producers, workers and consumers; every pipeline shape, thread count and job duration; every history of take/wait/close",
 "Ordering and exactly-once are statements about all schedules; tests run one pipeline under the default scheduler.",
 [H+"Thread.h", H+"ThreadPool.h"],
 [("single slot hand-off", "Thread.h take/loop"), ("ring of predecessor waits", "ThreadPool.h wrapper")],
 ["sequence of items seen by the sink", "state observed right after wait()/close()"])
prop("C08", "A failing worker stops the run: no silent success and no hang",
 "If any stage of a pipeline fails on any item, or reading or writing a temporary file fails, the operation that drives the pipeline ends - by an exception or by terminating the process - and never returns as if it had succeeded, and never waits forever.",
 ["schedules", "fault_sequences", "histories"], "every failing item position, stage, pool size and interleaving; every failing read or write call",
 "No test injects a failure. Hanging depends on which worker fails while which other one waits for it.",
 [H+"Thread.h", H+"ThreadPool.h", H+"DiskSort.hpp", H+"DiskTable.h"],
 [("failure flag and rethrow", "Thread.h loop/wait"), ("predecessor wait", "ThreadPool.h wrapper"), ("return value checks", "DiskSort.hpp, DiskTable.h, util.hpp fwrite_at")],
 ["exit status / exception of the driving call", "blocked threads"])
prop("C09", "Table files give back exactly the rows written, at their positions",
 "Rows written to a temporary table and closed are read back complete, in order and with the announced start index of each block, for every number of rows, block size, buffer size and number of reader threads; the reported row count equals the number of rows written. This holds for tables larger than 4 GiB as well.",
 ["inputs", "configurations", "schedules"], "every row count, content, block size, flush history and number of reader threads",
 "The table store is not exercised by any built test.",
 [H+"DiskTable.h", H+"buffer.h"],
 [("write cache and flush", "DiskTable.h write/flush/close"), ("block partition", "DiskTable.h read/read_block")],
 ["blocks delivered", "get_info"])
prop("C10", "Back-propagation keeps exactly the reachable entries, remapped correctly",
 "After phase 2, a table keeps an entry if and only if some kept entry of the next table refers to it (all of table 7 is kept); the kept entries' references are rewritten to the ranks of the kept entries they pointed to, entries are numbered in original order, and the set of kept table-1 entries is reported exactly. Consumed temporary tables are removed.",
 ["inputs", "configurations", "schedules"], "every contents of tables 1..7 with in-range references, every thread, bucket and chunk configuration",
 "No test checks phase 2; test_phase_2 needs a 100 GB input and only prints.",
 [H+"phase2.hpp", H+"bitfield.hpp", H+"bitfield_index.hpp"],
 [("marking and remapping passes", "phase2.hpp compute_table"), ("rank lookup", "bitfield_index.hpp lookup")],
 ["sorted outputs, table 7 and bitfield handed to phase 3"])
prop("C11", "Bit set and rank index agree with a set; concurrent marks are not lost",
 "Marking positions from any number of threads at once leaves exactly the marked positions set; counting over any range and looking up the rank and rank distance of marked positions equal the counts in the abstract set, for sets of any size; saving and loading preserves the set.",
 ["inputs", "histories", "schedules"], "every history of set/clear/swap/save/load, every size and pattern, every interleaving of concurrent marks",
 "Not touched by any test; lost updates need two threads marking the same word at the same time.",
 [H+"bitfield.hpp", H+"bitfield_index.hpp"],
 [("atomic or", "bitfield.hpp set"), ("1024-bit rank samples", "bitfield_index.hpp")],
 ["get/count/lookup results"])
prop("C12", "Compressed tables contain exactly the line points of the kept entries",
 "After phase 3, decoding the parks of tables 1 to 6 of the plot file gives, in sorted order, exactly the line points of the kept entries of the table above, expressed in the sorted positions of the table below, and the data handed to phase 4 pairs each table-7 function value with the position of its own line point. This holds for every content that fits the format, up to the largest k of the build, and for any schedule of the merging threads.",
 ["inputs", "configurations", "schedules"], "every pruned table contents, k, thread/bucket/chunk configuration and interleaving",
 "No test checks phase 3; test_phase_3 needs a full phase-2 output and only prints.",
 [H+"phase3.hpp", H+"phase3.h", H+"encoding.hpp", H+"bits.hpp"],
 [("merge of two sorted streams", "phase3.hpp compute_stage1"), ("park slicing and encoding", "phase3.hpp compute_stage2, WritePark")],
 ["plot file parks", "sort_7 output"])
prop("C13", "Line-point encoding is an order-free bijection",
 "Encoding a pair of distinct positions to a line point gives the same value for both orders, different values for different unordered pairs, fits in 2k-1 bits for k-bit positions, and decoding gives back the pair, for positions of up to 35 bits.",
 ["inputs"], "every pair of distinct positions below 2^35",
 "Untested; errors of rounding or overflow show only for specific large values.",
 [H+"encoding.hpp"], [("triangular numbering and integer root", "encoding.hpp GetXEnc, SquareToLinePoint, LinePointToSquare")],
 ["returned values"])
prop("C14", "Delta coding round-trips and stays in the v1.0 plot format",
 "Compressing any delta sequence that occurs in a park or checkpoint table, with any of the format's distribution parameters and from any number of threads, produces bytes that both the bundled decoder and an independent decoder of the v1.0 format turn back into the same sequence.",
 ["inputs", "schedules"], "every delta sequence of 3 to 10000 in-range symbols, every format parameter, every interleaving of concurrent encoders",
 "FSE's own fuzzers use tables derived from each input, never the fixed distributions, and cannot notice a format change because encoder and decoder change together.",
 [H+"encoding.hpp", "lib/FSE/lib/fse_compress.c", "lib/FSE/lib/fse_decompress.c", "lib/FSE/lib/entropy_common.c"],
 [("normalised distribution", "encoding.hpp CreateNormalizedCount"), ("table cache", "encoding.hpp TMemoCache"), ("tANS coder", "lib/FSE/lib")],
 ["encoded bytes"])
prop("C15", "Lookup tables find all proofs of any challenge value and no others",
 "After phase 4, looking up any k-bit value through the checkpoint tables the way a harvester does returns exactly the table-6 positions of the entries with that function value: absent values return nothing, repeated values return all of them, including at checkpoint and park boundaries and at both ends.",
 ["inputs", "configurations"], "every multiset of function values that fits the format, of any size, every challenge value, k, thread and bucket configuration",
 "No test checks phase 4. Boundary positions (every 10000th, 2048th, and 10^8th entry) and repeated values across them need constructed inputs.",
 [H+"phase4.hpp"], [("C1/C2/C3/P7 writers", "phase4.hpp compute")], ["plot file bytes"])
prop("C16", "Moving a plot to its destination never loses or corrupts it",
 "Whatever happens while a finished plot is moved to its destination - same or different file system, any read, write, close or rename failing, or the process dying at any point - at least one complete copy of the plot exists afterwards, the destination name is only ever given to a complete copy, and success is reported only if the destination holds the plot's exact bytes and the source is gone (unless its removal itself failed).",
 ["crash_points", "fault_sequences", "inputs"], "every plot size, every failing or interrupted system call during the move",
 "The test renames one small file within a directory and never copies, fails or crashes.",
 [H+"copy.h", "src/chia_plot.cpp"], [("copy to temporary name, then rename", "copy.h final_copy, copy_file"), ("retry loop", "chia_plot.cpp copy_thread")],
 ["directory contents after the call or crash"])
prop("C17", "Function evaluation and matching follow the proof-of-space definition",
 "For every k the build supports, the first function, the functions of tables 2 to 7 with their carried metadata, the pair matching with its positions and offsets, and the underlying stream cipher equal the mathematical definition for all inputs.",
 ["inputs", "configurations"], "every plot id, every x and every pair of entries, every k from 16 to 34, every pair of adjacent groups",
 "phase 1 is not even compiled by the tests; bit-packing at k=33/34, 64-bit word crossings and group parity need particular inputs.",
 [H+"phase1.hpp", H+"phase1.h", H+"bits.hpp", H+"util.hpp", "lib/chacha8.c"],
 [("F1 blocks", "phase1.hpp F1Calculator"), ("Fx", "phase1.hpp FxCalculator"), ("matching", "phase1.hpp FxMatcher, load_tables"), ("keystream", "lib/chacha8.c")],
 ["computed entries"])
prop("C18", "A file with the final plot name is a complete plot, even after a failure",
 "At every moment of a run, and after any crash or any failing file operation, a file bearing the final .plot name in the output directory is a complete and correct plot; a run that hit an unrecovered failure does not report a finished plot.",
 ["crash_points", "fault_sequences"], "every kill point and every single or persistent failure of a file operation during plotting",
 "No test runs the plotter, crashes it or injects I/O errors.",
 [H+"phase3.hpp", H+"phase4.hpp", H+"DiskSort.hpp", H+"DiskTable.h", H+"util.hpp", "src/chia_plot.cpp"],
 [("temporary name until phase 4 ends", "phase3.hpp compute, phase4.hpp compute"), ("checked writes", "util.hpp fwrite_at, DiskSort.hpp, DiskTable.h")],
 ["output directory", "exit status", "reported completion"])
prop("C19", "A finished run leaves only plots and never touches other files",
 "When a run ends successfully, its temporary and staging directories contain nothing the run created except finished plots at their destination, and no file or directory that existed before was changed or removed, whatever the directory layout and options.",
 ["configurations", "histories"], "every assignment of temporary, second temporary, staging and final directories, option combination and pre-existing directory contents",
 "Leftovers of hundreds of GB and clobbered files depend on option combinations no test runs.",
 [H+"DiskSort.hpp", H+"phase2.hpp", H+"phase3.hpp", H+"phase4.hpp", "src/chia_plot.cpp", H+"copy.h"],
 [("bucket file removal after reading", "DiskSort.hpp read_bucket/close"), ("table removal after use", "phase2.hpp compute, phase3.hpp compute")],
 ["directory trees before and after"])
prop("C20", "Invalid command lines are refused before anything is written",
 "A command line with an unsupported k, thread count, thread multiplier, bucket count, missing or malformed keys, address, id or directory, or contradictory options is refused with a message and a non-zero exit, leaving every directory as it was; every valid combination is accepted, and takes effect as documented.",
 ["inputs", "configurations"], "every combination of option values around the documented limits, malformed keys and addresses",
 "No test runs the program.",
 ["src/chia_plot.cpp", H+"util.hpp"], [("option checks", "chia_plot.cpp main"), ("address decoding", "chia_plot.cpp bech32_address_decode")],
 ["exit status, message and directories"])
prop("C21", "Plot id, memo and file name are derived from the keys as specified",
 "For every combination of farmer key, pool key or contract address, port and uniqueness option, the id in the header, the id in the file name and the id the proofs use are the same and equal the specified hash of the keys, the memo holds the pool key or contract puzzle hash, the farmer key and the master secret from which the plot key is re-derivable, every plot has a master secret of its own, freshly drawn, and a given fixed id is used verbatim.",
 ["inputs", "configurations"], "every key, address, port and option combination and every random seed",
 "No test runs the program; a wrong derivation gives plots that look fine but can never be farmed.",
 ["src/chia_plot.cpp", H+"phase3.hpp", H+"util.hpp"], [("key derivation and id hash", "chia_plot.cpp create_plot"), ("memo and name assembly", "chia_plot.cpp create_plot")],
 ["header bytes and file name"])
prop("C22", "A run makes exactly the requested plots, each delivered where configured",
 "A run asked for n plots ends with exactly n distinct complete plots at the configured destination and reports success; after an interrupt the current plot is still completed and delivered and no further one is begun. This holds for every combination of staging, direct output, wait-for-copy and directory alternation.",
 ["histories", "configurations", "schedules"], "every count, option combination, interrupt time and copy speed",
 "No test runs a sequence of plots or interrupts one.",
 ["src/chia_plot.cpp", H+"copy.h", H+"Thread.h"], [("plot loop, toggling, interrupt flag", "chia_plot.cpp main"), ("background copy", "chia_plot.cpp copy_thread")],
 ["directories and exit status after the run"])
prop("C23", "Bit strings and bit packing behave as big-endian bit sequences",
 "Building, concatenating, appending, slicing, comparing and serialising bit strings, writing, appending and slicing bits in word arrays, and extracting integers from bytes give the results defined by plain big-endian bit sequences, for all lengths and values the plot format uses.",
 ["inputs", "histories"], "every history of operations and every length, offset and value, in particular across 64-bit word boundaries",
 "Not covered by any test; errors appear only at particular alignments.",
 [H+"bits.hpp", H+"util.hpp"], [("BitsGeneric", "bits.hpp"), ("write_bits/append_bits/slice_bits", "bits.hpp"), ("Slice helpers", "util.hpp")],
 ["resulting bits"])
prop("C24", "Temporary files stay within the documented disk space",
 "While a plot is made, the files in the first temporary directory, in the second one and in both together never exceed what the documentation asks for (220, 110 and 256 GiB for k=32, in proportion to the number of table entries for other k), whatever the threads, buckets and buffers: files are removed as soon as they have been read.",
 ["inputs", "configurations", "schedules"], "every plot id, k, thread/bucket/buffer configuration and schedule",
 "A file that is removed later than it could be changes no result; only the peak over the whole run shows it, and no test makes a plot.",
 ["README.md", H+"DiskSort.hpp", H+"phase1.hpp", H+"phase2.hpp", H+"phase3.hpp"],
 [("bucket files are removed when read", "DiskSort.hpp read_bucket"), ("tables are removed when rewritten", "phase2.hpp, phase3.hpp compute"), ("reading and writing buckets overlap", "phase1.hpp compute_table")],
 ["sizes of the files in the temporary directories during the run"])
prop("C25", "Memory in flight depends on threads and bucket size, not on the data",
 "Every stage of a pipeline waits until the next one accepts: with a consumer that stops, a chain accepts only as many items as its workers can hold, reading a sort or a table holds only as many buckets or blocks in memory as there are workers (plus a constant), and the memory of a whole plot is bounded by a fixed part per thread plus a number of buckets given by the threads.",
 ["inputs", "configurations", "schedules"], "every number of stages and workers, amount of data, bucket count, speed of the consumer and schedule",
 "Reading ahead without limit gives the same results on test-sized data, and runs out of memory at k=32 (README: 0.5 GB per thread). It depends on how fast consumers are.",
 [H+"Thread.h", H+"ThreadPool.h", H+"DiskSort.hpp", H+"DiskTable.h", "README.md"],
 [("single input slot, no further buffering", "Thread.h take"), ("a pool takes an item only when its worker is free", "ThreadPool.h take"), ("buckets are read by a pool of few readers", "DiskSort.hpp read"), ("blocks of limited size", "DiskTable.h read")],
 ["items accepted while the consumer stands still", "peak of allocated memory"])
prop("C26", "Making plots has no memory errors, undefined arithmetic or data races",
 "For every id, k, configuration and schedule, no stage of the pipeline and no part of a run of several plots reads or writes outside its buffers or after they were freed, relies on undefined arithmetic (signed overflow, shifts beyond the width, out-of-range conversions), or accesses data shared between threads without synchronisation.",
 ["inputs", "configurations", "schedules"], "every plot id, k, number of threads, buckets, buffer sizes, directory options and thread schedule",
 "Such an error usually leaves the result of a test run as it was; it corrupts plots or crashes only for some data, some compiler or some timing.",
 [H+"phase1.hpp", H+"phase2.hpp", H+"phase3.hpp", H+"phase4.hpp", H+"DiskSort.hpp", H+"DiskTable.h", H+"Thread.h", H+"ThreadPool.h", H+"encoding.hpp", H+"copy.h", "src/chia_plot.cpp"],
 [("queues of the pipeline are locked", "Thread.h, ThreadPool.h"), ("buffers sized by record and park sizes", "DiskSort.hpp, phase3.hpp, phase4.hpp"), ("shared coding tables are published under a lock", "encoding.hpp"), ("copy thread and plotting thread share only a queue", "src/chia_plot.cpp")],
 ["reports of AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer"])
prop("C27", "Plotters at work in the same directories do not disturb each other",
 "When several plotters run at the same time with the same or overlapping temporary, staging and final directories, each of them delivers exactly the plots it was asked for, complete and valid, leaves nothing else behind and touches no file of another run; a plotter that is killed does not affect the others.",
 ["configurations", "schedules", "histories", "crash points"], "every number of processes, directory layout, option, relative timing and moment at which one of them dies",
 "Names that are unique within one run, and the removal of one's own files, cannot be told apart from names shared with a neighbour while only one process runs.",
 ["src/chia_plot.cpp", H+"phase1.hpp", H+"phase2.hpp", H+"phase3.hpp", H+"phase4.hpp", H+"copy.h"],
 [("every temporary file carries the plot name", "phase1.hpp, phase2.hpp, phase3.hpp compute"), ("the plot name carries the id", "src/chia_plot.cpp create_plot"), ("copies use a temporary name of their own", "copy.h")],
 ["exit status of every run", "directories after all runs", "content of every plot"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
