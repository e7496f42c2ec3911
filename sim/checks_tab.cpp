#include "checks.h"
#define REALFILE "file and tree code of the library (kvtree.c, kvtree_io.c, kvtree_helpers.c, kvtree_err.c, kvtree_util.c), built with flock and with fcntl locking"
#define REALMPI REALFILE " and its MPI layer (kvtree_mpi.c, kvtree_mpi_io.c)"
#define REALALL REALMPI
// id, run, quick runs, thorough runs, rule, real components, note (evidence)
vector<CheckDef> CHECKS = {
  {"C01", run_c01, 75000, 2250000, "A run writes files and single-process sets (plain, with preceding descriptor writes, locked, read-modify-write) over 1-4 process lifetimes on missing, empty, valid or garbage files, under hard and transient call failures, kills and power failures, then reads everything back in a fresh process; it is non-trivial if at least one write was acknowledged and a crash or a hard fault happened.", REALFILE, "POSIX durability model: fsync of a file makes its data, size and its directory entry durable; a failed fsync may drop the dirty pages and later fsyncs then succeed without writing them"},
  {"C02", run_c02, 90000, 2700000, "A run kills processes or cuts the power in the middle of writes of files and of single-process sets or (one run in three) of new sets written collectively or in a single process, at any system call and with any subset of unsynced sectors surviving, and reads afterwards with every reader; it is non-trivial if a crash or a hard fault happened.", REALMPI, "a crash leaves each 512-byte sector at one of the contents it had since the last successful sync, and the length at one it had; a CRC collision is possible in principle"},
  {"C03", run_c03, 480000, 14400000, "A run stores a file or a gathered set with an independent encoder, damages it (flipped bits, truncation, zero or garbage sectors, damaged header fields also with a recomputed checksum, appended bytes) one to three times and reads it with every reader including the print tool; every such run is non-trivial.", REALFILE ", kvtree_print.c", "one file in six carries no checksum: for those only safety, header validation and truncation are judged"},
  {"C04", run_c04, 320000, 9600000, "A run performs one to four reads and writes of every kind under call failures that usually persist (per call kind or per file), also on a full disk, and compares each reported success with the bytes of the file; it is non-trivial if a hard fault fired or the disk was limited.", REALFILE, "a file a read reports success on is judged by an independent decoder"},
  {"C05", run_c05, 150000, 4500000, "A run performs reads and writes of every kind, and in one run of four collective ones, in one of twelve sequences of records through one descriptor of a file or pipe, under interruptions, would-block results, short transfers, at most seven failed transfers per call and at most four consecutive failed opens; it is non-trivial if a fault fired.", REALFILE ", and for collective runs kvtree_mpi.c and kvtree_mpi_io.c", "an interrupted lock call and a failing sync are not counted as transient trouble"},
  {"C06", run_c06, 160000, 4800000, "A run has two to five processes add tokens to one file by locked read-modify-write, with readers, kills and call failures; it is non-trivial if at least two updates were acknowledged.", REALFILE, "an update whose write-back failed or whose process died may be present, absent, or leave the file unreadable until it is next written"},
  {"C07", run_c07, 180000, 5400000, "A run has several processes make overlapping locked reads, writes and read-modify-writes of one file, and searches for a linearization of the recorded history; it is non-trivial if the history has at least four operations.", REALFILE, "operations that failed or whose process died are treated as optional"},
  {"C08", run_c08, 280000, 8400000, "A run has several processes use one file under the lock while one of them is killed or suffers persistent call failures; afterwards all others must finish and no lock may remain; it is non-trivial if at least three operations returned.", REALFILE, "progress is bounded by a step budget and by deadlock detection: when nothing but lock waits remain the run is reported"},
  {"C09", run_c09, 180000, 5400000, "A run makes calls of every kind (files, sets, tree scripts, point-to-point, exchange, gather, scatter) under failing system calls and failing allocations, with open descriptors, locks and directory handles and the heap counted before and after; every run that judges a call is non-trivial.", REALALL, "MPI objects (requests, communicators, operations) are counted as resources too"},
  {"C10", run_c10, 230000, 6900000, "A run makes file and set operations next to neighbour files with similar names and descriptors held by the application, under faults, and audits every path and descriptor used, the modes of created files, umask, working directory and environment; every run that judges a call is non-trivial.", REALALL, "the audit watches the simulated system calls; a call outside the simulated set is reported as a note"},
  {"C11", run_c11, 380000, 11400000, "A run reads files (three in five), collectively written sets (one in five) or sets in a single process (one in five) that are intact, damaged, missing or failing into trees that already hold overlapping data; it is non-trivial if a read was judged.", REALALL, "what a successful read should have stored is computed by an independent decoder and merge"},
  {"C12", run_c12, 270000, 8100000, "A run writes trees over files with longer, shorter, garbage or no contents and decodes each result independently, gathers sets over older sets and other contents and decodes each of their files, and reads files made by an independent encoder with elements in any order and with or without checksum; it is non-trivial if a file was written or read.", REALFILE, "the format is taken from the documentation and src/kvtree_io.h, re-implemented in sim/tree.cpp"},
  {"C13", run_c13, 110000, 3300000, "A run is a random program of sends, receives, send-and-receives and broadcasts over two to eight ranks on several communicators, with message timing, buffering and rank speed decided by the simulator; it is non-trivial if the communicator has at least two ranks.", REALMPI, "messages between two ranks on one communicator and tag do not overtake each other"},
  {"C14", run_c14, 30000, 900000, "A run is one or more sparse exchanges over one to 260 ranks (directed and undirected, sparse and dense patterns, self messages, repeated destinations, pre-filled receive trees); it is non-trivial if a tree was queued and there are at least two ranks.", REALMPI, "the reference result is an all-to-all computed directly from what was queued"},
  {"C15", run_c15, 36000, 1080000, "A run mixes point-to-point, broadcast, exchange, gather and scatter calls with application messages under adversarial buffering, progress and delays, and stalls of single ranks; it is non-trivial with at least two ranks.", REALMPI, "the MPI model reports deadlock, truncation, leftover messages and requests, changed in-flight buffers and mismatched collectives"},
  {"C16", run_c16, 28000, 840000, "A run gathers trees of every size over one or two communicators (also at once, with small segment sizes for many map levels), then scatters them back; it is non-trivial if a gather write of at least two ranks succeeded and was read back.", REALMPI, "segment sizes below the shipped 1 MB are chosen through the KVTREE_SIM hook"},
  {"C17", run_c17, 75000, 2250000, "A run gathers under system call failures on some ranks, decodes the set from the current and the durable state of the disk, and sometimes cuts the power afterwards; it is non-trivial if a hard fault fired, a rank died, or the disk was full or obstructed.", REALMPI, "as C01"},
  {"C18", run_c18, 120000, 3600000, "A run scatters a set made by the independent encoder (also of odd structure), intact, damaged, with missing files, without the entry of some rank, or read with failing calls on some ranks; it is non-trivial unless the set is intact, read by its own number of ranks without hard faults.", REALMPI, "damage that a reader cannot distinguish from an intact file (CRC collision) does not occur in the sampled runs"},
  {"C19", run_c19, 50000, 1500000, "A run gathers under a new prefix, collectively or in a single process with any entries-per-file setting, and walks the set with the independent decoder; it is non-trivial if the set has at least three files.", REALMPI, "as C12"},
  {"C20", run_c20, 110000, 3300000, "A run writes a set with either writer or the independent encoder under prefixes with special characters and next to neighbour files, sometimes over an older set of another size, removes or damages parts, and reads it with both readers; every run that judges a read is non-trivial.", REALMPI, "the single-process reader is expected to follow the references of the root file, as the collective one does"},
  {"C21", run_c21, 300000, 9000000, "A run performs one call of any kind while the n-th allocation, or every one from the n-th on, fails, also with transient call failures; it is non-trivial if an allocation failed.", REALALL, "library allocations only (malloc, calloc, realloc, strdup and those made by libc calls on its behalf: opendir, regcomp, strdup)"},
  {"C22", run_c22, 120000, 3600000, "A run has two to four threads of one process use different trees and files (tree scripts, all readers and writers, sets), preempted at any basic block of the library, and compares every result with a run of the same calls alone; every run is non-trivial.", REALFILE, "preemption is between basic blocks of the library on a sequentially consistent memory; the print tool and output streams are left out"},
  {"C23", run_c23, 460000, 13800000, "A run gives kvtree_print a missing, unreadable, intact or damaged file with every option, under call failures and transient trouble and with standard output on a full disk, and compares exit status and output with an independent printer; every run is non-trivial.", REALFILE ", kvtree_print.c", "output goes to a captured, buffered stream with room for any, few or no bytes"},
  {"C24", run_c24, 300000, 9000000, "A run sends a sequence of records and application data through one descriptor, either into a file at some offset (or appending) and back, or through a pipe of 1 to 65536 bytes between two processes with blocking or non-blocking ends, under transient and hard failures and kills of either side; it is non-trivial if a record was transferred next to other items.", REALFILE, "one writer and one reader per pipe; the application's own transfers meet no injected faults"},
};
