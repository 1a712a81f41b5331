NA = {}
SMC = "stateless model checking of the real code: "
T["C01"] = (SMC + "exhaustive deviation-bounded exploration of thread schedules, network faults and segmentations of whole transfers", "model_checking",
 "Every execution within the stated numbers of deviations (thread switches at synchronisation points, network faults, delays) per configuration; sequentially consistent interleavings at synchronisation points; virtual network and time stand in for the kernel.")
T["C02"] = (SMC + "deviation-bounded exploration with deadlock, livelock, crash and virtual-time detection", "model_checking",
 "As C01; termination is judged against a virtual-time limit and a step limit per execution.")
T["C03"] = (SMC + "every placement of up to two recoverable network faults, and permanent loss of ports", "model_checking",
 "As C01; recoverable means within the configured retry limits; failures of accept() itself are outside.")
T["C04"] = (SMC + "every placement of network, thread-switch and file-system deviations; both reports compared with the real trees", "model_checking",
 "As C01 plus file-system error injection on each operation of either side.")
CMP = "exhaustive bounded enumeration of inputs and operation sequences on the real code (component driver under the explorer)"
T["C08"] = (CMP + ", compared with independent reference encoders", "model_checking",
 "Field values are drawn from enumerated boundary sets (every varint length boundary, extremes, every version and flag combination), all combinations within the stated product.")
T["C09"] = (CMP + ": every truncation point and every byte substitution of every valid encoding, under address and undefined-behaviour checking", "model_checking",
 "Byte strings explored are all short strings over a boundary alphabet plus every single-byte change and every cut of valid encodings.")
T["C05"] = (SMC + "every crash state of recorded transfers (kill and power loss) resumed on the real code, judged by an independent reading of the log", "model_checking",
 "Crash states are built from the recorded file-system operations: data not synced is lost, kept, torn in halves or replaced by zeros; synced data survives. First transfers follow the default schedule (thorough: one deviation) and up to the stated number of connection faults.")
T["C06"] = (CMP + ": every log of up to the stated number of entries, every cut and every damaged byte, against a reference interpreter; schedules and write errors of the writer", "model_checking",
 "Entry alphabet of two files and few sizes; single-byte damage; sequentially consistent interleavings at synchronisation points.")
T["C10"] = (SMC + "the real receiver and the real sender against scripted peers: all message sequences up to a length, every cut, split and damaged byte of valid conversations, hostile names and numbers, with the address sanitizer and containment of every file-system change", "model_checking",
 "The peer is a script of enumerated messages and values that does not react to content; the destination holds no symbolic links that lead out of it.")
T["C11"] = (CMP + ": every set of chunks over a small file, against a byte-set reference", "model_checking",
 "Files of up to the stated number of bytes, all chunk sequences over them, scaled offsets included.")
T["C12"] = (SMC + "thread interleavings of producers and consumers of the source queue, every block checked against the byte set", "model_checking",
 "Sequentially consistent interleavings at synchronisation points up to the stated preemption bounds.")
T["C22"] = (CMP + ": every combination of field values and every single edit of a URL, against a reference parser", "model_checking",
 "Field values are enumerated boundary sets; malformed URLs are single edits of valid ones and all short strings over the syntax alphabet.")
T["C32"] = (CMP + ": every pair and triple of error codes", "model_checking",
 "Exhaustive over the code set; negative and out-of-range codes are outside.")
T["C13"] = (SMC + "all operation sequences of one connection against a reference history, all schedules of a port checkpoint crossing a sending thread, and the real sender against a reference receiver that breaks off, confirms or lies at every block", "model_checking",
 "Sequences up to the stated length over three files with one file of two blocks; interleavings at synchronisation points up to the stated preemption bound.")
T["C14"] = (SMC + "all schedules of threads opening the blocks of one file, with every placement of file-system failures, judged on the recorded file-system operations", "model_checking",
 "Interleavings at synchronisation points and file-system calls up to the stated bounds; a scratch directory on the real file system with injected errors stands in for failing disks.")
T["C15"] = (CMP + ": every block, buffer split and write fault pattern of the real file writer, compared byte by byte with the file and the recorded operations", "model_checking",
 "Enumerated block offsets, sizes, splits and synchronisation intervals; injected short writes, interruptions and errors up to the stated number.")
T["C16"] = (CMP + ": every file size, block, buffer size and read fault pattern of the real reader, in both reading modes", "model_checking",
 "Direct reads are emulated (alignment of buffer, length and offset is checked, data comes through the page cache).")
T["C17"] = (SMC + "two real sockets over every listed cipher, tag and IV interval, write and read pattern, with every placement of segmentation, interruption and stall faults", "model_checking",
 "Enumerated message sizes up to 128 bytes and tag intervals from 1 byte, so that every relative position of message and tag boundaries occurs; OpenSSL itself is trusted.")
T["C19"] = (SMC + "all schedules of two to four threads over each primitive, all choices of leaving, failing, notifying and aborting", "model_checking",
 "Interleavings at synchronisation points up to the stated preemption bounds; a notification that coincides exactly with the end of an abort-check slice may be noticed only at the time-out and is outside.")
T["C30"] = (SMC + "real sockets in virtual time: every peer script, limit, abort time and request, with every placement of short counts, interruptions, stalls and resets; durations and bytes checked", "model_checking",
 "Enumerated scripts, limits and sizes; virtual network and virtual time stand in for the kernel (socket time-outs, poll).")
T["C18"] = (SMC + "an attacker that alters any one position of the stream in any of twelve ways, enumerated exhaustively over sockets and whole transfers", "model_checking",
 "One tampering action per connection (or the same on every connection); streams of up to about 1400 bytes; OpenSSL itself is trusted.")
T["C20"] = (SMC + "all request sequences in virtual time against an exact reference, and all schedules of threads sharing a throttler, down to single memory accesses", "model_checking",
 "Enumerated rates, request sizes and pauses; virtual time; interleavings at synchronisation points and at memory accesses of Throttler.cpp up to the stated preemption bounds.")
T["C21"] = (SMC + "all operation sequences against a reference model, and all schedules of concurrent calls, down to single memory accesses, checked for an explaining order", "model_checking",
 "Two namespaces, two ids; interleavings at synchronisation points and at memory accesses of WdtResourceController.cpp up to the stated preemption bounds; shutdown is not concurrent with other calls.")
T["C31"] = (SMC + "all sequences of receiving and sending calls in good and failing situations, with faults and thread switches, then a transfer that needs the whole quota", "model_checking",
 "Limits of one transfer per side (two for the concurrent sends); virtual network; seven receiver and ten sender situations.")
T["C28"] = (SMC + "foreign connections before, during and after the rightful transfer on every port, and all histories of sessions of a long-running receiver compared with a fresh receiver", "model_checking",
 "Eight identifiers; histories of up to three sessions of ten kinds with the stated fault bounds; a sender that shares the identifier and starts before the receiver is idle cannot be told from a reconnecting one.")
T["C07"] = (SMC + "every combination of destination states and options, compared with a reference of the final tree, with schedules, slow discovery, aborts and every placement of network and file-system failures", "model_checking",
 "Nine states per file over trees of two to four files and up to five extra ones; log and directory contents below that are those of C05 and C06; failing deletions are outside.")
T["C29"] = (SMC + "two and three receivers of one directory interleaved at each of their uses of the log, for every pair of lifecycles and initial log, process death before each file operation (real processes and locks), and every combination of what consecutive transfers are and what the log was written for", "model_checking",
 "flock of the running kernel; up to two (thorough: four) changes of receiver, each of five lengths; the log does not record the directory, which is therefore not distinguished.")
T["C26"] = (SMC + "an abort of either or both sides at every scheduling, network and file-system point of each transfer configuration, by checker, call and destructor, and at a grid of times while the network stalls or the peer is silent or absent", "model_checking",
 "Prompt is 100 ms check interval plus 200 ms in virtual time (throttler waits added) and, where counted, 20 I/O operations of the aborted side; schedules and faults up to the stated bounds.")
T["C24"] = (CMP + ": every small directory tree with links, special files and failing entries, in every listing order, times filters and link options, compared with a reference walker", "model_checking",
 "Trees of up to the stated number of entries over a small name alphabet; patterns from a list; the order and entry types reported by readdir are enumerated.")
T["C23"] = (SMC + "whole transfers of every ordered pair of versions times the features, the clear stream read by an independent parser of the agreed version; selected pairs with every schedule and every placement of connection breaks", "model_checking",
 "An old peer is the current code told to use the old version; versions outside the window by four representatives below and two above; schedules and faults up to the stated bounds.")
T["C25"] = (CMP + ": every sequence of boundary samples, every partition into collections and merge order, compared with the list of samples; thread-local and periodic collection and shared reports under every schedule within the bounds, down to single memory accesses", "model_checking",
 "Up to five samples from nine to twenty boundary values, seven histogram layouts; recordings end within the collector's pause (its documented design); statistics of ended threads are folly's (not present here).")
T["C27"] = (CMP + ": the tools' main functions run on every small text, every set of pairs and every combination of size, threads, block and start, with every random draw enumerated, compared with a reference", "model_checking",
 "Texts of up to eight bytes and all 65536 pairs; sets of pairs over two or three bytes; draws go through std::uniform_int_distribution, which is replaced by a choice point.")
T["C33"] = (CMP + ": every flag and option and all pairs of them, every disk type with every set of specified options, judged against a table of the documented options, and whole transfers for options that act on one", "model_checking",
 "Two values other than the default per option; pairs of options; the effect of each option on a transfer is the subject of the other properties.")
T["C34"] = (SMC + "the program's main function on every listed combination of arguments, standard input, manifest and situation of the peer in virtual time, its output, exit code, files and log compared with a reference", "model_checking",
 "Argument lists from stated alphabets; manifests of up to three lines; one program per process against the library as peer, and two programs; daemon mode by its first repetitions.")
T["C35"] = (SMC + "all edits of URLs and parameters, and transfers with every placement of network, file-system and tampering faults, with every log message captured and searched", "model_checking",
 "Six contiguous bytes of the secret, raw, hexadecimal or escaped; messages of WDT's own log (not of OpenSSL or the terminal).")
T["C36"] = (SMC + "real transfers with every listed value of every option on either side or both, alone, in pairs and in triples, their system calls, bytes and virtual times compared with the documented effect", "model_checking",
 "One to four values per option besides the one used everywhere; effects observed at the system-call boundary; combinations of two (quick) or three (thorough) options without faults, default schedule; a rate so low that one buffer takes longer than a time-out is outside.")
