#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that edits stay schema-valid)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTBUILT = "The stable tests cover only the bench tools; "
p("C01", "A transfer reported successful left an identical copy",
  "Whenever the sending side or the receiving side reports a transfer as successful, every file the sender was asked to send exists at the destination under the same relative path with exactly the same size and bytes, no matter how connections broke, data was delayed or split, and threads were scheduled. A file that is empty, smaller than, equal to or larger than a block, or split over several connections is no exception.",
  ["schedules", "fault_sequences", "configurations"],
  "All thread schedules and network-fault sequences up to the stated deviation bound, for every listed transfer configuration (file shapes, ports, block/buffer size, encryption, checksum, footer type, protocol version).",
  NOTBUILT + "the repository's shell e2e tests run one timing of the network and scheduler; integrity across reconnects depends on where the connection breaks and which thread re-sends.",
  ["SenderThread.cpp", "ReceiverThread.cpp", "Sender.cpp", "Receiver.cpp", "util/DirectorySourceQueue.cpp", "util/ThreadTransferHistory.cpp", "util/FileWriter.cpp"],
  [("per-connection history and checkpoint exchange", "util/ThreadTransferHistory.cpp; SenderThread::readLocalCheckPoint; ReceiverThread::sendLocalCheckpoint"),
   ("per-block checksum footer", "ReceiverThread::processFileCmd; SenderThread::sendOneByteSource"),
   ("final count/byte comparison", "Receiver::fixAndCloseTransferLog, Receiver::getTransferReport; Reporting.cpp")],
  observe=["destination tree", "Sender::finish report", "Receiver::finish report"])
p("C02", "Every transfer terminates and neither side crashes or deadlocks",
  "Once started, sender and receiver each finish and return a report in bounded time for every schedule of their threads and every sequence of connection failures, stalls, refusals and short reads or writes. Neither process aborts, deadlocks or spins forever.",
  ["schedules", "fault_sequences"],
  "All schedules and network faults up to the deviation bound, in virtual time; a state where nothing can run, a fatal check, a sanitizer-visible memory error or an exceeded horizon is a violation.",
  NOTBUILT + "hangs need a specific interleaving of the thread-completion protocol (barriers, funnels, global checkpoints) with a specific network failure.",
  ["SenderThread.cpp", "ReceiverThread.cpp", "util/ThreadsController.cpp", "WdtBase.cpp", "Sender.cpp", "Receiver.cpp"],
  [("thread states and condition guards", "util/ThreadsController.cpp"), ("state machines", "SenderThread.cpp, ReceiverThread.cpp stateMap_"),
   ("timeouts on every socket operation", "util/WdtSocket.cpp, util/ServerSocket.cpp")])
p("C03", "A transfer survives recoverable connection failures",
  "If connections are reset, stalled or refused only a few times, within the configured retry limits, and both sides keep running, then the transfer still completes, both sides report success, and nothing is lost. In particular the loss of one connection, or of one whole port, is made up for by the remaining ones. With authenticated encryption a break inside the closing exchange may be reported as an encryption error although the copy is complete.",
  ["schedules", "fault_sequences"],
  "Every placement of one fault (quick) or two faults (thorough) over all network operations of the transfer, for the listed configurations.",
  NOTBUILT + "the network tests kill ports at random times and sample a handful of break points.",
  ["SenderThread.cpp", "ReceiverThread.cpp", "util/ThreadTransferHistory.cpp", "Sender.cpp"],
  [("reconnect and local checkpoint", "SenderThread::connect, readLocalCheckPoint"), ("global checkpoints for dead ports", "SenderThread::processErrCmd; Receiver global checkpoint"),
   ("re-queueing unacknowledged sources", "util/ThreadTransferHistory.cpp")])
p("C04", "Transfer reports tell the truth",
  "The reports of both sides agree with what happened: a success report has no failed source, names or counts exactly the files sent and carries byte totals equal to the files' sizes, and if any requested file is not completely at the destination then no side reports success. When the sender fails, every file it had found that did not arrive is accounted for as failed rather than silently dropped.",
  ["schedules", "fault_sequences", "histories"],
  "All schedules and faults up to the bound, including source-side read errors, files that vanish or shrink, destination write errors and full disks; plus all small combinations of per-source and per-thread statistics fed to the aggregation.",
  NOTBUILT + "reports are aggregated from several threads and retries; error paths (unreadable files, failing writes) are not driven by any stable test.",
  ["Reporting.cpp", "Reporting.h", "Sender.cpp", "Receiver.cpp", "util/DirectorySourceQueue.cpp", "ErrorCodes.cpp"],
  [("TransferStats aggregation", "Reporting.h"), ("failed sources list", "DirectorySourceQueue::enqueueFailedSources"), ("summary error code", "Reporting.cpp TransferReport; ErrorCodes.cpp getMoreInterestingError")])
p("C05", "A killed transfer resumes to an identical copy from the transfer log",
  "With download resumption enabled, the receiver may be killed, or lose power, at any moment; a later transfer of the same source into the same directory then completes successfully with an identical tree. The resumed transfer leaves out exactly the bytes that its log (or, in directory-tree mode, the size on the disk) proves to be stored, never more, so no byte that was lost is left out; a file longer on the disk than at the source is sent completely again, one that grew is continued. A resumed transfer that completes leaves a log from which the next one sends nothing.",
  ["crash_points", "schedules", "histories"],
  "Every file-system and network step of the interrupted transfer as the kill point; for power loss additionally every subset (bounded) of data not yet synced; then a full resumed transfer; twice-interrupted transfers in the thorough tier.",
  NOTBUILT + "the resumption shell tests kill the receiver after a few fixed delays.",
  ["util/TransferLogManager.cpp", "util/FileCreator.cpp", "util/FileWriter.cpp", "Receiver.cpp", "Sender.cpp", "util/DirectorySourceQueue.cpp"],
  [("write-ahead order: data before log entry", "ReceiverThread::markBlockVerified / FileWriter; TransferLogManager::addBlockWriteEntry"), ("log parsing and compaction", "TransferLogManager::parseVerifyAndFix"), ("remaining chunk computation", "Protocol.cpp FileChunksInfo; DirectorySourceQueue::createIntoQueueInternal")])
p("C06", "The transfer log parser recovers a correct prefix of any damaged log",
  "Reading a transfer log never crashes: one cut at any byte yields exactly the state of its complete entries, to which entries appended afterwards (by several threads, with any write errors) add, and one with an entry that makes no sense is rejected as a whole, nothing of it used and its complete entries left alone. Reported chunks of a file are disjoint, ordered and within the file's size on the disk, and a file invalidated or re-created later in the log contributes nothing from before.",
  ["crash_points", "inputs", "histories"],
  "All logs of up to N entries over a small alphabet (two files, few blocks, re-creation, invalidation, resize), every truncation length, and single-byte corruptions; compared with a reference interpreter.",
  NOTBUILT + "no stable test touches the log; the property is over all truncation points and entry sequences.",
  ["util/TransferLogManager.cpp", "util/TransferLogManager.h"],
  [("LogParser", "util/TransferLogManager.cpp LogParser::parseLog"), ("LogEncoderDecoder", "util/TransferLogManager.cpp")])
p("C07", "Resuming by directory scan and overwriting never leave a wrong file",
  "When the destination already holds files, a transfer that reports success leaves every transferred path equal to the source: with overwriting whatever was there is replaced, with directory-scan resumption an existing file that is not longer than the source counts as its beginning and a longer one is replaced, and without either option an existing file is never modified and the transfer reports failure. When deletion of extra files is requested along with resumption exactly the files the sender does not have disappear, none that it does have even if the source cannot be read completely; otherwise nothing unrelated is touched.",
  ["configurations", "histories", "schedules"],
  "All combinations of pre-existing destination states per file (absent, shorter, equal, longer, extra) and of the overwrite/resumption/delete options, each over schedules up to the bound.",
  NOTBUILT + "the overwrite test covers two option combinations with one file layout.",
  ["util/FileCreator.cpp", "util/DirectorySourceQueue.cpp", "Receiver.cpp", "ReceiverThread.cpp", "Sender.cpp"],
  [("allocation status", "DirectorySourceQueue::createIntoQueueInternal"), ("open flags and truncation", "FileCreator::createFile, openAndSetSize"), ("delete extra files", "DirectorySourceQueue::enqueueFilesToBeDeleted")])
p("C08", "Wire and log encodings round-trip for every protocol version",
  "Every message and log record that is encoded decodes to the same values, consumes exactly the bytes that were produced and never exceeds the advertised maximum size, for each supported protocol version and every field value including extremes. Fields a version does not carry take their documented defaults, the byte layout is the one each version defines, and a chunk list that needs several buffers arrives complete and in order.",
  ["inputs", "configurations"],
  "All protocol versions from the minimum to the current one times all combinations of boundary field values; all 64-bit boundary values for variable-length integers.",
  NOTBUILT + "the unit tests try one message per type at the current version.",
  ["Protocol.cpp", "Protocol.h", "util/SerializationUtil.cpp", "util/SerializationUtil.h"],
  [("Protocol::encode*/decode*", "Protocol.cpp"), ("varint coding", "util/SerializationUtil.cpp")])
p("C09", "Decoders reject malformed input without reading or writing out of bounds",
  "Given any byte sequence of any length, every decoder either succeeds having read only bytes inside the given limit, or reports failure; it never reads past the limit, never moves the cursor past it and never crashes. A truncated encoding of a valid message is always rejected.",
  ["inputs"],
  "Every truncation of every enumerated valid encoding, every single-byte substitution over all byte values, and all byte strings up to a small length, for each decoder and version, under an address sanitizer with exactly sized buffers.",
  NOTBUILT + "malformed input is not sampled at all beyond a few integer cases.",
  ["Protocol.cpp", "util/SerializationUtil.cpp", "util/EncryptionUtils.cpp"],
  [("bounds checks in decodeInt/decodeString", "util/SerializationUtil.cpp")])
p("C10", "A hostile or garbled peer cannot crash a side or write outside its directory",
  "Whatever bytes a peer sends on any connection, the receiver creates, changes or removes files only inside its destination directory, and neither side crashes, hangs beyond its timeouts or reports success for data it did not get. This includes names with parent references, absolute or empty names, impossible offsets, sizes and lengths, and messages cut at any byte.",
  ["inputs", "fault_sequences"],
  "A scripted peer plays every message sequence from a small alphabet of valid and malformed messages in every protocol state, with every split of a message over two reads and truncation at each byte.",
  NOTBUILT + "the bad-server test sends a few random strings.",
  ["ReceiverThread.cpp", "SenderThread.cpp", "util/FileCreator.cpp", "Protocol.cpp"],
  [("command dispatch", "ReceiverThread::readNextCmd"), ("header decoding", "ReceiverThread::processFileCmd"), ("path handling", "FileCreator::getFullPath, createDirRecursively")])
p("C11", "Chunk bookkeeping: received and remaining ranges complement exactly",
  "For any set of received byte ranges of a file, merging them yields ordered, disjoint, maximal ranges covering exactly their union, and the remaining ranges computed for a file of any size are exactly the bytes of that file not covered, in order. Total sizes reported agree with the ranges.",
  ["inputs"],
  "All multisets of up to N ranges over a small byte universe times all file sizes in the universe, compared with a bitmap.",
  NOTBUILT + "the unit test merges a few fixed lists.",
  ["Protocol.cpp", "Protocol.h"],
  [("FileChunksInfo::mergeChunks/getRemainingChunks/addChunk", "Protocol.cpp")])
p("C12", "The source queue hands out every byte of every file exactly once",
  "For any set of files, block size and previously received ranges, the blocks handed out to the sending threads cover each file's missing bytes exactly once without overlap, each block goes to one thread only, and a block returned as unsent is handed out again and never lost. File numbering is unique and consistent, counts and sizes reported equal what was handed out, and a consumer that waits is always woken by new work or completion.",
  ["schedules", "inputs", "histories"],
  "All interleavings up to the bound of discovery with 2-3 consumers that take, return and fail sources; all block sizes and file sizes over a small grid; all sets of earlier chunks.",
  NOTBUILT + "the queue is shared by a discovery thread and all senders; no stable test runs it.",
  ["util/DirectorySourceQueue.cpp", "util/DirectorySourceQueue.h"],
  [("queue lock, conditions and priority order", "DirectorySourceQueue::getNextSource, createIntoQueueInternal"), ("smartNotify", "DirectorySourceQueue.cpp"), ("returnToQueue", "DirectorySourceQueue.cpp")])
p("C13", "Per-connection history acknowledges exactly what the receiver confirmed",
  "For any sequence of sent blocks, acknowledgements, reconnections, and connection or whole-port checkpoints, each block sent on a connection ends either acknowledged or returned for re-sending, never both and never neither; a partially received block is re-sent exactly from the confirmed offset. A checkpoint that does not fit the history is rejected with an error and loses nothing.",
  ["histories", "schedules", "inputs"],
  "All operation sequences up to a depth over a history of up to three blocks, all checkpoint values in and around the valid range; concurrent use by the owning and another thread up to the preemption bound.",
  NOTBUILT + "the re-send arithmetic depends on the combination of history, checkpoint and previous partial sends.",
  ["util/ThreadTransferHistory.cpp", "util/ThreadTransferHistory.h", "SenderThread.cpp"],
  [("ThreadTransferHistory::setLocalCheckpoint/setGlobalCheckpoint/returnUnackedSourcesToQueue", "util/ThreadTransferHistory.cpp")])
p("C14", "A destination file is allocated once and shared correctly by all writers",
  "When several threads receive blocks of one file, the file is created, sized or truncated exactly once before any of them writes, every thread sees either the prepared file or the allocation failure, and no thread waits forever. No received data is erased by a later opening, and required parent directories are created however many threads need them at once.",
  ["schedules", "fault_sequences"],
  "All interleavings of 2-3 threads opening blocks of the same and of different files, with an allocation or directory-creation failure injected at each point.",
  NOTBUILT + "the race is between threads opening the same new file; tests would need a specific interleaving.",
  ["util/FileCreator.cpp", "util/FileCreator.h"],
  [("fileStatusMap and per-thread conditions", "FileCreator::openForBlocks, waitForAllocationFinish"), ("directory cache", "FileCreator::createDirRecursively")])
p("C15", "The file writer stores exactly the given bytes or reports the error",
  "A block written through the writer ends up byte for byte at its offset however the kernel splits the writes and touches no other byte; every failed open, seek, write, sync or close is reported as an error and never as success. When syncing is required, success is reported only after the data was handed to stable storage.",
  ["fault_sequences", "inputs"],
  "All placements of short writes, interruptions, errors and disk-full conditions over the system calls of a block, for all buffer splits in a small grid.",
  NOTBUILT + "write errors and short writes never happen on a healthy disk.",
  ["util/FileWriter.cpp"],
  [("write loop", "FileWriter::write"), ("sync/close", "FileWriter::sync, close")])
p("C16", "The file reader delivers exactly the requested range or an error",
  "Reading a block of a file yields exactly the bytes of that range in order, whatever the buffer size, alignment mode and kernel read splits; if the file is shorter than announced, unreadable or fails midway the source is marked failed and never delivers wrong or extra bytes. Reading ends exactly at the end of the range.",
  ["inputs", "fault_sequences", "configurations"],
  "All offsets/sizes/buffer sizes over a grid, buffered and direct I/O, all placements of a short read or error, and files truncated before or between reads.",
  NOTBUILT + "the reader test uses a few sizes and an unchanging file.",
  ["util/FileByteSource.cpp", "util/FileByteSource.h", "util/CommonImpl.cpp"],
  [("FileByteSource::read, open, advanceOffset", "util/FileByteSource.cpp")])
p("C17", "The encrypted connection carries any byte stream unchanged",
  "Whatever sequence of writes and reads of whatever sizes the two ends use, and however the network splits the data, the receiving end of an encrypted connection obtains exactly the bytes written, in order, and closes cleanly, for every cipher, authentication-tag interval and initialisation-vector change interval. An unencrypted peer is either served in clear as documented or refused, never misread.",
  ["inputs", "schedules", "configurations"],
  "All write-size and read-size partitions over a small grid, times tag intervals, IV change intervals, ciphers, and short reads and writes up to the bound.",
  NOTBUILT + "the encryption test uses one split of one text.",
  ["util/EncryptionUtils.cpp", "util/WdtSocket.cpp"],
  [("AESEncryptor/AESDecryptor", "util/EncryptionUtils.cpp"), ("tag and IV boundaries", "WdtSocket::readInternal/writeInternal")])
p("C18", "Tampering with an authenticated stream is detected before success",
  "With authenticated encryption, if any byte travelling from sender to receiver is changed, dropped, or the stream is cut or closed early, the receiving connection reports an encryption error or failure instead of a clean end, and a transfer over it is not reported successful with wrong contents.",
  ["inputs", "fault_sequences"],
  "Every single-byte position of the ciphertext stream (all bit flips of each byte in the thorough tier), every truncation length and every segment removal, for each tag interval.",
  NOTBUILT + "one corrupted stream is not all corruptions; the tag may be skipped on some path.",
  ["util/EncryptionUtils.cpp", "util/WdtSocket.cpp", "ReceiverThread.cpp"],
  [("tag verification", "WdtSocket::finalizeReadsInternal, AESDecryptor::finish/verifyTag"), ("unverified blocks", "ReceiverThread::markReceivedBlocksVerified")])
p("C19", "Thread coordination primitives neither lose nor duplicate participants",
  "Among a group of threads where some may leave early, a barrier releases all remaining participants together and none early, one-time sections run exactly once before anyone passes, a completed-condition wait always ends when its condition becomes true, and a thread-pool completes exactly when every thread has ended. Thread-state queries agree with the states registered.",
  ["schedules"],
  "All interleavings up to the preemption bound of 2-3 threads using the primitives, with each subset of early leavers.",
  NOTBUILT + "lost wake-ups appear only in particular interleavings.",
  ["util/ThreadsController.cpp", "util/ThreadsController.h"],
  [("Barrier, Funnel, ConditionGuard, ThreadsController state map", "util/ThreadsController.cpp")])
p("C20", "The throttler keeps the configured rates and never stalls an idle transfer",
  "For every sequence of requests the data granted by any time never exceeds the average-rate budget, nor the peak-rate budget plus the burst allowance, by more than the requests in flight, and a requester within budget is not delayed. Several transfers sharing a throttler are counted together, the accounting restarts when the first one registers, and no sequence makes the required wait negative, infinite or overflow.",
  ["histories", "inputs", "schedules"],
  "All sequences up to a depth of (advance time, request size, register, deregister, reconfigure) over small domains against an exact reference bucket, plus interleavings of two threads.",
  NOTBUILT + "the throttler test is statistical and runs in real time.",
  ["Throttler.cpp", "Throttler.h", "WdtOptions.h"],
  [("average and token-bucket computation", "Throttler::calculateSleep, averageThrottler"), ("reference counting", "Throttler::startTransfer/endTransfer")])
p("C21", "The resource controller enforces quotas and finds what it registered",
  "For every sequence and interleaving of registering and deregistering namespaces and creating, looking up and releasing senders and receivers, the number of live transfers never exceeds the namespace or global limit, a creation within the limits succeeds, a duplicate or released id behaves as documented, and the counts return to zero once everything is released. Operations on one namespace never affect another.",
  ["histories", "schedules"],
  "All operation sequences up to a depth over two namespaces and two ids against a reference map; all interleavings up to the bound of two threads with 1-3 operations.",
  NOTBUILT + "the existing test follows a handful of sequences in one thread.",
  ["WdtResourceController.cpp", "WdtResourceController.h"],
  [("controller and namespace locks, counters", "WdtResourceController.cpp"), ("quota check before insertion", "WdtControllerBase::hasSenderQuota/hasReceiverQuota")])
p("C22", "Connection URLs round-trip and their log-safe rendering hides the secret",
  "A transfer request turned into a connection URL and parsed again yields the same host, ports, identifier, version and encryption parameters for every combination of those fields, and the log-safe rendering of any request never contains the encryption secret. Any malformed URL is rejected with an error instead of being accepted with invented values.",
  ["inputs"],
  "All combinations of boundary values of each URL component (host forms, port lists up to a length, ids with reserved characters, keys, versions), all truncations and single-character changes of generated URLs.",
  NOTBUILT + "the URL test checks hand-written examples.",
  ["WdtTransferRequest.cpp", "util/EncryptionUtils.cpp"],
  [("WdtUri parsing and escaping", "WdtTransferRequest.cpp"), ("EncryptionParams::unserialize, getLogSafeString", "util/EncryptionUtils.cpp")])
p("C23", "Different protocol versions interoperate or refuse each other cleanly",
  "For every pair of protocol versions, a sender and a receiver either agree, on every connection, on the highest version both support and then complete the transfer correctly, or each side that takes part reports a version problem; no pair corrupts data, hangs or crashes. Negotiation gives the same answer on both sides, and nothing is sent or deleted that the agreed version does not define.",
  ["configurations", "schedules"],
  "Every pair of versions in the supported window (and outside it), full transfers for each; negotiation function over the whole small integer square.",
  NOTBUILT + "the negotiation test tries a couple of pairs.",
  ["Protocol.cpp", "SenderThread.cpp", "ReceiverThread.cpp", "Sender.cpp"],
  [("Protocol::negotiateProtocol", "Protocol.cpp"), ("version mismatch handling", "SenderThread::processVersionMismatch, processAbortCmd; ReceiverThread::processSettingsCmd, sendAbortCmd")])
p("C24", "Discovery selects exactly the files the filters describe",
  "For every directory tree, the files offered for transfer are exactly the regular files that match the include pattern, do not match the exclude pattern and whose directories are not pruned, each once, with the right size and relative path. Symbolic links are skipped or followed as configured, also when they form cycles or dangle; when followed, each directory is offered under one of the names that lead to it, to which the filters apply. Explicit file lists are sent as given, a missing entry being reported without loss of the others.",
  ["inputs", "configurations"],
  "All small directory trees from a grammar (depth, files, links, empty directories) times filter and symlink options, compared with a reference walker.",
  NOTBUILT + "tests use one tree.",
  ["util/DirectorySourceQueue.cpp"],
  [("DirectorySourceQueue::explore, enqueueFiles", "util/DirectorySourceQueue.cpp"), ("WdtFileInfo verification", "util/CommonImpl.cpp")])
p("C25", "Performance statistics count every sample once and merge losslessly",
  "For every sequence of recorded samples, counts, sums, extremes, averages and histogram buckets equal those of the samples, merging collections equals recording all samples in one, and percentiles lie within the bucket holding the requested rank. Concurrent recording and collection lose no sample and count none twice.",
  ["inputs", "schedules", "histories"],
  "All multisets of boundary samples up to a size, all merge trees, for each histogram layout; interleavings of recorders and a collector up to the bound.",
  NOTBUILT + "the statistics tests need folly and use fixed samples.",
  ["util/Stats.cpp", "util/Stats.h", "Reporting.cpp"],
  [("Counter, Histogram, HistogramCounter", "util/Stats.cpp"), ("thread-local swap nodes", "util/Stats.h")])
p("C26", "Aborting a transfer stops both sides promptly and is reported",
  "When a transfer is aborted on one side at any moment, that side stops within its check interval plus bounded work, reports the failure (with the abort as the result of its threads) unless everything had already been completed, and leaves the other side able to finish instead of hanging. An abort never turns into a success report for an incomplete copy.",
  ["schedules", "crash_points"],
  "The abort injected at every scheduling and I/O point of the transfer, on either side, in virtual time, with stalled networks included.",
  NOTBUILT + "abort tests fire at one fixed second.",
  ["WdtBase.cpp", "util/WdtSocket.cpp", "util/ServerSocket.cpp", "util/ClientSocket.cpp", "SenderThread.cpp", "ReceiverThread.cpp"],
  [("abort checks in every blocking loop", "util/WdtSocket.cpp ioWithAbortCheck; ServerSocket::acceptNextConnection; ClientSocket::connect"), ("WdtBase::abort", "WdtBase.cpp")])
p("C27", "Benchmark data tools: exact bigram counts, sizes and statistics",
  "For every input text the statistics tool counts each adjacent byte pair exactly once (and the pair closing the ring when asked to wrap) and its saved form is read back identically by the generator; bigram values order, compare, index and print consistently for all byte pairs. The generator produces a file of exactly the requested size (rounded down to a multiple of the thread count) beginning with the requested text, in which every adjacent pair of a thread's part occurs in the statistics it was given unless the first byte has no successor there, and fails when it cannot.",
  ["inputs"],
  "All byte strings up to a small length over a small alphabet, all 65536 byte pairs, all sets of pairs over two or three bytes, sizes, thread counts, block sizes, starts and every random draw of the generator; compared with a reference implementation.",
  "The four stable tests check a few pairs; output of the tools and the sampling are untested for all inputs.",
  ["bench/Bigram.h", "bench/Bigram.cpp", "bench/WdtGenTestUtils.cpp", "bench/wdtGenFiles.cpp", "bench/wdtStats.cpp"],
  [("Bigram indexing/comparison/IO", "bench/Bigram.h, bench/Bigram.cpp"), ("generator", "bench/wdtGenFiles.cpp, bench/WdtGenTestUtils.cpp"), ("statistics", "bench/wdtStats.cpp")])
p("C28", "Sessions never mix: foreign transfer ids are refused, each run starts clean",
  "A receiver accepts data only from the transfer whose identifier it was given; a connection with another identifier is refused, changes and discloses nothing, and at worst costs the rightful transfer the port it uses, never its correctness. A long-running receiver serves successive transfers, each with statistics and results of its own, independent of how the previous ones went.",
  ["histories", "schedules"],
  "All orders of rightful and foreign connections over the receiver's ports and all two-session histories (success, failure, abandoned) up to the schedule bound.",
  NOTBUILT + "the long-running test repeats successful transfers only.",
  ["ReceiverThread.cpp", "Receiver.cpp", "WdtBase.cpp"],
  [("settings command transfer id check", "ReceiverThread::processSettingsCmd"), ("session state reset", "Receiver::startNewGlobalSession, ReceiverThread::reset")])
p("C29", "One receiver at a time may use a transfer log",
  "While one resumable receiver holds a destination directory, any other that tries to use the same log is refused with an error and leaves the log untouched; once the first finishes or dies the log can be opened again. A log written for another transfer, sender or configuration is never used to skip data.",
  ["schedules", "histories", "crash_points"],
  "All interleavings of two receivers from opening to releasing the log, process death at each step, and all combinations of header mismatches.",
  NOTBUILT + "the fail-fast shell test tries one timing.",
  ["util/TransferLogManager.cpp", "Receiver.cpp"],
  [("flock and in-process use", "TransferLogManager::openLog, checkLog"), ("header verification", "TransferLogManager::parseVerifyAndFix, LogParser")])
p("C30", "Socket I/O moves exactly the requested bytes within its time limits",
  "A full read or write on a connection returns exactly the requested bytes in order whatever the splits and interruptions, or a short count or error when the peer closes, the limit elapses or an abort is requested; it never returns more, never blocks longer than its timeout plus one check interval, and never loses buffered bytes between calls.",
  ["inputs", "fault_sequences", "schedules"],
  "All placements of short transfers, would-block, interruptions, end of stream and stalls over a call, for a grid of sizes and timeout settings, in virtual time.",
  NOTBUILT + "local sockets never show these splits or stalls.",
  ["util/WdtSocket.cpp", "util/WdtSocket.h", "util/ClientSocket.cpp", "util/ServerSocket.cpp"],
  [("ioWithAbortCheck, readWithAbortCheck, writeWithAbortCheck", "util/WdtSocket.cpp")])
p("C31", "Finished or failed API transfers release everything they took",
  "After a transfer started through the embedding interface has ended, successfully or not and whether it failed at validation, setup or while running, its registration and quota are released, so an identical transfer can start again; blocking sends return only when the transfer is complete. Shutdown leaves nothing registered.",
  ["histories", "fault_sequences"],
  "All sequences up to a depth of successful and failing sends and receives in one namespace, followed by a transfer that needs the full quota.",
  NOTBUILT + "failing setups are not exercised by any test.",
  ["Wdt.cpp", "Wdt.h", "WdtResourceController.cpp"],
  [("Wdt::wdtSend, wdtReceiveStart, wdtReceiveFinish, releaseWdt", "Wdt.cpp")])
p("C32", "Error codes combine to the most significant one and keep their names",
  "Combining any two error codes yields one of the two, independent of their order, never success unless both are success, and an encryption failure or version problem is never masked by a lesser error. Each code has one name and the numbering shared between peers never collides.",
  ["inputs"],
  "All pairs and triples of error codes.",
  NOTBUILT + "the combination order is a table that tests do not visit.",
  ["ErrorCodes.cpp", "ErrorCodes.h"],
  [("getMoreInterestingError, errorCodeToStr", "ErrorCodes.cpp")])
p("C33", "Every option takes effect as documented and derived values are consistent",
  "Each command-line flag and each configured option changes exactly its own documented setting; settings that nobody specified take the default, or the value belonging to the chosen disk type, and a specified value always wins over these. Values derived from others (number of ports from a port list, static ports from a start port, peak from average rate, resumption from the chosen mode) and combinations that cannot work are handled the same in the command-line program, in the embedding interface and at run time, and applications with different settings do not affect each other.",
  ["configurations", "inputs"],
  "Every option with two values other than the default, all pairs of options, every disk type and set of specified options, and every program flag of the embedding application that has an option's name.",
  NOTBUILT + "no test looks at the effective options.",
  ["WdtOptions.cpp", "WdtOptions.h", "util/WdtFlags.cpp", "WdtFlags.cpp.inc", "Throttler.cpp", "Wdt.cpp"],
  [("flag to option mapping", "util/WdtFlags.cpp initializeFromFlags, getUserSpecifiedOptions"), ("derived values", "WdtOptions::modifyOptions, getOptionType"), ("rates", "Throttler::configureOptions")])
p("C34", "The command-line program does what its arguments say and its exit code is true",
  "Started as receiver, the program prints exactly one line on standard output, a connection URL with which a sender reaches it, and nothing when it cannot start; started as sender it transfers exactly the files of the directory or of the manifest. Its exit code is zero exactly if the transfer was complete, otherwise the error; unknown, malformed or contradicting arguments, unreadable manifests and malformed URLs are refused before anything is transferred or created. Aborting after a given time, repeated transfers, log parsing and recovery work as their help texts say.",
  ["inputs", "configurations", "schedules"],
  "The program's main function run on every listed combination of arguments, standard input, manifest content (all small sequences of lines), unavailable ports and situation of the peer, in virtual time, the two-program transfer with every schedule and network fault up to the bound.",
  NOTBUILT + "shell tests run a few successful command lines.",
  ["wdtCmdLine.cpp", "util/WdtFlags.cpp", "Wdt.cpp"],
  [("argument handling", "wdtCmdLine.cpp main"), ("manifest", "wdtCmdLine.cpp readManifest"), ("abort after", "wdtCmdLine.cpp setAbortChecker")])
p("C35", "The encryption secret leaves the process only in the connection URL",
  "No message logged at any level, no report, rendering, transfer log, destination file and no byte on the network contains the encryption secret or a substantial part of it, in raw or hexadecimal form; only the connection URL requested by name with the secret does. This holds for failing, tampered and resumed transfers and also when a connection URL or encryption parameter is malformed and refused.",
  ["inputs", "fault_sequences", "schedules"],
  "All truncations, single edits and pairs of edits of connection URLs and encryption parameters; whole transfers of every cipher with every placement of network, file-system and tampering faults and schedules up to the bound, all log levels enabled.",
  NOTBUILT + "no test looks at the log, least of all in error paths.",
  ["WdtTransferRequest.cpp", "util/EncryptionUtils.cpp", "util/WdtSocket.cpp", "Receiver.cpp", "wdtCmdLine.cpp", "Reporting.cpp"],
  [("log-safe renderings", "WdtTransferRequest::getLogSafeString, EncryptionParams::getLogSafeString"), ("error messages of the parsers", "WdtUri::process, EncryptionParams::unserialize")])
p("C36", "Every tuning option has its documented effect, on the side that sets it",
  "Socket marks and buffers, address families, ports, retry counts and pauses, connect, accept, read, write and abort times, buffer and block sizes, disk syncing, preallocation, direct reads, early opening, separate discovery, filters, skipping or overwriting, encryption, reporting, rates and log keeping happen as the option of the side concerned says, and the other side's options do not change them. No permitted combination of option values makes a transfer without faults fail, hang or differ.",
  ["inputs", "histories"],
  "Each option at two to seven values, on the sender, the receiver or both, crossed with the options it interacts with; all pairs and triples of options on two sets of files; whole transfers in virtual time.",
  NOTBUILT + "each test runs with one set of options and looks at the files that arrive, not at what the options do.",
  ["WdtOptions.h", "util/WdtFlags.cpp.inc", "util/WdtSocket.cpp", "util/ClientSocket.cpp", "util/ServerSocket.cpp", "SenderThread.cpp", "ReceiverThread.cpp", "Sender.cpp", "Receiver.cpp", "util/FileWriter.cpp", "util/FileByteSource.cpp", "util/FileCreator.cpp", "util/DirectorySourceQueue.cpp"],
  [("documented options", "util/WdtFlags.cpp.inc"), ("socket options", "WdtSocket::setDscp, setSocketTimeouts, ClientSocket::setSendBufferSize, ServerSocket::setReceiveBufferSize"), ("disk", "FileWriter::sync, syncFileRange")])
out = "\n".join(json.dumps(x) for x in P) + "\n"
dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(dst, "w").write(out)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, x["id"]
print(len(P))
