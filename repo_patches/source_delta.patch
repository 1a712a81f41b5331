From 7de17a733e014df9e39e7f44f87e1ab864b87787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 01/64] fix: read the rest of a split file header at the right
 buffer offset

When a file header longer than the bytes already read arrived in several
segments, the remaining bytes were read to a wrong place in the buffer
(the bytes already read were counted twice), so a transfer of files with
long names failed with a protocol error. Also check the header length
against the buffer before reading.
---
 ReceiverThread.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..7e4ea5f 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -428,10 +428,21 @@ ReceiverState ReceiverThread::processFileCmd() {
 
   sendHeartBeat();
 
+  if (headerLen > bufSize_) {
+    WTLOG(ERROR) << "Header length " << headerLen << " exceeds buffer size "
+                 << bufSize_;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
+  if (headerLen > bufSize_ - oldOffset_) {
+    // header does not fit in the rest of the buffer, move it to the front
+    memmove(buf_, buf_ + oldOffset_, numRead_);
+    off_ -= oldOffset_;
+    oldOffset_ = 0;
+  }
   if (headerLen > numRead_) {
-    int64_t end = oldOffset_ + numRead_;
-    numRead_ =
-        readAtLeast(*socket_, buf_ + end, bufSize_ - end, headerLen, numRead_);
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           headerLen, numRead_);
   }
   if (numRead_ < headerLen) {
     WTLOG(ERROR) << "Unable to read full header " << headerLen << " "
-- 
2.43.0


From b6edb50dd2f398b5b2678527a69052a85637b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 02/64] fix: report files and directories that discovery could
 not read

A readdir() or lstat()/stat() error while exploring the source directory was
only logged: the transfer was reported successful though files were missing.
---
 util/DirectorySourceQueue.cpp | 31 ++++++++++++++++++++++++-------
 util/DirectorySourceQueue.h   |  6 ++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..d327768 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -280,7 +280,7 @@ bool DirectorySourceQueue::explore() {
     DIR* dirPtr = opendir(fullPath.c_str());
     if (!dirPtr) {
       WPLOG(ERROR) << "Error opening dir " << fullPath;
-      failedDirectories_.emplace_back(fullPath);
+      addFailedDirectory(fullPath);
       hasError = true;
       continue;
     }
@@ -297,6 +297,8 @@ bool DirectorySourceQueue::explore() {
       if (!dirEntryRes) {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
+          // the entries not read are missing from the transfer
+          addFailedDirectory(fullPath);
           // closedir always called
           hasError = true;
         } else {
@@ -339,6 +341,10 @@ bool DirectorySourceQueue::explore() {
         // if following symlinks is ok we will do stat() too
         if (lstat(newFullPath.c_str(), &fileStat) != 0) {
           WPLOG(ERROR) << "lstat() failed on path " << newFullPath;
+          if (errno != ENOENT) {
+            // not just removed since readdir: it is missing from the transfer
+            addFailedSource(newRelativePath);
+          }
           hasError = true;
           continue;
         }
@@ -349,6 +355,10 @@ bool DirectorySourceQueue::explore() {
           // (overrides previous stat call result)
           if (stat(newFullPath.c_str(), &fileStat) != 0) {
             WPLOG(ERROR) << "stat() failed on path " << newFullPath;
+            if (errno != ENOENT && errno != ELOOP) {
+              // more than a dangling link: it is missing from the transfer
+              addFailedSource(newRelativePath);
+            }
             hasError = true;
             continue;
           }
@@ -567,6 +577,18 @@ std::vector<string>& DirectorySourceQueue::getFailedDirectories() {
   return failedDirectories_;
 }
 
+void DirectorySourceQueue::addFailedDirectory(const string& fullPath) {
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedDirectories_.emplace_back(fullPath);
+}
+
+void DirectorySourceQueue::addFailedSource(const string& relPath) {
+  TransferStats failedSourceStat(relPath);
+  failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedSourceStats_.emplace_back(std::move(failedSourceStat));
+}
+
 bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
   for (auto& info : fileInfo) {
     if (threadCtx_->getAbortChecker()->shouldAbort()) {
@@ -579,12 +601,7 @@ bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
       if (stat(fullPath.c_str(), &fileStat) != 0) {
         WPLOG(ERROR) << "stat failed on path " << fullPath;
 
-        TransferStats failedSourceStat(info.fileName);
-        failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
-        {
-          std::unique_lock<std::mutex> lock(mutex_);
-          failedSourceStats_.emplace_back(std::move(failedSourceStat));
-        }
+        addFailedSource(info.fileName);
 
         return false;
       }
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..9b14b7e 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -259,6 +259,12 @@ class DirectorySourceQueue : public SourceQueue {
    */
   bool explore();
 
+  /// record a directory that could not be (completely) read
+  void addFailedDirectory(const std::string& fullPath);
+
+  /// record a source that could not be looked at
+  void addFailedSource(const std::string& relPath);
+
   /**
    * Stat the input files and populate queue
    * @return                true on success, false on error
-- 
2.43.0


From 74a6c68c5490248f6831a54cbee420c2fdef2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 03/64] fix: send the chunk list even when a file's chunks
 exceed the buffer

An entry too large for the buffer was skipped without being counted, so the
receiver went on sending empty buffers forever and the sender reading them.
---
 Protocol.cpp       | 23 +++++++++++++++++++++--
 ReceiverThread.cpp | 10 ++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/Protocol.cpp b/Protocol.cpp
index f6e36db..b58e952 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -421,12 +421,31 @@ int64_t Protocol::encodeFileChunksInfoList(
     const FileChunksInfo& fileChunksInfo = fileChunksInfoList[i];
     int64_t maxLength = maxEncodeLen(fileChunksInfo);
     if (maxLength + oldOffset > bufSize) {
+      // does not fit even in an empty buffer
+      if (off > oldOffset) {
+        break;
+      }
+      FileChunksInfo partialInfo;
+      partialInfo.setSeqId(fileChunksInfo.getSeqId());
+      partialInfo.setFileName(fileChunksInfo.getFileName());
+      partialInfo.setFileSize(fileChunksInfo.getFileSize());
+      const int64_t room = bufSize - oldOffset - maxEncodeLen(partialInfo);
+      if (room < 0) {
+        WLOG(ERROR) << "File info for " << fileChunksInfo.getFileName()
+                    << " can not be encoded in a buffer of size " << bufSize;
+        break;
+      }
       WLOG(WARNING) << "Chunk info for " << fileChunksInfo.getFileName()
                     << " can not be encoded in a buffer of size " << bufSize
-                    << ", Ignoring.";
+                    << ", Ignoring some of its chunks.";
+      for (int64_t j = 0; j < room / kMaxChunkEncodeLen; j++) {
+        partialInfo.addChunk(fileChunksInfo.getChunks()[j]);
+      }
+      encodeFileChunksInfo(dest, off, bufSize, partialInfo);
+      numEncoded++;
       continue;
     }
-    if (maxLength + off >= bufSize) {
+    if (maxLength + off > bufSize) {
       break;
     }
     encodeFileChunksInfo(dest, off, bufSize, fileChunksInfo);
diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 7e4ea5f..a1e97b3 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -797,14 +797,16 @@ ReceiverState ReceiverThread::sendFileChunks() {
           return ACCEPT_WITH_TIMEOUT;
         }
         int64_t numEntriesWritten = 0;
-        // we try to encode as many chunks as possible in the buffer. If a
-        // single
-        // chunk can not fit in the buffer, it is ignored. Format of encoding :
-        // <data-size><chunk1><chunk2>...
+        // we try to encode as many chunks as possible in the buffer. If the
+        // chunks of a single file can not fit in the buffer, some of them are
+        // ignored. Format of encoding : <data-size><chunk1><chunk2>...
         while (numEntriesWritten < numParsedChunksInfo) {
           off = sizeof(int32_t);
           int64_t numEntriesEncoded = Protocol::encodeFileChunksInfoList(
               buf_, off, bufSize_, numEntriesWritten, fileChunksInfo);
+          if (numEntriesEncoded == 0) {
+            break;
+          }
           int32_t dataSize = folly::Endian::little(off - sizeof(int32_t));
           folly::storeUnaligned<int32_t>(buf_, dataSize);
           written = socket_->write(buf_, off);
-- 
2.43.0


From e22eacd5fa22825634e50454573a406ebe8e3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 04/64] fix: reject an empty parameter in a connection url

The rest of the url after an empty parameter became the value of the next one.
---
 WdtTransferRequest.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 34a6f6c..22c8fdc 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -207,11 +207,6 @@ ErrorCode WdtUri::process(const string& url) {
   // parse params
   while (!urlPiece.empty()) {
     StringPiece keyValuePair = urlPiece.split_step('&');
-    if (keyValuePair.empty()) {
-      // Last key value pair
-      keyValuePair = urlPiece;
-      urlPiece.advance(urlPiece.size());
-    }
     StringPiece key = keyValuePair.split_step('=');
     StringPiece value = keyValuePair;
     if (key.empty()) {
-- 
2.43.0


From 1eb57dd183f284956884665bd3bc2da1888de805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 05/64] fix: reject an out of range encryption type before it
 overflows

---
 util/EncryptionUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..010b3e2 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -146,6 +146,10 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     if (state == IN_TYPE) {
       // Pre : hex digits
       type = (type << 4) | v;
+      if (type >= NUM_ENC_TYPES) {
+        WLOG(ERROR) << "Encryption type out of range " << type;
+        return ERROR;
+      }
       continue;
     }
     if (state != RIGHT_HEX) {
-- 
2.43.0


From 78dcab077b9f34dbdd0f718bc8dc7a36678e8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 06/64] fix: let a port checkpoint wait for the block the owner
 is about to add

When the receiver confirmed a block completely and the checkpoint of the lost
port reached another thread before the owner thread had added that block to its
history, the checkpoint was rejected as too large and blocks not received were
never returned to the queue.
---
 util/ThreadTransferHistory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..e5a016b 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -43,6 +43,8 @@ bool ThreadTransferHistory::addSource(std::unique_ptr<ByteSource>& source) {
     return false;
   }
   history_.emplace_back(std::move(source));
+  // a global checkpoint may be waiting for this source
+  conditionInUse_.notify_all();
   return true;
 }
 
@@ -55,6 +57,10 @@ ErrorCode ThreadTransferHistory::setLocalCheckpoint(
 ErrorCode ThreadTransferHistory::setGlobalCheckpoint(
     const Checkpoint& checkpoint) {
   std::unique_lock<std::mutex> lock(mutex_);
+  while (inUse_ && checkpoint.numBlocks > (int64_t)history_.size()) {
+    // the receiver got the whole last block before the owner thread added it
+    conditionInUse_.wait(lock);
+  }
   ErrorCode status = setCheckpointAndReturnToQueue(checkpoint, true);
   while (inUse_) {
     // have to wait, error thread signalled through globalCheckpoint_ flag
-- 
2.43.0


From 90fc4c7edf9eb13237b5f37dc623033a657012c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 07/64] fix: return unacknowledged blocks whatever the last
 checkpoint was

The checkpoint made up to return the blocks was validated against the last one
of the receiver. If that one had no sequence id and a partial block (protocols
before 21) it was rejected and the blocks stayed in the history, which with
full reporting ended in a failed check.
---
 util/ThreadTransferHistory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index e5a016b..926cbc7 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -136,6 +136,8 @@ void ThreadTransferHistory::returnUnackedSourcesToQueue() {
   std::unique_lock<std::mutex> lock(mutex_);
   Checkpoint checkpoint;
   checkpoint.numBlocks = numAcknowledged_;
+  // not sent by the receiver, so not to be compared with what it sent before
+  lastCheckpoint_.reset();
   setCheckpointAndReturnToQueue(checkpoint, false);
 }
 
-- 
2.43.0


From 7e174a6697be79802031bbe07492bb903afd8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 08/64] fix: apply the partial block of a port checkpoint to
 one block only

Without sequence ids (protocols before 21) the received bytes of the partial
block were taken off the block returned from the history and once more off the
block the owner was sending, so those bytes were never sent.
---
 util/ThreadTransferHistory.cpp | 4 +++-
 util/ThreadTransferHistory.h   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 926cbc7..b9b0e7c 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -37,7 +37,8 @@ bool ThreadTransferHistory::addSource(std::unique_ptr<ByteSource>& source) {
     // already received an error for this thread
     WVLOG(1) << "adding source after global checkpoint is received. returning "
                 "the source to the queue";
-    markSourceAsFailed(source, lastCheckpoint_.get());
+    markSourceAsFailed(source,
+                       partialBlockReturned_ ? nullptr : lastCheckpoint_.get());
     lastCheckpoint_.reset();
     queue_.returnToQueue(source);
     return false;
@@ -98,6 +99,7 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
     }
   }
   numAcknowledged_ = numReceivedSources;
+  partialBlockReturned_ |= (globalCheckpoint && numFailedSources > 0);
   std::vector<std::unique_ptr<ByteSource>> sourcesToReturn;
   for (int64_t i = 0; i < numFailedSources; i++) {
     std::unique_ptr<ByteSource> source = std::move(history_.back());
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 5afcc45..7ba501b 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -119,6 +119,9 @@ class ThreadTransferHistory {
   std::vector<std::unique_ptr<ByteSource>> history_;
   /// whether a global error checkpoint has been received or not
   bool globalCheckpoint_{false};
+  /// whether the global checkpoint was about a source of the history, and not
+  /// about the one that has yet to be added
+  bool partialBlockReturned_{false};
   /// number of sources acked by the receiver thread
   int64_t numAcknowledged_{0};
   /// last received checkpoint
-- 
2.43.0


From c2b67918f217c9f3c9a0df99900ee5180495fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 09/64] fix: reject checkpoints with negative counts or more
 bytes than the block

A negative block count popped the history empty and beyond; too many received
bytes left a source with a negative size.
---
 util/ThreadTransferHistory.cpp | 51 ++++++++++++++++++++++------------
 util/ThreadTransferHistory.h   |  4 +++
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index b9b0e7c..4c4babf 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -82,6 +82,18 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
         << history_.size() << " " << numReceivedSources;
     return INVALID_CHECKPOINT;
   }
+  if (numReceivedSources < 0 || lastBlockReceivedBytes < 0) {
+    WLOG(ERROR) << "checkpoint has negative values " << checkpoint;
+    return INVALID_CHECKPOINT;
+  }
+  if (numReceivedSources < historySize &&
+      isCheckpointFor(checkpoint, *history_[numReceivedSources]) &&
+      lastBlockReceivedBytes > history_[numReceivedSources]->getSize()) {
+    WLOG(ERROR) << "checkpoint has more bytes than the block "
+                << history_[numReceivedSources]->getSize() << " "
+                << checkpoint;
+    return INVALID_CHECKPOINT;
+  }
   ErrorCode errCode = validateCheckpoint(checkpoint, globalCheckpoint);
   if (errCode == INVALID_CHECKPOINT) {
     return INVALID_CHECKPOINT;
@@ -188,28 +200,31 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
   return OK;
 }
 
+bool ThreadTransferHistory::isCheckpointFor(const Checkpoint& checkpoint,
+                                            const ByteSource& source) const {
+  if (!checkpoint.hasSeqId) {
+    // Receiver at lower version!
+    // checkpoint does not have seq-id. We have to blindly trust
+    // lastBlockReceivedBytes. If we do not, transfer will fail because of
+    // number of bytes mismatch. Even if an error happens because of this,
+    // Receiver will fail.
+    return true;
+  }
+  return checkpoint.lastBlockSeqId == source.getMetaData().seqId &&
+         checkpoint.lastBlockOffset == source.getOffset();
+}
+
 void ThreadTransferHistory::markSourceAsFailed(
     std::unique_ptr<ByteSource>& source, const Checkpoint* checkpoint) {
-  auto& metadata = source->getMetaData();
   bool validCheckpoint = false;
   if (checkpoint != nullptr) {
-    if (checkpoint->hasSeqId) {
-      if ((checkpoint->lastBlockSeqId == metadata.seqId) &&
-          (checkpoint->lastBlockOffset == source->getOffset())) {
-        validCheckpoint = true;
-      } else {
-        WLOG(WARNING)
-            << "Checkpoint block does not match history block. Checkpoint: "
-            << checkpoint->lastBlockSeqId << ", " << checkpoint->lastBlockOffset
-            << " History: " << metadata.seqId << ", " << source->getOffset();
-      }
-    } else {
-      // Receiver at lower version!
-      // checkpoint does not have seq-id. We have to blindly trust
-      // lastBlockReceivedBytes. If we do not, transfer will fail because of
-      // number of bytes mismatch. Even if an error happens because of this,
-      // Receiver will fail.
-      validCheckpoint = true;
+    validCheckpoint = isCheckpointFor(*checkpoint, *source) &&
+                      checkpoint->lastBlockReceivedBytes <= source->getSize();
+    if (!validCheckpoint) {
+      WLOG(WARNING) << "Checkpoint block does not match history block. "
+                    << "Checkpoint: " << *checkpoint
+                    << " History: " << source->getMetaData().seqId << ", "
+                    << source->getOffset();
     }
   }
   int64_t receivedBytes =
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 7ba501b..9b52257 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -99,6 +99,10 @@ class ThreadTransferHistory {
    */
   ErrorCode setGlobalCheckpoint(const Checkpoint& checkpoint);
 
+  /// @return   whether the partial block of the checkpoint is the source
+  bool isCheckpointFor(const Checkpoint& checkpoint,
+                       const ByteSource& source) const;
+
   void markSourceAsFailed(std::unique_ptr<ByteSource>& source,
                           const Checkpoint* checkpoint);
   /**
-- 
2.43.0


From a8cca2d19df736a3f909a8b1e5a426cb9feeb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 10/64] fix: a file shortened during a direct read is an error,
 not an empty read

---
 util/FileByteSource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..4ad4bff 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,7 +135,8 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing read beyond the bytes added for alignment
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
-- 
2.43.0


From 9c1675342319a58aa9b07437545f2ec6f44eeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 11/64] fix: do not read an encryption tag again when the data
 after it timed out

---
 util/WdtSocket.cpp | 8 +++++++-
 util/WdtSocket.h   | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 2d1278b..331d0ca 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -255,7 +255,11 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
   WDT_CHECK_GT(readTagInterval_, 0);
   WDT_CHECK_LE(nbyte, readTagInterval_);
   // first try to figure out whether this read will contain a tag
-  const int nextTagOffset = computeNextTagOffset(totalRead_, readTagInterval_);
+  int nextTagOffset = computeNextTagOffset(totalRead_, readTagInterval_);
+  if (nextTagOffset == 0 && totalRead_ == lastTagOffset_) {
+    // the tag at this offset was read before, but no data after it
+    nextTagOffset = readTagInterval_;
+  }
 
   int numRead = 0;
   if (nextTagOffset < nbyte) {
@@ -287,6 +291,7 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
       readErrorCode_ = ENCRYPTION_ERROR;
       return -1;
     }
+    lastTagOffset_ = totalRead_;
     // tag verification successful, inform higher layer
     if (tagVerificationSuccessCallback_ != nullptr) {
       tagVerificationSuccessCallback_();
@@ -676,6 +681,7 @@ ErrorCode WdtSocket::closeConnectionInternal(bool doTagIOs) {
   writesFinalized_ = false;
   readsFinalized_ = false;
   totalRead_ = 0;
+  lastTagOffset_ = 0;
   totalWritten_ = 0;
   resetEncryptor();
   resetDecryptor();
diff --git a/util/WdtSocket.h b/util/WdtSocket.h
index f06f48b..25445f2 100644
--- a/util/WdtSocket.h
+++ b/util/WdtSocket.h
@@ -244,6 +244,9 @@ class WdtSocket {
   int32_t writeTagInterval_{0};
 
   int64_t totalRead_{0};
+
+  /// value of totalRead_ when a tag was last read and verified
+  int64_t lastTagOffset_{0};
   int64_t totalWritten_{0};
 
   /// If this is true, then if we get a cmd other than encryption cmd from the
-- 
2.43.0


From 47f6d4c60fa86fa136aa7dfd46e79fbe8f7e9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 12/64] fix: do not wait for the next encryption tag when a
 partial read has data

---
 util/WdtSocket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 331d0ca..ed0a7c5 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -278,6 +278,11 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
       }
       WDT_CHECK_EQ(nextTagOffset, ret);
       numRead = ret;
+      if (!tryFull) {
+        // The tag is sent along with the data following it, so waiting for it
+        // can block. It will get read during next read
+        return numRead;
+      }
     }
     WDT_CHECK_EQ(0, totalRead_ % readTagInterval_);
     // now read and verify tag
@@ -367,8 +372,8 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
       return (numRead > 0 ? numRead : ret);
     }
     numRead += ret;
-    if (ret < toRead) {
-      // couldn't read full data
+    if (ret < toRead || !tryFull) {
+      // couldn't read full data, or do not have to
       return numRead;
     }
   }
-- 
2.43.0


From fb0a07ada8609011597e24ef2239daf3cbd94b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 13/64] fix: stop a retried socket write when the transfer is
 aborted

---
 util/WdtSocket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index ed0a7c5..1a44a0b 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -156,6 +156,11 @@ int WdtSocket::writeInternal(const char* buf, int nbyte, int timeoutMs,
     if (!retry) {
       break;
     }
+    if (threadCtx_.getOptions().abort_check_interval_millis > 0 &&
+        threadCtx_.getAbortChecker()->shouldAbort()) {
+      // a partial write can be the result of an abort, do not retry that
+      break;
+    }
   }
   if (written != nbyte) {
     WLOG(ERROR) << "Socket write failure " << written << " " << nbyte;
-- 
2.43.0


From 2ee9cbd83205a53bcb60e3fb8e3d0841304a6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 14/64] fix: keep the connect time limit when abort checks are
 disabled

---
 util/ClientSocket.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/ClientSocket.cpp b/util/ClientSocket.cpp
index c5db276..8758ddb 100644
--- a/util/ClientSocket.cpp
+++ b/util/ClientSocket.cpp
@@ -111,9 +111,12 @@ ErrorCode ClientSocket::connect() {
           closeConnection();
           return CONN_ERROR_RETRYABLE;
         }
-        int pollTimeout =
-            std::min(connectTimeout - timeElapsed,
-                     threadCtx_.getOptions().abort_check_interval_millis);
+        int pollTimeout = connectTimeout - timeElapsed;
+        const int abortCheckInterval =
+            threadCtx_.getOptions().abort_check_interval_millis;
+        if (abortCheckInterval > 0) {
+          pollTimeout = std::min(pollTimeout, abortCheckInterval);
+        }
         struct pollfd pollFds[] = {{fd, POLLOUT, 0}};
 
         if ((res = poll(pollFds, 1, pollTimeout)) <= 0) {
-- 
2.43.0


From 820621798ed2f4a4d52be57fa93d1af057c183a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 15/64] fix: reject received file names that are not below the
 destination

---
 ReceiverThread.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index a1e97b3..b930ead 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -387,6 +387,16 @@ void ReceiverThread::sendHeartBeat() {
 }
 
 /***PROCESS_FILE_CMD***/
+/// @return   whether a file name received is below the destination directory
+static bool isValidFileName(const std::string& name) {
+  if (name.empty() || name.front() == '/' || name.back() == '/' ||
+      name.find('\0') != std::string::npos) {
+    return false;
+  }
+  const std::string path = "/" + name + "/";
+  return path.find("/../") == std::string::npos;
+}
+
 ReceiverState ReceiverThread::processFileCmd() {
   WTVLOG(1) << "entered PROCESS_FILE_CMD state";
   // following block needs to be executed for the first file cmd. There is no
@@ -471,6 +481,11 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (!isValidFileName(blockDetails.fileName)) {
+    WTLOG(ERROR) << "Invalid file name received " << blockDetails.fileName;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
-- 
2.43.0


From b740887a907119e93b5a48c1e4bae50cd67a0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 16/64] fix: reject file headers whose block is not within the
 file

---
 ReceiverThread.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index b930ead..ddf8175 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -486,6 +486,17 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (blockDetails.fileSize < 0 || blockDetails.offset < 0 ||
+      blockDetails.dataSize < 0 ||
+      blockDetails.offset > blockDetails.fileSize ||
+      blockDetails.dataSize > blockDetails.fileSize - blockDetails.offset) {
+    WTLOG(ERROR) << "Invalid file header, block not within file "
+                 << blockDetails.fileName << " file-size "
+                 << blockDetails.fileSize << " offset " << blockDetails.offset
+                 << " block-size " << blockDetails.dataSize;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
-- 
2.43.0


From 9532f144ad93c593456cb7928dc776325ba64fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 17/64] fix: release what is added to a namespace while it is
 deregistered

---
 WdtResourceController.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 658eea0..375722e 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -655,6 +655,13 @@ ErrorCode WdtResourceController::deRegisterWdtNamespace(
     }
     namespaceMap_.erase(it);
   }
+  // calls which found the namespace before it was removed may still add to it,
+  // wait for them so that nothing is added after everything is released
+  while (controller.use_count() > 1) {
+    /* sleep override */
+    usleep(kDelTimeToSleepMillis * 1000);
+    WLOG(INFO) << "Trying to delete the namespace " << wdtNamespace;
+  }
   int numSenders = controller->releaseAllSenders();
   int numReceivers = controller->releaseAllReceivers();
 
@@ -663,12 +670,6 @@ ErrorCode WdtResourceController::deRegisterWdtNamespace(
     numSenders_ -= numSenders;
     numReceivers_ -= numReceivers;
   }
-
-  while (controller.use_count() > 1) {
-    /* sleep override */
-    usleep(kDelTimeToSleepMillis * 1000);
-    WLOG(INFO) << "Trying to delete the namespace " << wdtNamespace;
-  }
   WLOG(INFO) << "Deleted the namespace " << wdtNamespace;
   return OK;
 }
-- 
2.43.0


From 3f95b83835254de55ba52a71e06d145931a5f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 18/64] fix: release a sender or receiver that could not be
 initialized or started

---
 Wdt.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Wdt.cpp b/Wdt.cpp
index 0def6b7..e143cff 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -122,6 +122,7 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
+    releaseWdtSender(req);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
@@ -159,9 +160,13 @@ ErrorCode Wdt::wdtReceiveStart(const std::string& wdtNamespace,
   if (req.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init receiver with request for " << wdtNamespace
                 << " " << identifier;
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
     return req.errorCode;
   }
   errCode = receiver->transferAsync();
+  if (errCode != OK) {
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
+  }
   WLOG(INFO) << "wdtReceiveStart for " << wdtNamespace << " " << identifier
              << " : " << errorCodeToStr(errCode);
   req.errorCode = errCode;
-- 
2.43.0


From eb0c0092ce92c3eb722700a1c8be719f53930505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 19/64] fix: close the transfer log of a receiver that was
 never started

---
 Receiver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Receiver.cpp b/Receiver.cpp
index c624cde..d10a368 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -267,6 +267,10 @@ Receiver::~Receiver() {
     abort(ABORTED_BY_APPLICATION);
   }
   finish();
+  if (transferLogManager_) {
+    // still open if the transfer was never started
+    transferLogManager_->closeLog();
+  }
 }
 
 const std::vector<FileChunksInfo>& Receiver::getFileChunksInfo() const {
-- 
2.43.0


From 6cab1b4e53ed4eb951c038068e5fd8a82473ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 20/64] fix: releasing a replaced sender must not release its
 replacement

---
 Wdt.cpp                   | 13 +++++++------
 Wdt.h                     |  4 +++-
 WdtResourceController.cpp | 13 ++++++++++---
 WdtResourceController.h   | 12 ++++++++----
 4 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/Wdt.cpp b/Wdt.cpp
index e143cff..53c7d2a 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -89,7 +89,7 @@ ErrorCode Wdt::createWdtSender(const WdtTransferRequest& req,
     }
     senderPtr->abort(ABORTED_BY_APPLICATION);
     // This may log an error too
-    resourceController_->releaseSender(wdtNamespace, secondKey);
+    resourceController_->releaseSender(wdtNamespace, secondKey, senderPtr);
     // Try#2
     errCode = resourceController_->createSender(wdtNamespace, secondKey, req,
                                                 senderPtr);
@@ -104,9 +104,10 @@ ErrorCode Wdt::createWdtSender(const WdtTransferRequest& req,
   return OK;
 }
 
-ErrorCode Wdt::releaseWdtSender(const WdtTransferRequest& wdtRequest) {
-  return resourceController_->releaseSender(wdtRequest.wdtNamespace,
-                                            getSenderIdentifier(wdtRequest));
+ErrorCode Wdt::releaseWdtSender(const WdtTransferRequest& wdtRequest,
+                                const SenderPtr& sender) {
+  return resourceController_->releaseSender(
+      wdtRequest.wdtNamespace, getSenderIdentifier(wdtRequest), sender);
 }
 
 ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
@@ -122,12 +123,12 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
-    releaseWdtSender(req);
+    releaseWdtSender(req, sender);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
   errCode = transferReport->getSummary().getErrorCode();
-  releaseWdtSender(req);
+  releaseWdtSender(req, sender);
   WLOG(INFO) << "wdtSend for " << wdtNamespace << " " << req.hostName
              << " ended with " << errorCodeToStr(errCode);
   return errCode;
diff --git a/Wdt.h b/Wdt.h
index d4ac50f..fe505ee 100644
--- a/Wdt.h
+++ b/Wdt.h
@@ -84,7 +84,9 @@ class Wdt {
                                     bool terminateExistingOne,
                                     SenderPtr& senderPtr);
 
-  virtual ErrorCode releaseWdtSender(const WdtTransferRequest& wdtRequest);
+  /// Releases the given sender, or whichever is registered if none is given
+  virtual ErrorCode releaseWdtSender(const WdtTransferRequest& wdtRequest,
+                                     const SenderPtr& sender = nullptr);
 
   /**
    * Receive data. It creates a receiver on specified namespace/identifier and
diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 375722e..cbf5f10 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -136,7 +136,8 @@ ErrorCode WdtNamespaceController::releaseReceiver(
   return OK;
 }
 
-ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
+ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier,
+                                                const SenderPtr& expected) {
   SenderPtr sender = nullptr;
   {
     GuardLock lock(controllerMutex_);
@@ -146,6 +147,11 @@ ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
                   << " for " << controllerName_;
       return NOT_FOUND;
     }
+    if (expected && it->second != expected) {
+      WLOG(WARNING) << "Sender with id " << identifier << " for "
+                    << controllerName_ << " has been replaced, not releasing";
+      return NOT_FOUND;
+    }
     sender = std::move(it->second);
     sendersMap_.erase(it);
     --numSenders_;
@@ -457,7 +463,8 @@ ErrorCode WdtResourceController::createReceiver(
 }
 
 ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
-                                               const std::string& identifier) {
+                                               const std::string& identifier,
+                                               const SenderPtr& expected) {
   NamespaceControllerPtr controller = nullptr;
   {
     controller = getNamespaceController(wdtNamespace);
@@ -466,7 +473,7 @@ ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
       return ERROR;
     }
   }
-  if (controller->releaseSender(identifier) == OK) {
+  if (controller->releaseSender(identifier, expected) == OK) {
     GuardLock lock(controllerMutex_);
     --numSenders_;
     return OK;
diff --git a/WdtResourceController.h b/WdtResourceController.h
index de1e532..cddf43b 100644
--- a/WdtResourceController.h
+++ b/WdtResourceController.h
@@ -88,8 +88,10 @@ class WdtNamespaceController : public WdtControllerBase {
   /// Delete a receiver from this namespace
   ErrorCode releaseReceiver(const std::string& identifier);
 
-  /// Delete a sender from this namespace
-  ErrorCode releaseSender(const std::string& identifier);
+  /// Delete a sender from this namespace (only if it still is the given one,
+  /// when one is given)
+  ErrorCode releaseSender(const std::string& identifier,
+                          const SenderPtr& expected = nullptr);
 
   /// Releases all senders in this namespace
   int64_t releaseAllSenders();
@@ -172,9 +174,11 @@ class WdtResourceController : public WdtControllerBase {
                            const WdtTransferRequest& request,
                            ReceiverPtr& receiver);
 
-  /// Release a sender specified with namespace and identifier
+  /// Release a sender specified with namespace and identifier (only if it
+  /// still is the given one, when one is given)
   ErrorCode releaseSender(const std::string& wdtNamespace,
-                          const std::string& identifier);
+                          const std::string& identifier,
+                          const SenderPtr& expected = nullptr);
 
   /// Release a receiver specified with namespace and identifier
   ErrorCode releaseReceiver(const std::string& wdtNamespace,
-- 
2.43.0


From 6b53a5a1c54db6d0a12c89fac0148318c92a2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 21/64] fix: reject block entries of the transfer log with
 negative or overflowing values

---
 util/TransferLogManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..85d0a98 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -952,9 +952,15 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
                 << offset << " " << blockSize;
     return INVALID_LOG;
   }
+  if (offset < 0 || blockSize < 0) {
+    WLOG(ERROR) << "Invalid block entry for seq-id " << seqId << " offset "
+                << offset << " block-size " << blockSize;
+    return INVALID_LOG;
+  }
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  if (offset > chunksInfo.getFileSize() ||
+      blockSize > chunksInfo.getFileSize() - offset) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From 72bf686856d54b4eda2aeb8bd4f7df51b0a959c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 22/64] fix: a resize entry of a file that no longer exists
 must not invalidate the whole log

---
 util/TransferLogManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 85d0a98..15b8a93 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -891,6 +891,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
                 << seqId << " " << fileSize;
     return INVALID_LOG;
   }
+  if (invalidSeqIds_.find(seqId) != invalidSeqIds_.end()) {
+    WLOG(INFO) << "Resize entry for an invalid sequence-id " << seqId
+               << ", ignoring";
+    return OK;
+  }
   auto it = fileInfoMap_.find(seqId);
   if (it == fileInfoMap_.end()) {
     WLOG(ERROR) << "File resize entry for unknown sequence-id " << seqId << " "
-- 
2.43.0


From 83e429d61fd8018dcc1d2f3f278213b4100a34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 23/64] fix: write the log of a transfer that starts over in an
 inconsistent directory

---
 util/TransferLogManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 15b8a93..757b7f3 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -288,8 +288,9 @@ ErrorCode TransferLogManager::openLog() {
 
 ErrorCode TransferLogManager::startThread() {
   if (!options_.resume_using_dir_tree) {
-    // start writer thread
-    if (resumptionStatus_ != OK) {
+    // start writer thread. Also needed for an inconsistent directory, because
+    // the header of the new transfer makes it valid again
+    if (resumptionStatus_ == INVALID_LOG) {
       return resumptionStatus_;
     }
     writerThread_ =
-- 
2.43.0


From c36882affe3b6e9e65d898d38ea2c110c12f681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 24/64] fix: do not sync the transfer log after closing it on a
 write error

---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 757b7f3..e3744c0 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -465,6 +465,7 @@ void TransferLogManager::invalidateDirectory() {
         << "Disk write error while writing directory invalidation entry "
         << written << " " << size;
     closeLog();
+    return;
   }
   fsyncLog();
   return;
-- 
2.43.0


From b82e74a5f7aa3672edf4a3124812f606e6d73034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 25/64] fix: an entry beyond the size on the disk must not
 invalidate the transfer log when the file is invalidated later

---
 util/TransferLogManager.cpp | 30 ++++++++++++++++++++----------
 util/TransferLogManager.h   |  2 ++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index e3744c0..7328258 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -748,6 +748,7 @@ void LogParser::clearParsedData() {
   fileInfoMap_.clear();
   seqIdToSizeMap_.clear();
   invalidSeqIds_.clear();
+  tooSmallSeqIds_.clear();
 }
 
 string LogParser::getFormattedTimestamp(int64_t timestampMicros) {
@@ -916,10 +917,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
 
   if (options_.shouldPreallocateFiles() &&
       fileSize > chunksInfo.getFileSize()) {
-    WLOG(ERROR) << "Size on the disk is less than the resized size for "
-                << fileName << " seq-id " << seqId << " disk-size "
-                << chunksInfo.getFileSize() << " resized-size " << fileSize;
-    return INVALID_LOG;
+    WLOG(WARNING) << "Size on the disk is less than the resized size for "
+                  << fileName << " seq-id " << seqId << " disk-size "
+                  << chunksInfo.getFileSize() << " resized-size " << fileSize;
+    // only matters if the file is not invalidated later in the log
+    tooSmallSeqIds_.insert(seqId);
   }
   sizeIt->second = fileSize;
   return OK;
@@ -965,14 +967,16 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   FileChunksInfo& chunksInfo = it->second;
-  // check whether the block is within disk size
+  // check whether the block is within disk size. This only matters if the file
+  // is not invalidated later in the log
   if (offset > chunksInfo.getFileSize() ||
       blockSize > chunksInfo.getFileSize() - offset) {
-    WLOG(ERROR) << "Block end point is greater than file size in disk "
-                << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
-                << offset << " block-size " << blockSize
-                << " file size in disk " << chunksInfo.getFileSize();
-    return INVALID_LOG;
+    WLOG(WARNING) << "Block end point is greater than file size in disk "
+                  << chunksInfo.getFileName() << " seq-id " << seqId
+                  << " offset " << offset << " block-size " << blockSize
+                  << " file size in disk " << chunksInfo.getFileSize();
+    tooSmallSeqIds_.insert(seqId);
+    return OK;
   }
   chunksInfo.addChunk(Interval(offset, offset + blockSize));
   return OK;
@@ -1007,6 +1011,7 @@ ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
   }
   fileInfoMap_.erase(seqId);
   invalidSeqIds_.erase(seqId);
+  tooSmallSeqIds_.erase(seqId);
   return OK;
 }
 
@@ -1116,6 +1121,11 @@ ErrorCode LogParser::parseLog(int fd, string& senderIp,
       clearParsedData();
     }
   }
+  if (status == OK && !tooSmallSeqIds_.empty()) {
+    WLOG(ERROR) << "Invalid transfer log, " << tooSmallSeqIds_.size()
+                << " files are smaller on the disk than in the log";
+    return INVALID_LOG;
+  }
   if (status == OK) {
     for (auto& pair : fileInfoMap_) {
       FileChunksInfo& fileInfo = pair.second;
diff --git a/util/TransferLogManager.h b/util/TransferLogManager.h
index 92fc5a0..4923414 100644
--- a/util/TransferLogManager.h
+++ b/util/TransferLogManager.h
@@ -378,6 +378,8 @@ class LogParser {
   std::map<int64_t, int64_t> seqIdToSizeMap_;
   /// set of invalid seq-ids
   std::set<int64_t> invalidSeqIds_;
+  /// seq-ids of the files which are smaller on the disk than recorded
+  std::set<int64_t> tooSmallSeqIds_;
 };
 }  // namespace wdt
 }  // namespace facebook
-- 
2.43.0


From 0ba80916d0a76d884b63b77fbce9a1a460cc80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 26/64] fix: a source that got smaller must not invalidate the
 transfer log when its file was not preallocated

---
 util/TransferLogManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 7328258..72634ed 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -909,7 +909,9 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
   const string& fileName = chunksInfo.getFileName();
   auto sizeIt = seqIdToSizeMap_.find(seqId);
   WDT_CHECK(sizeIt != seqIdToSizeMap_.end());
-  if (fileSize < sizeIt->second) {
+  // without preallocation a file can be shorter on the disk than its recorded
+  // size, and a source which got smaller in between continues it
+  if (options_.shouldPreallocateFiles() && fileSize < sizeIt->second) {
     WLOG(ERROR) << "File size can not reduce during resizing " << fileName
                 << " " << seqId << " " << fileSize << " " << sizeIt->second;
     return INVALID_LOG;
-- 
2.43.0


From d3180e7db6412f3c96c286541cfb4192d6cdfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 27/64] fix: errorCodeToStr must not index its table with a
 negative code from the wire

---
 ErrorCodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ErrorCodes.cpp b/ErrorCodes.cpp
index 87e7eb9..5070af1 100644
--- a/ErrorCodes.cpp
+++ b/ErrorCodes.cpp
@@ -16,7 +16,7 @@ namespace facebook {
 namespace wdt {
 std::string errorCodeToStr(ErrorCode code) {
   int numErrorCodes = sizeof(kErrorToStr) / sizeof(kErrorToStr[0]);
-  if (code < numErrorCodes) {
+  if (code >= 0 && code < numErrorCodes) {
     return kErrorToStr[code];
   }
   return folly::to<std::string>(code);
-- 
2.43.0


From b0d16bacc00e7d36d6e8fe615832a3b91db20f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 28/64] fix: the receiver accepts only settings as the first
 command of a connection

---
 ReceiverThread.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index ddf8175..274ddd1 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -267,15 +267,20 @@ ReceiverState ReceiverThread::readNextCmd() {
     return ACCEPT_WITH_TIMEOUT;
   }
   Protocol::CMD_MAGIC cmd = (Protocol::CMD_MAGIC)buf_[off_++];
+  if (cmd == Protocol::SETTINGS_CMD) {
+    return PROCESS_SETTINGS_CMD;
+  }
+  if (!curConnectionVerified_) {
+    WTLOG(ERROR) << "received cmd " << cmd << " before settings";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (cmd == Protocol::DONE_CMD) {
     return PROCESS_DONE_CMD;
   }
   if (cmd == Protocol::FILE_CMD) {
     return PROCESS_FILE_CMD;
   }
-  if (cmd == Protocol::SETTINGS_CMD) {
-    return PROCESS_SETTINGS_CMD;
-  }
   if (cmd == Protocol::SIZE_CMD) {
     return PROCESS_SIZE_CMD;
   }
-- 
2.43.0


From b45a426e696223c93337f21bd413d20a7dad9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 29/64] fix: refuse settings with time-outs that are not
 positive or overflow

---
 ReceiverThread.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 274ddd1..9c15af5 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -11,6 +11,7 @@
 #include <folly/String.h>
 #include <folly/hash/Checksum.h>
 #include <folly/lang/Bits.h>
+#include <limits>
 #include <wdt/ReceiverThread.h>
 #include <wdt/util/FileWriter.h>
 
@@ -337,6 +338,16 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  const int maxTimeout = std::numeric_limits<int>::max() - kTimeoutBufferMillis;
+  if (settings.readTimeoutMillis <= 0 || settings.writeTimeoutMillis <= 0 ||
+      settings.readTimeoutMillis > maxTimeout ||
+      settings.writeTimeoutMillis > maxTimeout) {
+    WTLOG(ERROR) << "Invalid timeouts in settings "
+                 << settings.readTimeoutMillis << " "
+                 << settings.writeTimeoutMillis;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   auto senderId = settings.transferId;
   auto transferId = wdtParent_->getTransferId();
   if (transferId != senderId) {
-- 
2.43.0


From 42ecf2c5cf4b7404fc90731bf9f9541e1afc348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 30/64] fix: refuse file headers with an unknown allocation
 status

---
 ReceiverThread.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 9c15af5..2c13aa8 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -502,6 +502,13 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (blockDetails.allocationStatus < NOT_EXISTS ||
+      blockDetails.allocationStatus > TO_BE_DELETED) {
+    WTLOG(ERROR) << "Invalid allocation status received "
+                 << static_cast<int>(blockDetails.allocationStatus);
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.fileSize < 0 || blockDetails.offset < 0 ||
       blockDetails.dataSize < 0 ||
       blockDetails.offset > blockDetails.fileSize ||
-- 
2.43.0


From 2a8b80690425573a7d94c43098b0c7c8db1d666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 31/64] fix: validate the length of a file chunks list before
 reading it

---
 SenderThread.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..f9c81ad 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -563,7 +563,6 @@ SenderState SenderThread::readFileChunks() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return END;
   }
-  std::unique_ptr<char[]> chunkBuffer(new char[bufSize]);
   std::vector<FileChunksInfo> fileChunksInfoList;
   while (true) {
     int64_t numFileChunks = fileChunksInfoList.size();
@@ -591,6 +590,18 @@ SenderState SenderThread::readFileChunks() {
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
     toRead = folly::Endian::little(toRead);
+    if (toRead <= 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Invalid length of file chunks list " << toRead
+                   << " buffer size " << bufSize;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
+    std::unique_ptr<char[]> chunkBuffer(new (std::nothrow) char[toRead]);
+    if (chunkBuffer == nullptr) {
+      WTLOG(ERROR) << "Unable to allocate " << toRead << " bytes for chunks";
+      threadStats_.setLocalErrorCode(MEMORY_ALLOCATION_ERROR);
+      return END;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From bd78a061b5e4ec7d89a57a280b8010e938b481c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 32/64] fix: refuse a list of checkpoints without positive
 length

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index f9c81ad..bc78557 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -813,6 +813,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "invalid length of checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From 9dda6531550862070bff4758d257cc6f75ee6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 33/64] fix: a failed negotiation of the protocol version ends
 the sender thread, not the process

---
 SenderThread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index bc78557..0552738 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -924,7 +924,11 @@ SenderState SenderThread::processVersionMismatch() {
             negotiatedProtocol = threadProtocolVersion;
           }
         }
-        WDT_CHECK_GT(negotiatedProtocol, 0);
+        if (negotiatedProtocol <= 0) {
+          WTLOG(ERROR) << "No thread could negotiate a protocol version";
+          execFunnel->notifySuccess();
+          return END;
+        }
         WLOG_IF(INFO, negotiatedProtocol != threadProtocolVersion_)
             << *this << " Changing protocol version to " << negotiatedProtocol
             << ", previous version " << threadProtocolVersion_;
-- 
2.43.0


From 9dae70c0d0cc91405486d675552ebe84ec105995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 34/64] fix: sender threads that got global checkpoints must
 not wait for each other or themselves

---
 SenderThread.cpp               | 3 +++
 util/ThreadTransferHistory.cpp | 5 +++++
 util/ThreadTransferHistory.h   | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 0552738..8977762 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -835,10 +835,13 @@ SenderState SenderThread::processErrCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return END;
   }
+  // no block of this thread is in flight, others need not wait for it
+  transferHistory.markNotInUse();
   for (auto& checkpoint : checkpoints) {
     WTLOG(INFO) << "Received global checkpoint " << checkpoint;
     transferHistoryController_->handleGlobalCheckpoint(checkpoint);
   }
+  transferHistory.markInUse();
   return SEND_BLOCKS;
 }
 
diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 4c4babf..632a54e 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -250,6 +250,11 @@ void ThreadTransferHistory::markSourceAsFailed(
   source->advanceOffset(receivedBytes);
 }
 
+void ThreadTransferHistory::markInUse() {
+  std::lock_guard<std::mutex> lock(mutex_);
+  inUse_ = true;
+}
+
 bool ThreadTransferHistory::isGlobalCheckpointReceived() {
   std::lock_guard<std::mutex> lock(mutex_);
   return globalCheckpoint_;
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 9b52257..f574c07 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -78,6 +78,9 @@ class ThreadTransferHistory {
   /// Clears the inUse_ flag and notifies other waiting threads
   void markNotInUse();
 
+  /// Sets the inUse_ flag again after a call to markNotInUse()
+  void markInUse();
+
   /// Copy constructor deleted
   ThreadTransferHistory(const ThreadTransferHistory& that) = delete;
 
-- 
2.43.0


From 1d6e9aca3b2b8f5542d80265c94c973f3974c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 35/64] fix: a connection must not inherit the encryption state
 of the previous one

What one peer made a server socket turn off (encryption, periodic change of
the iv) stayed off for all later connections and transfers on that port.
---
 util/WdtSocket.cpp | 4 ++++
 util/WdtSocket.h   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 1a44a0b..1be0310 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -18,6 +18,8 @@ WdtSocket::WdtSocket(ThreadCtx& threadCtx, const int port,
                      Func&& tagVerificationSuccessCallback)
     : port_(port),
       threadCtx_(threadCtx),
+      configuredEncryptionParams_(encryptionParams),
+      configuredIvChangeInterval_(ivChangeInterval),
       encryptionParams_(encryptionParams),
       ivChangeInterval_(ivChangeInterval),
       tagVerificationSuccessCallback_(
@@ -686,6 +688,8 @@ ErrorCode WdtSocket::closeConnectionInternal(bool doTagIOs) {
   fd_ = -1;
   readErrorCode_ = OK;
   writeErrorCode_ = OK;
+  encryptionParams_ = configuredEncryptionParams_;
+  ivChangeInterval_ = configuredIvChangeInterval_;
   encryptionSettingsRead_ = false;
   encryptionSettingsWritten_ = false;
   writesFinalized_ = false;
diff --git a/util/WdtSocket.h b/util/WdtSocket.h
index 25445f2..224e289 100644
--- a/util/WdtSocket.h
+++ b/util/WdtSocket.h
@@ -228,6 +228,11 @@ class WdtSocket {
 
   ThreadCtx& threadCtx_;
 
+  /// what the socket was configured with. A connection can turn these off for
+  /// itself, each new connection starts from the configured values
+  const EncryptionParams configuredEncryptionParams_;
+  const int64_t configuredIvChangeInterval_{0};
+
   EncryptionParams encryptionParams_;
   int64_t ivChangeInterval_{0};
 
-- 
2.43.0


From 5a458e22289e69b2c9d6ce72db14dba68b69704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 36/64] fix: a long running receiver must forget what the
 previous sender negotiated

---
 ReceiverThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 2c13aa8..e55a812 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -1116,6 +1116,11 @@ void ReceiverThread::reset() {
   checkpointIndex_ = pendingCheckpointIndex_ = 0;
   senderReadTimeout_ = senderWriteTimeout_ = -1;
   curConnectionVerified_ = false;
+  // what was negotiated with the previous sender does not bind the next one
+  threadProtocolVersion_ = wdtParent_->getProtocolVersion();
+  isBlockMode_ = true;
+  enableHeartBeat_ = false;
+  footerType_ = NO_FOOTER;
   threadStats_.reset();
   checkpoints_.clear();
   newCheckpoints_.clear();
-- 
2.43.0


From 6a15c2fa7d565b94efd50850961f8c9964e03d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 37/64] fix: clear the global checkpoints even if no transfer
 was started

In a long running receiver with limited accept retries they piled up and
were sent to the next sender, whose transfer then failed.
---
 Receiver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index d10a368..d95fc89 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -95,6 +95,8 @@ bool Receiver::hasNewTransferStarted() const {
 
 void Receiver::endCurGlobalSession() {
   setTransferStatus(TransferStatus::FINISHED);
+  // threads that gave up add a checkpoint, even if no transfer started
+  checkpoints_.clear();
   if (!hasNewTransferStarted_) {
     WLOG(WARNING) << "WDT transfer did not start, no need to end session";
     return;
@@ -103,7 +105,6 @@ void Receiver::endCurGlobalSession() {
   if (throttler_) {
     throttler_->endTransfer();
   }
-  checkpoints_.clear();
   if (fileCreator_) {
     fileCreator_->clearAllocationMap();
   }
-- 
2.43.0


From 944a49f01189a5bb7c0699235e3ff68debdc09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 38/64] fix: do not delete extra files when the discovery was
 not complete

---
 util/DirectorySourceQueue.cpp | 9 +++++++++
 util/DirectorySourceQueue.h   | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index d327768..6539ad6 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -219,9 +219,11 @@ bool DirectorySourceQueue::buildQueueSynchronously() {
       fileInfo_.insert(fileInfo_.end(), files->begin(), files->end());
     }
   }
+  const bool aborted = threadCtx_->getAbortChecker()->shouldAbort();
   {
     std::lock_guard<std::mutex> lock(mutex_);
     initFinished_ = true;
+    discoveryAborted_ = aborted;
     enqueueFilesToBeDeleted();
     // TODO: comment why
     if (sourceQueue_.empty()) {
@@ -661,6 +663,13 @@ void DirectorySourceQueue::enqueueFilesToBeDeleted() {
     // not yet been received, return
     return;
   }
+  if (!failedDirectories_.empty() || !failedSourceStats_.empty() ||
+      discoveryAborted_) {
+    // the list of discovered files is not complete, a file missing in it may
+    // well exist on the sender side
+    WLOG(ERROR) << "Not deleting extra files because of discovery errors";
+    return;
+  }
   std::set<std::string> discoveredFiles;
   for (const SourceMetaData* metadata : sharedFileData_) {
     discoveredFiles.insert(metadata->relPath);
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index 9b14b7e..db2ef45 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -344,6 +344,9 @@ class DirectorySourceQueue : public SourceQueue {
   /// Indicates whether call to init() has finished
   bool initFinished_{false};
 
+  /// Indicates whether the discovery was aborted, i.e. may have missed files
+  bool discoveryAborted_{false};
+
   struct SourceComparator {
     bool operator()(const std::unique_ptr<ByteSource>& source1,
                     const std::unique_ptr<ByteSource>& source2) {
-- 
2.43.0


From d353976bce9820498ded77ca7dabaad9a59fce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 39/64] fix: keep a finished connection's encryption type
 readable until the next one

The type a connection used is reported after it was closed; the configured
values are restored when the next connection starts.
---
 util/WdtSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 1be0310..f340e33 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -688,8 +688,6 @@ ErrorCode WdtSocket::closeConnectionInternal(bool doTagIOs) {
   fd_ = -1;
   readErrorCode_ = OK;
   writeErrorCode_ = OK;
-  encryptionParams_ = configuredEncryptionParams_;
-  ivChangeInterval_ = configuredIvChangeInterval_;
   encryptionSettingsRead_ = false;
   encryptionSettingsWritten_ = false;
   writesFinalized_ = false;
@@ -709,6 +707,8 @@ int WdtSocket::getFd() const {
 
 void WdtSocket::setFd(int fd) {
   fd_ = fd;
+  encryptionParams_ = configuredEncryptionParams_;
+  ivChangeInterval_ = configuredIvChangeInterval_;
 }
 
 int WdtSocket::getPort() const {
-- 
2.43.0


From 91d17a6b9943608daf11c2f20b8f8a3600deef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:13 +0000
Subject: [PATCH 40/64] fix: keep the lock of the transfer log until the
 receiver is done with it

An invalid log was closed, and thereby unlocked, while the receiver that owned
it was still using the directory, and a valid one was renamed or unlinked after
it had been unlocked: a second receiver could take the log over, or lose it.
Refusing a receiver no longer ends the process when the log is gone.
---
 Receiver.cpp                | 19 ++++-----
 util/TransferLogManager.cpp | 83 +++++++++++++++++++++++++------------
 util/TransferLogManager.h   |  8 ++++
 3 files changed, 73 insertions(+), 37 deletions(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index d95fc89..41df7b8 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -547,17 +547,16 @@ void Receiver::fixAndCloseTransferLog(bool transferSuccess) {
 
   transferLogManager_->closeLog();
 
-  if (!transferSuccess) {
-    return;
-  }
-
-  if (isInvalidLog) {
-    transferLogManager_->renameBuggyLog();
-  }
-
-  if (!options_.keep_transfer_log) {
-    transferLogManager_->unlink();
+  if (transferSuccess) {
+    if (isInvalidLog) {
+      // there is nothing to unlink at this path afterwards
+      transferLogManager_->renameBuggyLog();
+    } else if (!options_.keep_transfer_log) {
+      transferLogManager_->unlink();
+    }
   }
+  // not before, another receiver could already be using the log
+  transferLogManager_->releaseLock();
 }
 }  // namespace wdt
 }  // namespace facebook
diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 72634ed..d639be8 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -250,36 +250,57 @@ ErrorCode TransferLogManager::openLog() {
   WDT_CHECK(options_.enable_download_resumption);
 
   const string logPath = getFullPath(kWdtLogName);
-  fd_ = ::open(logPath.c_str(), O_RDWR);
-  if (fd_ < 0) {
-    if (errno != ENOENT) {
-      WPLOG(ERROR) << "Could not open wdt log " << logPath;
-      return TRANSFER_LOG_ACQUIRE_ERROR;
-    } else {
-      // creation of the log path (which can still be a race)
-      WLOG(INFO) << logPath << " doesn't exist... creating...";
-      fd_ = ::open(logPath.c_str(), O_CREAT | O_EXCL, 0644);
-      if (fd_ < 0) {
-        WPLOG(WARNING) << "Could not create wdt log (maybe ok if race): "
-                       << logPath;
-      } else {
-        // On windows/cygwin for instance the flock will silently succeed yet
-        // not lock on a newly created file... workaround is to close and reopen
-        ::close(fd_);
-      }
-      fd_ = ::open(logPath.c_str(), O_RDWR);
-      if (fd_ < 0) {
-        WPLOG(ERROR) << "Still couldn't open wdt log after create attempt: "
-                     << logPath;
+  while (true) {
+    fd_ = ::open(logPath.c_str(), O_RDWR);
+    if (fd_ < 0) {
+      if (errno != ENOENT) {
+        WPLOG(ERROR) << "Could not open wdt log " << logPath;
         return TRANSFER_LOG_ACQUIRE_ERROR;
+      } else {
+        // creation of the log path (which can still be a race)
+        WLOG(INFO) << logPath << " doesn't exist... creating...";
+        fd_ = ::open(logPath.c_str(), O_CREAT | O_EXCL, 0644);
+        if (fd_ < 0) {
+          WPLOG(WARNING) << "Could not create wdt log (maybe ok if race): "
+                         << logPath;
+        } else {
+          // On windows/cygwin for instance the flock will silently succeed yet
+          // not lock on a newly created file... workaround is to close and
+          // reopen
+          ::close(fd_);
+        }
+        fd_ = ::open(logPath.c_str(), O_RDWR);
+        if (fd_ < 0) {
+          WPLOG(ERROR) << "Still couldn't open wdt log after create attempt: "
+                       << logPath;
+          return TRANSFER_LOG_ACQUIRE_ERROR;
+        }
       }
     }
-  }
-  // try to acquire file lock
-  if (::flock(fd_, LOCK_EX | LOCK_NB) != 0) {
-    WPLOG(ERROR) << "Failed to acquire transfer log lock " << logPath << " "
-                 << fd_;
-    close();
+    // try to acquire file lock
+    if (::flock(fd_, LOCK_EX | LOCK_NB) != 0) {
+      WPLOG(ERROR) << "Failed to acquire transfer log lock " << logPath << " "
+                   << fd_;
+      ::close(fd_);
+      fd_ = -1;
+      return TRANSFER_LOG_ACQUIRE_ERROR;
+    }
+    // the previous owner may have removed the log before releasing the lock
+    struct stat pathStat, fdStat;
+    if (::stat(logPath.c_str(), &pathStat) == 0 &&
+        ::fstat(fd_, &fdStat) == 0 && pathStat.st_ino == fdStat.st_ino) {
+      break;
+    }
+    WLOG(WARNING) << logPath << " was removed while opening it, retrying";
+    ::close(fd_);
+    fd_ = -1;
+  }
+  // the lock outlives fd_, which is closed when the log can not be used anymore
+  lockFd_ = ::dup(fd_);
+  if (lockFd_ < 0) {
+    WPLOG(ERROR) << "Failed to duplicate transfer log fd " << fd_;
+    ::close(fd_);
+    fd_ = -1;
     return TRANSFER_LOG_ACQUIRE_ERROR;
   }
   WLOG(INFO) << "Transfer log opened and lock acquired on " << logPath;
@@ -361,7 +382,15 @@ void TransferLogManager::closeLog() {
   close();
 }
 
+void TransferLogManager::releaseLock() {
+  if (lockFd_ >= 0) {
+    ::close(lockFd_);
+    lockFd_ = -1;
+  }
+}
+
 TransferLogManager::~TransferLogManager() {
+  releaseLock();
   WDT_CHECK_LT(fd_, 0) << "Destructor called, but transfer log not closed";
 }
 
diff --git a/util/TransferLogManager.h b/util/TransferLogManager.h
index 4923414..13d774b 100644
--- a/util/TransferLogManager.h
+++ b/util/TransferLogManager.h
@@ -151,6 +151,12 @@ class TransferLogManager {
    */
   void closeLog();
 
+  /**
+   * Lets other receivers use the log. Called once this receiver is done with
+   * the log, including its removal. A closed log remains locked till then
+   */
+  void releaseLock();
+
   /**
    * Verifies sender ip
    *
@@ -292,6 +298,8 @@ class TransferLogManager {
 
   /// File handler for writing
   int fd_{-1};
+  /// keeps the lock of the log until releaseLock is called
+  int lockFd_{-1};
   /// root directory
   std::string rootDir_;
   /// recovery id
-- 
2.43.0


From 3984f732afee249a8ee15eb749f9fc96c4474a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 41/64] fix: offer each directory once when links are followed,
 also in cycles and next to a pruned name

---
 util/DirectorySourceQueue.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 6539ad6..60a57dd 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -268,6 +268,9 @@ bool DirectorySourceQueue::explore() {
   std::regex pruneDirRegex(pruneDirPattern_);
   std::deque<string> todoList;
   todoList.emplace_back("");
+  if (followSymlinks_) {
+    visited.insert(resolvePath(rootDir_));
+  }
   while (!todoList.empty()) {
     if (threadCtx_->getAbortChecker()->shouldAbort()) {
       WLOG(ERROR) << "Directory transfer thread aborted";
@@ -395,22 +398,30 @@ bool DirectorySourceQueue::explore() {
         }
       }
       if (isDir) {
+        newRelativePath.push_back('/');
+        if (!pruneDirPattern_.empty() &&
+            std::regex_match(newRelativePath, pruneDirRegex)) {
+          // not visited, it may be reached under another name
+          continue;
+        }
         if (followSymlinks_) {
-          if (visited.find(newFullPath) != visited.end()) {
+          // one of the parents may be a link
+          string resolvedDir = resolvePath(newFullPath);
+          if (resolvedDir.empty()) {
+            // already logged, opening it fails too
+            resolvedDir = newFullPath;
+          }
+          if (visited.find(resolvedDir) != visited.end()) {
             WLOG(ERROR) << "Attempted to visit directory twice: "
                         << newFullPath;
             hasError = true;
             continue;
           }
           // TODO: consider custom hashing ignoring common prefix
-          visited.insert(newFullPath);
-        }
-        newRelativePath.push_back('/');
-        if (pruneDirPattern_.empty() ||
-            !std::regex_match(newRelativePath, pruneDirRegex)) {
-          WVLOG(2) << "Adding " << newRelativePath;
-          todoList.push_back(std::move(newRelativePath));
+          visited.insert(resolvedDir);
         }
+        WVLOG(2) << "Adding " << newRelativePath;
+        todoList.push_back(std::move(newRelativePath));
       }
     }
     closedir(dirPtr);
-- 
2.43.0


From 599261a6002ece1f8f164c611852c0efd7d35936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 42/64] fix: a missing entry of an explicit file list no longer
 drops the entries after it

---
 util/DirectorySourceQueue.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 60a57dd..d925b57 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -603,6 +603,7 @@ void DirectorySourceQueue::addFailedSource(const string& relPath) {
 }
 
 bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
+  bool res = true;
   for (auto& info : fileInfo) {
     if (threadCtx_->getAbortChecker()->shouldAbort()) {
       WLOG(ERROR) << "Directory transfer thread aborted";
@@ -614,15 +615,16 @@ bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
       if (stat(fullPath.c_str(), &fileStat) != 0) {
         WPLOG(ERROR) << "stat failed on path " << fullPath;
 
+        // the other files are still sent
         addFailedSource(info.fileName);
-
-        return false;
+        res = false;
+        continue;
       }
       info.fileSize = fileStat.st_size;
     }
     createIntoQueue(fullPath, info);
   }
-  return true;
+  return res;
 }
 
 bool DirectorySourceQueue::finished() const {
-- 
2.43.0


From f3fe44835d854acdf8e516ee237b4bf2322ab3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 43/64] fix: every thread of a sender adapts the checksum
 footer to the negotiated version

---
 SenderThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 8977762..a69ac19 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -956,6 +956,7 @@ SenderState SenderThread::processVersionMismatch() {
         }
         if (negotiationStatus == V_MISMATCH_RESOLVED) {
           threadProtocolVersion_ = wdtParent_->getProtocolVersion();
+          setFooterType();
           threadStats_.setRemoteErrorCode(OK);
           return CONNECT;
         }
-- 
2.43.0


From 111fd7e7fee4124ff60df30bce491b1377def6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 44/64] fix: refuse an unsupported protocol version when a side
 is initialized instead of aborting or using version 0

---
 Receiver.cpp | 4 +++-
 Sender.cpp   | 4 +++-
 WdtBase.cpp  | 9 +++++++--
 WdtBase.h    | 3 ++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index 41df7b8..39953ca 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -118,6 +118,9 @@ const WdtTransferRequest& Receiver::init() {
                 << transferRequest_.getLogSafeString();
     return transferRequest_;
   }
+  if (negotiateProtocol() != OK) {
+    return transferRequest_;
+  }
   transferLogManager_ =
       std::make_unique<TransferLogManager>(options_, getDirectory());
   checkAndUpdateBufferSize();
@@ -125,7 +128,6 @@ const WdtTransferRequest& Receiver::init() {
   if (getTransferId().empty()) {
     setTransferId(WdtBase::generateTransferId());
   }
-  negotiateProtocol();
   auto numThreads = transferRequest_.ports.size();
   // This creates the destination directory (which is needed for transferLogMgr)
   fileCreator_.reset(new FileCreator(
diff --git a/Sender.cpp b/Sender.cpp
index 948247b..7623799 100644
--- a/Sender.cpp
+++ b/Sender.cpp
@@ -61,12 +61,14 @@ ErrorCode Sender::validateTransferRequest() {
 const WdtTransferRequest& Sender::init() {
   WVLOG(1) << "Sender Init() with encryption set = "
            << transferRequest_.encryptionData.isSet();
-  negotiateProtocol();
   if (validateTransferRequest() != OK) {
     WLOG(ERROR) << "Couldn't validate the transfer request "
                 << transferRequest_.getLogSafeString();
     return transferRequest_;
   }
+  if (negotiateProtocol() != OK) {
+    return transferRequest_;
+  }
   // TODO Figure out what to do with file info
   // transferRequest.fileInfo = dirQueue_->getFileInfo();
   transferRequest_.errorCode = OK;
diff --git a/WdtBase.cpp b/WdtBase.cpp
index 4147477..c8bf8c8 100644
--- a/WdtBase.cpp
+++ b/WdtBase.cpp
@@ -82,10 +82,14 @@ void WdtBase::setTransferId(const std::string& transferId) {
   WLOG(INFO) << "Setting transfer id " << transferId;
 }
 
-void WdtBase::negotiateProtocol() {
+ErrorCode WdtBase::negotiateProtocol() {
   int protocol = transferRequest_.protocolVersion;
-  WDT_CHECK(protocol > 0) << "Protocol version can't be <= 0 " << protocol;
   int negotiatedPv = Protocol::negotiateProtocol(protocol);
+  if (negotiatedPv <= 0) {
+    WLOG(ERROR) << "Protocol version " << protocol << " is not supported";
+    transferRequest_.errorCode = VERSION_INCOMPATIBLE;
+    return VERSION_INCOMPATIBLE;
+  }
   if (negotiatedPv != protocol) {
     WLOG(WARNING) << "Negotiated protocol version " << protocol << " -> "
                   << negotiatedPv;
@@ -93,6 +97,7 @@ void WdtBase::negotiateProtocol() {
   transferRequest_.protocolVersion = negotiatedPv;
   WLOG(INFO) << "using wdt protocol version "
              << transferRequest_.protocolVersion;
+  return OK;
 }
 
 int WdtBase::getProtocolVersion() const {
diff --git a/WdtBase.h b/WdtBase.h
index 7dea1b2..55ed87e 100644
--- a/WdtBase.h
+++ b/WdtBase.h
@@ -163,7 +163,8 @@ class WdtBase {
   void setTransferStatus(TransferStatus transferStatus);
 
   /// Sets the protocol version for the transfer
-  void negotiateProtocol();
+  /// @return   VERSION_INCOMPATIBLE if the requested one is not supported
+  ErrorCode negotiateProtocol();
 
   /// Dumps performance statistics if enable_perf_stat_collection is true.
   virtual void logPerfStats() const = 0;
-- 
2.43.0


From 76c466d4a0b17547e76004e470ec396743917537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 45/64] fix: keep the extremes right when counters are merged
 or reset

Merging into an empty counter compared with its zeroes (minimum 0, wrong
maximum for negative samples), the real minimum was neither merged nor reset.
---
 util/Stats.cpp | 17 +++++++++++++++--
 util/Stats.h   |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 5a4d504..b205aae 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -69,11 +69,24 @@ void Counter::record(int64_t v) {
 }
 
 void Counter::merge(const Counter& c) {
-  // merge count_, min_, max_, sum_, sumOfSquares_;
+  // merge count_, realMin_, min_, max_, sum_, sumOfSquares_;
+  if (c.count_ == 0) {
+    // nothing recorded there, its min and max mean nothing
+    return;
+  }
+  if (count_ == 0) {
+    realMin_ = c.realMin_;
+    min_ = c.min_;
+    max_ = c.max_;
+  }
   count_ += c.count_;
-  if (c.min_ && c.min_ < min_) {
+  // 0s don't count in the min (like in record())
+  if (c.min_ && (min_ == 0 || c.min_ < min_)) {
     min_ = c.min_;
   }
+  if (c.realMin_ < realMin_) {
+    realMin_ = c.realMin_;
+  }
   if (c.max_ > max_) {
     max_ = c.max_;
   }
diff --git a/util/Stats.h b/util/Stats.h
index 82b4347..95907c5 100644
--- a/util/Stats.h
+++ b/util/Stats.h
@@ -205,7 +205,7 @@ class Counter : crashifcopied {
    * resets all the data (not quite thread safe - see ThreadLocalHistogram)
    */
   inline void reset() {
-    count_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
+    count_ = realMin_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
   }
 
   /**
-- 
2.43.0


From 038e937092f7d0f0acbacc55fd9e00eb70cb6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 46/64] fix: percentiles of samples below zero lie within the
 samples

The interpolation started at 0, above the minimum, when samples are negative.
---
 util/Stats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index b205aae..b854c60 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -186,14 +186,14 @@ double Histogram::calcPercentile(double percentile) const {
   if (percentile <= 0) {
     return getRealMin();
   }
-  // Initial value of prev should in theory be offset_
-  // but if the data is wrong (smaller than offset - eg 'negative') that
-  // yields to strangeness (see one bucket test)
-  int64_t prev = 0;
   int64_t total = 0;
   const int64_t ctrTotal = getCount();
   const int64_t ctrMax = getMax();
   const int64_t ctrMin = getRealMin();
+  // Initial value of prev should in theory be offset_
+  // but if the data is wrong (smaller than offset - eg 'negative') that
+  // yields to strangeness (see one bucket test): nothing is below the min
+  int64_t prev = ctrMin;
   double prevPerc = 0;
   double perc = 0;
   bool found = false;
-- 
2.43.0


From 59b4b15f20d1eee9042d9be90ef2d95c614d0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 47/64] fix: periodic histograms keep their scale

The histogram handed to the callback was made with the default scale although
its buckets were filled with the scale of the recorders.
---
 util/Stats.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/Stats.h b/util/Stats.h
index 95907c5..5c1b27a 100644
--- a/util/Stats.h
+++ b/util/Stats.h
@@ -534,7 +534,7 @@ class ThreadLocalSwapableNode : public SwapableNode {
   void process() override {
     // If we have a callback function, give it the fully aggregated results.
     if (func_ != nullptr) {
-      C merged;
+      C merged(param_);
       mergeAndReset(!getActiveIndex(), merged);
       func_(merged);
     }
-- 
2.43.0


From 2a3943c414c99b31a0f75cc0379752e16bf79e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 48/64] fix: initialize the minimum of every kind of call in
 the performance report

Only the first element was, the others reported a minimum of 0.
---
 Reporting.cpp | 2 ++
 Reporting.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 78ebfb2..b4678cf 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -372,6 +372,8 @@ PerfStatReport::PerfStatReport(const WdtOptions& options) {
       "Mismatch between number of stat types and number of descriptions");
   networkTimeoutMillis_ =
       std::min<int>(options.read_timeout_millis, options.write_timeout_millis);
+  // any recorded time is smaller
+  std::fill_n(minValueMicros_, kNumTypes_, std::numeric_limits<int64_t>::max());
 }
 
 /**
diff --git a/Reporting.h b/Reporting.h
index 44cae92..1f565b0 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -589,7 +589,7 @@ class PerfStatReport {
   /// max time for different stat types
   int64_t maxValueMicros_[kNumTypes_] = {0};
   /// min time for different stat types
-  int64_t minValueMicros_[kNumTypes_] = {std::numeric_limits<int64_t>::max()};
+  int64_t minValueMicros_[kNumTypes_];
   /// number of records for different stat types
   int64_t count_[kNumTypes_] = {0};
   /// sum of all records for different stat types
-- 
2.43.0


From 463df8392f26796f889138f912f4f492904a309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 49/64] fix: print bytes above 127 of bigrams as their octal
 value

The sign extended value was printed and cut off, the same for many bytes.
---
 bench/Bigram.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bench/Bigram.cpp b/bench/Bigram.cpp
index 3925ebc..92a2175 100644
--- a/bench/Bigram.cpp
+++ b/bench/Bigram.cpp
@@ -23,9 +23,11 @@
  * \\ for \, \" for ", c if c is printable, \0octal otherwise
  */
 void toPrintableString(char c, std::string& result) {
-  if (!std::isprint(c)) {
+  // char may be signed, bytes are not
+  const unsigned char byte = c;
+  if (!std::isprint(byte)) {
     char buf[10];
-    snprintf(buf, sizeof(buf), "\\0%o", c);
+    snprintf(buf, sizeof(buf), "\\0%o", byte);
     result.append(buf);
     return;
   }
-- 
2.43.0


From 2b9ecd55014cd7253fef802d03cb1afae1ee1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 50/64] fix: count no pair in empty input with -wrap

---
 bench/wdtStats.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/wdtStats.cpp b/bench/wdtStats.cpp
index cbd83c6..bb94293 100644
--- a/bench/wdtStats.cpp
+++ b/bench/wdtStats.cpp
@@ -70,7 +70,8 @@ int main(int argc, char** argv) {
     ++map[b];
     prev = c;
   }
-  if (FLAGS_wrap) {
+  // empty input has no pair
+  if (FLAGS_wrap && first >= 0) {
     Bigram wrap(prev, first);
     ++map[wrap];
   }
-- 
2.43.0


From 602b5e0d9891282c3869801bb5a2756b58b1ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 51/64] fix: truncate an existing file when generating data

A longer file kept its old tail, the result was not of the requested size.
---
 bench/wdtGenFiles.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 32e3b5f..c9900cb 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -370,7 +370,8 @@ int main(int argc, char** argv) {
             << " data * " << numThreads << " thread), " << blockSz
             << " at a time";
   LOG(INFO) << "Writting to " << FLAGS_filename;
-  const int fd = open(FLAGS_filename.c_str(), O_CREAT | O_WRONLY, 0644);
+  const int fd =
+      open(FLAGS_filename.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
   if (fd < 0) {
     PLOG(FATAL) << "Unable to open " << FLAGS_filename;
   }
-- 
2.43.0


From 98fb18dc2617034cdf5d9d601c7343f1786fd2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 52/64] fix: generate no byte too many when the start text
 fills the block

The generator aborted if the last byte of the start text has no successor.
---
 bench/wdtGenFiles.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index c9900cb..f9dbaba 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -245,6 +245,9 @@ class SentenceGen {
       } else {
         result.push_back(lastCharOfFirst);
         --len;
+        if (len <= 0) {
+          return initial(gen);
+        }
       }
     }
     if (!initDone) {
-- 
2.43.0


From f0d3647d77d4a10d9cdffc1f4b00c55d129e9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 53/64] fix: derive the peak rate when a throttler is
 constructed, not only when it is changed

---
 Throttler.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Throttler.cpp b/Throttler.cpp
index dc4fcd2..41afe9b 100644
--- a/Throttler.cpp
+++ b/Throttler.cpp
@@ -40,16 +40,14 @@ void Throttler::configureOptions(double& avgRatePerSec, double& peakRatePerSec,
 Throttler::Throttler(const ThrottlerOptions& options)
     : avgRatePerSec_(options.avg_rate_per_sec) {
   bucketRatePerSec_ = options.max_rate_per_sec;
-  tokenBucketLimit_ = kTimeMultiplier * kBucketMultiplier * bucketRatePerSec_;
+  tokenBucketLimit_ = options.throttler_bucket_limit;
+  configureOptions(avgRatePerSec_, bucketRatePerSec_, tokenBucketLimit_);
   /* We keep the number of tokens generated as zero initially
    * It could be argued that we keep this filled when we created the
    * bucket. However the startTime is passed in this case and the hope is
    * that we will have enough number of tokens by the time we send the data
    */
   tokenBucket_ = 0;
-  if (options.throttler_bucket_limit > 0) {
-    tokenBucketLimit_ = options.throttler_bucket_limit;
-  }
   if (avgRatePerSec_ > 0) {
     WLOG(INFO) << "Average rate " << avgRatePerSec_;
   } else {
-- 
2.43.0


From 9082cb2a1d9b55776cb23d3b010f0e7340d85412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 54/64] fix: a start port implies static ports for every disk
 type

---
 WdtOptions.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/WdtOptions.cpp b/WdtOptions.cpp
index 24c05c7..9574a72 100644
--- a/WdtOptions.cpp
+++ b/WdtOptions.cpp
@@ -42,9 +42,7 @@ void WdtOptions::modifyOptions(
                             msg)
     CHANGE_IF_NOT_SPECIFIED(resume_using_dir_tree, userSpecifiedOptions, true,
                             msg)
-    return;
-  }
-  if (optionType != FLASH_OPTION_TYPE) {
+  } else if (optionType != FLASH_OPTION_TYPE) {
     WLOG(WARNING) << "Invalid option type " << optionType
                   << ". Valid types are " << FLASH_OPTION_TYPE << ", "
                   << DISK_OPTION_TYPE;
-- 
2.43.0


From 17884ad9626638141409a526ed588a2e05a7a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 55/64] fix: take only wdt's own flags as options the user
 specified

---
 util/WdtFlags.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/WdtFlags.cpp b/util/WdtFlags.cpp
index 50f73fb..1d33cdf 100644
--- a/util/WdtFlags.cpp
+++ b/util/WdtFlags.cpp
@@ -52,6 +52,12 @@ std::set<std::string> WdtFlags::getUserSpecifiedOptions() {
       // is still marked as false. If the flag is set directly like
       // FLAGS_num_ports=1, is_default won't change. But, if it is set using
       // SetCommandLineOption, this will change.
+#ifndef STANDALONE_APP
+      if (flag.name.compare(0, FLAGS_PREFIX.size(), FLAGS_PREFIX) != 0) {
+        // not a wdt flag, may still have the name of an option
+        continue;
+      }
+#endif
       userSpecifiedFlags.emplace(getOptionNameFromFlagName(flag.name));
     }
   }
-- 
2.43.0


From 48591979ce0acb5bbf5ff0a414e5b93c4e36ee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 56/64] fix: do not log encryption data that cannot be parsed

---
 util/EncryptionUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index 010b3e2..06287f6 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -131,7 +131,7 @@ ErrorCode EncryptionParams::unserialize(const string& input,
       // In type section (before ':')
       if (c == ':') {
         if (type == 0) {
-          WLOG(ERROR) << "Enc type still none when ':' reached " << input;
+          WLOG(ERROR) << "Enc type still none when ':' reached";
           return ERROR;
         }
         state = FIRST_HEX;
@@ -140,7 +140,7 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     }
     int v = WdtUri::fromHex(c);
     if (v < 0) {
-      WLOG(ERROR) << "Not hex found " << (int)c << " in " << input;
+      WLOG(ERROR) << "Not hex found " << (int)c << " in encryption data";
       return ERROR;
     }
     if (state == IN_TYPE) {
@@ -164,12 +164,12 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     byte = 0;  // not needed but safer
   }
   if (state == IN_TYPE) {
-    WLOG(ERROR) << "Missing ':' in encryption data " << input;
+    WLOG(ERROR) << "Missing ':' in encryption data";
     return ERROR;
   }
   if (state != LEFT_HEX) {
-    WLOG(ERROR) << "Odd number of hex in encryption data " << input
-                << " decoded up to: " << out.data_;
+    WLOG(ERROR) << "Odd number of hex in encryption data, decoded bytes: "
+                << out.data_.size();
     return ERROR;
   }
   if (type <= ENC_NONE || type >= NUM_ENC_TYPES) {
-- 
2.43.0


From 0c56eb44582ea76c75dee429d06fa2eea5f59304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:36 +0000
Subject: [PATCH 57/64] fix: do not log urls that cannot be parsed

---
 WdtTransferRequest.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 22c8fdc..98c4171 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -88,15 +88,15 @@ bool WdtUri::unescape(string& res, StringPiece escapedValue) {
     i += 2;
     // Make sure there room for both hex
     if (i >= escapedValue.size()) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
-                  << "\" end with unfinished % sequence";
+      WLOG(ERROR) << "Can't decode value of size " << escapedValue.size()
+                  << ", end with unfinished % sequence";
       return false;
     }
     const int msb = fromHex(escapedValue[i - 1]);
     const int lsb = fromHex(escapedValue[i]);
     if (msb < 0 || lsb < 0) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
-                  << "\" % sequence with non 0-9a-f characters";
+      WLOG(ERROR) << "Can't decode value of size " << escapedValue.size()
+                  << ", % sequence with non 0-9a-f characters";
       return false;
     }
     res.push_back(msb << 4 | lsb);
@@ -127,6 +127,8 @@ string WdtUri::generateUrl() const {
   return url;
 }
 
+// Messages do not contain the url: it can have the encryption secret anywhere
+// when it is malformed
 ErrorCode WdtUri::process(const string& url) {
   if (url.size() < WDT_URL_PREFIX.size()) {
     WLOG(ERROR) << "Url doesn't specify wdt protocol";
@@ -135,12 +137,12 @@ ErrorCode WdtUri::process(const string& url) {
   StringPiece urlPiece(url, 0, WDT_URL_PREFIX.size());
   StringPiece wdtPrefix(WDT_URL_PREFIX);
   if (urlPiece != wdtPrefix) {
-    WLOG(ERROR) << "Url does not specify wdt protocol " << url;
+    WLOG(ERROR) << "Url does not specify wdt protocol";
     return URI_PARSE_ERROR;
   }
   urlPiece = StringPiece(url, WDT_URL_PREFIX.size());
   if (urlPiece.empty()) {
-    WLOG(ERROR) << "Empty host name " << url;
+    WLOG(ERROR) << "Empty host name";
     return URI_PARSE_ERROR;
   }
   ErrorCode status = OK;
@@ -149,7 +151,7 @@ ErrorCode WdtUri::process(const string& url) {
     urlPiece.advance(1);
     size_t hostNameEnd = urlPiece.find(']');
     if (hostNameEnd == string::npos) {
-      WLOG(ERROR) << "Didn't find ] for ipv6 address " << url;
+      WLOG(ERROR) << "Didn't find ] for ipv6 address";
       return URI_PARSE_ERROR;
     }
     hostName_.assign(urlPiece.data(), 0, hostNameEnd);
@@ -170,7 +172,7 @@ ErrorCode WdtUri::process(const string& url) {
 
   if (hostName_.empty()) {
     status = URI_PARSE_ERROR;
-    WLOG(ERROR) << "Empty hostname " << url;
+    WLOG(ERROR) << "Empty hostname";
   }
 
   if (urlPiece.empty()) {
@@ -189,7 +191,7 @@ ErrorCode WdtUri::process(const string& url) {
       portStr.assign(urlPiece.data(), 0, paramsIndex);
       port_ = folly::to<int32_t>(portStr);
     } catch (std::exception&) {
-      WLOG(ERROR) << "Invalid port, can't be parsed " << url;
+      WLOG(ERROR) << "Invalid port, can't be parsed, host = " << hostName_;
       status = URI_PARSE_ERROR;
     }
     urlPiece.advance(paramsIndex);
@@ -211,7 +213,7 @@ ErrorCode WdtUri::process(const string& url) {
     StringPiece value = keyValuePair;
     if (key.empty()) {
       // Value can be empty but key can't be empty
-      WLOG(ERROR) << "Errors parsing params, url = " << url;
+      WLOG(ERROR) << "Errors parsing params, host = " << hostName_;
       status = URI_PARSE_ERROR;
       break;
     }
@@ -305,8 +307,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
   if (!encStr.empty()) {
     ErrorCode code = EncryptionParams::unserialize(encStr, encryptionData);
     if (code != OK) {
-      WLOG(ERROR) << "Unable to parse encryption data from \"" << encStr
-                  << "\" " << errorCodeToStr(code);
+      WLOG(ERROR) << "Unable to parse encryption data of size " << encStr.size()
+                  << " " << errorCodeToStr(code);
       errorCode = getMoreInterestingError(code, errorCode);
     }
   }
-- 
2.43.0


From ce4df6d062cb0ad20fbd1a191ab8bbc18ffbba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 58/64] fix: do not log the url, which can contain the
 encryption secret

---
 wdtCmdLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 600665e..2b9ab68 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -281,8 +281,8 @@ int main(int argc, char* argv[]) {
   } else {
     reqPtr = std::make_unique<facebook::wdt::WdtTransferRequest>(connectUrl);
     if (reqPtr->errorCode != facebook::wdt::OK) {
-      WLOG(ERROR) << "Invalid url \"" << connectUrl
-                  << "\" : " << errorCodeToStr(reqPtr->errorCode);
+      // not logging the url: it can contain the encryption secret
+      WLOG(ERROR) << "Invalid url : " << errorCodeToStr(reqPtr->errorCode);
       return facebook::wdt::ERROR;
     }
     reqPtr->directory = FLAGS_directory;
-- 
2.43.0


From f5d9f0dde1ce7a8c59603d6c092158a5739c30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 59/64] fix: generate the url of a receiver that could bind
 only some ports

---
 wdtCmdLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 2b9ab68..13387ab 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -321,6 +321,8 @@ int main(int argc, char* argv[]) {
         return facebook::wdt::FEWER_PORTS;
       }
       retCode = facebook::wdt::OK;
+      // no url is generated for a request with an error
+      augmentedReq.errorCode = facebook::wdt::OK;
     } else if (augmentedReq.errorCode != facebook::wdt::OK) {
       WLOG(ERROR) << "Error setting up receiver " << errorCodeToStr(retCode);
       return retCode;
-- 
2.43.0


From bd39ad6e93a819b82b76d704ca0b6656f4dcc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 60/64] fix: refuse a manifest that cannot be opened

---
 wdtCmdLine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 13387ab..e7d6e57 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -367,6 +367,10 @@ int main(int argc, char* argv[]) {
         readManifest(std::cin, req, options.odirect_reads);
       } else {
         std::ifstream fin(FLAGS_manifest);
+        if (!fin.is_open()) {
+          WLOG(ERROR) << "Unable to open manifest " << FLAGS_manifest;
+          return facebook::wdt::ERROR;
+        }
         readManifest(fin, req, options.odirect_reads);
         fin.close();
       }
-- 
2.43.0


From 61e713a63ce050ce5c65245347f5c264cd3f8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 61/64] fix: mark the sockets of a transfer with the dscp
 option

---
 util/WdtSocket.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index f340e33..acb4899 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -782,14 +782,22 @@ void WdtSocket::setSocketTimeouts() {
 
 void WdtSocket::setDscp(int dscp) {
   if (dscp > 0) {
-    if (threadCtx_.getOptions().ipv6) {
+    // which of the two applies depends on the socket, the ipv4/ipv6 options
+    // only say what is preferred and both can be unset
+    struct sockaddr_storage addr;
+    socklen_t addrLen = sizeof(addr);
+    if (getsockname(fd_, (struct sockaddr*)&addr, &addrLen) != 0) {
+      WPLOG(ERROR) << "Unable to get the family of " << port_ << " " << fd_;
+      return;
+    }
+    if (addr.ss_family == AF_INET6) {
       int classval = dscp << 2;
       if (setsockopt(fd_, IPPROTO_IPV6, IPV6_TCLASS, (char*)&classval,
                      sizeof(classval)) != 0) {
         WPLOG(ERROR) << "Unable to set DSCP flag for " << port_ << " " << fd_;
       }
     }
-    if (threadCtx_.getOptions().ipv4) {
+    if (addr.ss_family == AF_INET) {
       int ip_tos = dscp << 2;
       if (setsockopt(fd_, IPPROTO_IP, IP_TOS, (char*)&ip_tos, sizeof(ip_tos)) !=
           0) {
-- 
2.43.0


From 6a3d9fb76958ce9c241527f66e0c6bb2bb1955d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 62/64] fix: honour fractional block_size_mbytes

---
 util/DirectorySourceQueue.cpp | 2 +-
 util/DirectorySourceQueue.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index d925b57..fcf2162 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -75,7 +75,7 @@ void DirectorySourceQueue::setPruneDirPattern(const string& pruneDirPattern) {
   pruneDirPattern_ = pruneDirPattern;
 }
 
-void DirectorySourceQueue::setBlockSizeMbytes(int64_t blockSizeMbytes) {
+void DirectorySourceQueue::setBlockSizeMbytes(double blockSizeMbytes) {
   blockSizeMbytes_ = blockSizeMbytes;
 }
 
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index db2ef45..7f66ae2 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -160,7 +160,7 @@ class DirectorySourceQueue : public SourceQueue {
   void setFileInfoGenerator(WdtTransferRequest::FileInfoGenerator gen);
 
   /// @param blockSizeMbytes    block size in Mbytes
-  void setBlockSizeMbytes(int64_t blockSizeMbytes);
+  void setBlockSizeMbytes(double blockSizeMbytes);
 
   /// Get the file info in this directory queue
   std::vector<WdtFileInfo> getFileInfo() const;
@@ -319,7 +319,7 @@ class DirectorySourceQueue : public SourceQueue {
   std::string excludePattern_;
 
   /// Block size in mb
-  int64_t blockSizeMbytes_{0};
+  double blockSizeMbytes_{0};
 
   /// List of files to enqueue instead of recursing over rootDir_.
   std::vector<WdtFileInfo> fileInfo_;
-- 
2.43.0


From 3d7d328eb104073250b67d15d62a14db5d390c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 63/64] fix: accept a checkpoint for a block of which the
 previous one had no bytes

---
 util/ThreadTransferHistory.cpp | 35 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 632a54e..d9cccda 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -170,26 +170,23 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
   if (checkpoint.numBlocks > lastCheckpoint_->numBlocks) {
     return OK;
   }
-  bool noProgress = false;
-  // numBlocks same
-  if (checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
-      checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset) {
-    // same block
-    if (checkpoint.lastBlockReceivedBytes !=
-        lastCheckpoint_->lastBlockReceivedBytes) {
-      WLOG(ERROR) << "Current checkpoint has different received bytes, but all "
-                     "other fields are same, Last checkpoint "
-                  << *lastCheckpoint_ << ", Current checkpoint: " << checkpoint;
-      return INVALID_CHECKPOINT;
-    }
-    noProgress = true;
-  } else {
-    // different block
-    WDT_CHECK(checkpoint.lastBlockReceivedBytes >= 0);
-    if (checkpoint.lastBlockReceivedBytes == 0) {
-      noProgress = true;
-    }
+  // numBlocks same, a block that was broken off before its first byte is sent
+  // again with the same seq-id and offset
+  const bool sameBlock =
+      checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
+      checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset;
+  const bool sameBytes = checkpoint.lastBlockReceivedBytes ==
+                         lastCheckpoint_->lastBlockReceivedBytes;
+  if (sameBlock && !sameBytes &&
+      lastCheckpoint_->lastBlockReceivedBytes > 0) {
+    WLOG(ERROR) << "Current checkpoint has different received bytes, but all "
+                   "other fields are same, Last checkpoint "
+                << *lastCheckpoint_ << ", Current checkpoint: " << checkpoint;
+    return INVALID_CHECKPOINT;
   }
+  WDT_CHECK(checkpoint.lastBlockReceivedBytes >= 0);
+  const bool noProgress =
+      (sameBlock && sameBytes) || checkpoint.lastBlockReceivedBytes == 0;
   if (noProgress && !globalCheckpoint) {
     // we can get same global checkpoint multiple times, so no need to check for
     // progress
-- 
2.43.0


From c579c9eba6c203ff80ab7a4d67d966be5230d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 64/64] fix: apply a repeated checkpoint without seq-id only
 once

---
 util/ThreadTransferHistory.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index d9cccda..6cd5b31 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -86,7 +86,13 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
     WLOG(ERROR) << "checkpoint has negative values " << checkpoint;
     return INVALID_CHECKPOINT;
   }
-  if (numReceivedSources < historySize &&
+  // without seq-id, a checkpoint that repeats the previous one can be about the
+  // block before the one in the history
+  const bool isRepeated =
+      lastCheckpoint_ != nullptr && !checkpoint.hasSeqId &&
+      numReceivedSources == lastCheckpoint_->numBlocks &&
+      lastBlockReceivedBytes == lastCheckpoint_->lastBlockReceivedBytes;
+  if (numReceivedSources < historySize && !isRepeated &&
       isCheckpointFor(checkpoint, *history_[numReceivedSources]) &&
       lastBlockReceivedBytes > history_[numReceivedSources]->getSize()) {
     WLOG(ERROR) << "checkpoint has more bytes than the block "
@@ -117,7 +123,7 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
     std::unique_ptr<ByteSource> source = std::move(history_.back());
     history_.pop_back();
     const Checkpoint* checkpointPtr =
-        (i == numFailedSources - 1 ? &checkpoint : nullptr);
+        (i == numFailedSources - 1 && !isRepeated ? &checkpoint : nullptr);
     markSourceAsFailed(source, checkpointPtr);
     sourcesToReturn.emplace_back(std::move(source));
   }
@@ -177,8 +183,9 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
       checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset;
   const bool sameBytes = checkpoint.lastBlockReceivedBytes ==
                          lastCheckpoint_->lastBlockReceivedBytes;
-  if (sameBlock && !sameBytes &&
+  if (sameBlock && !sameBytes && checkpoint.hasSeqId &&
       lastCheckpoint_->lastBlockReceivedBytes > 0) {
+    // the rest of the last block is sent as a block with another offset
     WLOG(ERROR) << "Current checkpoint has different received bytes, but all "
                    "other fields are same, Last checkpoint "
                 << *lastCheckpoint_ << ", Current checkpoint: " << checkpoint;
-- 
2.43.0

