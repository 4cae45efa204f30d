From af6191df1a005b10d9e0a3bfeb34301524cb2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 01/17] fix: use the same name for the Student-t distribution
 in dataManagerSpec() and setFromSpec()

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..e409e25 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -130,7 +130,7 @@ casacore::Record DyscoStMan::dataManagerSpec() const {
       distStr = "Uniform";
       break;
     case StudentsTDistribution:
-      distStr = "StudentsT";
+      distStr = "StudentT";
       break;
     case TruncatedGaussianDistribution:
       distStr = "TruncatedGaussian";
-- 
2.43.0


From fbcc98c25eb3c6b2153096780a1b128d0f273f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/17] fix: update the size in the copy assignment of UVector
 when no reallocation is needed

---
 uvector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uvector.h b/uvector.h
index f9dadd1..442550a 100644
--- a/uvector.h
+++ b/uvector.h
@@ -934,9 +934,9 @@ class UVector : private Alloc {
       iterator newStorage = allocate(n);
       deallocate();
       _begin = newStorage;
-      _end = _begin + n;
-      _endOfStorage = _end;
+      _endOfStorage = _begin + n;
     }
+    _end = _begin + n;
     std::copy(other._begin, other._begin + n, _begin);
     return *this;
   }
-- 
2.43.0


From 492f64ccabbe3715c3544d0529582d4b58ac9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/17] fix: do not change the position of stored blocks when a
 column is removed

---
 dyscostman.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index e409e25..361bc8f 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -193,9 +193,13 @@ void DyscoStMan::writeHeader() {
   header.distributionTruncation = _distributionTruncation;
 
   header.columnHeaderOffset = header.calculateColumnHeaderOffset();
-  _headerSize = header.columnHeaderOffset;
-  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
-    _headerSize += sizeof(GenericColumnHeader) + col->ExtraHeaderSize();
+  // The blocks start after the header. Once blocks have been written, their
+  // position is fixed, also when columns have been removed from the header.
+  if (_nBlocksInFile == 0) {
+    _headerSize = header.columnHeaderOffset;
+    for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+      _headerSize += sizeof(GenericColumnHeader) + col->ExtraHeaderSize();
+  }
   header.headerSize = _headerSize;
 
   header.Serialize(*_fStream);
-- 
2.43.0


From 52e7d81775a8d7632767e7781e5091b9bc9be13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/17] fix: do not drop the last block on opening when not all
 its columns were written

---
 dyscostman.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 361bc8f..174ad5d 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -302,8 +302,10 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
-  if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+  // The last block is incomplete when not all columns have been written
+  if (size > _headerSize && _blockSize != 0)
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
-- 
2.43.0


From f0d334d70e4b0bd73cf528b2d2c51f7a8db666e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 05/17] fix: return zeros for the part of the last block that
 was not written

---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 174ad5d..5f3e99e 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -431,6 +433,8 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
     if (blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
+    const size_t nRead = _fStream->gcount();
+    std::fill(dest + nRead, dest + size, 0);
     _fStream->clear();  // reset fail bit
   }
 }
-- 
2.43.0


From 5184892991d93c1a6307628f29fcba2e161c3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 06/17] fix: refuse adding a column when values were put
 before, and do not wait for column threads with the manager locked

---
 dyscostman.cc         | 8 +++++---
 dyscostmancol.h       | 3 +++
 threadeddyscocolumn.h | 4 ++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 5f3e99e..b414806 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -357,8 +357,6 @@ void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
 void DyscoStMan::deleteManager() { unlink(fileName().c_str()); }
 
 void DyscoStMan::prepare() {
-  std::lock_guard<std::mutex> lock(_mutex);
-
   if (_dataBitCount == 0 || _weightBitCount == 0)
     throw DyscoStManError(
         "One of the required parameters of the DyscoStMan was not "
@@ -396,7 +394,11 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
 }
 
 void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0)
+  // Values that are not yet in the file also fix the layout of the blocks
+  bool hasValues = areOffsetsInitialized() || nBlocksInFile() != 0;
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+    hasValues = hasValues || col->HasUnstoredValues();
+  if (hasValues)
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 9f76181..3a6612c 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -62,6 +62,9 @@ class DyscoStManColumn : public casacore::StManColumn {
 
   virtual void UnserializeExtraHeader(std::istream &stream) = 0;
 
+  /** Whether values were put in this column that are not yet stored. */
+  virtual bool HasUnstoredValues() const { return false; }
+
   size_t OffsetInBlock() const { return _offsetInBlock; }
 
   void SetOffsetInBlock(size_t offsetInBlock) {
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..afcf9c9 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -116,6 +116,10 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   virtual size_t CalculateBlockSize(size_t nRowsInBlock,
                                     size_t nAntennae) const final override;
 
+  virtual bool HasUnstoredValues() const override {
+    return _isCurrentBlockChanged;
+  }
+
   virtual size_t ExtraHeaderSize() const override { return Header::Size(); }
 
   virtual void SerializeExtraHeader(std::ostream &stream) const final override;
-- 
2.43.0


From 8bdbb58e9e3610d8cae90938f56c63415c81748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 07/17] fix: lock the file while writing the header

---
 dyscostman.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index b414806..19893e9 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -178,6 +178,8 @@ void DyscoStMan::create(casacore::uInt nRow) {
 }
 
 void DyscoStMan::writeHeader() {
+  // Threads of the columns might be writing blocks
+  std::lock_guard<std::mutex> lock(_mutex);
   _fStream->seekp(0, std::ios_base::beg);
   Header header;
   header.columnCount = _columns.size();
-- 
2.43.0


From b3c792187a9e7fec22f8b3818403d48fea42c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 08/17] fix: refuse unsupported bit counts when the column is
 prepared instead of in the encoding threads

---
 bytepacker.h           | 6 ++++++
 threadeddyscocolumn.cc | 9 +++++++++
 threadeddyscocolumn.h  | 4 +---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bytepacker.h b/bytepacker.h
index 4f0189a..428f982 100644
--- a/bytepacker.h
+++ b/bytepacker.h
@@ -145,6 +145,12 @@ class BytePacker {
   static void unpack16(unsigned *symbolBuffer, unsigned char *packedBuffer,
                        size_t symbolCount);
 
+  /** Whether pack() and unpack() support the given bit count. */
+  static bool isSupported(unsigned bitCount) {
+    return bitCount == 2 || bitCount == 3 || bitCount == 4 || bitCount == 6 ||
+           bitCount == 8 || bitCount == 10 || bitCount == 12 || bitCount == 16;
+  }
+
   static size_t bufferSize(size_t nSymbols, size_t nBits) {
     return (nSymbols * nBits + 7) / 8;
   }
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..6fd01dd 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -31,6 +31,15 @@ ThreadedDyscoColumn<DataType>::ThreadedDyscoColumn(DyscoStMan *parent,
       _antennaCount(0),
       _timeBlockBuffer() {}
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::SetBitsPerSymbol(unsigned bitsPerSymbol) {
+  // Packing is performed in the encoding threads, where it is too late to report
+  // a bit count that is not supported.
+  if (!BytePacker::isSupported(bitsPerSymbol))
+    throw DyscoStManError("Unsupported number of bits per symbol");
+  _bitsPerSymbol = bitsPerSymbol;
+}
+
 // prepare the class for destruction when the derived class is destructed.
 // this is necessary because the virtual function of the derived class might get
 // called to empty the cache.
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index afcf9c9..999824f 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -109,9 +109,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
    * Set the bits per symbol. Should only be called by DyscoStMan.
    * @param bitsPerSymbol New number of bits per symbol.
    */
-  void SetBitsPerSymbol(unsigned bitsPerSymbol) {
-    _bitsPerSymbol = bitsPerSymbol;
-  }
+  void SetBitsPerSymbol(unsigned bitsPerSymbol);
 
   virtual size_t CalculateBlockSize(size_t nRowsInBlock,
                                     size_t nAntennae) const final override;
-- 
2.43.0


From 78b2873d5800722b4701aaac53991e24cc157db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 09/17] fix: store weights that can not be represented as zero

---
 weightblockencoder.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weightblockencoder.h b/weightblockencoder.h
index ba55660..589974b 100644
--- a/weightblockencoder.h
+++ b/weightblockencoder.h
@@ -46,7 +46,7 @@ class WeightBlockEncoder {
         float weight = *visPtr;
         for (size_t p = 1; p != _nPolarizations; ++p)
           if (visPtr[p] < weight) weight = visPtr[p];
-        if (weight > maxValue) maxValue = weight;
+        if (std::isfinite(weight) && weight > maxValue) maxValue = weight;
       }
     }
     if (maxValue == 0.0) maxValue = 1.0;
@@ -60,6 +60,9 @@ class WeightBlockEncoder {
         float weight = *visPtr;
         for (size_t p = 1; p != _nPolarizations; ++p)
           if (visPtr[p] < weight) weight = visPtr[p];
+        // Negative and non-finite weights can't be represented; these are
+        // stored as zero.
+        if (!std::isfinite(weight) || weight < 0.0) weight = 0.0;
 
         *symbolBuffer = roundf(double(weight) * scaleValue);
         ++symbolBuffer;
-- 
2.43.0


From 10c705504e3a267066463692f102cff18a91327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 10/17] fix: wait for the write of a block before loading it,
 and do not keep rows of another block

---
 threadeddyscocolumn.cc | 12 ++++++++++++
 threadeddyscocolumn.h  |  1 +
 2 files changed, 13 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 6fd01dd..37adb1f 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -84,8 +84,20 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
   _shape = shape;
 }
 
+// Wait until the given block is not in the write cache
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitUntilStored(size_t blockIndex) {
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  waitUntilStored(blockIndex);
+  // The buffer doesn't hold a block until it is fully loaded
+  _currentBlock = std::numeric_limits<size_t>::max();
+  _timeBlockBuffer->ResetData();
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 999824f..bfda683 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -201,6 +201,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  void waitUntilStored(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
-- 
2.43.0


From 27dd2eef57159bc6e90b85550653eb09c3b0d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 11/17] fix: return values that were put but are not yet stored

---
 threadeddyscocolumn.cc | 49 ++++++++++++++++--------------------------
 timeblockbuffer.h      |  7 ++++++
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 37adb1f..a2b9b08 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -127,40 +127,29 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
-  if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
-  } else {
+  // Before the first block is stored, the buffer holds the rows that were
+  // written so far.
+  size_t blockRow = rowNr;
+  if (areOffsetsInitialized()) {
     size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
-      // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
-    } else {
-      // Make sure array storage is contiguous.
-      casacore::Bool deleteIt;
-      DataType* dataPtr = dataArr->getStorage (deleteIt);
-      std::unique_lock<std::mutex> lock(_mutex);
-      // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
-        _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
-      lock.unlock();
-
-      if (_currentBlock != blockIndex) {
-        if (_isCurrentBlockChanged) storeBlock();
-        loadBlock(blockIndex);
+    blockRow = getRowWithinBlock(rowNr);
+    if (_currentBlock != blockIndex) {
+      waitUntilStored(blockIndex);
+      if (blockIndex >= nBlocksInFile()) {
+        // Trying to read a row that was not stored yet -- return zero
+        *dataArr = DataType();
+        return;
       }
-
-      // The time block encoder is now initialized and contains the unpacked
-      // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
-      dataArr->putStorage (dataPtr, deleteIt);
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
     }
   }
+  // Make sure array storage is contiguous.
+  casacore::Bool deleteIt;
+  DataType* dataPtr = dataArr->getStorage (deleteIt);
+  // The time block buffer now contains the unpacked block.
+  _timeBlockBuffer->GetData(blockRow, dataPtr);
+  dataArr->putStorage (dataPtr, deleteIt);
 }
 
 template <typename DataType>
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..607bb70 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -3,7 +3,9 @@
 
 #include "uvector.h"
 
+#include <algorithm>
 #include <complex>
+#include <cstring>
 #include <vector>
 
 template <typename data_t>
@@ -39,6 +41,11 @@ class TimeBlockBuffer {
   }
 
   void GetData(size_t blockRow, data_t *destination) const {
+    // Rows that have not been set are zero
+    if (blockRow >= _data.size() || _data[blockRow].visibilities.empty()) {
+      std::fill_n(destination, _nPol * _nChannels, data_t());
+      return;
+    }
     const data_t *srcPtr = _data[blockRow].visibilities.data();
     memcpy(destination, srcPtr,
            sizeof(data_t) * _data[blockRow].visibilities.size());
-- 
2.43.0


From 5f86f59673a46de2644d179a7ec330adfecdc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 12/17] fix: store rows that were not written as zeros instead
 of encoding uninitialized rows

---
 threadeddyscocolumn.cc |  1 +
 timeblockbuffer.h      | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index a2b9b08..54b117e 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -156,6 +156,7 @@ template <typename DataType>
 void ThreadedDyscoColumn<DataType>::storeBlock() {
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
+  _timeBlockBuffer->FillMissingRows(nRowsInBlock());
   std::unique_lock<std::mutex> lock(_mutex);
   CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
   // Wait until there is space available AND the row to be written is not in the
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index 607bb70..0c6f0c1 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -51,6 +51,18 @@ class TimeBlockBuffer {
            sizeof(data_t) * _data[blockRow].visibilities.size());
   }
 
+  /** Set all rows up to @p nRows that have not been set to zero. */
+  void FillMissingRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) {
+      if (row.visibilities.empty()) {
+        row.antenna1 = 0;
+        row.antenna2 = 0;
+        row.visibilities.assign(_nPol * _nChannels, data_t());
+      }
+    }
+  }
+
   size_t NRows() const { return _data.size(); }
 
   size_t MaxAntennaIndex() const {
-- 
2.43.0


From a24582e44e1fb0b9a5c89a20448de706aa0d7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 13/17] fix: refuse antenna indices beyond the antenna count of
 the block layout

---
 dyscodatacolumn.h      |  4 ++++
 threadeddyscocolumn.cc | 20 +++++++++++++++++---
 threadeddyscocolumn.h  |  4 ++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/dyscodatacolumn.h b/dyscodatacolumn.h
index 7c310a7..06aa731 100644
--- a/dyscodatacolumn.h
+++ b/dyscodatacolumn.h
@@ -68,6 +68,10 @@ class DyscoDataColumn final : public ThreadedDyscoColumn<std::complex<float>> {
   virtual size_t symbolCount(size_t nRowsInBlock, size_t nPolarizations,
                              size_t nChannels) const override;
 
+  virtual bool usesAntennaIndices() const override {
+    return _normalization == Normalization::kAF;
+  }
+
   virtual size_t defaultThreadCount() const override;
 
  private:
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 54b117e..933acac 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -92,6 +92,18 @@ void ThreadedDyscoColumn<DataType>::waitUntilStored(size_t blockIndex) {
     _cacheChangedCondition.wait(lock);
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::checkAntennas(int ant1, int ant2) const {
+  // The antenna count is determined from the first block
+  const int64_t limit = areOffsetsInitialized()
+                            ? int64_t(_antennaCount)
+                            : std::numeric_limits<int>::max();
+  if (usesAntennaIndices() &&
+      (ant1 < 0 || ant1 >= limit || ant2 < 0 || ant2 >= limit))
+    throw DyscoStManError(
+        "The antenna indices of a row exceed those of the first time block");
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   waitUntilStored(blockIndex);
@@ -116,6 +128,7 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
+      checkAntennas(a1, a2);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
@@ -180,9 +193,6 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::putValues(
     casacore::uInt rowNr, const casacore::Array<DataType> *dataArr) {
-  // Make sure array storage is contiguous.
-  casacore::Bool deleteIt;
-  const DataType* dataPtr = dataArr->getStorage (deleteIt);
   if (!areOffsetsInitialized()) {
     // If the manager did not initialize its offsets yet, then it is determined
     // from the first "time block" (a block with the same time, field and spw)
@@ -210,6 +220,10 @@ void ThreadedDyscoColumn<DataType>::putValues(
   }
 
   const int ant1 = (*_ant1Col)(rowNr), ant2 = (*_ant2Col)(rowNr);
+  checkAntennas(ant1, ant2);
+  // Make sure array storage is contiguous.
+  casacore::Bool deleteIt;
+  const DataType* dataPtr = dataArr->getStorage (deleteIt);
   if (areOffsetsInitialized()) {
     const size_t blockIndex = getBlockIndex(rowNr),
                  blockRow = getRowWithinBlock(rowNr);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index bfda683..b45802f 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -152,6 +152,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   virtual size_t symbolCount(size_t nRowsInBlock, size_t nPolarizations,
                              size_t nChannels) const = 0;
 
+  /** Whether the antenna indices are used when encoding or decoding. */
+  virtual bool usesAntennaIndices() const { return false; }
+
   virtual void shutdown() override final;
 
   virtual size_t defaultThreadCount() const;
@@ -202,6 +205,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
   void waitUntilStored(size_t blockIndex);
+  void checkAntennas(int ant1, int ant2) const;
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
-- 
2.43.0


From 19cb0add6ff41d390a6e3ba19cc9ab1af3950d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 14/17] fix: do not access rows beyond the end of the table
 when reading an incomplete block

---
 threadeddyscocolumn.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 933acac..ace0980 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -125,7 +125,10 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
     _timeBlockBuffer->resize(nRows);
-    for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
+    // The table might end before the end of the block
+    const uint64_t nTableRows = storageManager().getNRow();
+    for (size_t blockRow = 0;
+         blockRow != nRows && startRow + blockRow < nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
       checkAntennas(a1, a2);
-- 
2.43.0


From c6be61d847dd2a7104cfc68172c62e63abdeeb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 15/17] fix: only recreate the columns in dscompress that are
 replaced

---
 dscompress.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..6b7cfdc 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -332,7 +332,7 @@ int main(int argc, char *argv[]) {
   StManModifier modifier(*ms);
 
   casacore::IPosition shape;
-  bool isDataReplaced = false;
+  std::vector<std::string> replacedColumns;
   for (std::string columnName : columnNames) {
     bool replaced;
     if (columnName == "WEIGHT_SPECTRUM")
@@ -341,11 +341,11 @@ int main(int argc, char *argv[]) {
     else
       replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    isDataReplaced = replaced || isDataReplaced;
+    if (replaced) replacedColumns.push_back(columnName);
   }
 
-  if (isDataReplaced) {
-    for (std::string columnName : columnNames) {
+  if (!replacedColumns.empty()) {
+    for (std::string columnName : replacedColumns) {
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
             *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
@@ -355,7 +355,7 @@ int main(int argc, char *argv[]) {
             *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
             distribution, 1.0, distributionTruncation, staticSeed);
     }
-    for (std::string columnName : columnNames) {
+    for (std::string columnName : replacedColumns) {
       if (columnName == "WEIGHT_SPECTRUM")
         modifier.MoveColumnData<float>(columnName);
       else
-- 
2.43.0


From 6f8eb118b102949180399c9c326dcdcdcada6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:59 +0000
Subject: [PATCH 16/17] fix: refuse blocks with more baselines in dscompress
 before reading past the list of baselines

---
 dscompress.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 6b7cfdc..8f49598 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -294,6 +294,15 @@ int main(int argc, char *argv[]) {
       }
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
+      } else if (blockOffset == antennasInBlock.size()) {
+        std::ostringstream msg;
+        msg << "This measurement set is not 'regular'; at table row " << row
+            << ", timeblock index " << blockNumber
+            << " the timeblock has more baselines than previous timeblocks ("
+            << antennasInBlock.size()
+            << "). In other words, not all timesteps had the same baselines. "
+               "This is required to be able to compress with Dysco.";
+        throw std::runtime_error(msg.str());
       } else {
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
-- 
2.43.0


From 04288094f2ad3d34ea20f05ea7000d0a80f804d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:54 +0000
Subject: [PATCH 17/17] fix: UVector: a value that is added may be an element
 of the vector itself

push_back(), insert(), resize(n, val) and emplace() released the storage that
their argument refers to before reading it.
---
 uvector.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/uvector.h b/uvector.h
index 442550a..27a019f 100644
--- a/uvector.h
+++ b/uvector.h
@@ -323,6 +323,8 @@ class UVector : private Alloc {
    * @param val New value of elements that get added to the container.
    */
   void resize(size_t n, const Tp& val) {
+    // val may be an element of this vector
+    const Tp value(val);
     size_t oldSize = size();
     if (capacity() < n) {
       pointer newStorage = allocate(n);
@@ -332,7 +334,7 @@ class UVector : private Alloc {
       _endOfStorage = _begin + n;
     }
     _end = _begin + n;
-    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, val);
+    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, value);
   }
 
   /** @brief Get the number of elements the container can currently hold without
@@ -487,8 +489,10 @@ class UVector : private Alloc {
    * @param item Value of new element.
    */
   void push_back(const Tp& item) {
+    // item may be an element of this vector
+    const Tp value(item);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = item;
+    *_end = value;
     ++_end;
   }
 
@@ -518,6 +522,7 @@ class UVector : private Alloc {
    * @return Position of the new element.
    */
   iterator insert(const_iterator position, const Tp& item) {
+    const Tp value(item);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -526,7 +531,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = item;
+    *const_cast<iterator>(position) = value;
     return const_cast<iterator>(position);
   }
 
@@ -541,6 +546,7 @@ class UVector : private Alloc {
    * @return Position of the first new element.
    */
   iterator insert(const_iterator position, size_t n, const Tp& val) {
+    const Tp value(val);
     if (capacity() < size() + n) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(n), index, n);
@@ -549,7 +555,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + n);
       _end += n;
     }
-    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, value);
     return const_cast<iterator>(position);
   }
 
@@ -675,6 +681,7 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   iterator emplace(const_iterator position, Args&&... args) {
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -683,7 +690,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = Tp(std::forward<Args>(args)...);
+    *const_cast<iterator>(position) = std::move(value);
     return const_cast<iterator>(position);
   }
 
@@ -694,8 +701,9 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   Tp& emplace_back(Args&&... args) {
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = Tp(std::forward<Args>(args)...);
+    *_end = std::move(value);
     ++_end;
     return back();
   }
@@ -749,10 +757,11 @@ class UVector : private Alloc {
    * @param val Value of the new items.
    */
   void push_back(size_t n, const Tp& val) {
+    const Tp value(val);
     if (capacity() - size() < n) {
       enlarge(enlarge_size(n));
     }
-    std::uninitialized_fill_n<Tp*, size_t>(_end, n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(_end, n, value);
     _end += n;
   }
 
-- 
2.43.0

