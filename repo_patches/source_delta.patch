From fc8a4c21baa8af591e9e962eda03ebcd8e692e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 01/39] fix: RAMInputStream positions exactly when seeking to
 the end of a file that fills its last buffer

---
 src/core/store/RAMInputStream.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..28ba041 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -80,8 +80,11 @@ void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
         if (enforceEOF) {
             boost::throw_exception(IOException(L"Read past EOF"));
         } else {
-            // force eof if a read takes place at this position
-            --currentBufferIndex;
+            // position after the last buffer, to force eof if a read takes place at this position
+            currentBufferIndex = file->numBuffers() - 1;
+            if (currentBufferIndex >= 0) {
+                switchCurrentBuffer(false);
+            }
             bufferPosition = BUFFER_SIZE;
         }
     } else {
@@ -102,7 +105,7 @@ void RAMInputStream::seek(int64_t pos) {
         currentBufferIndex = (int32_t)(pos / BUFFER_SIZE);
         switchCurrentBuffer(false);
     }
-    bufferPosition = (int32_t)(pos % BUFFER_SIZE);
+    bufferPosition = (int32_t)(pos - bufferStart);
 }
 
 LuceneObjectPtr RAMInputStream::clone(const LuceneObjectPtr& other) {
-- 
2.43.0


From aa0e268d92708f5f858852c79948d197cf8d410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 02/39] fix: NumberTools encodes negative values with the '-'
 prefix alone, so they keep the fixed width and their order

---
 src/core/document/NumberTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/document/NumberTools.cpp b/src/core/document/NumberTools.cpp
index 35d990f..db413e3 100644
--- a/src/core/document/NumberTools.cpp
+++ b/src/core/document/NumberTools.cpp
@@ -55,8 +55,9 @@ String NumberTools::longToString(int64_t l) {
     if (l < 0) {
         buf += NEGATIVE_PREFIX;
         l = std::numeric_limits<int64_t>::max() + l + 1;
+    } else {
+        buf += POSITIVE_PREFIX;
     }
-    buf += POSITIVE_PREFIX;
 
     String num(StringUtils::toString(l, RADIX));
 
-- 
2.43.0


From e92a81668c9653a8be784a84c5a20776f318690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 03/39] fix: SmallDouble encodes every positive value as
 non-zero, keeping the encoding monotone

---
 src/core/util/SmallDouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/SmallDouble.cpp b/src/core/util/SmallDouble.cpp
index 032611b..81d1dc6 100644
--- a/src/core/util/SmallDouble.cpp
+++ b/src/core/util/SmallDouble.cpp
@@ -29,7 +29,7 @@ uint8_t SmallDouble::doubleToByte(double f) {
         exponent = 31;
         mantissa = 7;
     }
-    if (exponent < 0) { // underflow: use min value
+    if (exponent < 0 || (exponent == 0 && mantissa == 0)) { // underflow: use min value
         exponent = 0;
         mantissa = 1;
     }
-- 
2.43.0


From c6b86756949e4c230ccd41f3f43582779b210eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 04/39] fix: addIndexes(readers) counts the existing documents
 once, so later buffered deletes do not reach newer documents

---
 src/core/index/IndexWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..9892413 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1879,7 +1879,8 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
                 }
 
                 // Notify DocumentsWriter that the flushed count just increased
-                docWriter->updateFlushedDocCount(docCount);
+                // (the documents of the existing segment are already counted)
+                docWriter->updateFlushedDocCount(sReader ? docCount - sReader->maxDoc() : docCount);
 
                 success = true;
             } catch (LuceneException& e) {
-- 
2.43.0


From 4af6041f045efd56b0ad3f7e53f562edba427287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 05/39] fix: a zero-filled segments_N is reported as corrupt
 instead of being read as an empty index of the oldest format

---
 src/core/index/SegmentInfos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 2593152..955ba9a 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -147,6 +147,10 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
             version = input->readLong(); // read version
             counter = input->readInt(); // read counter
         } else {
+            // only the oldest format, whose file has no generation in its name, carries no explicit format info
+            if (generation != 0) {
+                boost::throw_exception(CorruptIndexException(L"Missing format version in " + segmentFileName));
+            }
             counter = format;
         }
 
-- 
2.43.0


From 7005750cc6061bdd9d025d7bfb6ceb522a90dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:06 +0000
Subject: [PATCH 06/39] fix: a failing sync of segments_N fails the commit
 instead of deleting the file and reporting success

---
 src/core/index/SegmentInfos.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 955ba9a..0d00d31 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -603,12 +603,17 @@ void SegmentInfos::finishCommit(const DirectoryPtr& dir) {
     try {
         dir->sync(fileName);
         success = true;
-    } catch (...) {
+    } catch (LuceneException& e) {
+        finally = e;
     }
 
     if (!success) {
-        dir->deleteFile(fileName);
+        try {
+            dir->deleteFile(fileName);
+        } catch (...) {
+        }
     }
+    finally.throwException();
 
     lastGeneration = generation;
     IndexOutputPtr genOutput;
-- 
2.43.0


From 4e31843ee7498c390c8f9ddb19bd3d946d7089e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:01 +0000
Subject: [PATCH 07/39] fix: deleteAll keeps the segments file of a prepared
 commit, so that commit can still be finished

---
 src/core/index/IndexWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 9892413..4d3089b 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1517,7 +1517,9 @@ void IndexWriter::deleteAll() {
 
         // Ask deleter to locate unreferenced files & remove them
         deleter->checkpoint(segmentInfos, false);
-        deleter->refresh();
+        if (!pendingCommit) { // the segments file of a prepared commit is not referenced yet
+            deleter->refresh();
+        }
 
         // Don't bother saving any changes in our segmentInfos
         readerPool->clear(SegmentInfosPtr());
-- 
2.43.0


From c67e27692235a5123405ed03469eeb525617c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:20 +0000
Subject: [PATCH 08/39] fix: boolean explanation ignores a required clause that
 matches no document

---
 src/core/search/BooleanQuery.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index 1376d24..a9d9d38 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -255,6 +255,10 @@ ExplanationPtr BooleanWeight::explain(const IndexReaderPtr& reader, int32_t doc)
     Collection<BooleanClausePtr>::iterator c = query->clauses.begin();
     for (Collection<WeightPtr>::iterator w = weights.begin(); w != weights.end(); ++w, ++c) {
         if (!(*w)->scorer(reader, true, true)) {
+            if ((*c)->isRequired()) {
+                sumExpl->addDetail(newLucene<Explanation>(0.0, L"no match on required clause (" + (*c)->getQuery()->toString() + L")"));
+                fail = true;
+            }
             continue;
         }
         ExplanationPtr e((*w)->explain(reader, doc));
-- 
2.43.0


From bea87b00e4a55d10f043d11da892d4ce02d70e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 09/39] fix: AbstractAllTermDocs skipTo moves forward and read
 starts at the next document

---
 src/core/index/AbstractAllTermDocs.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/index/AbstractAllTermDocs.cpp b/src/core/index/AbstractAllTermDocs.cpp
index aa6edcc..b4366e9 100644
--- a/src/core/index/AbstractAllTermDocs.cpp
+++ b/src/core/index/AbstractAllTermDocs.cpp
@@ -44,19 +44,17 @@ bool AbstractAllTermDocs::next() {
 int32_t AbstractAllTermDocs::read(Collection<int32_t>& docs, Collection<int32_t>& freqs) {
     int32_t length = docs.size();
     int32_t i = 0;
-    while (i < length && _doc < maxDoc) {
-        if (!isDeleted(_doc)) {
-            docs[i] = _doc;
-            freqs[i] = 1;
-            ++i;
-        }
-        ++_doc;
+    while (i < length && next()) {
+        docs[i] = _doc;
+        freqs[i] = 1;
+        ++i;
     }
     return i;
 }
 
 bool AbstractAllTermDocs::skipTo(int32_t target) {
-    _doc = target;
+    // always move forward, like any other TermDocs
+    _doc = std::min(std::max(target, _doc + 1), maxDoc);
     while (_doc < maxDoc) {
         if (!isDeleted(_doc)) {
             return true;
-- 
2.43.0


From 1490ac2ff1d7332661e0338d4febf9dd816b137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 10/39] fix: NumericRangeQuery::getMax returns the upper bound

---
 src/core/search/NumericRangeQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/NumericRangeQuery.cpp b/src/core/search/NumericRangeQuery.cpp
index 384abd2..e2108dc 100644
--- a/src/core/search/NumericRangeQuery.cpp
+++ b/src/core/search/NumericRangeQuery.cpp
@@ -109,7 +109,7 @@ NumericValue NumericRangeQuery::getMin() {
 }
 
 NumericValue NumericRangeQuery::getMax() {
-    return min;
+    return max;
 }
 
 LuceneObjectPtr NumericRangeQuery::clone(const LuceneObjectPtr& other) {
-- 
2.43.0


From 197e5ae0447aee711358cc768901809e3638106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 11/39] fix: FieldCacheRangeFilter exclusive upper bound of
 zero or of the smallest value

---
 src/core/include/_FieldCacheRangeFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 22b52fd..0b84242 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -105,7 +105,7 @@ public:
         }
         int64_t inclusiveLowerPoint = (int64_t)(includeLower ? lowerVal : (lowerVal + 1));
 
-        if (!includeUpper && upperVal == 0) {
+        if (!includeUpper && upperVal == std::numeric_limits<TYPE>::min()) {
             return DocIdSet::EMPTY_DOCIDSET();
         }
         int64_t inclusiveUpperPoint = (int64_t)(includeUpper ? upperVal : (upperVal - 1));
-- 
2.43.0


From c5d89095a72a545ae176dd7c36edc5f3027b2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 12/39] fix: FieldCacheRangeFilter of doubles excludes both
 zeros when zero is excluded

---
 src/core/search/FieldCacheRangeFilter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 7a3e1ae..a958798 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -213,13 +213,14 @@ DocIdSetPtr FieldCacheRangeFilterDouble::getDocIdSet(const IndexReaderPtr& reade
     if (!includeLower && lowerVal > 0.0 && MiscUtils::isInfinite(lowerVal)) {
         return DocIdSet::EMPTY_DOCIDSET();
     }
-    int64_t lower = NumericUtils::doubleToSortableLong(lowerVal);
+    // -0.0 and 0.0 are the same value but different sortable longs: step over both when zero is excluded
+    int64_t lower = NumericUtils::doubleToSortableLong(!includeLower && lowerVal == 0.0 ? 0.0 : lowerVal);
     double inclusiveLowerPoint = NumericUtils::sortableLongToDouble(includeLower ? lower : (lower + 1));
 
     if (!includeUpper && upperVal < 0.0 && MiscUtils::isInfinite(upperVal)) {
         return DocIdSet::EMPTY_DOCIDSET();
     }
-    int64_t upper = NumericUtils::doubleToSortableLong(upperVal);
+    int64_t upper = NumericUtils::doubleToSortableLong(!includeUpper && upperVal == 0.0 ? -0.0 : upperVal);
     double inclusiveUpperPoint = NumericUtils::sortableLongToDouble(includeUpper ? upper : (upper - 1));
 
     if (inclusiveLowerPoint > inclusiveUpperPoint) {
-- 
2.43.0


From 7a2066b82813921d2fc6bbbe48b6b9a876e8aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 13/39] fix: ParallelReader::numDocs follows deletions made
 through the reader

---
 src/core/index/ParallelReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index 80368b6..cf6879f 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -155,7 +155,7 @@ IndexReaderPtr ParallelReader::doReopen(bool doClone) {
 
 int32_t ParallelReader::numDocs() {
     // Don't call ensureOpen() here (it could affect performance)
-    return _numDocs;
+    return readers.empty() ? _numDocs : readers[0]->numDocs();
 }
 
 int32_t ParallelReader::maxDoc() {
-- 
2.43.0


From 532b8847fa777c745e3154124c7699adcb431d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 14/39] fix: EdgeNGramTokenizer ends on texts longer than its
 buffer

---
 src/core/analysis/ngram/EdgeNGramTokenizer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/ngram/EdgeNGramTokenizer.cpp b/src/core/analysis/ngram/EdgeNGramTokenizer.cpp
index 9324e5a..5230920 100644
--- a/src/core/analysis/ngram/EdgeNGramTokenizer.cpp
+++ b/src/core/analysis/ngram/EdgeNGramTokenizer.cpp
@@ -38,7 +38,11 @@ bool EdgeNGramTokenizer::incrementToken() {
     while (true) {
         fillBuffer();
 
-        if (gramSize > maxGram || bufferStart + gramSize > bufferEnd) {
+        if (gramSize > maxGram) {
+            return false; // all grams of the edge are given, whether or not there is more text
+        }
+
+        if (bufferStart + gramSize > bufferEnd) {
             if (exhausted) {
                 return false;
             }
-- 
2.43.0


From 1a39f46ffd5e0518ab4fb3887ce43fa5c934e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:31 +0000
Subject: [PATCH 15/39] fix: FieldsReader reports a failing read instead of
 returning empty or missing stored fields

---
 src/core/index/FieldsReader.cpp | 362 +++++++-------------------------
 1 file changed, 81 insertions(+), 281 deletions(-)

diff --git a/src/core/index/FieldsReader.cpp b/src/core/index/FieldsReader.cpp
index 439b917..2ec9bb0 100644
--- a/src/core/index/FieldsReader.cpp
+++ b/src/core/index/FieldsReader.cpp
@@ -280,105 +280,45 @@ void FieldsReader::addField(const DocumentPtr& doc, const FieldInfoPtr& fi, bool
 
     // we have a binary stored field, and it may be compressed
     if (binary) {
-        try {
-            int32_t toRead = fieldsStream->readVInt();
-            if (toRead < 0) {
-                return;
-            }
-            
-            ByteArray b;
-            try {
-                b = ByteArray::newInstance(toRead);
-                if (!b) {
-                    return;
-                }
-                
-                fieldsStream->readBytes(b.get(), 0, b.size());
-                
-                // Create field object outside the doc->add call to allow for null checking
-                FieldPtr field;
-                if (compressed) {
-                    try {
-                        ByteArray uncompressedData = uncompress(b);
-                        if (uncompressedData && uncompressedData.size() > 0) {
-                            field = newLucene<Field>(fi->name, uncompressedData, Field::STORE_YES);
-                        }
-                    } catch (...) {
-                        // Fall through to use original data
-                    }
-                    
-                    // If decompression failed or returned null, use the original binary data
-                    if (!field) {
-                        field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                    }
-                } else {
-                    field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                }
-                
-                // Add the field to document only if field creation was successful
-                if (field && doc) {
-                    doc->add(field);
-                }
-            } catch (...) {
-                // Skip field on error
+        int32_t toRead = fieldsStream->readVInt();
+        if (toRead < 0) {
+            return;
+        }
+
+        ByteArray b(ByteArray::newInstance(toRead));
+        fieldsStream->readBytes(b.get(), 0, b.size());
+
+        if (compressed) {
+            // If decompression failed or returned nothing, use the original binary data
+            ByteArray uncompressedData = uncompress(b);
+            if (uncompressedData && uncompressedData.size() > 0) {
+                b = uncompressedData;
             }
-        } catch (...) {
-            // Skip field on error
         }
+
+        doc->add(newLucene<Field>(fi->name, b, Field::STORE_YES));
     } else {
         Field::Store store = Field::STORE_YES;
         Field::Index index = Field::toIndex(fi->isIndexed, tokenize);
         Field::TermVector termVector = Field::toTermVector(fi->storeTermVector, fi->storeOffsetWithTermVector, fi->storePositionWithTermVector);
+        AbstractFieldPtr f;
 
-        try {
-            AbstractFieldPtr f;
-            
-            if (compressed) {
-                int32_t toRead = fieldsStream->readVInt();
-                if (toRead < 0) {
-                    return;
-                }
-                
-                ByteArray b;
-                try {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        return;
-                    }
-                    
-                    fieldsStream->readBytes(b.get(), 0, b.size());
-                    
-                    try {
-                        String fieldValue = uncompressString(b);
-                        if (!fieldValue.empty()) {
-                            f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                        } else {
-                            f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                        }
-                    } catch (...) {
-                        f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                    }
-                } catch (...) {
-                    return;
-                }
-            } else {
-                try {
-                    String fieldValue = fieldsStream->readString();
-                    f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                } catch (...) {
-                    f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                }
-            }
-            
-            // Set field properties and add to document only if field creation was successful
-            if (f && doc) {
-                f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
-                f->setOmitNorms(fi->omitNorms);
-                doc->add(f);
+        if (compressed) {
+            int32_t toRead = fieldsStream->readVInt();
+            if (toRead < 0) {
+                return;
             }
-        } catch (...) {
-            // Skip field on error
+
+            ByteArray b(ByteArray::newInstance(toRead));
+            fieldsStream->readBytes(b.get(), 0, b.size());
+            f = newLucene<Field>(fi->name, uncompressString(b), store, index, termVector);
+        } else {
+            f = newLucene<Field>(fi->name, fieldsStream->readString(), store, index, termVector);
         }
+
+        f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
+        f->setOmitNorms(fi->omitNorms);
+        doc->add(f);
     }
 }
 
@@ -492,113 +432,35 @@ String LazyField::stringValue() {
     if (!reader) {
         return L"";
     }
-    
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return L"";
-    }
-    
+
+    reader->ensureOpen();
+
     if (_isBinary) {
         return L"";
-    } else {
-        if (VariantUtils::isNull(fieldsData)) {
-            IndexInputPtr localFieldsStream;
-            try {
-                localFieldsStream = getFieldStream();
-                if (!localFieldsStream) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-            } catch (...) {
-                fieldsData = String(L"");
-                return L"";
-            }
-            
-            try {
-                localFieldsStream->seek(pointer);
-                
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-                
-                if (isCompressed) {
-                    try {
-                        ByteArray b(ByteArray::newInstance(toRead));
-                        if (!b) {
-                            fieldsData = String(L"");
-                            return L"";
-                        }
-                        
-                        localFieldsStream->readBytes(b.get(), 0, b.size());
-                        try {
-                            fieldsData = reader->uncompressString(b);
-                            if (VariantUtils::isNull(fieldsData)) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } catch (...) {
-                        fieldsData = String(L"");
-                    }
-                } else {
-                    if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
-                        try {
-                            ByteArray bytes(ByteArray::newInstance(toRead));
-                            if (!bytes) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            localFieldsStream->readBytes(bytes.get(), 0, toRead);
-                            try {
-                                fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } else {
-                        try {
-                            // read in chars because we already know the length we need to read
-                            CharArray chars(CharArray::newInstance(toRead));
-                            if (!chars) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
-                            try {
-                                fieldsData = String(chars.get(), length);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    }
-                }
-            } catch (...) {
-                fieldsData = String(L"");
-            }
-        }
-        
-        try {
-            return VariantUtils::get<String>(fieldsData);
-        } catch (...) {
-            return L"";
+    }
+
+    if (VariantUtils::isNull(fieldsData)) {
+        IndexInputPtr localFieldsStream = getFieldStream();
+        localFieldsStream->seek(pointer);
+
+        if (toRead <= 0) {
+            fieldsData = String(L"");
+        } else if (isCompressed) {
+            ByteArray b(ByteArray::newInstance(toRead));
+            localFieldsStream->readBytes(b.get(), 0, b.size());
+            fieldsData = reader->uncompressString(b);
+        } else if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
+            ByteArray bytes(ByteArray::newInstance(toRead));
+            localFieldsStream->readBytes(bytes.get(), 0, toRead);
+            fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
+        } else {
+            // read in chars because we already know the length we need to read
+            CharArray chars(CharArray::newInstance(toRead));
+            int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
+            fieldsData = String(chars.get(), length);
         }
     }
+    return VariantUtils::get<String>(fieldsData);
 }
 
 int64_t LazyField::getPointer() {
@@ -627,101 +489,39 @@ ByteArray LazyField::getBinaryValue(ByteArray result) {
         return ByteArray();
     }
 
-    try {
-        reader->ensureOpen();
-    } catch (...) {
+    reader->ensureOpen();
+
+    if (!_isBinary) {
         return ByteArray();
     }
 
-    if (_isBinary) {
-        if (VariantUtils::isNull(fieldsData)) {
-            ByteArray b;
-
-            try {
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-                
-                // Allocate new buffer if result is null or too small
-                if (!result || result.size() < toRead) {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } else {
-                    b = result;
-                }
-
-                IndexInputPtr localFieldsStream;
-                try {
-                    localFieldsStream = getFieldStream();
-                    if (!localFieldsStream) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-
-                try {
-                    localFieldsStream->seek(pointer);
-                    localFieldsStream->readBytes(b.get(), 0, toRead);
-                    if (isCompressed) {
-                        try {
-                            ByteArray uncompressed = reader->uncompress(b);
-                            if (uncompressed && uncompressed.size() > 0) {
-                                fieldsData = uncompressed;
-                            } else {
-                                fieldsData = b;
-                            }
-                        } catch (...) {
-                            fieldsData = b;
-                        }
-                    } else {
-                        fieldsData = b;
-                    }
-                } catch (IOException&) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-
-                binaryOffset = 0;
-                binaryLength = toRead;
-            } catch (...) {
-                fieldsData = ByteArray();
-                binaryOffset = 0;
-                binaryLength = 0;
-                return ByteArray();
-            }
+    if (VariantUtils::isNull(fieldsData)) {
+        if (toRead <= 0) {
+            fieldsData = ByteArray();
+            binaryOffset = 0;
+            binaryLength = 0;
+            return ByteArray();
         }
 
-        try {
-            return VariantUtils::get<ByteArray>(fieldsData);
-        } catch (...) {
-            return ByteArray();
+        // Allocate new buffer if result is null or too small
+        ByteArray b(!result || result.size() < toRead ? ByteArray::newInstance(toRead) : result);
+
+        IndexInputPtr localFieldsStream = getFieldStream();
+        localFieldsStream->seek(pointer);
+        localFieldsStream->readBytes(b.get(), 0, toRead);
+
+        fieldsData = b;
+        if (isCompressed) {
+            ByteArray uncompressed = reader->uncompress(b);
+            if (uncompressed && uncompressed.size() > 0) {
+                fieldsData = uncompressed;
+            }
         }
-    } else {
-        return ByteArray();
+
+        binaryOffset = 0;
+        binaryLength = toRead;
     }
+    return VariantUtils::get<ByteArray>(fieldsData);
 }
 
 }
-- 
2.43.0


From ea190ec37ef72f2374e9aecafe046363028068ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 16/39] fix: changing a norm does not show in clones that have
 not loaded their norms yet

---
 src/core/index/SegmentReader.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 201da19..6a3a8b4 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -491,6 +491,15 @@ void SegmentReader::doSetNorm(int32_t doc, const String& field, uint8_t value) {
         return;
     }
 
+    if (norm->refCount > 1) {
+        // Clones of this reader still have to load their norms through this instance, so it must not change
+        NormPtr ownNorm(boost::dynamic_pointer_cast<Norm>(norm->clone()));
+        ownNorm->_reader = shared_from_this();
+        _norms.put(field, ownNorm);
+        norm->decRef();
+        norm = ownNorm;
+    }
+
     normsDirty = true;
     ByteArray bytes(norm->copyOnWrite());
     if (doc < 0 || doc >= bytes.size()) {
-- 
2.43.0


From 4bc0ac4d5a11cab94ba4390bae280e4bd3a70a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:32 +0000
Subject: [PATCH 17/39] fix: the iterator of a SortedVIntList keeps its list
 alive

The iterator held the list weakly, so using it after the last outside
reference to the list was gone (a FilteredQuery or ConstantScoreQuery over a
filter answering with such a list) failed with bad_weak_ptr.
---
 src/core/include/_SortedVIntList.h | 2 +-
 src/core/util/SortedVIntList.cpp   | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/include/_SortedVIntList.h b/src/core/include/_SortedVIntList.h
index c5318ef..4ecd2cc 100644
--- a/src/core/include/_SortedVIntList.h
+++ b/src/core/include/_SortedVIntList.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(SortedDocIdSetIterator);
 
 public:
-    SortedVIntListWeakPtr _list;
+    SortedVIntListPtr list;
     int32_t bytePos;
     int32_t lastInt;
     int32_t doc;
diff --git a/src/core/util/SortedVIntList.cpp b/src/core/util/SortedVIntList.cpp
index c5599ee..08da8a9 100644
--- a/src/core/util/SortedVIntList.cpp
+++ b/src/core/util/SortedVIntList.cpp
@@ -119,7 +119,7 @@ DocIdSetIteratorPtr SortedVIntList::iterator() {
 }
 
 SortedDocIdSetIterator::SortedDocIdSetIterator(const SortedVIntListPtr& list) {
-    _list = list;
+    this->list = list;
     bytePos = 0;
     lastInt = 0;
     doc = -1;
@@ -129,8 +129,6 @@ SortedDocIdSetIterator::~SortedDocIdSetIterator() {
 }
 
 void SortedDocIdSetIterator::advance() {
-    SortedVIntListPtr list(_list);
-
     // See IndexInput.readVInt()
     uint8_t b = list->bytes[bytePos++];
     lastInt += b & list->VB1;
@@ -145,7 +143,6 @@ int32_t SortedDocIdSetIterator::docID() {
 }
 
 int32_t SortedDocIdSetIterator::nextDoc() {
-    SortedVIntListPtr list(_list);
     if (bytePos >= list->lastBytePos) {
         doc = NO_MORE_DOCS;
     } else {
@@ -156,7 +153,6 @@ int32_t SortedDocIdSetIterator::nextDoc() {
 }
 
 int32_t SortedDocIdSetIterator::advance(int32_t target) {
-    SortedVIntListPtr list(_list);
     while (bytePos < list->lastBytePos) {
         advance();
         if (lastInt >= target) {
-- 
2.43.0


From 821ac23878f9bd23237798ece986a8cfd03c3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:56 +0000
Subject: [PATCH 18/39] fix: the iterators of FieldCacheRangeFilter keep their
 document set alive

They held the set weakly, so a FilteredQuery or ConstantScoreQuery over a
FieldCacheRangeFilter failed with bad_weak_ptr.
---
 src/core/include/_FieldCacheRangeFilter.h | 4 ++--
 src/core/search/FieldCacheRangeFilter.cpp | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 0b84242..5438ff4 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -229,7 +229,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorTermDocs);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr cacheDocIdSet;
     TermDocsPtr termDocs;
     int32_t doc;
 
@@ -249,7 +249,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorIncrement);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr cacheDocIdSet;
     int32_t doc;
 
 public:
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index a958798..50ab8a4 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -283,7 +283,7 @@ bool FieldCacheDocIdSetString::matchDoc(int32_t doc) {
 }
 
 FieldDocIdSetIteratorTermDocs::FieldDocIdSetIteratorTermDocs(const FieldCacheDocIdSetPtr& cacheDocIdSet, const TermDocsPtr& termDocs) {
-    this->_cacheDocIdSet = cacheDocIdSet;
+    this->cacheDocIdSet = cacheDocIdSet;
     this->termDocs = termDocs;
     this->doc = -1;
 }
@@ -296,7 +296,6 @@ int32_t FieldDocIdSetIteratorTermDocs::docID() {
 }
 
 int32_t FieldDocIdSetIteratorTermDocs::nextDoc() {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     do {
         if (!termDocs->next()) {
             doc = NO_MORE_DOCS;
@@ -307,7 +306,6 @@ int32_t FieldDocIdSetIteratorTermDocs::nextDoc() {
 }
 
 int32_t FieldDocIdSetIteratorTermDocs::advance(int32_t target) {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     if (!termDocs->skipTo(target)) {
         doc = NO_MORE_DOCS;
         return doc;
@@ -322,7 +320,7 @@ int32_t FieldDocIdSetIteratorTermDocs::advance(int32_t target) {
 }
 
 FieldDocIdSetIteratorIncrement::FieldDocIdSetIteratorIncrement(const FieldCacheDocIdSetPtr& cacheDocIdSet) {
-    this->_cacheDocIdSet = cacheDocIdSet;
+    this->cacheDocIdSet = cacheDocIdSet;
     this->doc = -1;
 }
 
@@ -334,7 +332,6 @@ int32_t FieldDocIdSetIteratorIncrement::docID() {
 }
 
 int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     try {
         do {
             ++doc;
@@ -347,7 +344,6 @@ int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
 }
 
 int32_t FieldDocIdSetIteratorIncrement::advance(int32_t target) {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     try {
         doc = target;
         while (!cacheDocIdSet->matchDoc(doc)) {
-- 
2.43.0


From 7c47dd864a95e2741e6640158344b48d2b33e991 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:18:02 +0000
Subject: [PATCH 19/39] fix: negative string lengths in index files are
 reported as corruption

---
 src/core/store/IndexInput.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/store/IndexInput.cpp b/src/core/store/IndexInput.cpp
index 319f316..4788b5d 100644
--- a/src/core/store/IndexInput.cpp
+++ b/src/core/store/IndexInput.cpp
@@ -64,11 +64,19 @@ void IndexInput::setModifiedUTF8StringsMode() {
     preUTF8Strings = true;
 }
 
+// a damaged length must not be taken for the size of a buffer: every character takes at least one byte
+static void checkStringLength(IndexInput* input, int32_t length) {
+    if (length < 0 || length > input->length() - input->getFilePointer()) {
+        boost::throw_exception(IOException(L"String length " + StringUtils::toString(length) + L" does not fit the file"));
+    }
+}
+
 String IndexInput::readString() {
     if (preUTF8Strings) {
         return readModifiedUTF8String();
     }
     int32_t length = readVInt();
+    checkStringLength(this, length);
     ByteArray bytes(ByteArray::newInstance(length));
     readBytes(bytes.get(), 0, length);
     return StringUtils::toUnicode(bytes.get(), length);
@@ -76,6 +84,7 @@ String IndexInput::readString() {
 
 String IndexInput::readModifiedUTF8String() {
     int32_t length = readVInt();
+    checkStringLength(this, length);
     CharArray chars(CharArray::newInstance(length));
     return String(chars.get(), readChars(chars.get(), 0, length));
 }
-- 
2.43.0


From 76cb8d30019dd6da32d5ca4bc0f9be4687adeab8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:18:02 +0000
Subject: [PATCH 20/39] fix: an impossible number of norm generations in a
 segments file is reported as corruption

---
 src/core/index/SegmentInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index ed8deb3..75887e0 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -101,6 +101,9 @@ SegmentInfo::SegmentInfo(const DirectoryPtr& dir, int32_t format, const IndexInp
         }
         int32_t numNormGen = input->readInt();
         if (numNormGen != NO) {
+            if (numNormGen < 0 || numNormGen > (input->length() - input->getFilePointer()) / 8) {
+                boost::throw_exception(CorruptIndexException(L"Invalid number of norm generations: " + StringUtils::toString(numNormGen)));
+            }
             normGen = Collection<int64_t>::newInstance(numNormGen);
             for (int32_t j = 0; j < numNormGen; ++j) {
                 normGen[j] = input->readLong();
-- 
2.43.0


From 282c92ea176d5fe69c9ca4dc6de3c9f476249e51 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:18:33 +0000
Subject: [PATCH 21/39] fix: enumerating all terms of a MemoryIndex does not
 lose the first one

---
 src/contrib/memory/MemoryIndex.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index e1e50d9..9fe5db8 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -239,7 +239,12 @@ int32_t MemoryIndexReader::docFreq(const TermPtr& t) {
 }
 
 TermEnumPtr MemoryIndexReader::terms() {
-    return terms(MATCH_ALL_TERM());
+    // positioned before the first term
+    memoryIndex->sortFields();
+    if (!memoryIndex->sortedFields.empty()) {
+        getInfo(0)->sortTerms();
+    }
+    return newLucene<MemoryIndexTermEnum>(shared_from_this(), -1, 0);
 }
 
 TermEnumPtr MemoryIndexReader::terms(const TermPtr& t) {
@@ -473,7 +478,7 @@ TermPtr MemoryIndexTermEnum::term() {
         return TermPtr();
     }
     MemoryIndexInfoPtr info(reader->getInfo(j));
-    if (i >= info->sortedTerms.size()) {
+    if (i < 0 || i >= info->sortedTerms.size()) {
         return TermPtr();
     }
     return createTerm(info, j, info->sortedTerms[i].first);
@@ -485,7 +490,7 @@ int32_t MemoryIndexTermEnum::docFreq() {
         return 0;
     }
     MemoryIndexInfoPtr info(reader->getInfo(j));
-    if (i >= info->sortedTerms.size()) {
+    if (i < 0 || i >= info->sortedTerms.size()) {
         return 0;
     }
     return reader->memoryIndex->numPositions(info->getPositions(i));
-- 
2.43.0


From c1c80341f69c5fd7ff88356722cce230dd441f6e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:18:33 +0000
Subject: [PATCH 22/39] fix: the term enumeration of a MemoryIndex counts
 documents, not occurrences

---
 src/contrib/memory/MemoryIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index 9fe5db8..5fca4b4 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -493,7 +493,7 @@ int32_t MemoryIndexTermEnum::docFreq() {
     if (i < 0 || i >= info->sortedTerms.size()) {
         return 0;
     }
-    return reader->memoryIndex->numPositions(info->getPositions(i));
+    return 1; // there is one document
 }
 
 void MemoryIndexTermEnum::close() {
-- 
2.43.0


From 8058f7d77483766d717b7193586c52231f6a3f68 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:18:33 +0000
Subject: [PATCH 23/39] fix: skipping past the document of a MemoryIndex ends
 its postings

---
 src/contrib/memory/MemoryIndex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index 5fca4b4..2636c89 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -545,6 +545,7 @@ void MemoryIndexTermPositions::seek(const TermPtr& term) {
     this->term = term;
     if (!term) {
         hasNext = true;    // term == null means match all docs
+        current = Collection<int32_t>();
     } else {
         MemoryIndexReaderPtr reader(_reader);
         MemoryIndexInfoPtr info(reader->getInfo(term->field()));
@@ -585,6 +586,9 @@ int32_t MemoryIndexTermPositions::read(Collection<int32_t>& docs, Collection<int
 }
 
 bool MemoryIndexTermPositions::skipTo(int32_t target) {
+    if (target > 0) {
+        hasNext = false; // the only document is 0
+    }
     return next();
 }
 
-- 
2.43.0


From ebfeaf90fae635c5f2a36e28a0cd90cf920a43e5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:18:51 +0000
Subject: [PATCH 24/39] fix: term vectors of a MemoryIndex hold positions only,
 and offsets only if they are stored

---
 src/contrib/include/MemoryIndex.h  |  3 +++
 src/contrib/memory/MemoryIndex.cpp | 29 ++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/contrib/include/MemoryIndex.h b/src/contrib/include/MemoryIndex.h
index 8efc528..3b7b156 100644
--- a/src/contrib/include/MemoryIndex.h
+++ b/src/contrib/include/MemoryIndex.h
@@ -148,6 +148,9 @@ public:
 protected:
     int32_t numPositions(Collection<int32_t> positions);
 
+    /// The positions alone, without the offsets that may be stored between them.
+    Collection<int32_t> termPositions(Collection<int32_t> positions);
+
     /// sorts into ascending order (on demand), reusing memory along the way
     void sortFields();
 
diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index 2636c89..5b92080 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -163,6 +163,17 @@ struct lessField {
     }
 };
 
+Collection<int32_t> MemoryIndex::termPositions(Collection<int32_t> positions) {
+    if (stride == 1) {
+        return positions;
+    }
+    Collection<int32_t> result(Collection<int32_t>::newInstance(numPositions(positions)));
+    for (int32_t i = 0; i < result.size(); ++i) {
+        result[i] = positions[i * stride];
+    }
+    return result;
+}
+
 void MemoryIndex::sortFields() {
     if (!sortedFields) {
         sortedFields = CollectionStringMemoryIndexInfo::newInstance(fields.begin(), fields.end());
@@ -319,13 +330,16 @@ void MemoryIndexReader::getTermFreqVector(int32_t docNumber, const String& field
     for (int32_t i = info->sortedTerms.size(); --i >=0;) {
         Collection<int32_t> positions(info->sortedTerms[i].second);
         int32_t size = positions.size();
-        Collection<TermVectorOffsetInfoPtr> offsets(Collection<TermVectorOffsetInfoPtr>::newInstance(size / memoryIndex->stride));
-        for (int32_t k = 0, j = 1; j < size; ++k, j += memoryIndex->stride) {
-            int32_t start = positions[j];
-            int32_t end = positions[j + 1];
-            offsets[k] = newLucene<TermVectorOffsetInfo>(start, end);
+        Collection<TermVectorOffsetInfoPtr> offsets;
+        if (memoryIndex->stride != 1) {
+            offsets = Collection<TermVectorOffsetInfoPtr>::newInstance(size / memoryIndex->stride);
+            for (int32_t k = 0, j = 1; j < size; ++k, j += memoryIndex->stride) {
+                int32_t start = positions[j];
+                int32_t end = positions[j + 1];
+                offsets[k] = newLucene<TermVectorOffsetInfo>(start, end);
+            }
         }
-        mapper->map(info->sortedTerms[i].first, memoryIndex->numPositions(info->sortedTerms[i].second), offsets, info->sortedTerms[i].second);
+        mapper->map(info->sortedTerms[i].first, memoryIndex->numPositions(positions), offsets, memoryIndex->termPositions(positions));
     }
 }
 
@@ -664,7 +678,8 @@ Collection<int32_t> MemoryIndexTermPositionVector::indexesOf(Collection<String>
 }
 
 Collection<int32_t> MemoryIndexTermPositionVector::getTermPositions(int32_t index) {
-    return sortedTerms[index].second;
+    MemoryIndexReaderPtr reader(_reader);
+    return reader->memoryIndex->termPositions(sortedTerms[index].second);
 }
 
 Collection<TermVectorOffsetInfoPtr> MemoryIndexTermPositionVector::getOffsets(int32_t index) {
-- 
2.43.0


From 3176aea3e7079ece673fb99fca2efc04eb725bb8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:34:51 +0000
Subject: [PATCH 25/39] fix: highlighting phrases with scores from an index
 reads the given tokens

---
 src/contrib/highlighter/WeightedSpanTermExtractor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/contrib/highlighter/WeightedSpanTermExtractor.cpp b/src/contrib/highlighter/WeightedSpanTermExtractor.cpp
index 5abe39c..500ac5a 100644
--- a/src/contrib/highlighter/WeightedSpanTermExtractor.cpp
+++ b/src/contrib/highlighter/WeightedSpanTermExtractor.cpp
@@ -287,6 +287,7 @@ MapWeightedSpanTermPtr WeightedSpanTermExtractor::getWeightedSpanTermsWithScores
     }
 
     MapWeightedSpanTermPtr terms(newLucene<PositionCheckingMap>());
+    this->tokenStream = tokenStream;
     extract(query, terms);
 
     int32_t totalNumDocs = reader->numDocs();
-- 
2.43.0


From 6d3966f42c159f923c348c7395f1f2c20d9485ff Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:34:51 +0000
Subject: [PATCH 26/39] fix: tokens from a stored term vector are sorted by an
 order

---
 src/contrib/highlighter/TokenSources.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/contrib/highlighter/TokenSources.cpp b/src/contrib/highlighter/TokenSources.cpp
index 9810f33..5fb4c5c 100644
--- a/src/contrib/highlighter/TokenSources.cpp
+++ b/src/contrib/highlighter/TokenSources.cpp
@@ -61,10 +61,10 @@ TokenStreamPtr TokenSources::getTokenStream(const TermPositionVectorPtr& tpv) {
 
 struct lessTokenOffset {
     inline bool operator()(const TokenPtr& first, const TokenPtr& second) const {
-        if (first->startOffset() < second->startOffset()) {
-            return true;
+        if (first->startOffset() != second->startOffset()) {
+            return (first->startOffset() < second->startOffset());
         }
-        return (first->startOffset() > second->endOffset());
+        return (first->endOffset() < second->endOffset());
     }
 };
 
-- 
2.43.0


From 8c7e27b0568921f9016bf687955db7eb55360f4f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:34:51 +0000
Subject: [PATCH 27/39] fix: a stored token stream starts at its first token

---
 src/contrib/highlighter/TokenSources.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/contrib/highlighter/TokenSources.cpp b/src/contrib/highlighter/TokenSources.cpp
index 5fb4c5c..a40dcf1 100644
--- a/src/contrib/highlighter/TokenSources.cpp
+++ b/src/contrib/highlighter/TokenSources.cpp
@@ -154,6 +154,7 @@ TokenStreamPtr TokenSources::getTokenStream(const String& field, const String& c
 
 StoredTokenStream::StoredTokenStream(Collection<TokenPtr> tokens) {
     this->tokens = tokens;
+    this->currentToken = 0;
     this->termAtt = addAttribute<TermAttribute>();
     this->offsetAtt = addAttribute<OffsetAttribute>();
 }
-- 
2.43.0


From 186aaa9d6e8fefd43acdc117a168d6703c307ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:00 +0000
Subject: [PATCH 28/39] fix: a thread that ends at once is not left marked as
 running

---
 src/core/util/LuceneThread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/LuceneThread.cpp b/src/core/util/LuceneThread.cpp
index 591caa0..d203ca8 100644
--- a/src/core/util/LuceneThread.cpp
+++ b/src/core/util/LuceneThread.cpp
@@ -28,9 +28,9 @@ LuceneThread::~LuceneThread() {
 }
 
 void LuceneThread::start() {
-    setRunning(false);
-    thread = newInstance<boost::thread>(LuceneThread::runThread, this);
+    // before the thread exists, as it may end (and clear this) at once
     setRunning(true);
+    thread = newInstance<boost::thread>(LuceneThread::runThread, this);
 }
 
 void LuceneThread::runThread(LuceneThread* thread) {
-- 
2.43.0


From 7bd3cf26d12beb67c3c602cf375edb7f684e2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:59 +0000
Subject: [PATCH 29/39] fix: the beginning of a mapping that does not match
 stays in the text

---
 include/lucene++/NormalizeCharMap.h     | 3 +++
 src/core/analysis/MappingCharFilter.cpp | 2 +-
 src/core/analysis/NormalizeCharMap.cpp  | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lucene++/NormalizeCharMap.h b/include/lucene++/NormalizeCharMap.h
index 470456d..3ff0b59 100644
--- a/include/lucene++/NormalizeCharMap.h
+++ b/include/lucene++/NormalizeCharMap.h
@@ -24,6 +24,9 @@ public:
     String normStr;
     int32_t diff;
 
+    /// Whether a recorded match ends here (its replacement may be empty).
+    bool mapped;
+
 public:
     /// Records a replacement to be applied to the inputs stream.  Whenever singleMatch occurs in the input, it
     /// will be replaced with replacement.
diff --git a/src/core/analysis/MappingCharFilter.cpp b/src/core/analysis/MappingCharFilter.cpp
index da8761c..0d6c998 100644
--- a/src/core/analysis/MappingCharFilter.cpp
+++ b/src/core/analysis/MappingCharFilter.cpp
@@ -97,7 +97,7 @@ NormalizeCharMapPtr MappingCharFilter::match(const NormalizeCharMapPtr& map) {
             }
         }
     }
-    if (!result) {
+    if (!result && map->mapped) {
         result = map;
     }
     return result;
diff --git a/src/core/analysis/NormalizeCharMap.cpp b/src/core/analysis/NormalizeCharMap.cpp
index df1a6af..92f0ab9 100644
--- a/src/core/analysis/NormalizeCharMap.cpp
+++ b/src/core/analysis/NormalizeCharMap.cpp
@@ -11,6 +11,7 @@ namespace Lucene {
 
 NormalizeCharMap::NormalizeCharMap() {
     diff = 0;
+    mapped = false;
 }
 
 NormalizeCharMap::~NormalizeCharMap() {
@@ -29,10 +30,11 @@ void NormalizeCharMap::add(const String& singleMatch, const String& replacement)
         }
         currMap = map;
     }
-    if (!currMap->normStr.empty()) {
+    if (currMap->mapped) {
         boost::throw_exception(RuntimeException(L"MappingCharFilter: there is already a mapping for " + singleMatch));
     }
     currMap->normStr = replacement;
+    currMap->mapped = true;
     currMap->diff = (int32_t)(singleMatch.length() - replacement.length());
 }
 
-- 
2.43.0


From 9ad5bce54de26c55b2c74f6b15dc70c2221e0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:59 +0000
Subject: [PATCH 30/39] fix: the end of the text does not count as a character
 in the offsets of MappingCharFilter

---
 src/core/analysis/MappingCharFilter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/MappingCharFilter.cpp b/src/core/analysis/MappingCharFilter.cpp
index 0d6c998..f2189c5 100644
--- a/src/core/analysis/MappingCharFilter.cpp
+++ b/src/core/analysis/MappingCharFilter.cpp
@@ -61,11 +61,15 @@ int32_t MappingCharFilter::read() {
 }
 
 int32_t MappingCharFilter::nextChar() {
-    ++nextCharCounter;
     if (buffer && !buffer.empty()) {
+        ++nextCharCounter;
         return buffer.removeFirst();
     }
-    return input->read();
+    int32_t c = input->read();
+    if (c != -1) {
+        ++nextCharCounter;
+    }
+    return c;
 }
 
 void MappingCharFilter::pushChar(int32_t c) {
-- 
2.43.0


From 2a4c130a2a32d572b4aecf3ff058264661760fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:59 +0000
Subject: [PATCH 31/39] fix: several corrections of one offset do not hide each
 other

---
 src/core/analysis/BaseCharFilter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/analysis/BaseCharFilter.cpp b/src/core/analysis/BaseCharFilter.cpp
index 0681139..0c34847 100644
--- a/src/core/analysis/BaseCharFilter.cpp
+++ b/src/core/analysis/BaseCharFilter.cpp
@@ -53,6 +53,11 @@ int32_t BaseCharFilter::getLastCumulativeDiff() {
 }
 
 void BaseCharFilter::addOffCorrectMap(int32_t off, int32_t cumulativeDiff) {
+    if (size > 0 && offsets[size - 1] == off) {
+        // several removals at one place: the last one counts
+        diffs[size - 1] = cumulativeDiff;
+        return;
+    }
     if (!offsets) {
         offsets = IntArray::newInstance(64);
         diffs = IntArray::newInstance(64);
-- 
2.43.0


From d045b094462d0a787a0bac56935c56451da28d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:13 +0000
Subject: [PATCH 32/39] fix: DateField refuses times too late for its fixed
 length

---
 src/core/document/DateField.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/document/DateField.cpp b/src/core/document/DateField.cpp
index 6cbc92a..2f0e766 100644
--- a/src/core/document/DateField.cpp
+++ b/src/core/document/DateField.cpp
@@ -50,8 +50,13 @@ String DateField::timeToString(int64_t time) {
         boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too early, must be >= 0"));
     }
 
+    String digits(StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX));
+    if ((int32_t)digits.length() > DATE_LEN()) {
+        boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too late, length of string representation must be <= " + StringUtils::toString(DATE_LEN())));
+    }
+
     String timeString(DATE_LEN(), L'0');
-    timeString += StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX);
+    timeString += digits;
 
     return timeString.substr(timeString.length() - DATE_LEN(), DATE_LEN());
 }
-- 
2.43.0


From 0c8221d40c100c5b1276072f8f9127bdc8ee6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:04 +0000
Subject: [PATCH 33/39] fix: closing an IndexWriter does not pull its
 DocumentsWriter away from threads still using it

---
 include/lucene++/IndexWriter.h |  1 +
 src/core/index/IndexWriter.cpp | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index 5ace809..1097ac0 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -136,6 +136,7 @@ protected:
     SegmentInfosPtr segmentInfos; // the segments
 
     DocumentsWriterPtr docWriter;
+    bool docWriterClosed; // closing is done with docWriter, which stays for other threads that still use it
     IndexFileDeleterPtr deleter;
 
     SetSegmentInfo segmentsToOptimize; // used by optimize to note those needing optimization
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 4d3089b..7150fc2 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -146,6 +146,7 @@ void IndexWriter::initialize() {
     closed = false;
     closing = false;
     hitOOM = false;
+    docWriterClosed = false;
     stopMerges = false;
     mergeGen = 0;
     flushCount = 0;
@@ -737,7 +738,7 @@ void IndexWriter::closeInternal(bool waitForMerges) {
         {
             SyncLock syncLock(this);
             readerPool->close();
-            docWriter.reset();
+            docWriterClosed = true;
             deleter->close();
         }
 
@@ -921,7 +922,7 @@ void IndexWriter::addDocument(const DocumentPtr& doc, const AnalyzerPtr& analyze
             {
                 SyncLock syncLock(this);
                 // If docWriter has some aborted files that were never incref'd, then we clean them up here
-                if (docWriter) {
+                if (!docWriterClosed) {
                     HashSet<String> files(docWriter->abortedFiles());
                     if (files) {
                         deleter->deleteNewFiles(files);
@@ -1003,7 +1004,7 @@ void IndexWriter::updateDocument(const TermPtr& term, const DocumentPtr& doc, co
             {
                 SyncLock syncLock(this);
                 // If docWriter has some aborted files that were never incref'd, then we clean them up here
-                if (docWriter) {
+                if (!docWriterClosed) {
                     HashSet<String> files(docWriter->abortedFiles());
                     if (files) {
                         deleter->deleteNewFiles(files);
@@ -2104,6 +2105,9 @@ bool IndexWriter::doFlushInternal(bool flushDocStores, bool flushDeletes) {
     }
 
     ensureOpen(false);
+    if (docWriterClosed) {
+        boost::throw_exception(AlreadyClosedException(L"This IndexWriter is closed"));
+    }
 
     BOOST_ASSERT(testPoint(L"startDoFlush"));
 
-- 
2.43.0


From d37f6f853107e6047ec8f63ba5e62c603642b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:57 +0000
Subject: [PATCH 34/39] fix: merging term vectors document by document keeps
 their positions

---
 src/core/index/TermVectorsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/TermVectorsWriter.cpp b/src/core/index/TermVectorsWriter.cpp
index 2f553f4..93578cc 100644
--- a/src/core/index/TermVectorsWriter.cpp
+++ b/src/core/index/TermVectorsWriter.cpp
@@ -65,7 +65,7 @@ void TermVectorsWriter::addAllDocVectors(Collection<TermFreqVectorPtr> vectors)
 
             if (tpVector) {
                 // May have positions & offsets
-                storePositions = (tpVector->size() > 0 && !tpVector->getTermPositions(0));
+                storePositions = (tpVector->size() > 0 && tpVector->getTermPositions(0));
                 storeOffsets = (tpVector->size() > 0 && tpVector->getOffsets(0));
                 bits = (uint8_t)((storePositions ? TermVectorsReader::STORE_POSITIONS_WITH_TERMVECTOR : 0) +
                                  (storeOffsets ? TermVectorsReader::STORE_OFFSET_WITH_TERMVECTOR : 0));
-- 
2.43.0


From b573824391e215a58edf508ff7510b14621763f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:48 +0000
Subject: [PATCH 35/39] fix: SortedTermVectorMapper ignores offsets only when
 asked to

---
 src/core/index/SortedTermVectorMapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/SortedTermVectorMapper.cpp b/src/core/index/SortedTermVectorMapper.cpp
index a573b44..a4a47cb 100644
--- a/src/core/index/SortedTermVectorMapper.cpp
+++ b/src/core/index/SortedTermVectorMapper.cpp
@@ -21,7 +21,7 @@ SortedTermVectorMapper::SortedTermVectorMapper(TermVectorEntryComparator compara
 }
 
 SortedTermVectorMapper::SortedTermVectorMapper(bool ignoringPositions, bool ignoringOffsets, TermVectorEntryComparator comparator)
-    : TermVectorMapper(ignoringPositions, ignoringPositions) {
+    : TermVectorMapper(ignoringPositions, ignoringOffsets) {
     this->storeOffsets = false;
     this->storePositions = false;
     this->comparator = comparator;
-- 
2.43.0


From f8a1e91754f2e2a4cf6175c0810ca1dff02c4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:48 +0000
Subject: [PATCH 36/39] fix: PositionBasedTermVectorMapper keeps the positions
 of every field of a document

---
 src/core/index/PositionBasedTermVectorMapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/index/PositionBasedTermVectorMapper.cpp b/src/core/index/PositionBasedTermVectorMapper.cpp
index 3bb8dde..d2d40d0 100644
--- a/src/core/index/PositionBasedTermVectorMapper.cpp
+++ b/src/core/index/PositionBasedTermVectorMapper.cpp
@@ -38,7 +38,9 @@ void PositionBasedTermVectorMapper::setExpectations(const String& field, int32_t
     if (storeOffsets == true) {
         // ignoring offsets
     }
-    this->fieldToTerms = MapStringMapIntTermVectorsPositionInfo::newInstance();
+    if (!fieldToTerms) {
+        fieldToTerms = MapStringMapIntTermVectorsPositionInfo::newInstance();
+    }
     this->storeOffsets = storeOffsets;
     currentField = field;
     this->currentPositions = MapIntTermVectorsPositionInfo::newInstance();
-- 
2.43.0


From 09c882128013f4f1744c44858bdbbca2c2ff4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:05 +0000
Subject: [PATCH 37/39] fix: a copy of a PayloadNearQuery keeps its payload
 function

---
 src/core/search/payloads/PayloadNearQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/payloads/PayloadNearQuery.cpp b/src/core/search/payloads/PayloadNearQuery.cpp
index 7283a02..669bce6 100644
--- a/src/core/search/payloads/PayloadNearQuery.cpp
+++ b/src/core/search/payloads/PayloadNearQuery.cpp
@@ -41,7 +41,7 @@ LuceneObjectPtr PayloadNearQuery::clone(const LuceneObjectPtr& other) {
         newClauses[i] = boost::dynamic_pointer_cast<SpanQuery>(clauses[i]->clone());
     }
 
-    PayloadNearQueryPtr payloadNearQuery(newLucene<PayloadNearQuery>(newClauses, slop, inOrder));
+    PayloadNearQueryPtr payloadNearQuery(newLucene<PayloadNearQuery>(newClauses, slop, inOrder, function));
     payloadNearQuery->setBoost(getBoost());
     return payloadNearQuery;
 }
-- 
2.43.0


From 222dcb8005155706dd942df6d1e37d2283fbc47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:05 +0000
Subject: [PATCH 38/39] fix: the explanation of a PayloadNearQuery uses its
 payload function

---
 src/core/search/payloads/PayloadNearQuery.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/search/payloads/PayloadNearQuery.cpp b/src/core/search/payloads/PayloadNearQuery.cpp
index 669bce6..8f36ce3 100644
--- a/src/core/search/payloads/PayloadNearQuery.cpp
+++ b/src/core/search/payloads/PayloadNearQuery.cpp
@@ -167,10 +167,12 @@ ExplanationPtr PayloadNearSpanScorer::explain(int32_t doc) {
     result->addDetail(nonPayloadExpl);
     ExplanationPtr payloadBoost(newLucene<Explanation>());
     result->addDetail(payloadBoost);
-    double avgPayloadScore = (payloadsSeen > 0 ? (payloadScore / (double)payloadsSeen) : 1.0);
-    payloadBoost->setValue(avgPayloadScore);
+    PayloadNearSpanWeightPtr spanWeight(boost::static_pointer_cast<PayloadNearSpanWeight>(weight));
+    PayloadNearQueryPtr nearQuery(boost::static_pointer_cast<PayloadNearQuery>(spanWeight->query));
+    double functionScore = nearQuery->function->docScore(doc, nearQuery->fieldName, payloadsSeen, payloadScore);
+    payloadBoost->setValue(functionScore);
     payloadBoost->setDescription(L"scorePayload(...)");
-    result->setValue(nonPayloadExpl->getValue() * avgPayloadScore);
+    result->setValue(nonPayloadExpl->getValue() * functionScore);
     result->setDescription(L"bnq, product of:");
     return result;
 }
-- 
2.43.0


From 96c53a59f2eb36cdc2afa1a87898a8227c96900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:05 +0000
Subject: [PATCH 39/39] fix: unordered near spans look at every cell for
 payloads

---
 src/core/search/spans/NearSpansUnordered.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/spans/NearSpansUnordered.cpp b/src/core/search/spans/NearSpansUnordered.cpp
index 0bb752c..a915298 100644
--- a/src/core/search/spans/NearSpansUnordered.cpp
+++ b/src/core/search/spans/NearSpansUnordered.cpp
@@ -145,7 +145,7 @@ Collection<ByteArray> NearSpansUnordered::getPayload() {
 }
 
 bool NearSpansUnordered::isPayloadAvailable() {
-    SpansCellPtr pointer(min());
+    SpansCellPtr pointer(first);
     while (pointer) {
         if (pointer->isPayloadAvailable()) {
             return true;
-- 
2.43.0

