// Documents with everything an index can hold about them (stored text and bytes, norms of different boosts and lengths, postings with
// payloads, term vectors, fields without norms or frequencies), put into segments, deleted from and merged.
#pragma once
#include "ix.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
#include "PositionIncrementAttribute.h"
#include "PayloadAttribute.h"
#include "Payload.h"
#include "Similarity.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
static inline int richLen(int i) { return 1 + (i * 2) % 5; }
static inline std::vector<int> richPayload(int i, int k) { std::vector<int> v; for (int j = 0; j < (i + k) % 4; ++j) v.push_back((i * 31 + k * 7 + j) & 255); return v; }
struct RichTokens : public TokenStream { // the term x several times, each with its payload
    int i, k; TermAttributePtr t; PositionIncrementAttributePtr p; PayloadAttributePtr y;
    RichTokens(int ii) : i(ii), k(0) {}
    virtual void initialize() { TokenStream::initialize(); t = addAttribute<TermAttribute>(); p = addAttribute<PositionIncrementAttribute>(); y = addAttribute<PayloadAttribute>(); }
    virtual bool incrementToken() {
        if (k >= richLen(i)) return false;
        clearAttributes();
        t->setTermBuffer(k % 2 ? L"y" : L"x");
        p->setPositionIncrement(1 + (i + k) % 2);
        std::vector<int> v = richPayload(i, k);
        if (!v.empty()) { ByteArray b = ByteArray::newInstance((int)v.size()); for (size_t j = 0; j < v.size(); ++j) b[(int)j] = (uint8_t)v[j]; y->setPayload(newLucene<Payload>(b)); }
        ++k;
        return true;
    }
    virtual void reset() { k = 0; }
};
static inline double richBoost(int i) { static const double B[] = {1.0, 2.0, 0.5, 3.0, 0.25, 8.0, 1.5}; return B[i % 7]; }
static inline String richText(int i) { static const wchar_t* V[] = {L"m n", L"n", L"", L"o m o", L"m \x00e9 m", L"n n n", L"o"}; return V[i % 7]; }
static inline Field::TermVector richVector(int i) { return i == 4 ? Field::TERM_VECTOR_NO : i == 1 ? Field::TERM_VECTOR_YES : i == 3 ? Field::TERM_VECTOR_WITH_OFFSETS : i == 5 ? Field::TERM_VECTOR_WITH_POSITIONS : Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS; }
struct RichCfg { bool shuffle, omitNorms, omitTf; };
static inline DocumentPtr richDoc(int i, const RichCfg& c) {
    DocumentPtr d = newLucene<Document>();
    if (c.shuffle && i % 2) d->add(newLucene<Field>(L"extra" + StringUtils::toString(i), L"e", Field::STORE_YES, Field::INDEX_NO)); // field numbers differ between segments
    d->add(newLucene<Field>(L"id", StringUtils::toString(i), Field::STORE_YES, Field::INDEX_NOT_ANALYZED_NO_NORMS));
    FieldPtr p = newLucene<Field>(L"p", newLucene<RichTokens>(i));
    p->setBoost(richBoost(i));
    d->add(p);
    d->add(newLucene<Field>(L"v", richText(i), Field::STORE_YES, Field::INDEX_ANALYZED, richVector(i)));
    ByteArray b = ByteArray::newInstance(i % 3); for (int j = 0; j < i % 3; ++j) b[j] = (uint8_t)(i * 50 + j);
    d->add(newLucene<Field>(L"s", b, Field::STORE_YES));
    d->add(newLucene<Field>(L"q", L"q", Field::STORE_NO, c.omitNorms && i == 3 ? Field::INDEX_ANALYZED_NO_NORMS : Field::INDEX_ANALYZED));
    FieldPtr u = newLucene<Field>(L"u", L"k k", Field::STORE_NO, Field::INDEX_ANALYZED);
    if (c.omitTf && i == 3) u->setOmitTermFreqAndPositions(true);
    d->add(u);
    return d;
}
enum { RICH_STORED = 1, RICH_NORMS = 2, RICH_POSTINGS = 4, RICH_VECTORS = 8 };
// one: the reader has a single segment
static inline void verifyRich(const IndexReaderPtr& r, const std::vector<int>& ids, const RichCfg& c, bool one, int what) {
    req(r->numDocs() == (int)ids.size(), "number of live documents");
    std::vector<int> at;
    for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) at.push_back(i);
    req(at.size() == ids.size(), "live documents counted by deletion marks");
    std::map<int, int> id;
    for (size_t k = 0; k < at.size(); ++k) id[at[k]] = ids[k];
    if (what & RICH_STORED) for (auto& x : id) {
        int i = x.second;
        DocumentPtr d = r->document(x.first);
        req(d->get(L"id") == StringUtils::toString(i) && d->get(L"v") == richText(i), "stored text");
        ByteArray b = d->getBinaryValue(L"s");
        req(b && b.size() == i % 3, "stored bytes");
        for (int j = 0; j < i % 3; ++j) req(b[j] == (uint8_t)(i * 50 + j), "stored bytes");
        req(d->getFields().size() == 3 + (c.shuffle && i % 2 ? 1 : 0), "number of stored fields");
    }
    if (what & RICH_NORMS && !ids.empty()) {
        ByteArray n = r->norms(L"p"); req(n.get(), "norms are there");
        for (auto& x : id) req(n[x.first] == Similarity::encodeNorm(richBoost(x.second) / std::sqrt((double)richLen(x.second))), "norm of a document");
        req(r->hasNorms(L"q"), "a field has norms when any document has"); // (norms left out for one document only)
        n = r->norms(L"q");
        for (auto& x : id) req(n[x.first] == Similarity::encodeNorm(1.0), "norm of a document");
    }
    if (what & RICH_POSTINGS) {
        static const wchar_t* W[] = {L"x", L"y"};
        for (int y = 0; y < 2; ++y) {
            TermPositionsPtr tp = r->termPositions(newLucene<Term>(L"p", W[y]));
            for (auto& x : id) {
                int i = x.second, n = (richLen(i) + 1 - y) / 2;
                if (!n) continue;
                req(tp->next() && tp->doc() == x.first && tp->freq() == n, "documents and frequencies of a term");
                int pos = -1;
                for (int k = 0; k < richLen(i); ++k) {
                    pos += 1 + (i + k) % 2;
                    if (k % 2 != y) continue;
                    req(tp->nextPosition() == pos, "position of an occurrence");
                    std::vector<int> v = richPayload(i, k);
                    req(tp->isPayloadAvailable() == !v.empty(), "payload is available where one was stored");
                    if (v.empty()) continue;
                    req(tp->getPayloadLength() == (int)v.size(), "payload length");
                    ByteArray b = tp->getPayload(ByteArray(), 0);
                    for (size_t j = 0; j < v.size(); ++j) req(b[(int)j] == v[j], "payload bytes");
                }
            }
            req(!tp->next(), "no further documents");
        }
        if (one || !c.omitTf) {
            TermDocsPtr td = r->termDocs(newLucene<Term>(L"u", L"k"));
            for (auto& x : id) req(td->next() && td->doc() == x.first && td->freq() == (c.omitTf ? 1 : 2), "frequencies of a field that may leave them out");
            req(!td->next(), "no further documents");
        }
    }
    if (what & RICH_VECTORS) for (auto& x : id) {
        int i = x.second;
        std::map<String, std::vector<int>> w;
        String t = richText(i);
        for (size_t k = 0; k < t.size(); k += 2) w[t.substr(k, 1)].push_back((int)k / 2);
        TermFreqVectorPtr v = r->getTermFreqVector(x.first, L"v");
        if (w.empty() || i == 4) { req(!v, "no vector where none was asked for"); continue; }
        req(v.get() && v->size() == (int)w.size(), "vector of a document");
        TermPositionVectorPtr p = boost::dynamic_pointer_cast<TermPositionVector>(v);
        bool pos = i != 1 && i != 3, off = i != 1 && i != 5;
        req(p.get() || i == 1, "a vector with positions or offsets is there");
        int k = 0;
        for (auto& y : w) {
            req(v->getTerms()[k] == y.first && v->getTermFrequencies()[k] == (int)y.second.size(), "terms and frequencies of a vector");
            Collection<int32_t> ps;
            Collection<TermVectorOffsetInfoPtr> os;
            if (p) { ps = p->getTermPositions(k); os = p->getOffsets(k); }
            req((ps.get() != NULL) == pos && (!pos || ps.size() == (int)y.second.size()), "number of positions of a vector");
            req((os.get() != NULL) == off && (!off || os.size() == (int)y.second.size()), "number of offsets of a vector");
            for (size_t j = 0; j < y.second.size(); ++j) {
                if (pos) req(ps[(int)j] == y.second[j], "positions of a vector");
                if (off) req(os[(int)j]->getStartOffset() == 2 * y.second[j] && os[(int)j]->getEndOffset() == 2 * y.second[j] + 1, "offsets of a vector");
            }
            ++k;
        }
    }
}
// any documents of any segment deleted, any way of merging
static inline void richMerging(int what) {
    const int N = 7;
    RichCfg c;
    c.shuffle = sx_choose("shuffle", 2);
    c.omitNorms = c.omitTf = sx_choose("omit", 2);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    int split = (int)sx_choose("split", TIER(2, 3)); // 5 and 2 documents; 2 and 5; 3, 3 and 1
    w->setMaxBufferedDocs(100);
    w->setMergeFactor(20);
    w->setUseCompoundFile(false);
    for (int i = 0; i < N; ++i) { w->addDocument(richDoc(i, c)); if (split == 0 ? i == 4 : split == 1 ? i == 1 : i % 3 == 2) w->commit(); }
    w->commit();
    std::vector<int> ids;
    for (int i = 0; i < N; ++i) if (i >= 1 && i <= TIER(4, 6) && sx_choose("delete", 2)) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(i))); else ids.push_back(i);
    DirectoryPtr result = dir;
    bool one = true;
    switch (sx_choose("merge", 4)) {
    case 0: w->optimize(); w->close(); break;
    case 1: w->expungeDeletes(); w->close(); one = false; break;
    case 2: { // all segments of an open reader into another index
        w->commit();
        IndexReaderPtr r = IndexReader::open(dir, true);
        verifyRich(r, ids, c, false, what);
        result = newLucene<RAMDirectory>();
        IndexWriterPtr x = openWriter(result, true);
        x->setUseCompoundFile(false);
        x->addIndexes(newCollection<IndexReaderPtr>(r));
        x->close();
        r->close(); w->close();
        break; }
    case 3: { // copied into an index that holds documents, then merged
        w->close();
        result = newLucene<RAMDirectory>();
        IndexWriterPtr x = openWriter(result, true);
        x->setMaxBufferedDocs(100);
        x->addDocument(richDoc(6, c)); x->addDocument(richDoc(0, c));
        x->addIndexesNoOptimize(newCollection<DirectoryPtr>(dir));
        ids.insert(ids.begin(), 0); ids.insert(ids.begin(), 6);
        x->optimize();
        x->close();
        break; }
    }
    IndexReaderPtr r = IndexReader::open(result, true);
    verifyRich(r, ids, c, one && r->maxDoc() > 0, what);
    r->close();
    sx_cover("merged");
}
