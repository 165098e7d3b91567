// An index reader whose postings (documents, positions) are supplied by the harness and may be symbolic.
#pragma once
#include "stubq.h"
#include "FilterIndexReader.h"
struct Posting { int doc; std::vector<int> pos; };
typedef std::vector<Posting> Postings;
typedef std::map<std::pair<String, String>, Postings> Post;
struct SymTP : public TermPositions, public LuceneObject {
    const Post& all; Postings p; int k, q;
    SymTP(const Post& a) : all(a), k(-1), q(0) {}
    virtual void seek(const TermPtr& t) { p.clear(); if (t) { auto it = all.find(std::make_pair(t->field(), t->text())); if (it != all.end()) p = it->second; } k = -1; q = 0; }
    virtual void seek(const TermEnumPtr& e) { seek(e->term()); }
    virtual int32_t doc() { req(k >= 0 && k < (int)p.size(), "postings are read while positioned"); return p[k].doc; }
    virtual int32_t freq() { req(k >= 0 && k < (int)p.size(), "postings are read while positioned"); return (int)p[k].pos.size(); }
    virtual bool next() { q = 0; if (k < (int)p.size()) ++k; return k < (int)p.size(); }
    virtual int32_t read(Collection<int32_t>& docs, Collection<int32_t>& freqs) { int n = 0; while (n < docs.size() && next()) { docs[n] = doc(); freqs[n] = freq(); ++n; } return n; }
    virtual bool skipTo(int32_t t) { do { if (!next()) return false; } while (t > doc()); return true; }
    virtual void close() {}
    virtual int32_t nextPosition() { req(k >= 0 && k < (int)p.size() && q < (int)p[k].pos.size(), "no more positions are read than the frequency"); return p[k].pos[q++]; }
    virtual int32_t getPayloadLength() { return 0; }
    virtual ByteArray getPayload(ByteArray data, int32_t) { return data; }
    virtual bool isPayloadAvailable() { return false; }
};
struct SymReader : public FilterIndexReader {
    Post post; int maxd;
    SymReader(const IndexReaderPtr& r, int m) : FilterIndexReader(r), maxd(m) {}
    virtual int32_t maxDoc() { return maxd; }
    virtual int32_t numDocs() { return maxd; }
    virtual bool isDeleted(int32_t) { return false; }
    virtual bool hasDeletions() { return false; }
    virtual bool hasNorms(const String&) { return false; }
    virtual ByteArray norms(const String&) { return ByteArray(); }
    virtual int32_t docFreq(const TermPtr& t) { auto it = post.find(std::make_pair(t->field(), t->text())); return it == post.end() ? 0 : (int)it->second.size(); }
    virtual TermDocsPtr termDocs(const TermPtr& t) { boost::shared_ptr<SymTP> r = newLucene<SymTP>(boost::ref(post)); r->seek(t); return r; }
    virtual TermDocsPtr termDocs() { return newLucene<SymTP>(boost::ref(post)); }
    virtual TermPositionsPtr termPositions() { return newLucene<SymTP>(boost::ref(post)); }
    virtual Collection<IndexReaderPtr> getSequentialSubReaders() { return Collection<IndexReaderPtr>(); }
};
// similarity under which a score is the phrase or term frequency
struct FlatSim : public Similarity {
    virtual double computeNorm(const String&, const FieldInvertStatePtr&) { return 1; }
    virtual double lengthNorm(const String&, int32_t) { return 1; }
    virtual double queryNorm(double) { return 1; }
    virtual double tf(int32_t f) { return f; }
    virtual double tf(double f) { return f; }
    virtual double sloppyFreq(int32_t) { return 1; }
    virtual double idf(int32_t, int32_t) { return 1; }
    virtual double coord(int32_t, int32_t) { return 1; }
};
static inline IndexReaderPtr oneDocReader() {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    MDoc d(L"a"); w->addDocument(d.make());
    w->close();
    return IndexReader::open(dir, true);
}
