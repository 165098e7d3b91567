// C27: an index in memory of one document answers exactly as an ordinary index holding that document.
// groups: core contrib snowball
#include "stubq.h"
#include "MemoryIndex.h"
#include "TokenFilter.h"
#include "WhitespaceTokenizer.h"
#include "StringReader.h"
#include "PositionIncrementAttribute.h"
#include "TermVectorMapper.h"
#include "TermVectorOffsetInfo.h"
#include "TermPositionVector.h"
#include "TermFreqVector.h"
#include "TopDocs.h"
#include "ScoreDoc.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "TermRangeQuery.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "SpanFirstQuery.h"
#include "SpanNotQuery.h"
#include "DisjunctionMaxQuery.h"
#include "ConstantScoreQuery.h"
#include "QueryWrapperFilter.h"
#include "FieldInvertState.h"
// distances between successive tokens of field f (symbolic position increments)
static std::vector<int> gaps;
struct GapFilter : public TokenFilter {
    PositionIncrementAttributePtr inc; size_t k;
    GapFilter(const TokenStreamPtr& in) : TokenFilter(in), k(0) {}
    virtual void initialize() { inc = addAttribute<PositionIncrementAttribute>(); }
    virtual bool incrementToken() { if (!input->incrementToken()) return false; if (k < gaps.size()) inc->setPositionIncrement(gaps[k++]); return true; }
};
struct GapAnalyzer : public Analyzer {
    virtual TokenStreamPtr tokenStream(const String& f, const ReaderPtr& r) { TokenStreamPtr t = newLucene<WhitespaceTokenizer>(r); return f == L"f" ? TokenStreamPtr(newLucene<GapFilter>(t)) : t; }
};
static TermPtr T(const wchar_t* f, const wchar_t* t) { return newLucene<Term>(f, t); }
static QueryPtr tq(const wchar_t* f, const wchar_t* t) { return newLucene<TermQuery>(T(f, t)); }
static SpanQueryPtr sq(const wchar_t* t) { return newLucene<SpanTermQuery>(T(L"f", t)); }
static BooleanQueryPtr bq(const QueryPtr& a, BooleanClause::Occur x, const QueryPtr& b, BooleanClause::Occur y) { BooleanQueryPtr r = newLucene<BooleanQuery>(); r->add(a, x); r->add(b, y); return r; }
static const int NQ = 18;
static QueryPtr query(int k) {
    switch (k) {
    case 0: return tq(L"f", L"a");
    case 1: return bq(tq(L"f", L"a"), BooleanClause::MUST, tq(L"g", L"a"), BooleanClause::MUST);
    case 2: return bq(tq(L"f", L"a"), BooleanClause::SHOULD, tq(L"f", L"b"), BooleanClause::SHOULD);
    case 3: return bq(tq(L"f", L"a"), BooleanClause::MUST, tq(L"f", L"b"), BooleanClause::MUST_NOT);
    case 4: { PhraseQueryPtr p = newLucene<PhraseQuery>(); p->add(T(L"f", L"a")); p->add(T(L"f", L"b")); return p; }
    case 5: { PhraseQueryPtr p = newLucene<PhraseQuery>(); p->add(T(L"f", L"a")); p->add(T(L"f", L"b")); p->setSlop(2); return p; }
    case 6: { MultiPhraseQueryPtr p = newLucene<MultiPhraseQuery>(); p->add(newCollection<TermPtr>(T(L"f", L"a"), T(L"f", L"b"))); p->add(T(L"f", L"b")); return p; }
    case 7: return newLucene<PrefixQuery>(T(L"f", L"a"));
    case 8: return newLucene<WildcardQuery>(T(L"f", L"?b*"));
    case 9: return newLucene<FuzzyQuery>(T(L"f", L"ab"), 0.4, 0);
    case 10: return newLucene<TermRangeQuery>(L"f", L"a", L"b", false, true);
    case 11: { Collection<SpanQueryPtr> c = newCollection<SpanQueryPtr>(sq(L"a"), sq(L"b")); return newLucene<SpanNearQuery>(c, 1, true); }
    case 12: return newLucene<SpanFirstQuery>(sq(L"a"), 2);
    case 13: return newLucene<SpanNotQuery>(sq(L"a"), sq(L"b"));
    case 14: { DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(0.3); d->add(tq(L"f", L"a")); d->add(tq(L"g", L"b")); return d; }
    case 15: { QueryPtr q = newLucene<ConstantScoreQuery>(newLucene<QueryWrapperFilter>(tq(L"g", L"b"))); q->setBoost(3); return q; }
    case 16: { MultiTermQueryPtr q = newLucene<PrefixQuery>(T(L"f", L"b")); q->setRewriteMethod(MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE()); return q; }
    default: return bq(tq(L"h", L"a"), BooleanClause::SHOULD, tq(L"g", L"b"), BooleanClause::SHOULD);
    }
}
struct Both { MemoryIndexPtr mem; IndexSearcherPtr ms, os; IndexReaderPtr mr, orr; bool offs; };
static Both build(const String& f, const String& g, bool offs, double boost = 1.0) {
    Both b;
    b.offs = offs;
    AnalyzerPtr an = newLucene<GapAnalyzer>();
    b.mem = newLucene<MemoryIndex>(offs);
    bool gFirst = !g.empty() && sx_choose("order", 2);
    if (!g.empty() && gFirst) b.mem->addField(L"g", g, an);
    if (boost == 1.0) b.mem->addField(L"f", f, an); else b.mem->addField(L"f", an->tokenStream(L"f", newLucene<StringReader>(f)), boost);
    if (!g.empty() && !gFirst) b.mem->addField(L"g", g, an);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true, an);
    DocumentPtr d = newLucene<Document>();
    Field::TermVector tv = offs ? Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS : Field::TERM_VECTOR_WITH_POSITIONS;
    FieldPtr ff = newLucene<Field>(L"f", f, Field::STORE_NO, Field::INDEX_ANALYZED, tv);
    ff->setBoost(boost);
    d->add(ff);
    if (!g.empty()) d->add(newLucene<Field>(L"g", g, Field::STORE_NO, Field::INDEX_ANALYZED, tv));
    w->addDocument(d);
    w->close();
    b.ms = b.mem->createSearcher();
    b.mr = b.ms->getIndexReader();
    b.os = newLucene<IndexSearcher>(dir, true);
    b.orr = b.os->getIndexReader();
    return b;
}
static void sameSearch(const Both& b, const QueryPtr& q) {
    Hits h[2];
    for (int i = 0; i < 2; ++i) { boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(true); (i ? b.os : b.ms)->search(q, c); h[i] = c->h; }
    req(h[0].size() == h[1].size(), "the document in memory matches exactly when the indexed one does");
    if (!h[0].empty()) req(near(h[0][0], h[1][0]), "with the same score");
    double s = b.mem->search(q);
    req(h[1].empty() ? s == 0.0 : near(s, h[1][0]), "the one-call search returns the score, or 0 for no match");
}
// any text of both fields, any query: match and score agree
SX_ENTRY(searches) {
    String f, g;
    int n = TIER(3, 4);
    for (int i = 0; i < n; ++i) f += (wchar_t)(sx_bool("blank") ? L' ' : (wchar_t)sx_range("f", L'a', L'c'));
    gaps.clear();
    if (sx_choose("gaps", 2)) { gaps.push_back(1); f = L""; f += (wchar_t)sx_range("f", L'a', L'b'); f += L' '; f += (wchar_t)sx_range("f", L'a', L'b'); f += L" a b"; for (int i = 0; i < 2; ++i) gaps.push_back((int)sx_pick("gap", 0, 2)); }
    f += L" b"; // a text without tokens leaves no field
    g += (wchar_t)sx_range("g", L'a', L'b');
    Both b = build(f, g, false);
    int part = (int)sx_choose("part", 2);
    for (int k = part * 9; k < part * 9 + 9; ++k) sameSearch(b, query(k));
    sx_cover("searched");
}
// one letter a word, more words
SX_ENTRY(words) {
    String f;
    int n = TIER(4, 5);
    for (int i = 0; i < n; ++i) { if (i) f += L' '; f += (wchar_t)sx_range("f", L'a', L'b'); }
    gaps.clear();
    double boosts[] = {1.0, 2.5};
    Both b = build(f, sx_choose("g", 2) ? L"b a" : L"", sx_choose("offsets", 2), boosts[sx_choose("boost", 2)]);
    static const int Q[] = {0, 2, 4, 5, 6, 11, 12, 13, 17};
    for (int k : Q) sameSearch(b, query(k));
    sx_cover("searched");
}
// terms, frequencies, positions, seeks
SX_ENTRY(terms) {
    String f, g;
    for (int i = 0; i < 4; ++i) { f += i >= TIER(2, 3) ? L'b' : (wchar_t)sx_range("f", L'a', L'c'); if (i != 1) f += L' '; }
    g += (wchar_t)sx_range("g", TIER(L'b', L'a'), L'c'); g += L" a";
    gaps.clear();
    Both b = build(f, g, sx_choose("offsets", 2));
    samePostings(readPostings(b.mr), readPostings(b.orr));
    req(b.mr->numDocs() == 1 && b.mr->maxDoc() == 1 && !b.mr->hasDeletions() && !b.mr->isDeleted(0), "one live document");
    // seeking any term
    String t;
    t += (wchar_t)sx_range("seek", L'`', L'd');
    if (sx_choose("two", 2)) t += (wchar_t)sx_range("seek", L'a', L'c');
    static const wchar_t* FN[] = {L"", L"e", L"f", L"ff", L"g", L"h"};
    TermPtr term = newLucene<Term>(FN[sx_choose("field", 6)], t);
    TermEnumPtr x = b.mr->terms(term), y = b.orr->terms(term);
    for (;;) {
        TermPtr p = x->term(), q = y->term();
        req(!p == !q, "seeking reaches the same place");
        if (!p) break;
        req(p->equals(q), "seeking reaches the same term and walks on from there");
        req(x->docFreq() == y->docFreq(), "document frequency of the enumerated term");
        req(x->next() == y->next(), "the enumerations end together");
    }
    req(b.mr->docFreq(term) == b.orr->docFreq(term), "document frequency");
    TermDocsPtr u = b.mr->termDocs(term), v = b.orr->termDocs(term);
    bool m = v->next();
    req(u->next() == m, "the term's document");
    if (m) { req(u->doc() == v->doc() && u->freq() == v->freq(), "document and frequency"); req(!u->next(), "there is one document"); }
    u->seek(term);
    Collection<int32_t> docs = Collection<int32_t>::newInstance(4), freqs = Collection<int32_t>::newInstance(4);
    int n = u->read(docs, freqs);
    req(n == (m ? 1 : 0) && (!n || (docs[0] == 0 && freqs[0] == v->freq())), "bulk read");
    req(u->read(docs, freqs) == 0, "bulk read ends");
    u->seek(term);
    req(u->skipTo((int)sx_range("target", 0, 3)) == false || m, "skipping does not invent a document");
    sx_cover("terms");
}
// skipping past the document ends the list
SX_ENTRY(skip) {
    gaps.clear();
    String f;
    f += (wchar_t)sx_range("f", L'a', L'b'); f += L" a";
    Both b = build(f, L"", sx_choose("offsets", 2));
    TermDocsPtr u = b.mr->termDocs(T(L"f", L"a")), v = b.orr->termDocs(T(L"f", L"a"));
    int t = sx_range("target", 0, 3);
    req(u->skipTo(t) == v->skipTo(t), "skipping to a document beyond the last one ends the list");
    u = b.mr->termDocs(T(L"f", L"b")); // any term, then all documents
    u->seek(TermPtr());
    v = b.orr->termDocs(TermPtr());
    req(u->next() == v->next() && u->doc() == v->doc() && u->freq() == v->freq() && !u->next(), "all documents");
    TermPositionsPtr p = b.mr->termPositions();
    p->seek(T(L"f", L"a"));
    p->next();
    p->seek(TermPtr());
    req(p->next() && p->doc() == 0 && p->freq() == 1 && !p->next(), "all documents, after a term");
    sx_cover("skipped");
}
struct Recorder : public TermVectorMapper {
    std::map<String, std::pair<int, std::vector<int>>> v; int num; bool o, p; String fld;
    Recorder() : num(-1), o(false), p(false) {}
    virtual void setExpectations(const String& field, int32_t n, bool so, bool sp) { fld = field; num = n; o = so; p = sp; }
    virtual void map(const String& term, int32_t freq, Collection<TermVectorOffsetInfoPtr> offs, Collection<int32_t> pos) {
        std::pair<int, std::vector<int>> e(freq, std::vector<int>());
        if (p) { req(pos && pos.size() == freq, "the mapper gets one position for each occurrence"); for (int i = 0; i < pos.size(); ++i) e.second.push_back(pos[i]); }
        if (o) { req(offs && offs.size() == freq, "the mapper gets one pair of offsets for each occurrence"); for (int i = 0; i < offs.size(); ++i) { e.second.push_back(offs[i]->getStartOffset()); e.second.push_back(offs[i]->getEndOffset()); } }
        req(!v.count(term), "a term is mapped once");
        v[term] = e;
    }
};
// term vectors: terms, frequencies, positions, offsets, through both interfaces
SX_ENTRY(vectors) {
    String f;
    for (int i = 0; i < TIER(4, 5); ++i) { f += (wchar_t)sx_range("f", L'a', L'c'); if (i % 2 == 0) f += L' '; }
    gaps.clear();
    if (sx_choose("gaps", 2)) { gaps.push_back(1); gaps.push_back((int)sx_pick("gap", 0, 2)); }
    bool offs = sx_choose("offsets", 2);
    Both b = build(f, L"", offs);
    TermFreqVectorPtr x = b.mr->getTermFreqVector(0, L"f"), y = b.orr->getTermFreqVector(0, L"f");
    req(x && y && x->size() == y->size() && x->getField() == y->getField(), "the vector has the document's terms");
    Collection<String> tx = x->getTerms(), ty = y->getTerms();
    Collection<int32_t> fx = x->getTermFrequencies(), fy = y->getTermFrequencies();
    TermPositionVectorPtr px = boost::dynamic_pointer_cast<TermPositionVector>(x), py = boost::dynamic_pointer_cast<TermPositionVector>(y);
    req(px && py, "vectors hold positions");
    for (int i = 0; i < x->size(); ++i) {
        req(tx[i] == ty[i] && fx[i] == fy[i], "terms in order and their frequencies");
        req(x->indexOf(tx[i]) == i, "a term is found at its place");
        Collection<int32_t> a = px->getTermPositions(i), c = py->getTermPositions(i);
        req(a.size() == c.size(), "one position for each occurrence");
        for (int k = 0; k < a.size(); ++k) req(a[k] == c[k], "positions");
        if (offs) {
            Collection<TermVectorOffsetInfoPtr> o = px->getOffsets(i), e = py->getOffsets(i);
            req(o.size() == e.size(), "offsets for each occurrence");
            for (int k = 0; k < o.size(); ++k) req(o[k]->getStartOffset() == e[k]->getStartOffset() && o[k]->getEndOffset() == e[k]->getEndOffset(), "offsets");
        } else req(!px->getOffsets(i), "no offsets were asked for");
    }
    req(x->indexOf(L"zz") == -1, "a missing term has no place");
    boost::shared_ptr<Recorder> r = newLucene<Recorder>(), s = newLucene<Recorder>();
    if (sx_choose("byfield", 2)) { b.mr->getTermFreqVector(0, L"f", r); b.orr->getTermFreqVector(0, L"f", s); }
    else { b.mr->getTermFreqVector(0, r); b.orr->getTermFreqVector(0, s); }
    req(r->num == s->num && r->o == s->o && r->p == s->p && r->fld == s->fld, "the mapper is told what to expect");
    req(r->v == s->v, "the mapper gets the same vector");
    sx_cover("vectors");
}
// norms: the length norm of any number of tokens, overlaps and boosts
SX_ENTRY(norms) {
    int n = (int)sx_choose("tokens", TIER(7, 12)) + 1;
    String f;
    for (int i = 0; i < n; ++i) { if (i) f += L' '; f += i > 1 ? L'a' : (wchar_t)sx_range("f", L'a', L'b'); }
    gaps.clear();
    gaps.push_back(1);
    for (int i = 1; i < n; ++i) gaps.push_back(sx_choose("overlap", 2) ? 0 : 1);
    if (n > 4) sx_assume(gaps[1] == gaps[3]);
    if (n > 5) for (int i = 5; i < n; ++i) sx_assume(gaps[i] == gaps[i - 2]);
    static const double B[] = {1.0, 0.3, 7.0};
    Both b = build(f, L"a", false, B[sx_choose("boost", 3)]);
    if (sx_choose("other", 2)) b.mr->norms(L"g"); // asked before
    req(b.mr->norms(L"f")[0] == b.orr->norms(L"f")[0], "length norm of the field");
    req(b.mr->norms(L"g")[0] == b.orr->norms(L"g")[0], "length norm of the other field");
    ByteArray a = ByteArray::newInstance(3);
    a[0] = a[1] = a[2] = 7;
    b.mr->norms(L"f", a, 1);
    req(a[0] == 7 && a[2] == 7 && a[1] == b.orr->norms(L"f")[0], "norm copied to its place");
    sx_cover("norms");
}
// what is not allowed is refused and leaves the index as it was
SX_ENTRY(refused) {
    gaps.clear();
    MemoryIndexPtr m = newLucene<MemoryIndex>(false);
    AnalyzerPtr an = newLucene<WhitespaceAnalyzer>();
    String f;
    f += (wchar_t)sx_range("f", L'a', L'c');
    m->addField(L"f", f, an);
    bool was = m->search(tq(L"f", L"b")) > 0;
    req(was == (f[0] == L'b'), "found exactly when the text has it");
    switch (sx_choose("bad", 6)) {
    case 0: req(THROWS(m->addField(L"f", L"b", an)), "a field twice"); break;
    case 1: req(THROWS(m->addField(L"", L"b", an)), "no name"); break;
    case 2: req(THROWS(m->addField(L"g", L"", an)), "no text"); break;
    case 3: req(THROWS(m->addField(L"g", L"b", AnalyzerPtr())), "no analyzer"); break;
    case 4: req(THROWS(m->addField(L"g", an->tokenStream(L"g", newLucene<StringReader>(L"b")), -1.0)), "a negative boost"); break;
    default: m->addField(L"g", L"  ", an); req(!m->createSearcher()->getIndexReader()->getFieldNames(IndexReader::FIELD_OPTION_ALL).contains(L"g"), "a text without tokens leaves no field"); break;
    }
    req((m->search(tq(L"f", L"b")) > 0) == was && m->search(tq(L"g", L"b")) == 0, "the index is as it was");
    m->addField(L"g", f, an);
    req((m->search(tq(L"g", L"b")) > 0) == was, "and takes further fields");
    sx_cover("refused");
}
