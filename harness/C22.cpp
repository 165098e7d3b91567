// C22: filters restrict a search to exactly their documents, however they are applied, wrapped or cached.
#include "stubq.h"
#include "faultdir.h"
#include "Filter.h"
#include "DocIdSet.h"
#include "DocIdBitSet.h"
#include "OpenBitSet.h"
#include "OpenBitSetDISI.h"
#include "SortedVIntList.h"
#include "BitSet.h"
#include "QueryWrapperFilter.h"
#include "CachingWrapperFilter.h"
#include "CachingSpanFilter.h"
#include "SpanQueryFilter.h"
#include "SpanFilterResult.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "FilteredQuery.h"
#include "ConstantScoreQuery.h"
#include "MatchAllDocsQuery.h"
#include "PrefixFilter.h"
#include "TermRangeFilter.h"
#include "FieldCacheTermsFilter.h"
#include "FieldCacheRangeFilter.h"
#include "TopScoreDocCollector.h"
#include "TopDocs.h"
#include "ScoreDoc.h"
struct VecIter : public DocIdSetIterator {
    std::vector<int> d; int k;
    VecIter(const std::vector<int>& v) : d(v), k(-1) {}
    virtual int32_t docID() { return k < 0 ? -1 : k < (int)d.size() ? d[k] : NO_MORE_DOCS; }
    virtual int32_t nextDoc() { if (k < (int)d.size()) ++k; return docID(); }
    virtual int32_t advance(int32_t t) { while (nextDoc() < t) {} return docID(); }
};
struct VecSet : public DocIdSet {
    std::vector<int> d; bool cache, nullIter;
    VecSet(const std::vector<int>& v, bool c, bool n) : d(v), cache(c), nullIter(n) {}
    virtual DocIdSetIteratorPtr iterator() { if (nullIter) return DocIdSetIteratorPtr(); return newLucene<VecIter>(d); }
    virtual bool isCacheable() { return cache; }
};
// a filter with chosen documents in one of the forms a filter may answer with
struct MaskFilter : public Filter {
    std::vector<int> d; int form, calls;
    MaskFilter(const std::vector<int>& v, int f) : d(v), form(f), calls(0) {}
    virtual DocIdSetPtr getDocIdSet(const IndexReaderPtr& r) {
        ++calls;
        switch (form) {
        case 0: { OpenBitSetPtr b = newLucene<OpenBitSet>(r->maxDoc()); for (int x : d) b->set((int64_t)x); return b; }
        case 1: return newLucene<VecSet>(d, false, false);
        case 2: if (d.empty()) return DocIdSetPtr(); return newLucene<VecSet>(d, true, false);
        case 3: return newLucene<VecSet>(d, false, d.empty());
        case 4: { BitSetPtr b = newLucene<BitSet>(r->maxDoc()); for (int x : d) b->set((uint32_t)x); return newLucene<DocIdBitSet>(b); }
        default: return newLucene<SortedVIntList>(newLucene<VecIter>(d));
        }
    }
    virtual String toString() { return L"mask"; }
};
static std::vector<int> symDocs(const char* name, int n) {
    uint8_t m = sx_u8(name);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) if (m >> i & 1) v.push_back(i);
    return v;
}
static Hits top(const SearcherPtr& s, const QueryPtr& q, const FilterPtr& f) {
    Hits h;
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(true);
    s->search(q, f, c);
    TopDocsPtr t = s->search(q, f, 50);
    req(t->totalHits == (int)c->h.size(), "number of hits");
    for (int i = 0; i < t->scoreDocs.size(); ++i) req(c->h.count(t->scoreDocs[i]->doc) && near(c->h[t->scoreDocs[i]->doc], t->scoreDocs[i]->score), "hits");
    return c->h;
}
static const int N = TIER(3, 4);
static IndexReaderPtr blank(int n) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    for (int i = 0; i < n; ++i) w->addDocument(MDoc(StringUtils::toString(i)).make());
    w->close();
    return IndexReader::open(dir, true);
}
// all ways of applying a filter: chosen documents of query and filter, chosen form of the answer
SX_ENTRY(ways) {
    IndexReaderPtr r = blank(N);
    SearcherPtr s = newLucene<IndexSearcher>(r);
    std::vector<int> q = symDocs("query", N), f = symDocs("filter", N);
    int way = (int)sx_choose("way", 8), form = (int)sx_choose("form", 6);
    boost::shared_ptr<MaskFilter> mf = newLucene<MaskFilter>(f, form);
    FilterPtr flt = mf;
    boost::shared_ptr<StubQuery> sq = newLucene<StubQuery>(q, 2.0);
    std::vector<int> both;
    for (int x : q) for (int y : f) if (x == y) both.push_back(x);
    Hits want, got;
    for (int d : both) want[d] = 2.0 + d % stubMod;
    switch (way) {
    case 0: got = top(s, sq, flt); break;
    case 1: got = top(s, newLucene<FilteredQuery>(sq, flt), FilterPtr()); break;
    case 2: { FilterPtr c = newLucene<CachingWrapperFilter>(flt); got = top(s, sq, c); sameHits(got, want); req(mf->calls <= 1, "a cached filter is not asked again"); got = top(s, newLucene<FilteredQuery>(sq, c), FilterPtr()); break; }
    case 3: { // as the constant-score part of a conjunction
        BooleanQueryPtr b = newLucene<BooleanQuery>(true);
        b->add(sq, BooleanClause::MUST); b->add(newLucene<ConstantScoreQuery>(flt), BooleanClause::MUST);
        got = top(s, b, FilterPtr()); sameHits(got, want, false); sx_cover("ways"); return; }
    case 4: { // an exclusion
        BooleanQueryPtr b = newLucene<BooleanQuery>(true);
        b->add(sq, BooleanClause::MUST); b->add(newLucene<ConstantScoreQuery>(flt), BooleanClause::MUST_NOT);
        got = top(s, b, FilterPtr()); Hits w2; for (int d : q) if (!want.count(d)) w2[d] = 0; sameHits(got, w2, false); sx_cover("ways"); return; }
    case 5: { FilterPtr o = newLucene<QueryWrapperFilter>(sq); QueryPtr c = newLucene<ConstantScoreQuery>(flt); c->setBoost(3); got = top(s, c, o); sameHits(got, want, false);
        for (auto& x : got) req(near(x.second, got.begin()->second), "constant score"); sx_cover("ways"); return; }
    case 6: got = top(s, newLucene<FilteredQuery>(sq, flt), newLucene<QueryWrapperFilter>(newLucene<FilteredQuery>(sq, flt))); break;
    default: { FilterPtr c = newLucene<CachingWrapperFilter>(newLucene<QueryWrapperFilter>(sq)); got = top(s, newLucene<FilteredQuery>(newLucene<FilteredQuery>(sq, flt), c), c); break; }
    }
    sameHits(got, want);
    if (way == 1) {
        QueryPtr fq = newLucene<FilteredQuery>(sq, flt);
        for (int d = 0; d < N; ++d) { ExplanationPtr e = s->explain(fq, d); req(want.count(d) ? near(e->getValue(), want[d]) : e->getValue() == 0, "explanation of a filtered query"); }
    }
    sx_cover("ways");
}
// iteration of a filtered query and of a constant-score query by nextDoc and advance
SX_ENTRY(stepping) {
    const int M = TIER(4, 6);
    IndexReaderPtr r = blank(M);
    SearcherPtr s = newLucene<IndexSearcher>(r);
    std::vector<int> q = symDocs("query", M), f = symDocs("filter", M);
    QueryPtr x = newLucene<FilteredQuery>(newLucene<StubQuery>(q, 1.0), newLucene<MaskFilter>(f, (int)sx_choose("form", 2) * 5));
    if (sx_choose("constant", 2)) { x = newLucene<ConstantScoreQuery>(newLucene<MaskFilter>(f, 0)); q.clear(); for (int i = 0; i < M; ++i) q.push_back(i); }
    WeightPtr w = x->weight(s);
    Hits all = runNext(w, r);
    std::set<int> want;
    for (int a : q) for (int b : f) if (a == b) want.insert(a);
    req(want.size() == all.size(), "exactly the documents of both");
    for (auto& h : all) req(want.count(h.first), "exactly the documents of both");
    std::vector<int> targets;
    for (int i = 0; i <= M; ++i) targets.push_back(i);
    runMixed(w, r, all, targets, TIER(1, 2));
    sx_cover("stepping");
}
// caching across deletions and reopening
SX_ENTRY(caching) {
    FaultDirPtr dir = newLucene<FaultDir>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(2); w->setMergeFactor(10);
    int texts = (int)sx_choose("texts", TIER(2, 8)) * TIER(3, 1) + TIER(2, 0);
    auto body = [&](int i) { return String(texts >> (2 - i % 3) & 1 ? L"a b" : L"b c"); };
    std::vector<MDoc> live;
    int next = 0;
    auto add = [&]() { MDoc d(StringUtils::toString(next)); d.add(L"b", body(next), F_BODY); d.add(L"n", body(next)[0] == L'a' ? L"0" : L"1", F_ID); d.add(L"s", body(next)[0] == L'a' ? L"y" : L"x", F_ID); w->addDocument(d.make()); live.push_back(d); ++next; };
    for (int i = 0; i < 3; ++i) add();
    w->commit();
    int mode = (int)sx_choose("deletes", 3), kind = (int)sx_choose("kind", 8);
    CachingWrapperFilter::DeletesMode modes[] = {CachingWrapperFilter::DELETES_IGNORE, CachingWrapperFilter::DELETES_RECACHE, CachingWrapperFilter::DELETES_DYNAMIC};
    FilterPtr plain;
    SpanQueryPtr sp = newLucene<SpanTermQuery>(newLucene<Term>(L"b", L"a"));
    switch (kind) {
    case 0: plain = newLucene<QueryWrapperFilter>(newLucene<TermQuery>(newLucene<Term>(L"b", L"a"))); break;
    case 1: plain = newLucene<TermRangeFilter>(L"b", L"a", L"a", true, true); break;
    case 2: plain = newLucene<PrefixFilter>(newLucene<Term>(L"b", L"a")); break;
    case 3: plain = newLucene<QueryWrapperFilter>(newLucene<FilteredQuery>(newLucene<MatchAllDocsQuery>(), newLucene<PrefixFilter>(newLucene<Term>(L"b", L"a")))); break;
    case 5: plain = FieldCacheRangeFilter::newIntRange(L"n", 0, 0, true, true); break;
    case 6: plain = FieldCacheRangeFilter::newStringRange(L"s", L"y", L"y", true, true); break;
    case 7: plain = newLucene<FieldCacheTermsFilter>(L"s", newCollection<String>(L"y", L"q")); break;
    default: plain = newLucene<SpanQueryFilter>(sp); break;
    }
    FilterPtr cached;
    if (kind == 4) { if (mode == 2) sx_stop(); cached = newLucene<CachingSpanFilter>(boost::dynamic_pointer_cast<SpanFilter>(plain), modes[mode]); }
    else cached = newLucene<CachingWrapperFilter>(plain, modes[mode]);
    IndexReaderPtr r = IndexReader::open(dir, true);
    std::vector<IndexReaderPtr> old;
    for (int i = 0; i < TIER(2, 4); ++i) {
        auto check = [&](const IndexReaderPtr& rd) {
            SearcherPtr s = newLucene<IndexSearcher>(rd);
            Hits want = top(s, newLucene<TermQuery>(newLucene<Term>(L"b", L"a")), FilterPtr());
            sameHits(top(s, newLucene<MatchAllDocsQuery>(), cached), want, false);
            sameHits(top(s, newLucene<TermQuery>(newLucene<Term>(L"b", L"b")), cached), want, false);
            sameHits(top(s, newLucene<FilteredQuery>(newLucene<TermQuery>(newLucene<Term>(L"b", L"b")), plain), FilterPtr()), want, false);
            if (mode && (kind < 5 || !rd->hasDeletions())) sameHits(top(s, newLucene<ConstantScoreQuery>(cached), FilterPtr()), want, false);
        };
        check(r);
        for (auto& o : old) check(o);
        int op = (int)sx_choose("op", 4);
        if (op == 0) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(i)));
        if (op == 1) add();
        if (op == 2) { w->deleteDocuments(newLucene<Term>(L"id", L"2")); add(); }
        w->commit();
        IndexReaderPtr n = op == 3 ? boost::dynamic_pointer_cast<IndexReader>(r->clone(true)) : r->reopen();
        if (n != r) { if (sx_choose("keep", 2)) old.push_back(r); else { r->close(); r.reset(); } r = n; }
    }
    r->close();
    for (auto& o : old) o->close();
    w->close();
    req(dir->handles == 0, "all files are closed");
    sx_cover("caching");
}
// filters over the field cache, applied through a constant-score query after a deletion (see known_findings.json)
SX_ENTRY(fieldcache_deleted) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    for (int i = 0; i < 3; ++i) w->addDocument(MDoc(StringUtils::toString(i)).add(L"s", i == 2 ? L"x" : L"y", F_ID).make());
    w->commit();
    bool terms = sx_choose("terms", 2);
    FilterPtr f = FieldCacheRangeFilter::newStringRange(L"s", L"y", L"y", true, true);
    if (terms) f = newLucene<FieldCacheTermsFilter>(L"s", newCollection<String>(L"y"));
    IndexReaderPtr r = IndexReader::open(dir, true);
    req(top(newLucene<IndexSearcher>(r), newLucene<ConstantScoreQuery>(f), FilterPtr()).size() == 2, "both documents");
    int gone = (int)sx_choose("deleted", 3);
    w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(gone)));
    w->commit();
    IndexReaderPtr n = r->reopen();
    Hits h = top(newLucene<IndexSearcher>(n), newLucene<ConstantScoreQuery>(f), FilterPtr());
    Hits fq = top(newLucene<IndexSearcher>(n), newLucene<FilteredQuery>(newLucene<MatchAllDocsQuery>(), f), FilterPtr());
    req(fq.size() == (gone < 2 ? 1 : 2) && !fq.count(gone), "a filtered query names live documents only");
    for (auto& x : h) if (x.first == gone) req(false, "a constant-score query over a field cache filter names a deleted document");
    for (int d = 0; d < 2; ++d) if (d != gone) req(h.count(d), "live documents of the filter");
    req(!h.count(2), "only documents of the filter");
    sx_cover("fieldcache_deleted");
}
// sparse documents with symbolic numbers: the conjunction of query and filter by leapfrogging
struct SymIter : public DocIdSetIterator {
    const int* d; int n, k;
    SymIter(const int* v, int c) : d(v), n(c), k(-1) {}
    virtual int32_t docID() { return k < 0 ? -1 : k < n ? d[k] : NO_MORE_DOCS; }
    virtual int32_t nextDoc() { if (k < n) ++k; return docID(); }
    virtual int32_t advance(int32_t t) { while (nextDoc() < t) {} return docID(); }
};
struct SymSet : public DocIdSet {
    const int* d; int n;
    SymSet(const int* v, int c) : d(v), n(c) {}
    virtual DocIdSetIteratorPtr iterator() { return newLucene<SymIter>(d, n); }
};
struct SymFilter : public Filter {
    const int* d; int n; bool sorted;
    SymFilter(const int* v, int c, bool s) : d(v), n(c), sorted(s) {}
    virtual DocIdSetPtr getDocIdSet(const IndexReaderPtr&) { if (sorted) return newLucene<SortedVIntList>(newLucene<SymIter>(d, n)); return newLucene<SymSet>(d, n); }
    virtual String toString() { return L"sym"; }
};
SX_ENTRY(leapfrog) {
    IndexReaderPtr r = blank(1);
    SearcherPtr s = newLucene<IndexSearcher>(r);
    const int LIM = 1 << 28;
    int nq = 1 + (int)sx_choose("query_docs", TIER(2, 3)), nf = 1 + (int)sx_choose("filter_docs", TIER(2, 3));
    int q[3], f[3];
    for (int i = 0; i < nq; ++i) { q[i] = (int)sx_range("q", 0, LIM); if (i) sx_assume(q[i] > q[i - 1]); }
    for (int i = 0; i < nf; ++i) { f[i] = (int)sx_range("f", 0, LIM); if (i) sx_assume(f[i] > f[i - 1]); }
    QueryPtr x = newLucene<FilteredQuery>(newLucene<StubQuery>(std::vector<int>(q, q + nq), 1.0), newLucene<SymFilter>(f, nf, sx_choose("sorted", 2)));
    stubMod = 1;
    WeightPtr w = x->weight(s);
    ScorerPtr sc = w->scorer(r, true, false);
    bool adv = sx_choose("advance", 2);
    int t = adv ? (int)sx_range("target", 0, LIM) : 0, d = adv ? sc->advance(t) : sc->nextDoc(), last = -1;
    for (int k = 0; k < 4; ++k) {
        // d is the first common document at or after t that follows the last one
        bool common = false;
        for (int i = 0; i < nq; ++i) for (int j = 0; j < nf; ++j) {
            sx_assert(!(q[i] == f[j] && q[i] >= t && q[i] > last && q[i] < d), "no common document is passed over");
            common = common || (q[i] == f[j] && q[i] == d);
        }
        sx_assert(d == DocIdSetIterator::NO_MORE_DOCS || (common && d > last && d >= t), "only common documents are returned");
        req(sc->docID() == d, "docID is the returned document");
        if (d == DocIdSetIterator::NO_MORE_DOCS) break;
        last = d;
        d = sc->nextDoc();
    }
    sx_cover("leapfrog");
}
// positions reported by a span filter are those of the matching spans
SX_ENTRY(span_positions) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    static const wchar_t* W[] = {L"a", L"b", L"c"};
    std::vector<std::vector<int> > toks(3);
    for (int d = 0; d < 3; ++d) {
        String t;
        int n = d == 1 ? TIER(3, 4) : 2;
        for (int i = 0; i < n; ++i) { int x = (int)sx_choose("word", d == 1 ? 3 : 2); toks[d].push_back(x); t += String(i ? L" " : L"") + W[x]; }
        w->addDocument(MDoc(StringUtils::toString(d)).add(L"b", t, F_BODY).make());
    }
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    bool near2 = sx_choose("near", 2);
    SpanQueryPtr q = newLucene<SpanTermQuery>(newLucene<Term>(L"b", L"a"));
    if (near2) q = newLucene<SpanNearQuery>(newCollection<SpanQueryPtr>(q, newLucene<SpanTermQuery>(newLucene<Term>(L"b", L"b"))), 0, true);
    SpanFilterPtr f = newLucene<SpanQueryFilter>(q);
    if (sx_choose("cached", 2)) { f = newLucene<CachingSpanFilter>(f); f->bitSpans(r); }
    SpanFilterResultPtr res = f->bitSpans(r);
    Collection<PositionInfoPtr> p = res->getPositions();
    DocIdSetIteratorPtr it = res->getDocIdSet()->iterator();
    int k = 0;
    for (int d = 0; d < 3; ++d) {
        std::vector<std::pair<int, int> > want;
        for (size_t i = 0; i < toks[d].size(); ++i) if (toks[d][i] == 0 && (!near2 || (i + 1 < toks[d].size() && toks[d][i + 1] == 1))) want.push_back(std::make_pair((int)i, (int)i + (near2 ? 2 : 1)));
        if (want.empty()) continue;
        req(it->nextDoc() == d, "exactly the documents with a span");
        req(k < p.size() && p[k]->getDoc() == d, "positions for every matching document");
        Collection<StartEndPtr> se = p[k++]->getPositions();
        req(se.size() == (int)want.size(), "every span is reported once");
        for (int i = 0; i < se.size(); ++i) req(se[i]->getStart() == want[i].first && se[i]->getEnd() == want[i].second, "start and end of a span");
    }
    req(it->nextDoc() == DocIdSetIterator::NO_MORE_DOCS && k == p.size(), "no other documents");
    sx_cover("span_positions");
}
