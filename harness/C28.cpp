// C28: several indexes searched or read together behave as one index holding all their documents (or all their fields).
#include "stubq.h"
#include "VariantUtils.h"
#include "DefaultSimilarity.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "MultiSearcher.h"
#include "ParallelMultiSearcher.h"
#include "FilterIndexReader.h"
#include "TopDocs.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"
#include "ScoreDoc.h"
#include "Sort.h"
#include "SortField.h"
#include "PhraseQuery.h"
#include "PrefixQuery.h"
#include "FuzzyQuery.h"
#include "TermRangeQuery.h"
#include "MatchAllDocsQuery.h"
#include "QueryWrapperFilter.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "DisjunctionMaxQuery.h"
#include "ConstantScoreQuery.h"
#include "TermFreqVector.h"
static const wchar_t* TX[] = {L"a b c", L"b c", L"a a b", L"c", L"ab b a c", L"b", L"a", L"c b a"};
static String free3, free5;          // symbolic texts of two documents
static MDoc doc(int i) {
    MDoc d(StringUtils::toString(i));
    d.add(L"f", i == 3 && !free3.empty() ? free3 : i == 5 && !free5.empty() ? free5 : String(TX[i % 8]), F_TEXT | F_TV);
    if (i % 2) d.add(L"g", i % 3 ? L"x y" : L"y z");
    d.add(L"k", StringUtils::toString(i * 5 % 7), F_INDEX);
    d.add(L"par", StringUtils::toString(i / 2 % 2), F_INDEX);
    return d;
}
static DirectoryPtr make(const std::vector<int>& ids, int bad, int buffered = 100) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(buffered < 2 ? 2 : buffered);
    w->setMergeFactor(20);
    for (int i : ids) w->addDocument(doc(i).make());
    if (bad >= 0) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(bad)));
    w->close();
    return dir;
}
// how documents are divided: one bit string of boundaries
static std::vector<std::vector<int>> divide(int n, bool empties) {
    std::vector<std::vector<int>> r(1);
    for (int i = 0; i < n; ++i) { r.back().push_back(i); if (i + 1 < n && (i == 0 || i == 2 || i == 3) && sx_choose("cut", 2)) { r.push_back(std::vector<int>()); } }
    if (empties) { int at = (int)sx_choose("empty", 4); if (at == 1) r.insert(r.begin(), std::vector<int>()); if (at == 2) r.push_back(std::vector<int>()); if (at == 3 && r.size() > 1) r.insert(r.begin() + 1, std::vector<int>()); }
    return r;
}
static QueryPtr tq(const wchar_t* f, const wchar_t* t) { return newLucene<TermQuery>(newLucene<Term>(f, t)); }
static QueryPtr query(int k) {
    switch (k) {
    case 0: return tq(L"f", L"a");
    case 1: { BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(tq(L"f", L"a"), BooleanClause::SHOULD); b->add(tq(L"g", L"y"), BooleanClause::SHOULD); b->add(tq(L"f", L"c"), BooleanClause::SHOULD); return b; }
    case 2: { PhraseQueryPtr p = newLucene<PhraseQuery>(); p->add(newLucene<Term>(L"f", L"b")); p->add(newLucene<Term>(L"f", L"c")); return p; }
    case 3: return newLucene<PrefixQuery>(newLucene<Term>(L"f", L"a"));
    case 4: { BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(tq(L"f", L"b"), BooleanClause::MUST); b->add(tq(L"g", L"z"), BooleanClause::MUST_NOT); b->add(newLucene<PrefixQuery>(newLucene<Term>(L"k", L"")), BooleanClause::SHOULD); return b; }
    case 5: return newLucene<MatchAllDocsQuery>();
    case 6: { Collection<SpanQueryPtr> c = Collection<SpanQueryPtr>::newInstance(); c.add(newLucene<SpanTermQuery>(newLucene<Term>(L"f", L"c"))); c.add(newLucene<SpanTermQuery>(newLucene<Term>(L"f", L"b"))); return newLucene<SpanNearQuery>(c, 1, false); }
    case 7: { DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(0.1); d->add(tq(L"f", L"c")); d->add(tq(L"g", L"x")); return d; }
    case 8: return newLucene<FuzzyQuery>(newLucene<Term>(L"f", L"aa"), 0.3, 0);
    case 9: { BooleanQueryPtr b = newLucene<BooleanQuery>(true); b->add(tq(L"f", L"a"), BooleanClause::MUST); b->add(tq(L"f", L"c"), BooleanClause::MUST); b->add(newLucene<PrefixQuery>(newLucene<Term>(L"g", L"x")), BooleanClause::SHOULD); return b; }
    default: return newLucene<TermRangeQuery>(L"k", L"1", L"4", true, false);
    }
}
static const int NQ = 11;
struct OtherSimilarity : public DefaultSimilarity { // as the user may set one
    virtual double idf(int32_t docFreq, int32_t numDocs) { return 1.0 + numDocs - docFreq; }
    virtual double tf(double freq) { return freq; }
    virtual double coord(int32_t overlap, int32_t maxOverlap) { return 1.0 + overlap; }
};
static SortPtr sorting() {
    switch (sx_choose("sort", 6)) {
    case 0: return newLucene<Sort>(newLucene<SortField>(L"k", SortField::STRING, true));
    case 1: return newLucene<Sort>(newLucene<SortField>(L"", SortField::DOC, true));
    case 2: return newLucene<Sort>(newCollection<SortFieldPtr>(newLucene<SortField>(L"par", SortField::STRING), newLucene<SortField>(L"", SortField::DOC, true)));
    case 3: return newLucene<Sort>(newCollection<SortFieldPtr>(newLucene<SortField>(L"par", SortField::INT, true), newLucene<SortField>(L"k", SortField::LONG)));
    case 4: return newLucene<Sort>(newLucene<SortField>(L"par", SortField::STRING, true)); // ties are left to the order of the documents
    default: return newLucene<Sort>(newCollection<SortFieldPtr>(newLucene<SortField>(L"par", SortField::DOUBLE), newLucene<SortField>(L"", SortField::SCORE), newLucene<SortField>(L"k", SortField::BYTE)));
    }
}
static void sameTop(const TopDocsPtr& a, const TopDocsPtr& b, bool scores) {
    req(a->totalHits == b->totalHits, "same number of hits");
    req(a->scoreDocs.size() == b->scoreDocs.size(), "same number of hits returned");
    for (int i = 0; i < a->scoreDocs.size(); ++i) {
        req(a->scoreDocs[i]->doc == b->scoreDocs[i]->doc, "same hits in the same order");
        if (scores) req(near(a->scoreDocs[i]->score, b->scoreDocs[i]->score), "same scores");
        FieldDocPtr x = boost::dynamic_pointer_cast<FieldDoc>(a->scoreDocs[i]), y = boost::dynamic_pointer_cast<FieldDoc>(b->scoreDocs[i]);
        req(!x == !y, "sort values for both or none");
        if (x) { req(x->fields.size() == y->fields.size(), "same number of sort values"); for (int j = 0; j < x->fields.size(); ++j) req(VariantUtils::compareTo(x->fields[j], y->fields[j]) == 0, "same sort values"); }
    }
    if (scores && a->totalHits) req(near(a->maxScore, b->maxScore), "same maximum score");
}
static bool scoring = false; // searchers give scores and the maximum score when sorting by fields
static SearchablePtr searcher(const DirectoryPtr& d) { IndexSearcherPtr s = newLucene<IndexSearcher>(d, true); s->setDefaultFieldSortScoring(scoring, scoring); return s; }
static void compare(const SearcherPtr& a, const SearcherPtr& b, int maxDoc) {
    int k = (int)sx_choose("query", NQ);
    QueryPtr q = query(k);
    int n = sx_choose("few", 2) ? 2 : 20;
    FilterPtr f;
    int how = (int)sx_choose("how", 5);
    if (how == 1) f = newLucene<QueryWrapperFilter>(tq(L"f", L"b"));
    if (how < 2) sameTop(a->search(q, f, n), b->search(q, f, n), true);
    else if (how == 2) { SortPtr s = sorting(); sameTop(a->search(q, f, n, s), b->search(q, f, n, s), scoring); }
    else if (how == 3) {
        boost::shared_ptr<HitCollector> x = newLucene<HitCollector>(true), y = newLucene<HitCollector>(true);
        a->search(q, f, x); b->search(q, f, y);
        req(x->h.size() == y->h.size(), "same hits");
        for (auto& z : x->h) req(y->h.count(z.first) && near(y->h[z.first], z.second), "same hits and scores");
    } else {
        for (int d = 0; d < maxDoc; ++d) { ExplanationPtr x = a->explain(q, d), y = b->explain(q, d); req(x->isMatch() == y->isMatch() && near(x->getValue(), y->getValue()), "same explanation value"); }
    }
    req(a->maxDoc() == b->maxDoc(), "same maximum document");
    req(a->docFreq(newLucene<Term>(L"f", L"b")) == b->docFreq(newLucene<Term>(L"f", L"b")), "same document frequency");
}
static const int N = 6;
static std::vector<int> all(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static std::vector<MDoc> model(int del) { std::vector<MDoc> m; for (int i = 0; i < N; ++i) if (i != del) m.push_back(doc(i)); return m; }
SX_ENTRY(multi_searcher) {
    int del = (int)sx_choose("deleted", 2) * 3 - 1; // none, or document 2
    scoring = del >= 0;
    SearcherPtr one = boost::dynamic_pointer_cast<Searcher>(searcher(make(all(N), del)));
    Collection<SearchablePtr> c = Collection<SearchablePtr>::newInstance();
    for (auto& p : divide(N, false)) c.add(searcher(make(p, del)));
    SearcherPtr ms = newLucene<MultiSearcher>(c);
    if (del >= 0) { // another similarity
        SimilarityPtr o = newLucene<OtherSimilarity>();
        ms->setSimilarity(o); one->setSimilarity(o);
        for (int i = 0; i < c.size(); ++i) boost::dynamic_pointer_cast<Searcher>(c[i])->setSimilarity(o);
    }
    compare(ms, one, N);
    for (int i = 0; i < N; ++i) req(ms->doc(i)->get(L"id") == StringUtils::toString(i), "documents are numbered in order");
    sx_cover("multi");
}
SX_ENTRY(parallel_searcher) {
    scoring = true;
    SearcherPtr one = boost::dynamic_pointer_cast<Searcher>(searcher(make(all(N), -1)));
    Collection<SearchablePtr> c = Collection<SearchablePtr>::newInstance();
    std::vector<int> a = all(2), b; for (int i = 2; i < N; ++i) b.push_back(i);
    c.add(searcher(make(a, -1))); c.add(searcher(make(b, -1)));
    SearcherPtr ms = newLucene<ParallelMultiSearcher>(c);
    int k = (int)sx_choose("query", NQ);
    int n = sx_choose("few", 2) ? 2 : 20;
    if (sx_choose("sorted", 2)) { SortPtr s = sorting(); sameTop(ms->search(query(k), FilterPtr(), n, s), one->search(query(k), FilterPtr(), n, s), true); }
    else sameTop(ms->search(query(k), FilterPtr(), n), one->search(query(k), FilterPtr(), n), true);
    sx_cover("parallel");
}
SX_ENTRY(multi_reader) {
    int del = (int)sx_choose("deleted", 3) * 2 - 1; // none, 1, 3
    Collection<IndexReaderPtr> c = Collection<IndexReaderPtr>::newInstance();
    for (auto& p : divide(N, true)) c.add(IndexReader::open(make(p, del, 2), true));
    IndexReaderPtr r = newLucene<MultiReader>(c);
    if (sx_choose("filtered", 2)) r = newLucene<FilterIndexReader>(r);
    verifyReader(r, model(del));
    SearcherPtr one = newLucene<IndexSearcher>(make(all(N), del), true);
    SearcherPtr m = newLucene<IndexSearcher>(r);
    int k = (int)sx_choose("query", NQ);
    sameTop(m->search(query(k), FilterPtr(), 20), one->search(query(k), FilterPtr(), 20), true);
    for (int i = 0; i < N; ++i) if (i != del) { TermFreqVectorPtr v = r->getTermFreqVector(i, L"f"); req(v && v->size() == (int)std::set<String>([&]{ std::vector<String> x = splitBlank(TX[i]); return std::set<String>(x.begin(), x.end()); }()).size(), "term vector of the document"); }
    sx_cover("reader");
}
// fields divided over parallel indexes
SX_ENTRY(parallel_reader) {
    int del = (int)sx_choose("deleted", 3) * 2 - 1;
    int where[4]; // id, f, g, k
    for (int i = 0; i < 4; ++i) where[i] = (int)sx_choose("part", i == 0 ? 1 : 2);
    bool second = sx_choose("deleteinsecond", 2);
    IndexReaderPtr rs[2];
    for (int p = 0; p < 2; ++p) {
        RAMDirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, true);
        if (p) { w->setMaxBufferedDocs(2); w->setMergeFactor(20); }
        for (int i = 0; i < N; ++i) {
            MDoc d, s = doc(i);
            for (auto& f : s.f) { int k = f.name == L"id" ? 0 : f.name == L"f" ? 1 : f.name == L"g" ? 2 : 3; if (where[k] == p) d.f.push_back(f); }
            if (p) d.add(L"key", StringUtils::toString(i), F_INDEX);
            w->addDocument(d.make());
        }
        w->close();
        rs[p] = IndexReader::open(dir, false);
        if (del >= 0) rs[p]->deleteDocument(del);
    }
    ParallelReaderPtr r = newLucene<ParallelReader>();
    r->add(rs[second ? 1 : 0]);
    r->add(rs[second ? 0 : 1]);
    std::vector<MDoc> m;
    for (int i = 0; i < N; ++i) if (i != del) { MDoc d, s = doc(i); d.add(L"key", StringUtils::toString(i), F_INDEX); int first = second ? 1 : 0; for (int p = 0; p < 2; ++p) for (auto& f : s.f) { int k = f.name == L"id" ? 0 : f.name == L"f" ? 1 : f.name == L"g" ? 2 : 3; if (where[k] == (p ? 1 - first : first)) d.f.push_back(f); } m.push_back(d); }
    verifyReader(r, m);
    SearcherPtr one = newLucene<IndexSearcher>(make(all(N), del), true);
    SearcherPtr pr = newLucene<IndexSearcher>(r);
    int k = (int)sx_choose("query", NQ);
    sameTop(pr->search(query(k), FilterPtr(), 20), one->search(query(k), FilterPtr(), 20), true);
    if (del < 0 && sx_choose("delete", 2)) { r->deleteDocument(4); req(r->isDeleted(4) && rs[0]->isDeleted(4) && rs[1]->isDeleted(4) && r->numDocs() == N - 1, "a deletion reaches every part"); }
    sx_cover("parallel");
}
// any texts: which terms exist in which part, and in which order, is symbolic
SX_ENTRY(symbolic_texts) {
    free3 = free5 = L"";
    free3 += (wchar_t)sx_range("t3", L'a', L'd'); free3 += (wchar_t)sx_range("t3", L'a', TIER(L'a', L'b'));
    free5 += (wchar_t)sx_range("t5", L'a', L'd'); free5 += L" "; free5 += (wchar_t)sx_range("t5", L'a', L'd');
    SearcherPtr one = newLucene<IndexSearcher>(make(all(N), -1), true);
    std::vector<int> a = all(4), b; b.push_back(4); b.push_back(5);
    SearcherPtr m;
    if (sx_choose("reader", 2)) {
        Collection<IndexReaderPtr> c = Collection<IndexReaderPtr>::newInstance();
        c.add(IndexReader::open(make(a, -1), true)); c.add(IndexReader::open(make(b, -1), true));
        IndexReaderPtr r = newLucene<MultiReader>(c);
        m = newLucene<IndexSearcher>(r);
    } else {
        Collection<SearchablePtr> c = Collection<SearchablePtr>::newInstance();
        c.add(newLucene<IndexSearcher>(make(a, -1), true)); c.add(newLucene<IndexSearcher>(make(b, -1), true));
        m = newLucene<MultiSearcher>(c);
    }
    static const int Q[] = {0, 3, 4, 8};
    int k = Q[sx_choose("query", 4)];
    sameTop(m->search(query(k), FilterPtr(), 20), one->search(query(k), FilterPtr(), 20), true);
    sx_cover("symbolic");
}
