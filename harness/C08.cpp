// C08: top-N searches return exactly the N best hits in order, whatever the scores, sort, segments and collection order.
#include "stubq.h"
#include <algorithm>
#include "PriorityQueue.h"
#include "TopScoreDocCollector.h"
#include "TopFieldCollector.h"
#include "TopDocs.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"
#include "ScoreDoc.h"
#include "Sort.h"
#include "SortField.h"
#include "NumericField.h"
#include "MatchAllDocsQuery.h"
#include "MiscUtils.h"
struct Val { int32_t v; };
typedef boost::shared_ptr<Val> ValPtr;
struct Queue : public PriorityQueue<ValPtr> {
    Queue(int n) : PriorityQueue<ValPtr>(n) {}
    virtual bool lessThan(const ValPtr& a, const ValPtr& b) { return a->v < b->v; }
};
static ValPtr val(int32_t v) { ValPtr p(new Val()); p->v = v; return p; }
// the bounded queue keeps the largest values, and gives them back in order
SX_ENTRY(queue) {
    int n = (int)sx_pick("values", 0, TIER(4, 6)), m = (int)sx_pick("size", 1, TIER(4, 5));
    boost::shared_ptr<Queue> q = newLucene<Queue>(m);
    std::vector<int32_t> all;
    for (int i = 0; i < n; ++i) {
        int32_t v = sx_i32("v");
        all.push_back(v);
        ValPtr out = q->addOverflow(val(v));
        req(!out == (i < m), "a value overflows exactly when the queue is full");
        req(q->size() == std::min(i + 1, m), "size of the queue");
        if (out) sx_assert(out->v <= q->top()->v, "the smallest value overflows");
    }
    if (n > 0 && sx_choose("update", 2)) { // the least value is replaced in place
        ValPtr t = q->top();
        int32_t old = t->v, nv = sx_i32("new");
        t->v = nv;
        ValPtr top = q->updateTop();
        req(top == q->top(), "updateTop returns the least value");
        (void)old;
    }
    int32_t last = 0;
    int k = 0;
    std::vector<int32_t> got;
    while (q->size() > 0) { ValPtr p = q->pop(); req(p.get() != NULL, "an element is returned"); if (k++) sx_assert(last <= p->v, "elements come out in order"); last = p->v; got.push_back(p->v); }
    req(k == std::min(n, m), "every element comes out");
    req(!q->pop() && q->empty(), "an empty queue returns nothing");
    sx_cover("queue");
}
struct SymScorer : public Scorer {
    double s; int d;
    SymScorer() : Scorer(SimilarityPtr()), s(0), d(-1) {}
    virtual int32_t docID() { return d; }
    virtual int32_t nextDoc() { return NO_MORE_DOCS; }
    virtual int32_t advance(int32_t) { return NO_MORE_DOCS; }
    virtual double score() { return s; }
};
static double symScore() { uint64_t u = sx_sym("score", 64); double d; memcpy(&d, &u, 8); sx_assume(d > 0 && d < 1e300); return d; }
// what the collectors keep, for any scores
SX_ENTRY(scores) {
    int n = (int)sx_pick("docs", 1, TIER(3, 4)), top = (int)sx_pick("n", 1, TIER(3, 5));
    bool ordered = sx_choose("ordered", 2);
    int kind = (int)sx_choose("collector", 2);
    TopDocsCollectorPtr c;
    if (kind == 0) c = TopScoreDocCollector::create(top, ordered);
    else c = TopFieldCollector::create(newLucene<Sort>(SortField::FIELD_SCORE()), top, true, true, true, ordered);
    boost::shared_ptr<SymScorer> sc = newLucene<SymScorer>();
    std::vector<double> s;
    for (int i = 0; i < n; ++i) s.push_back(symScore());
    int cut = (int)sx_choose("segment", n); // documents before this are in a first reader
    for (int seg = 0; seg < 2; ++seg) {
        int b = seg ? cut : 0, e = seg ? n : cut;
        if (b == e) continue;
        c->setNextReader(IndexReaderPtr(), b);
        c->setScorer(sc);
        for (int j = b; j < e; ++j) {
            int i = ordered ? j : b + (e - 1 - j);
            sc->d = i - b; sc->s = s[i];
            c->collect(i - b);
        }
    }
    TopDocsPtr td = c->topDocs();
    req(td->totalHits == n, "every hit is counted");
    int k = std::min(n, top);
    req(td->scoreDocs.size() == k, "number of hits returned");
    std::set<int> seen;
    for (int i = 0; i < k; ++i) {
        int d = td->scoreDocs[i]->doc;
        req(d >= 0 && d < n && seen.insert(d).second, "a hit is a collected document, returned once");
        sx_assert(td->scoreDocs[i]->score == s[d], "a hit has its score");
        if (i) { int p = td->scoreDocs[i - 1]->doc; sx_assert(s[p] > s[d] || (s[p] == s[d] && p < d), "hits are in order of score, then document"); }
    }
    int lastd = td->scoreDocs[k - 1]->doc;
    for (int d = 0; d < n; ++d) if (!seen.count(d)) sx_assert(s[lastd] > s[d] || (s[lastd] == s[d] && lastd < d), "no better hit is left out");
    sx_assert(td->maxScore == s[td->scoreDocs[0]->doc], "maximum score");
    sx_cover("scores");
}
// sorting by fields of an index in several segments; ties are broken by the next key and at last by document
static String num(int64_t v, int type) { return type == 2 ? StringUtils::toString(v) + L".5" : StringUtils::toString(v); }
SX_ENTRY(sorting) {
    static const int N = 6;
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(2 + (int)sx_choose("buffered", TIER(2, 3)));
    w->setMergeFactor(20);
    int type = (int)sx_choose("type", 6); // int, long, double, string by order, string by value, byte
    static const int T[] = {SortField::INT, SortField::LONG, SortField::DOUBLE, SortField::STRING, SortField::STRING_VAL, SortField::BYTE};
    static const int P[][N] = {{3, 1, 2, 1, 3, 0}, {5, 4, 3, 2, 1, 0}, {1, 1, 1, 1, 1, 1}, {-7, 10, 9, -10, 9, 100}, {0, 2, -1, 2, 0, -1}};
    int pat = (int)sx_choose("values", TIER(4, 5)), missing = (int)sx_choose("missing", 3);
    std::vector<double> key; std::vector<String> skey; std::vector<int> second;
    for (int i = 0; i < N; ++i) {
        DocumentPtr d = newLucene<Document>();
        int64_t v = P[pat][i];
        if (type == 5 && v < 0) v = -v;
        if (type == 1 && v > 2) v += 5000000000LL;
        bool has = !(missing == 1 && i == 2) && !(missing == 2 && i % 3 != 1);
        String s = type >= 3 && type != 5 ? String(1, (wchar_t)(L'k' + v % 20)) + (v > 2 ? L"\x4e2d" : L"") : num(v, type);
        if (has) d->add(newLucene<Field>(L"k", s, Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
        second.push_back(i * 7 % 3);
        d->add(newLucene<Field>(L"j", StringUtils::toString(second.back()), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
        key.push_back(!has ? 0 : type == 2 ? (v < 0 ? v - 0.5 : v + 0.5) : (double)v);
        skey.push_back(has ? s : L"");
        w->addDocument(d);
    }
    w->close();
    IndexSearcherPtr se = newLucene<IndexSearcher>(IndexReader::open(dir, true));
    bool rev = sx_choose("reverse", 2);
    int more = (int)sx_choose("then", 3); // nothing, another field, the document number backwards
    Collection<SortFieldPtr> fs = Collection<SortFieldPtr>::newInstance();
    fs.add(newLucene<SortField>(L"k", T[type], rev));
    if (more == 1) fs.add(newLucene<SortField>(L"j", SortField::INT, true));
    if (more == 2) fs.add(newLucene<SortField>(L"", SortField::DOC, true));
    std::vector<int> want;
    for (int i = 0; i < N; ++i) want.push_back(i);
    auto less = [&](int a, int b) {
        int c = type == 3 || type == 4 ? skey[a].compare(skey[b]) : key[a] < key[b] ? -1 : key[a] > key[b];
        if (rev) c = -c;
        if (c == 0 && more == 1) c = second[b] - second[a];
        if (c == 0) return more == 2 ? a > b : a < b;
        return c < 0;
    };
    std::sort(want.begin(), want.end(), less);
    int n = (int)sx_pick("n", 1, N);
    TopFieldDocsPtr td = se->search(newLucene<MatchAllDocsQuery>(), FilterPtr(), n, newLucene<Sort>(fs));
    req(td->totalHits == N, "every hit is counted");
    req(td->scoreDocs.size() == std::min(n, N), "number of hits returned");
    for (int i = 0; i < td->scoreDocs.size(); ++i) req(td->scoreDocs[i]->doc == want[i], "hits are in sort order");
    sx_cover("sorting");
}
// any order of values: symbolic terms in two segments
SX_ENTRY(symbolic_sort) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(2);
    w->setMergeFactor(20);
    static const int N = TIER(4, 5);
    std::vector<String> v;
    for (int i = 0; i < N; ++i) {
        String s(1, (wchar_t)sx_range("c", L'a', i < 2 ? L'c' : L'd'));
        v.push_back(s);
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"k", s, Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
        w->addDocument(d);
    }
    w->close();
    IndexSearcherPtr se = newLucene<IndexSearcher>(IndexReader::open(dir, true));
    bool rev = sx_choose("reverse", 2);
    int n = (int)sx_pick("n", 1, N);
    TopFieldDocsPtr td = se->search(newLucene<MatchAllDocsQuery>(), FilterPtr(), n, newLucene<Sort>(newLucene<SortField>(L"k", sx_choose("byvalue", 2) ? SortField::STRING_VAL : SortField::STRING, rev)));
    std::set<int> seen;
    for (int i = 0; i < td->scoreDocs.size(); ++i) { int d = td->scoreDocs[i]->doc; req(seen.insert(d).second, "a hit is returned once"); if (i) { int p = td->scoreDocs[i - 1]->doc; sx_assert(rev ? v[p][0] > v[d][0] || (v[p][0] == v[d][0] && p < d) : v[p][0] < v[d][0] || (v[p][0] == v[d][0] && p < d), "hits are in sort order"); } }
    req((int)seen.size() == n, "number of hits returned");
    int l = td->scoreDocs[n - 1]->doc;
    for (int d = 0; d < N; ++d) if (!seen.count(d)) sx_assert(rev ? v[l][0] > v[d][0] || (v[l][0] == v[d][0] && l < d) : v[l][0] < v[d][0] || (v[l][0] == v[d][0] && l < d), "no better hit is left out");
    sx_cover("sorting");
}
