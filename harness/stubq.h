// A query whose matching documents are chosen by the harness (no index needed), and helpers that run any weight to the end.
#pragma once
#include "ix.h"
#include "IndexSearcher.h"
#include "Query.h"
#include "Weight.h"
#include "Scorer.h"
#include "Collector.h"
#include "Similarity.h"
#include "Explanation.h"
#include "ComplexExplanation.h"
#include "BooleanQuery.h"
#include "BooleanClause.h"
#include "TermQuery.h"
static int stubMod = 3;   // scores vary with the document unless this is 1
struct StubScorer : public Scorer {
    std::vector<int> docs; int k; double s; int lastTarget;
    StubScorer(const SimilarityPtr& sim, const std::vector<int>& d, double sc) : Scorer(sim), docs(d), k(-1), s(sc), lastTarget(-1) {}
    virtual int32_t docID() { return k < 0 ? -1 : k < (int)docs.size() ? docs[k] : NO_MORE_DOCS; }
    virtual int32_t nextDoc() { if (k < (int)docs.size()) ++k; return docID(); }
    virtual int32_t advance(int32_t t) { do { if (nextDoc() >= t) break; } while (true); return docID(); }
    virtual double score() { req(k >= 0 && k < (int)docs.size(), "score is asked for a positioned scorer"); return s + (stubMod == 1 ? 0 : docs[k] % stubMod); }
};
struct StubQuery;
struct StubWeight : public Weight {
    QueryPtr q; SimilarityPtr sim; std::vector<int> docs; double s;
    StubWeight(const QueryPtr& qq, const SimilarityPtr& si, const std::vector<int>& d, double sc) : q(qq), sim(si), docs(d), s(sc) {}
    virtual ExplanationPtr explain(const IndexReaderPtr&, int32_t doc) {
        for (int d : docs) if (d == doc) return newLucene<ComplexExplanation>(true, s + (stubMod == 1 ? 0 : d % stubMod), L"stub");
        return newLucene<ComplexExplanation>(false, 0.0, L"no");
    }
    virtual QueryPtr getQuery() { return q; }
    virtual double getValue() { return 1; }
    virtual void normalize(double) {}
    virtual double sumOfSquaredWeights() { return 1; }
    virtual ScorerPtr scorer(const IndexReaderPtr&, bool, bool) { if (docs.empty()) return ScorerPtr(); return newLucene<StubScorer>(sim, docs, s); }
};
struct StubQuery : public Query {
    std::vector<int> docs; double s;
    StubQuery(const std::vector<int>& d, double sc) : docs(d), s(sc) {}
    virtual WeightPtr createWeight(const SearcherPtr& se) { return newLucene<StubWeight>(shared_from_this(), getSimilarity(se), docs, s); }
    virtual String toString(const String&) { return L"stub"; }
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& = LuceneObjectPtr()) { boost::shared_ptr<StubQuery> c = newLucene<StubQuery>(docs, s); c->setBoost(getBoost()); return c; }
};
typedef std::map<int, double> Hits;
struct HitCollector : public Collector {
    Hits h; ScorerPtr sc; bool ooo, wantScore; int last, base;
    HitCollector(bool o, bool w = true) : ooo(o), wantScore(w), last(-1), base(0) {}
    virtual void setScorer(const ScorerPtr& s) { sc = s; }
    virtual void collect(int32_t d) {
        req(d >= 0, "collected document number is valid");
        req(ooo || d > last, "documents are collected in order unless out-of-order was allowed");
        last = d;
        req(!h.count(base + d), "a document is collected once");
        h[base + d] = wantScore ? sc->score() : 0;
    }
    virtual void setNextReader(const IndexReaderPtr&, int32_t b) { base = b; last = -1; }
    virtual bool acceptsDocsOutOfOrder() { return ooo; }
};
static inline bool near(double a, double b) { double d = a - b; double m = (a < 0 ? -a : a) + 1; return d < 1e-5 * m && d > -1e-5 * m; }
static inline void sameHits(const Hits& a, const Hits& b, bool scores = true) {
    req(a.size() == b.size(), "exactly the matching documents are found");
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end(); ++i, ++j) { req(i->first == j->first, "exactly the matching documents are found"); if (scores) req(near(i->second, j->second), "score of a match"); }
}
static inline Hits runCollect(const WeightPtr& w, const IndexReaderPtr& r, bool ooo) {
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(ooo);
    ScorerPtr s = w->scorer(r, !ooo, true);
    if (s) s->score(c);
    return c->h;
}
static inline Hits runNext(const WeightPtr& w, const IndexReaderPtr& r) {
    Hits h;
    ScorerPtr s = w->scorer(r, true, false);
    if (!s) return h;
    int last = -1;
    req(s->docID() == -1 || s->docID() == DocIdSetIterator::NO_MORE_DOCS, "an unpositioned scorer has no document");
    while (true) {
        int d = s->nextDoc();
        req(s->docID() == d, "docID is the returned document");
        if (d == DocIdSetIterator::NO_MORE_DOCS) break;
        req(d > last, "nextDoc moves forward");
        last = d;
        h[d] = s->score();
    }
    return h;
}
// a chosen mix of nextDoc and advance against the full list of matches
static inline void runMixed(const WeightPtr& w, const IndexReaderPtr& r, const Hits& all, const std::vector<int>& targets, int steps) {
    ScorerPtr s = w->scorer(r, true, false);
    if (!s) { req(all.empty(), "no scorer only when nothing matches"); return; }
    int cur = -1;
    for (int i = 0; i < steps; ++i) {
        int k = (int)sx_choose("move", targets.size() + 1);
        int want = cur + 1;
        if (k < (int)targets.size()) { want = targets[k]; if (want <= cur) { continue; } }
        auto it = all.lower_bound(want);
        int d = k < (int)targets.size() ? s->advance(want) : s->nextDoc();
        int e = it == all.end() ? DocIdSetIterator::NO_MORE_DOCS : it->first;
        req(d == e, "advance and nextDoc land on the first match at or after the target");
        req(s->docID() == d, "docID is the returned document");
        if (d == DocIdSetIterator::NO_MORE_DOCS) return;
        req(near(s->score(), it->second), "score after advance");
        cur = d;
    }
}
