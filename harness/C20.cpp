// C20: phrase and span queries match exactly by term positions.
#include "symreader.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "SpanOrQuery.h"
#include "SpanNotQuery.h"
#include "SpanFirstQuery.h"
#include "Spans.h"
static const int HI = TIER(63, 1000);
static int MODE;                              // 0 nextDoc, 1 advance, 2 explain (which prints the query, so its numbers are fixed)
static int64_t num(const char* n, int64_t lo, int64_t hi, int64_t fixed) { return MODE == 2 ? fixed : sx_range(n, lo, hi); }
static boost::shared_ptr<SymReader> R;
static IndexSearcherPtr SE;
static std::vector<std::vector<int>> P;       // positions of each term in the one document that has all
static TermPtr T(int i) { return newLucene<Term>(L"f", String(1, L'a' + i)); }
static std::vector<int> symPos(int n, int hi) {
    std::vector<int> v;
    int64_t last = -1;
    for (int k = 0; k < n; ++k) { int64_t p = sx_range("pos", 0, hi); sx_assume(p > last); last = p; v.push_back((int)p); }
    return v;
}
// document 5 has some terms only, document 7 the interesting positions, document 9 one term only
static void setup(const std::vector<int>& counts, int hi, bool anyMiss = TIER(false, true)) {
    MODE = (int)sx_choose("mode", 3);
    R = newLucene<SymReader>(oneDocReader(), 20);
    P.clear();
    int miss = anyMiss ? (int)sx_choose("missing", counts.size()) : counts.size() > 1;
    for (size_t i = 0; i < counts.size(); ++i) {
        P.push_back(symPos(counts[i], hi));
        Postings& l = R->post[std::make_pair(String(L"f"), String(1, L'a' + (wchar_t)i))];
        if ((int)i != miss) l.push_back(Posting{5, std::vector<int>(1, (int)i)});
        l.push_back(Posting{7, P.back()});
        if ((int)i == miss) l.push_back(Posting{9, std::vector<int>(1, 3)});
    }
    SE = newLucene<IndexSearcher>(R);
    SE->setSimilarity(newLucene<FlatSim>());
}
// every way to pick one position per term
static bool pickAny(size_t i, std::vector<int>& cur, const std::function<bool(const std::vector<int>&)>& f) {
    if (i == P.size()) return f(cur);
    for (int p : P[i]) { cur.push_back(p); bool r = pickAny(i + 1, cur, f); cur.pop_back(); if (r) return true; }
    return false;
}
static bool exists(const std::function<bool(const std::vector<int>&)>& f) { std::vector<int> c; return pickAny(0, c, f); }
// (the inverse document frequencies of the terms add up and count twice in a score)
static void expectDocs(const QueryPtr& q, bool match, int freq, int terms) {
    if (freq >= 0) freq *= terms * terms;
    WeightPtr w = q->weight(SE);
    int mode = MODE;
    if (mode == 2) {
        ExplanationPtr e = w->explain(R, 7);
        req((e->getValue() > 0) == match, "explanation agrees with the match");
        if (freq >= 0) req(near(e->getValue(), freq), "explained frequency");
        return;
    }
    ScorerPtr s = w->scorer(R, true, false);
    if (!s) { req(!match, "no scorer only when nothing matches"); return; }
    int d = mode == 0 ? s->nextDoc() : s->advance(6);
    if (d == 5) d = s->nextDoc();
    req(d == (match ? 7 : DocIdSetIterator::NO_MORE_DOCS), "the document matches exactly when its positions do");
    if (match) {
        if (freq >= 0) req(near(s->score(), freq), "score counts every occurrence");
        req(s->nextDoc() == DocIdSetIterator::NO_MORE_DOCS, "nothing else matches");
    }
}
// exact phrases with any query positions, repeated terms included
SX_ENTRY(exact) {
    int n = 2 + (int)sx_choose("terms", 2);
    std::vector<int> counts(1, 2); counts.push_back(n == 3 ? TIER(1, 2) : TIER(2, 3)); if (n == 3) counts.push_back(TIER(1, 2));
    setup(counts, HI, true);
    PhraseQueryPtr q = newLucene<PhraseQuery>();
    std::vector<int> off;
    int64_t o = 0;
    for (int i = 0; i < n; ++i) { q->add(T(i), (int)o); off.push_back((int)o); if (i < n - 1) { o += num("gap", 0, HI, 1 + i); } }
    int freq = 0;
    for (int p : P[0]) {
        bool all = true;
        for (int i = 1; i < n && all; ++i) { bool one = false; for (int x : P[i]) if (x - off[i] == p - off[0]) { one = true; break; } all = one; }
        if (all) ++freq;
    }
    expectDocs(q, freq > 0, freq, n);
    sx_cover("exact");
}
SX_ENTRY(repeated) {
    setup(std::vector<int>(1, TIER(3, 4)), HI);
    PhraseQueryPtr q = newLucene<PhraseQuery>();
    q->add(T(0)); q->add(T(0));
    bool three = sx_choose("three", 2);
    if (three) q->add(T(0));
    int freq = 0;
    for (int p : P[0]) { bool a = false, b = !three; for (int x : P[0]) { if (x == p + 1) a = true; if (x == p + 2) b = true; } if (a && b) ++freq; }
    R->post.begin()->second.erase(R->post.begin()->second.begin() + 1, R->post.begin()->second.end());
    R->post.begin()->second.clear(); R->post.begin()->second.push_back(Posting{7, P[0]});
    expectDocs(q, freq > 0, freq, three ? 3 : 2);
    sx_cover("repeated");
}
// sloppy phrases of distinct terms: some choice of positions within the slop
SX_ENTRY(sloppy) {
    int n = 2 + (int)sx_choose("terms", 2);
    std::vector<int> counts(n, TIER(1, 2)); counts[0] = 2; counts[1] = n == 2 ? 2 : 1;
    setup(counts, HI);
    PhraseQueryPtr q = newLucene<PhraseQuery>();
    for (int i = 0; i < n; ++i) q->add(T(i));
    // (terms at one position are taken for repeats of one term, where matching is heuristic)
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (int a : P[i]) for (int b : P[j]) sx_assume(a != b);
    int slop = (int)num("slop", 0, HI, 3);
    q->setSlop(slop);
    bool match = exists([&](const std::vector<int>& c) { int lo = c[0], hi = c[0]; for (int i = 1; i < n; ++i) { int v = c[i] - i; if (v < lo) lo = v; if (v > hi) hi = v; } return hi - lo <= slop; });
    expectDocs(q, match, -1, n);
    sx_cover("sloppy");
}
SX_ENTRY(multi) {
    std::vector<int> counts; counts.push_back(2); counts.push_back(1); counts.push_back(1);
    setup(counts, HI);
    MultiPhraseQueryPtr q = newLucene<MultiPhraseQuery>();
    bool alt = sx_choose("altfirst", 2);
    bool match;
    if (alt) { q->add(newCollection<TermPtr>(T(0), T(1))); q->add(T(2)); } else { q->add(T(2)); q->add(newCollection<TermPtr>(T(0), T(1))); }
    int slop = sx_choose("slop", 2) ? (int)num("slopv", 1, HI, 2) : 0;
    q->setSlop(slop);
    if (slop) for (int i = 0; i < 2; ++i) for (int p : P[i]) for (int x : P[2]) sx_assume(p != x);
    match = false;
    for (int i = 0; i < 2; ++i) for (int p : P[i]) for (int x : P[2]) { int d = alt ? x - 1 - p : p - 1 - x; if (d < 0) d = -d; if (d <= slop) match = true; }
    // documents 5 and 9 hold constant positions: restrict to 7
    for (auto& l : R->post) { Postings k; for (auto& x : l.second) if (x.doc == 7) k.push_back(x); l.second = k; }
    expectDocs(q, match, -1, 2);
    sx_cover("multi");
}
struct Sp { int doc, s, e; };
static std::vector<Sp> run(const SpanQueryPtr& q) {
    std::vector<Sp> v;
    SpansPtr sp = q->getSpans(R);
    while (sp->next()) {
        Sp x = {sp->doc(), sp->start(), sp->end()};
        req(x.s < x.e, "a span is not empty");
        if (!v.empty()) req(v.back().doc < x.doc || (v.back().doc == x.doc && v.back().s <= x.s), "spans come in document and start order");
        v.push_back(x);
    }
    return v;
}
static SpanQueryPtr ST(int i) { return newLucene<SpanTermQuery>(T(i)); }
static SpanQueryPtr nearQ(int n, int slop, bool ordered) { Collection<SpanQueryPtr> c = Collection<SpanQueryPtr>::newInstance(); for (int i = 0; i < n; ++i) c.add(ST(i)); return newLucene<SpanNearQuery>(c, slop, ordered); }
static void spanMatch(const SpanQueryPtr& q, bool match) {
    int mode = MODE == 2 ? 0 : MODE == 1 ? 1 + (int)sx_choose("via", 2) : 0;
    if (mode == 0) {
        std::vector<Sp> v = run(q);
        bool seen = false;
        for (auto& x : v) if (x.doc == 7) seen = true;
        req(seen == match, "a span query matches exactly when the positions do");
    } else if (mode == 1) {
        SpansPtr sp = q->getSpans(R);
        bool r = sp->skipTo(6);
        req(r == match || (r && sp->doc() == 9), "skipping finds the match");
        if (r) req(match ? sp->doc() == 7 : sp->doc() == 9, "skipping finds the first matching document");
    } else {
        WeightPtr w = q->weight(SE);
        ScorerPtr s = w->scorer(R, true, false);
        req(s || !match, "a scorer exists when there is a match");
        if (s) { int d = s->advance(6); req((d == 7) == match, "the document matches exactly when the positions do"); }
    }
}
SX_ENTRY(near_) {
    int n = 2 + (int)sx_choose("terms", 2);
    std::vector<int> counts(n, TIER(1, 2)); counts[0] = 2; counts[1] = n == 2 ? 2 : TIER(1, 2);
    setup(counts, HI);
    bool ordered = sx_choose("ordered", 2);
    int slop = (int)num("slop", 0, HI, 3);
    bool match = exists([&](const std::vector<int>& c) {
        int lo = c[0], hi = c[0];
        for (int i = 1; i < n; ++i) { if (ordered && c[i] <= c[i - 1]) return false; if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; }
        return hi + 1 - lo - n <= slop; });
    spanMatch(nearQ(n, slop, ordered), match);
    sx_cover(ordered ? "ordered" : "unordered");
}
// spans of or, not and first queries are exactly those of their definitions
SX_ENTRY(sets) {
    std::vector<int> counts; counts.push_back(2); counts.push_back(TIER(1, 2));
    setup(counts, HI, true);
    int kind = (int)sx_choose("kind", 3);
    std::vector<Sp> all, want;
    for (int i = 0; i < 2; ++i) for (auto& l : R->post[std::make_pair(String(L"f"), String(1, L'a' + i))]) for (int p : l.pos) if (kind == 0 || i == 0) all.push_back(Sp{l.doc, p, p + 1});
    SpanQueryPtr q;
    if (kind == 0) { Collection<SpanQueryPtr> c = newCollection<SpanQueryPtr>(ST(0), ST(1)); q = newLucene<SpanOrQuery>(c); want = all; }
    if (kind == 1) { q = newLucene<SpanNotQuery>(ST(0), ST(1)); for (auto& x : all) { bool hit = false; for (auto& l : R->post[std::make_pair(String(L"f"), String(L"b"))]) for (int p : l.pos) if (l.doc == x.doc && p == x.s) hit = true; if (!hit) want.push_back(x); } }
    if (kind == 2) { int end = (int)num("end", 0, HI + 1, 5); q = newLucene<SpanFirstQuery>(ST(0), end); for (auto& x : all) if (x.e <= end) want.push_back(x); }
    if (sx_choose("skip", 2)) {
        SpansPtr sp = q->getSpans(R);
        int t = (int)sx_pick("target", 5, 10);
        bool r = sp->skipTo(t);
        bool any = false; int best = 0;
        for (auto& x : want) if (x.doc >= t && (!any || x.doc < best)) { any = true; best = x.doc; }
        req(r == any, "skipping finds a span exactly when there is one");
        if (r) req(sp->doc() == best, "skipping finds the first document at or after the target");
        return;
    }
    std::vector<Sp> got = run(q);
    req(got.size() == want.size(), "exactly the defined spans");
    for (auto& x : want) { int a = 0, b = 0; for (auto& y : got) if (x.doc == y.doc && x.s == y.s && x.e == y.e) ++a; for (auto& y : want) if (x.doc == y.doc && x.s == y.s && x.e == y.e) ++b; req(a == b, "exactly the defined spans"); }
    sx_cover("sets");
}
// nested: near inside not and first
SX_ENTRY(nested) {
    std::vector<int> counts; counts.push_back(1); counts.push_back(1); counts.push_back(1);
    setup(counts, HI);
    for (auto& l : R->post) { Postings k; for (auto& x : l.second) if (x.doc == 7) k.push_back(x); l.second = k; }
    int slop = (int)num("slop", 0, HI, 3);
    bool ordered = sx_choose("ordered", 2);
    int a = P[0][0], b = P[1][0], c = P[2][0];
    int lo = a < b ? a : b, hi = a < b ? b : a;
    bool m = (!ordered || a < b) && hi + 1 - lo - 2 <= slop;
    SpanQueryPtr nq = nearQ(2, slop, ordered), q;
    int kind = (int)sx_choose("kind", 3);
    if (kind == 0) { q = newLucene<SpanNotQuery>(nq, ST(2)); m = m && !(c >= lo && c <= hi); }
    if (kind == 1) { int end = (int)num("end", 0, HI + 1, 5); q = newLucene<SpanFirstQuery>(nq, end); m = m && hi + 1 <= end; }
    if (kind == 2) { Collection<SpanQueryPtr> cl = newCollection<SpanQueryPtr>(nq, ST(2)); int s2 = (int)num("slop2", 0, HI, 4); q = newLucene<SpanNearQuery>(cl, s2, true); m = m && hi < c && c - hi - 1 <= s2; if (m == false && !(hi < c)) { sx_assume(c < lo); } }
    spanMatch(q, m);
    sx_cover("nested");
}
