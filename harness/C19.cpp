// C19: boolean and compound queries match exactly the documents their logic says, however they are iterated.
#include "stubq.h"
#include "DisjunctionMaxQuery.h"
#include "ConstantScoreQuery.h"
#include "FilteredQuery.h"
#include "QueryWrapperFilter.h"
#include "MatchAllDocsQuery.h"
static IndexSearcherPtr tiny() {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    MDoc d(L"a"); w->addDocument(d.make());
    w->close();
    return newLucene<IndexSearcher>(dir, true);
}
static const int PD[] = {0, 1, 2, 2047, 2048, 2049, 4095, 4096, 6143, 6144, 9000, 12288};
struct Node {                        // reference model of a query tree
    int leaf;                        // >= 0: stub
    std::vector<std::pair<Node, BooleanClause::Occur>> c;
    int min;
    bool nocoord;
    Node(int l = -1) : leaf(l), min(0), nocoord(false) {}
};
static std::vector<std::vector<int>> sets;
static bool inset(int leaf, int d) { for (int x : sets[leaf]) if (x == d) return true; return false; }
static bool hasScorer(const Node& n) {
    if (n.leaf >= 0) return !sets[n.leaf].empty();
    int opt = 0, req_ = 0;
    for (auto& x : n.c) { bool h = hasScorer(x.first); if (x.second == BooleanClause::MUST) { if (!h) return false; ++req_; } else if (x.second == BooleanClause::SHOULD && h) ++opt; }
    return (req_ || opt) && opt >= n.min;
}
static bool eval(const Node& n, int d, double& score) {
    if (n.leaf >= 0) { score = n.leaf + 1 + (stubMod == 1 ? 0 : d % stubMod); return inset(n.leaf, d); }
    double sum = 0; int m = 0, should = 0, mx = 0; bool ok = true, any = false;
    for (auto& x : n.c) {
        double s = 0; bool h = eval(x.first, d, s);
        bool hs = hasScorer(x.first);
        if (x.second != BooleanClause::MUST_NOT && hs) ++mx;
        if (x.second == BooleanClause::MUST) { any = true; if (!h) ok = false; else { ++m; sum += s; } }
        else if (x.second == BooleanClause::SHOULD) { if (h) { ++m; ++should; sum += s; } }
        else if (h) ok = false;
    }
    if (should < n.min || (!any && should == 0)) ok = false;
    score = n.nocoord ? sum : mx ? sum * m / mx : 0;
    return ok;
}
static QueryPtr build(const Node& n) {
    if (n.leaf >= 0) return newLucene<StubQuery>(sets[n.leaf], n.leaf + 1.0);
    BooleanQueryPtr b = newLucene<BooleanQuery>(n.nocoord);
    for (auto& x : n.c) b->add(build(x.first), x.second);
    b->setMinimumNumberShouldMatch(n.min);
    return b;
}
static BooleanClause::Occur occ(const char* nm) { static const BooleanClause::Occur o[] = {BooleanClause::MUST, BooleanClause::SHOULD, BooleanClause::MUST_NOT}; return o[sx_choose(nm, 3)]; }
static void check(const IndexSearcherPtr& se, const Node& n, bool explain, int moves, int fixed = -1) {
    QueryPtr q = build(n);
    WeightPtr w = q->weight(se);
    Hits want;
    for (int d : PD) { double s; if (eval(n, d, s)) want[d] = s; }
    IndexReaderPtr r = se->getIndexReader();
    int mode = fixed >= 0 ? fixed : (int)sx_choose("mode", 3);
    if (mode == 0) sameHits(runCollect(w, r, true), want);
    if (mode == 1) { sameHits(runCollect(w, r, false), want); sameHits(runNext(w, r), want); }
    if (mode == 2) {
        std::vector<int> t; t.push_back(2); t.push_back(2048); t.push_back(5000); t.push_back(12288); t.push_back(12289);
        runMixed(w, r, want, t, moves);
        if (explain) for (int d : PD) {
            ExplanationPtr e = w->explain(r, d);
            req(e->isMatch() == (want.count(d) > 0), "explanation agrees with the match");
            if (want.count(d)) req(near(e->getValue(), want[d]), "explanation value is the score");
        }
    }
}
// every combination of occurrences and minimum, over documents holding every combination of clause matches
SX_ENTRY(shapes) {
    IndexSearcherPtr se = tiny();
    int n = (int)sx_pick("clauses", 1, TIER(3, 4));
    int rot = (int)sx_choose("rot", TIER(1, 4));
    sets.assign(4, std::vector<int>());
    for (int k = 0; k < 12; ++k) { int pat = (k * 5 + rot * 3 + (k >= 8 ? 1 : 0)) & (n == 4 ? 15 : 7); for (int i = 0; i < 4; ++i) if (pat >> i & 1) sets[i].push_back(PD[k]); }
    int empty = (int)sx_choose("empty", n + 1);
    if (empty < n) sets[empty].clear();
    Node root;
    for (int i = 0; i < n; ++i) root.c.push_back(std::make_pair(Node(i), occ("occur")));
    int sh = 0; for (auto& x : root.c) sh += x.second == BooleanClause::SHOULD;
    root.min = (int)sx_choose("min", sh + 2);
    root.nocoord = TIER(0, sx_choose("nocoord", 2));
    check(se, root, true, 2);
    sx_cover("shape");
}
// many clauses: around the 32 clauses the bucket scorer can tell apart
SX_ENTRY(many_clauses) {
    IndexSearcherPtr se = tiny();
    int n = (int)sx_pick("clauses", 31, TIER(34, 36));
    int shape = (int)sx_choose("shape", 3);
    sets.assign(n + 1, std::vector<int>());
    Node root;
    for (int k = 0; k < 12; ++k) sets[0].push_back(PD[k]);
    root.c.push_back(std::make_pair(Node(0), shape == 1 ? BooleanClause::MUST : BooleanClause::SHOULD));
    int hot = (int)sx_choose("hot", 4);
    for (int i = 1; i <= n; ++i) {
        if (i == n - hot) sets[i].push_back(2048), sets[i].push_back(9000);
        else sets[i].push_back(i & 1 ? 6143 : 1);
        root.c.push_back(std::make_pair(Node(i), shape == 2 ? BooleanClause::SHOULD : BooleanClause::MUST_NOT));
    }
    if (shape == 2) root.min = (int)sx_pick("min", 0, 2);
    check(se, root, false, 1);
    sx_cover("many");
}
// nested boolean queries
SX_ENTRY(nested) {
    IndexSearcherPtr se = tiny();
    sets.assign(4, std::vector<int>());
    for (int k = 0; k < 12; ++k) { int pat = (k * 7 + 3) & 15; for (int i = 0; i < 4; ++i) if (pat >> i & 1) sets[i].push_back(PD[k]); }
    Node root, in;
    in.c.push_back(std::make_pair(Node(0), occ("in1")));
    in.c.push_back(std::make_pair(Node(1), occ("in2")));
    if (sx_choose("third", 2)) { in.c.push_back(std::make_pair(Node(3), BooleanClause::SHOULD)); in.min = (int)sx_choose("inmin", 2); }
    root.c.push_back(std::make_pair(in, occ("outer")));
    root.c.push_back(std::make_pair(Node(2), occ("other")));
    check(se, root, true, 2);
    sx_cover("nested");
}
// membership at the window edges, bucket scorer
SX_ENTRY(membership) {
    IndexSearcherPtr se = tiny();
    static const int D[] = {0, 2048, 6143};
    sets.assign(4, std::vector<int>());
    int n = 2;
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) if (sx_bool("member")) sets[i].push_back(D[k]);
    Node root;
    for (int i = 0; i < n; ++i) root.c.push_back(std::make_pair(Node(i), occ("occur")));
    root.min = (int)sx_choose("min", 2);
    check(se, root, true, TIER(2, 3), TIER(0, -1));
    sx_cover("membership");
}
// symbolic document numbers: any ascending documents per clause, any advance targets
SX_ENTRY(symbolic_docs) {
    IndexSearcherPtr se = tiny();
    stubMod = 1;
    int n = 2 + (int)sx_choose("n", 2);
    sets.assign(4, std::vector<int>());
    static const BooleanClause::Occur S[6][3] = {{BooleanClause::SHOULD, BooleanClause::SHOULD, BooleanClause::SHOULD}, {BooleanClause::MUST, BooleanClause::SHOULD, BooleanClause::MUST_NOT}, {BooleanClause::SHOULD, BooleanClause::MUST_NOT, BooleanClause::SHOULD}, {BooleanClause::MUST, BooleanClause::MUST, BooleanClause::SHOULD}, {BooleanClause::MUST, BooleanClause::MUST_NOT, BooleanClause::MUST_NOT}, {BooleanClause::MUST, BooleanClause::MUST, BooleanClause::MUST}};
    int shape = (int)sx_choose("shape", 6);
    Node root;
    for (int i = 0; i < n; ++i) {
        int m = i == 0 ? 2 : 1 + (n == 2 || TIER(0, 1));
        int64_t last = -1;
        for (int k = 0; k < m; ++k) { int64_t d = sx_range("doc", 0, 0x7ffffffe); sx_assume(d > last); last = d; sets[i].push_back((int)d); }
        root.c.push_back(std::make_pair(Node(i), S[shape][i]));
    }
    root.min = shape == 0 ? (int)sx_choose("min", 3) : 0;
    WeightPtr w = build(root)->weight(se);
    IndexReaderPtr r = se->getIndexReader();
    Hits want;
    for (int i = 0; i < n; ++i) for (int d : sets[i]) { double s; if (eval(root, d, s)) want[d] = s; }
    if (sx_choose("mode", 2) == 0) sameHits(runNext(w, r), want);
    else {
        ScorerPtr s = w->scorer(r, true, false);
        if (!s) { req(want.empty(), "no scorer only when nothing matches"); return; }
        int cur = -1;
        for (int i = 0; i < 2; ++i) {
            bool adv = i == 0 || sx_choose("adv", 2);
            int64_t t = cur + 1;
            if (adv) { t = sx_range("target", 0, 0x7ffffffe); sx_assume(t > cur); }
            int d = adv ? s->advance((int)t) : s->nextDoc();
            auto it = want.lower_bound((int)t);
            int e = it == want.end() ? DocIdSetIterator::NO_MORE_DOCS : it->first;
            req(d == e, "advance and nextDoc land on the first match at or after the target");
            req(s->docID() == d, "docID is the returned document");
            if (d == DocIdSetIterator::NO_MORE_DOCS) break;
            req(near(s->score(), it->second), "score after advance");
            cur = d;
        }
    }
    sx_cover("symbolic");
}
// more clauses than the fast paths take: 33 clauses of each kind
SX_ENTRY(many) {
    IndexSearcherPtr se = tiny();
    int n = (int)sx_pick("n", 31, 34);
    int kind = (int)sx_choose("kind", 3);
    sets.assign(n + 1, std::vector<int>());
    for (int i = 0; i < n; ++i) { sets[i].push_back(PD[i % 11]); if (i % 3 == 0) sets[i].push_back(12288); if (sets[i].size() == 2 && sets[i][0] > sets[i][1]) std::swap(sets[i][0], sets[i][1]); }
    for (int d : PD) sets[n].push_back(d);
    Node root;
    for (int i = 0; i < n; ++i) root.c.push_back(std::make_pair(Node(i), kind == 0 ? BooleanClause::SHOULD : BooleanClause::MUST_NOT));
    if (kind) { sets[0].pop_back(); for (int i = 0; i < n; ++i) if (i % 11 > 7) sets[i].clear(), sets[i].push_back(0); root.c.push_back(std::make_pair(Node(n), kind == 1 ? BooleanClause::SHOULD : BooleanClause::MUST)); }
    if (kind == 0) root.min = (int)sx_choose("min", 5);
    check(se, root, true, 1);
    sx_cover("many");
}
// disjunction-max, constant score, filtered and match-all queries over an index with several segments and deletions
struct Ref { std::set<int> docs; };
SX_ENTRY(compound) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    std::vector<int> pats;
    for (int i = 0; i < 16; ++i) {
        int p = (i * 5 + 2) & 7;
        pats.push_back(p);
        MDoc d(StringUtils::toString(i));
        String b = L"z";
        for (int k = 0; k < 3; ++k) if (p >> k & 1) for (int rep = 0; rep <= (i + k) % 3; ++rep) b += String(L" ") + String(1, L'a' + k);
        d.add(L"b", b, F_BODY);
        w->addDocument(d.make());
        if (i == 4 || i == 9) w->commit();
    }
    int d1 = (int)sx_pick("deleted", 0, TIER(3, 15)) * TIER(5, 1) % 16;
    w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(d1)));
    w->close();
    IndexSearcherPtr se = newLucene<IndexSearcher>(dir, true);
    IndexReaderPtr r = se->getIndexReader();
    QueryPtr t[3];
    std::set<int> s[3], all;
    for (int k = 0; k < 3; ++k) { t[k] = newLucene<TermQuery>(newLucene<Term>(L"b", String(1, L'a' + k))); for (int i = 0; i < 16; ++i) if (i != d1 && (pats[i] >> k & 1)) s[k].insert(i); }
    for (int i = 0; i < 16; ++i) if (i != d1) all.insert(i);
    QueryPtr q;
    std::set<int> want;
    int kind = (int)sx_choose("kind", 8);
    bool exact = true;
    if (kind == 0) { DisjunctionMaxQueryPtr m = newLucene<DisjunctionMaxQuery>(sx_choose("tie", 2) * 0.5); m->add(t[0]); m->add(t[1]); if (sx_choose("third", 2)) { m->add(t[2]); want.insert(s[2].begin(), s[2].end()); } want.insert(s[0].begin(), s[0].end()); want.insert(s[1].begin(), s[1].end()); q = m; }
    if (kind == 1) { q = newLucene<ConstantScoreQuery>(newLucene<QueryWrapperFilter>(t[0])); q->setBoost(2.0); want = s[0]; }
    if (kind == 2) { q = newLucene<FilteredQuery>(t[0], newLucene<QueryWrapperFilter>(t[1])); for (int x : s[0]) if (s[1].count(x)) want.insert(x); }
    if (kind == 3) { q = newLucene<MatchAllDocsQuery>(); want = all; }
    if (kind == 4) { BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(newLucene<MatchAllDocsQuery>(), BooleanClause::MUST); b->add(t[2], BooleanClause::MUST_NOT); for (int x : all) if (!s[2].count(x)) want.insert(x); q = b; }
    if (kind == 5) { BooleanQueryPtr b = newLucene<BooleanQuery>(); for (int k = 0; k < 3; ++k) { BooleanClause::Occur o = occ("o"); b->add(t[k], o); if (k == 0) want = o == BooleanClause::MUST_NOT ? std::set<int>() : s[0]; if (o == BooleanClause::MUST) {} }
        // reference by truth table
        want.clear(); Collection<BooleanClausePtr> cs = b->getClauses(); for (int x : all) { bool ok = true, any = false; for (int k = 0; k < 3; ++k) { bool h = s[k].count(x) > 0; BooleanClause::Occur o = cs[k]->getOccur(); if (o == BooleanClause::MUST) { any = true; ok = ok && h; } else if (o == BooleanClause::MUST_NOT) { ok = ok && !h; } } if (!any) { bool h = false; for (int k = 0; k < 3; ++k) h = h || (cs[k]->getOccur() == BooleanClause::SHOULD && s[k].count(x)); ok = ok && h; } if (ok) want.insert(x); }
        q = b; }
    if (kind == 6) { BooleanQueryPtr b = newLucene<BooleanQuery>(); DisjunctionMaxQueryPtr m = newLucene<DisjunctionMaxQuery>(0.1); m->add(t[0]); m->add(t[1]); b->add(m, BooleanClause::MUST); b->add(t[2], BooleanClause::SHOULD); want = s[0]; want.insert(s[1].begin(), s[1].end()); q = b; }
    if (kind == 7) { q = newLucene<FilteredQuery>(newLucene<MatchAllDocsQuery>(), newLucene<QueryWrapperFilter>(t[2])); want = s[2]; }
    (void)exact;
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(sx_choose("ooo", 2));
    se->search(q, FilterPtr(), c);
    req(c->h.size() == want.size(), "exactly the matching documents are found");
    for (int x : want) req(c->h.count(x) > 0, "exactly the matching documents are found");
    WeightPtr wt = q->weight(se);
    for (int i = 0; i < 16; ++i) {
        if (i == d1) continue;
        ExplanationPtr e = se->explain(wt, i);
        req(e->isMatch() == (want.count(i) > 0), "explanation agrees with the match");
        if (want.count(i)) req(near(e->getValue(), c->h[i]), "explanation value is the score");
    }
    sx_cover("compound");
}
