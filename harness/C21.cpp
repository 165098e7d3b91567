// C21: range, prefix, wildcard and fuzzy queries and filters match exactly the documents with a matching term.
#include "stubq.h"
#include "MultiTermQuery.h"
#include "TermRangeQuery.h"
#include "TermRangeFilter.h"
#include "PrefixQuery.h"
#include "PrefixFilter.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "FieldCacheRangeFilter.h"
#include "VariantUtils.h"
#include "FieldCacheTermsFilter.h"
#include "ConstantScoreQuery.h"
#include "Filter.h"
#include "MatchAllDocsQuery.h"
typedef std::vector<std::vector<String>> Dict;       // the terms of each document
static const Dict& dict() {
    static Dict d;
    if (d.empty()) {
        static const wchar_t* T[] = {L"b", L"aa bb", L"abc", L"ab", L"a", L"bab ba", L"c\x00e9", L"\x4e2d", L"a*", L"bba aab", L"abab", L"a b c", L"caa", L"a?b"};
        for (auto t : T) d.push_back(splitBlank(t));
    }
    return d;
}
static std::set<int> gone;
static IndexSearcherPtr index() {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(5);
    w->setMergeFactor(20);
    for (size_t i = 0; i < dict().size(); ++i) {
        String s;
        for (auto& t : dict()[i]) s += t + L" ";
        MDoc d(StringUtils::toString((int32_t)i)); d.add(L"f", s, F_BODY); d.add(L"e", L"abz", F_BODY); d.add(L"g", L"aba", F_BODY); d.add(L"s", dict()[i][0], F_INDEX);
        w->addDocument(d.make());
    }
    w->deleteDocuments(newLucene<Term>(L"id", L"3"));
    gone.clear(); gone.insert(3);
    w->close();
    return newLucene<IndexSearcher>(IndexReader::open(dir, true));
}
static void sameIds(const IndexSearcherPtr& se, const QueryPtr& q, const FilterPtr& f, const std::set<int>& want, bool constant) {
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(constant);
    se->search(q, f, c);
    req(c->h.size() == want.size(), "number of matching documents");
    double s = -1;
    for (int d : want) {
        req(c->h.count(d) > 0, "a document with a matching term is found");
        if (constant) { req(s < 0 || near(s, c->h[d]), "constant scores are equal"); s = c->h[d]; }
        req(c->h[d] > 0, "score is positive");
    }
}
template <class P> static std::set<int> matching(P p) { std::set<int> r; for (size_t i = 0; i < dict().size(); ++i) { bool hit = false; for (auto& t : dict()[i]) hit |= p(t); if (hit && !gone.count((int)i)) r.insert((int)i); } return r; }
static RewriteMethodPtr method(bool& constant) {
    switch (sx_choose("rewrite", TIER(3, 4))) {
    case 0: constant = true; return MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE();
    case 1: constant = false; return MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE();
    case 2: constant = true; return MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT();
    default: constant = true; return MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE();
    }
}
static String symText(const char* n, int maxLen) {
    int len = (int)sx_pick("length", 0, maxLen);
    String s;
    for (int i = 0; i < len; ++i) { wchar_t c = (wchar_t)sx_i32(n); sx_assume(c >= 1 && c < 0xd800); s += c; }
    return s;
}
// any bounds, open or closed ends
SX_ENTRY(ranges) {
    IndexSearcherPtr se = index();
    int open = (int)sx_choose("ends", 3);
    bool il = sx_choose("inclower", 2), iu = sx_choose("incupper", 2);
    String lo, hi;
    if (open != 1) lo = symText("lower", TIER(1, 2));
    if (open != 2) hi = symText("upper", TIER(1, 2));
    StringValue vl = VariantUtils::null(), vh = VariantUtils::null();
    if (open != 1) vl = lo;
    if (open != 2) vh = hi;
    std::set<int> want = matching([&](const String& t) { int a = t.compare(lo), b = t.compare(hi); return (open == 1 || (il ? a >= 0 : a > 0)) && (open == 2 || (iu ? b <= 0 : b < 0)); });
    bool constant = true;
    if (sx_choose("filter", 2)) sameIds(se, newLucene<MatchAllDocsQuery>(), newLucene<TermRangeFilter>(L"f", vl, vh, il, iu), want, true);
    else { TermRangeQueryPtr q = newLucene<TermRangeQuery>(L"f", vl, vh, il, iu); q->setRewriteMethod(method(constant)); sameIds(se, q, FilterPtr(), want, constant); }
    sx_cover("ranges");
}
// longer bounds around the terms of the index
SX_ENTRY(close_ranges) {
    IndexSearcherPtr se = index();
    bool il = sx_choose("inclower", 2), iu = sx_choose("incupper", 2);
    String lo = L"a", hi = L"b";
    lo += (wchar_t)sx_range("lower", L'a' - 1, L'c'); if (sx_choose("lowerlen", 2)) lo += (wchar_t)sx_range("lower2", L'a' - 1, L'c');
    hi += (wchar_t)sx_range("upper", L'a' - 1, L'c'); if (sx_choose("upperlen", 2)) hi += (wchar_t)sx_range("upper2", L'a' - 1, L'c');
    bool constant = true;
    TermRangeQueryPtr q = newLucene<TermRangeQuery>(L"f", lo, hi, il, iu);
    q->setRewriteMethod(method(constant));
    sameIds(se, q, FilterPtr(), matching([&](const String& t) { int a = t.compare(lo), b = t.compare(hi); return (il ? a >= 0 : a > 0) && (iu ? b <= 0 : b < 0); }), constant);
    sx_cover("ranges");
}
// ranges and term sets over cached single values
SX_ENTRY(cached) {
    IndexSearcherPtr se = index();
    bool il = sx_choose("inclower", 2), iu = sx_choose("incupper", 2);
    String lo = L"a", hi = L"b";
    lo += (wchar_t)sx_range("lower", L'a' - 1, L'c'); if (sx_choose("lowerlen", 2)) lo += (wchar_t)sx_range("lower2", L'a' - 1, L'c');
    hi += (wchar_t)sx_range("upper", L'a' - 1, L'c');
    std::set<int> want;
    FilterPtr f;
    if (sx_choose("termset", 2)) {
        Collection<String> ts = Collection<String>::newInstance();
        ts.add(lo); ts.add(L"abc"); ts.add(hi); ts.add(L"c\x00e9");
        f = newLucene<FieldCacheTermsFilter>(L"s", ts);
        for (size_t i = 0; i < dict().size(); ++i) { const String& t = dict()[i][0]; if (!gone.count((int)i) && (t == lo || t == L"abc" || t == hi || t == L"c\x00e9")) want.insert((int)i); }
    } else {
        f = FieldCacheRangeFilter::newStringRange(L"s", lo, hi, il, iu);
        for (size_t i = 0; i < dict().size(); ++i) { const String& t = dict()[i][0]; int a = t.compare(lo), b = t.compare(hi); if (!gone.count((int)i) && (il ? a >= 0 : a > 0) && (iu ? b <= 0 : b < 0)) want.insert((int)i); }
    }
    sameIds(se, newLucene<MatchAllDocsQuery>(), f, want, true);
    sx_cover("cached");
}
// any prefix
SX_ENTRY(prefixes) {
    IndexSearcherPtr se = index();
    String p = symText("prefix", TIER(2, 3));
    std::set<int> want = matching([&](const String& t) { return t.size() >= p.size() && t.compare(0, p.size(), p) == 0; });
    bool constant = true;
    if (sx_choose("filter", 2)) sameIds(se, newLucene<MatchAllDocsQuery>(), newLucene<PrefixFilter>(newLucene<Term>(L"f", p)), want, true);
    else { PrefixQueryPtr q = newLucene<PrefixQuery>(newLucene<Term>(L"f", p)); q->setRewriteMethod(method(constant)); sameIds(se, q, FilterPtr(), want, constant); }
    sx_cover("prefixes");
}
static bool glob(const String& p, size_t i, const String& t, size_t j) {
    if (i == p.size()) return j == t.size();
    if (p[i] == L'*') return glob(p, i + 1, t, j) || (j < t.size() && glob(p, i, t, j + 1));
    return j < t.size() && (p[i] == L'?' || p[i] == t[j]) && glob(p, i + 1, t, j + 1);
}
// any pattern
SX_ENTRY(wildcards) {
    IndexSearcherPtr se = index();
    int len = (int)sx_pick("length", 0, TIER(4, 5));
    String p;
    for (int i = 0; i < len; ++i) { wchar_t c = (wchar_t)sx_i32("any"); sx_assume(c == L'a' || c == L'b' || c == L'?' || c == L'*' || (len < 3 && c > L'b' && c < 0xd800)); p += c; }
    bool constant = true;
    std::set<int> want = matching([&](const String& t) { return glob(p, 0, t, 0); });
    WildcardQueryPtr q = newLucene<WildcardQuery>(newLucene<Term>(L"f", p));
    q->setRewriteMethod(method(constant));
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(true);
    se->search(q, FilterPtr(), c);
    req(c->h.size() == want.size(), "number of matching documents");
    for (int d : want) req(c->h.count(d) > 0, "a document with a matching term is found");
    sx_cover("wildcards");
}
static int edits(const String& a, const String& b) {
    std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
    for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) {
        if (!i || !j) { d[i][j] = (int)(i + j); continue; }
        int v = d[i - 1][j - 1] + (a[i - 1] != b[j - 1]);
        if (d[i - 1][j] + 1 < v) v = d[i - 1][j] + 1;
        if (d[i][j - 1] + 1 < v) v = d[i][j - 1] + 1;
        d[i][j] = v;
    }
    return d[a.size()][b.size()];
}
SX_ENTRY(fuzzy) {
    IndexSearcherPtr se = index();
    int len = (int)sx_pick("length", 1, TIER(4, 5));
    String p;
    for (int i = 0; i < len; ++i) p += (wchar_t)(L"abcx"[sx_choose("char", i < 2 ? 4 : 2)]); // only equality of characters matters
    static const double S[] = {0.5, 0.25, 0.75, 0.0};
    double sim = S[sx_choose("similarity", 4)];
    int pre = (int)sx_choose("prefix", 3);
    size_t pl = pre < len ? pre : len;
    std::set<int> want = matching([&](const String& t) {
        if (t.compare(0, pl, p, 0, pl) != 0) return false;
        if (!((double)p.size() > 1.0 / (1.0 - sim))) return t == p;
        String a = p.substr(pl), b = t.substr(pl);
        size_t m = a.size() < b.size() ? a.size() : b.size();
        int e = edits(a, b);
        double s = pl + m == 0 ? 0 : 1.0 - (double)e / (double)(pl + m);
        return s > sim;
    });
    FuzzyQueryPtr q = newLucene<FuzzyQuery>(newLucene<Term>(L"f", p), sim, pre);
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(true);
    se->search(q, FilterPtr(), c);
    req(c->h.size() == want.size(), "number of matching documents");
    for (int d : want) req(c->h.count(d) > 0, "a document with a similar term is found");
    sx_cover("fuzzy");
}
