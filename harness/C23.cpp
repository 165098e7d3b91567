// C23: the query parser builds exactly the query its syntax describes, and is safe on every text.
#include "common.h"
#include "QueryParser.h"
#include "MultiFieldQueryParser.h"
#include "QueryParseError.h"
#include "WhitespaceAnalyzer.h"
#include "KeywordAnalyzer.h"
#include "SimpleAnalyzer.h"
#include "StopAnalyzer.h"
#include "TermRangeQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "MatchAllDocsQuery.h"
#include "BooleanQuery.h"
#include "BooleanClause.h"
#include <boost/date_time/posix_time/posix_time.hpp>
#include "DateTools.h"
#include "VariantUtils.h"
// the ends of ranges used here are no dates (locale facets are outside the encoding; the native replay runs the real function)
SX_STUB boost::posix_time::ptime sx_stub__ZN6Lucene9DateTools9parseDateERKNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEEESt6locale(const String& s, std::locale) {
    for (size_t i = 0; i < s.size(); ++i) sx_assume(s[i] < L'0' || s[i] > L'9');
    boost::throw_exception(ParseException(L"Invalid date"));
    return boost::posix_time::ptime();
}
struct Esc : public QueryParser { Esc() : QueryParser(LuceneVersion::LUCENE_30, L"", AnalyzerPtr()) {} static String of(const String& s) { return escape(s); } };
static QueryParserPtr parser(const AnalyzerPtr& a) { return newLucene<QueryParser>(LuceneVersion::LUCENE_30, L"f", a); }
static QueryPtr T(const String& t, const String& f = L"f") { return newLucene<TermQuery>(newLucene<Term>(f, t)); }
static void sameQuery(const QueryPtr& got, const QueryPtr& want) {
    req(got.get() != NULL, "a query is returned");
    if (!want->equals(got)) { if (getenv("SHOW")) fprintf(stderr, "got %ls want %ls\n", got->toString().c_str(), want->toString().c_str()); sx_fail("the parsed query is the one described"); }
    req(got->equals(want) && got->hashCode() == want->hashCode(), "equality and hash code agree");
}
// still parses correctly after whatever came before
static void alive(const QueryParserPtr& p) { sameQuery(p->parse(L"g:ok"), T(L"ok", L"g")); }
static const wchar_t SP[] = L"a \"\\:*?~^[]{}()+-!|&1T";
// any two or three characters inside a context: a query or an error, never anything else
SX_ENTRY(any_text) {
    static const wchar_t* PRE[] = {L"", L"a:\"", L"[a TO ", L"a\\", L"(a ", L"x^", L"x~", L"\\u00", L"{a "};
    static const wchar_t* POST[] = {L"", L"\"", L"]", L" b", L")", L"", L"", L"1", L"}"};
    int pre = (int)sx_choose("context", 9), post = pre;
    int n = (int)sx_pick("n", 0, TIER(2, 3));
    String s(PRE[pre]);
    for (int i = 0; i < n; ++i) {
        if (i + 1 == n && n == 1) { wchar_t c = (wchar_t)sx_i32("c"); sx_assume(c >= 1 && c < 0x100); s += c; }
        else s += SP[sx_choose("c", TIER(12, 21))];
    }
    s += POST[post];
    QueryParserPtr p = parser(newLucene<WhitespaceAnalyzer>());
    p->setAllowLeadingWildcard(sx_choose("leading", TIER(1, 2)));
    try {
        QueryPtr q = p->parse(s);
        req(q.get() != NULL, "a query is returned");
        sx_cover("query");
    } catch (LuceneException&) { sx_cover("error"); }
    alive(p);
}
// escaped text is searched for literally
SX_ENTRY(escaped) {
    int n = (int)sx_pick("n", 1, TIER(2, 3));
    int how = (int)sx_choose("how", 4);
    String s;
    for (int i = 0; i < n; ++i) {
        wchar_t c = i == 0 ? (wchar_t)sx_i32("c") : 0;
        if (i == 0) sx_assume(c >= 1 && c < TIER(0x80, 0x200)); else { static const wchar_t B[] = L"a\\\"*?&|-!u1:"; c = B[sx_choose("next", TIER(6, 12))]; }
        if (how != 1) { sx_assume(c != L' ' && c != L'\t' && c != L'\n' && c != L'\r' && c != 0x3000); }
        s += c;
    }
    QueryParserPtr p = parser(newLucene<KeywordAnalyzer>());
    p->setLowercaseExpandedTerms(false); p->setAllowLeadingWildcard(true);
    String e = Esc::of(s);
    QueryPtr q = how == 0 ? p->parse(e) : how == 1 ? p->parse(L"\"" + e + L"\"") : how == 2 ? p->parse(L"+g:" + e + L" -" + e + L"^2") : p->parse(e + L"*");
    QueryPtr want;
    if (how < 2) want = T(s);
    else if (how == 2) {
        BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(T(s, L"g"), BooleanClause::MUST);
        QueryPtr w = T(s); w->setBoost(2); b->add(w, BooleanClause::MUST_NOT); want = b;
    } else want = newLucene<PrefixQuery>(newLucene<Term>(L"f", s));
    req(q->equals(want), "escaped text stands for itself");
    sx_cover("escaped");
}
// \uXXXX stands for its character
SX_ENTRY(unicode_escape) {
    String s(L"a\\u"), hex;
    int v = 0;
    for (int i = 0; i < 4; ++i) {
        int d = i < 2 ? (int)sx_choose("digit", i == 0 ? 2 : 4) * 3 : (int)sx_range("digit", 0, 15);
        bool up = i == 3 && sx_choose("upper", 2);
        s += (wchar_t)(d < 10 ? L'0' + d : (up ? L'A' : L'a') + d - 10);
        v = v * 16 + d;
    }
    QueryPtr q = parser(newLucene<KeywordAnalyzer>())->parse(s);
    TermQueryPtr t = boost::dynamic_pointer_cast<TermQuery>(q);
    req(t.get() != NULL, "a term query");
    String x = t->getTerm()->text();
    req(x.size() == 2 && x[0] == L'a', "two characters");
    sx_assert(x[1] == (wchar_t)v, "an escape stands for its character");
    sx_cover("unicode");
}
struct Cl { QueryPtr q; int occ; };
// a list of clauses with operators and modifiers, groups and words the analyzer drops
static String clauses(int depth, int n, bool andOp, std::vector<Cl>& out, const AnalyzerPtr& an, QueryPtr& whole) {
    static const wchar_t* CONJ[] = {L" ", L" AND ", L" OR ", L" && ", L" || "};
    static const wchar_t* MOD[] = {L"", L"+", L"-", L"NOT ", L"!"};
    String s;
    QueryPtr first;
    int groups = 0;
    for (int i = 0; i < n; ++i) {
        int conj = i ? (int)sx_choose("conj", depth ? 3 : TIER(3, 5)) : 0, mod = (int)sx_choose("mod", depth ? 3 : TIER(4, 5));
        s += i ? CONJ[conj] : L""; s += MOD[mod];
        QueryPtr q;
        bool may = !depth && groups < 1;
        int kind = (int)sx_choose("kind", may ? 3 : 2);
        if (kind == 0) { String w(1, (wchar_t)(L'p' + i + 3 * depth)); s += w; q = T(w); }
        else if (kind == 1) { s += L"the"; }
        else {
            std::vector<Cl> in;
            ++groups;
            s += L"(" + clauses(1, (n > 1 ? 1 : 1 + (int)sx_choose("inner", 2)), andOp, in, an, q) + L")";
        }
        int c = conj > 2 ? conj - 2 : conj;
        bool no = mod >= 2, plus = mod == 1;
        if (c == 1 && !out.empty() && out.back().occ != 2) out.back().occ = 0;
        if (c == 2 && andOp && !out.empty() && out.back().occ != 2) out.back().occ = 1;
        if (i == 0 && mod == 0) first = q;
        if (!q) continue;
        Cl x = {q, no ? 2 : andOp ? (c == 2 ? 1 : 0) : (plus || c == 1 ? 0 : 1)};
        out.push_back(x);
    }
    if (out.size() == 1 && first) whole = first;
    else if (out.empty()) whole.reset();
    else {
        BooleanQueryPtr b = newLucene<BooleanQuery>();
        for (auto& x : out) b->add(x.q, x.occ == 0 ? BooleanClause::MUST : x.occ == 1 ? BooleanClause::SHOULD : BooleanClause::MUST_NOT);
        whole = b;
    }
    return s;
}
SX_ENTRY(structure) {
    bool andOp = sx_choose("default", 2);
    AnalyzerPtr an = newLucene<StopAnalyzer>(LuceneVersion::LUCENE_30);
    std::vector<Cl> out;
    QueryPtr want;
    String s = clauses(0, 1 + (int)sx_choose("n", TIER(2, 3)), andOp, out, an, want);
    QueryParserPtr p = parser(an);
    if (andOp) p->setDefaultOperator(QueryParser::AND_OPERATOR);
    if (!want) want = newLucene<BooleanQuery>(false);
    sameQuery(p->parse(s), want);
    sx_cover("structure");
}
// one clause of every kind, with a field, slop, similarity and boost
SX_ENTRY(terms) {
    bool lower = sx_choose("lower", 2);
    String f = sx_choose("field", 2) ? L"g" : L"f";
    QueryParserPtr p = parser(newLucene<WhitespaceAnalyzer>());
    p->setLowercaseExpandedTerms(lower);
    p->setFuzzyMinSim(0.25); p->setFuzzyPrefixLength(1); p->setPhraseSlop(3);
    p->setAllowLeadingWildcard(true);
    static const wchar_t* B[] = {L"", L"^2", L"^0.5"};
    static const double BV[] = {1, 2, 0.5};
    int b = (int)sx_choose("boost", 3), kind = (int)sx_choose("kind", 11);
    String s, w = lower ? L"ab" : L"Ab";
    QueryPtr want;
    auto term = [&](const String& t) { return newLucene<Term>(f, t); };
    switch (kind) {
    case 0: s = L"Ab"; want = T(L"Ab", f); break;
    case 1: s = L"Ab*"; want = newLucene<PrefixQuery>(term(w)); break;
    case 2: s = L"A?b*c"; want = newLucene<WildcardQuery>(term(lower ? L"a?b*c" : L"A?b*c")); break;
    case 3: s = L"Ab~"; want = newLucene<FuzzyQuery>(term(w), 0.25, 1); break;
    case 4: s = L"Ab~0.75"; want = newLucene<FuzzyQuery>(term(w), 0.75, 1); break;
    case 5: case 6: {
        PhraseQueryPtr q = newLucene<PhraseQuery>();
        q->add(term(L"Ab")); q->add(term(L"cd")); q->setSlop(kind == 5 ? 3 : 1);
        s = kind == 5 ? L"\"Ab cd\"" : L"\"Ab  cd\"~1"; want = q; break;
    }
    case 7: s = L"[Ab TO cd]"; want = newLucene<TermRangeQuery>(f, w, String(L"cd"), true, true); break;
    case 8: s = L"{Ab TO \"c d\"}"; want = newLucene<TermRangeQuery>(f, w, String(L"c d"), false, false); break;
    case 9: s = L"\"Ab\""; want = T(L"Ab", f); break;
    default: if (f == L"f") sx_stop(); s = L"*"; f = L"*"; want = newLucene<MatchAllDocsQuery>(); break;
    }
    want->setBoost(BV[b]);
    QueryPtr got = p->parse((f == L"f" ? L"" : f + L":") + s + B[b]);
    sameQuery(got, want);
    if (f != L"*" && kind != 8) sameQuery(p->parse(got->toString(L"f")), want); // what a query prints as parses to itself
    sx_cover("terms");
}
// over several fields
SX_ENTRY(fields) {
    Collection<String> fs = newCollection<String>(L"f", L"g");
    MapStringDouble boosts = MapStringDouble::newInstance();
    bool b = sx_choose("boosts", 2);
    if (b) boosts.put(L"g", 2.0);
    MultiFieldQueryParserPtr p = newLucene<MultiFieldQueryParser>(LuceneVersion::LUCENE_30, fs, newLucene<StopAnalyzer>(LuceneVersion::LUCENE_30), boosts);
    bool andOp = sx_choose("default", 2);
    if (andOp) p->setDefaultOperator(QueryParser::AND_OPERATOR);
    int k = (int)sx_choose("kind", 5);
    auto both = [&](const String& w, int kind, double bo = 0) -> QueryPtr {
        BooleanQueryPtr q = newLucene<BooleanQuery>(true);
        for (auto f : {L"f", L"g"}) {
            QueryPtr x;
            if (kind == 0) { x = T(w, f); if (b && f == String(L"g")) x->setBoost(2); }
            else if (kind == 1) x = newLucene<PrefixQuery>(newLucene<Term>(f, w));
            else if (kind == 2) x = newLucene<FuzzyQuery>(newLucene<Term>(f, w), 0.5, 0);
            else x = newLucene<TermRangeQuery>(f, w, w + L"z", true, true);
            q->add(x, BooleanClause::SHOULD);
        }
        return q;
    };
    BooleanClause::Occur o = andOp ? BooleanClause::MUST : BooleanClause::SHOULD;
    BooleanQueryPtr want = newLucene<BooleanQuery>();
    if (k == 0) { want->add(both(L"one", 0), o); want->add(both(L"two", 0), o); sameQuery(p->parse(L"one the two"), want); }
    if (k == 1) { want->add(both(L"one", 1), o); want->add(T(L"two", L"g"), o); sameQuery(p->parse(L"one* g:two"), want); }
    if (k == 2) { want->add(both(L"one", 2), o); want->add(both(L"two", 0), BooleanClause::MUST_NOT); sameQuery(p->parse(L"one~ -two"), want); }
    if (k == 3) { want->add(both(L"one", 3), o); want->add(both(L"two", 0), BooleanClause::MUST); sameQuery(p->parse(L"[one TO onez] +two"), want); }
    if (k == 4) sameQuery(p->parse(L"one"), both(L"one", 0));
    sx_cover("fields");
}
