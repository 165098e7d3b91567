// C26: highlighting adds marks around exactly the matching words and changes nothing else of the text.
// groups: core contrib snowball
#include "ix.h"
#include "Highlighter.h"
#include "Formatter.h"
#include "Fragmenter.h"
#include "NullFragmenter.h"
#include "SimpleFragmenter.h"
#include "SimpleSpanFragmenter.h"
#include "SimpleHTMLEncoder.h"
#include "SimpleHTMLFormatter.h"
#include "GradientFormatter.h"
#include "QueryScorer.h"
#include "QueryTermScorer.h"
#include "TextFragment.h"
#include "TokenGroup.h"
#include "TokenSources.h"
#include "TermPositionVector.h"
#include "TermQuery.h"
#include "BooleanQuery.h"
#include "BooleanClause.h"
#include "PhraseQuery.h"
#include "PrefixQuery.h"
#include "TermRangeQuery.h"
#include "MultiPhraseQuery.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "SpanFirstQuery.h"
#include "SpanOrQuery.h"
#include "SpanNotQuery.h"
#include "FilteredQuery.h"
#include "QueryWrapperFilter.h"
#include "DisjunctionMaxQuery.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
#include "PositionIncrementAttribute.h"
#include "StringReader.h"
struct Marks : public Formatter, public LuceneObject {
    virtual String highlightTerm(const String& t, const TokenGroupPtr& g) { return g->getTotalScore() > 0 ? L"[" + t + L"]" : t; }
};
static TermPtr T(const wchar_t* t) { return newLucene<Term>(L"f", t); }
static QueryPtr tq(const wchar_t* t) { return newLucene<TermQuery>(T(t)); }
static QueryPtr phrase(const wchar_t* a, const wchar_t* b, int slop = 0) { PhraseQueryPtr p = newLucene<PhraseQuery>(); p->add(T(a)); p->add(T(b)); p->setSlop(slop); return p; }
static const int NQ = 17;
static QueryPtr query(int k) {
    switch (k) {
    case 0: return tq(L"a");
    case 1: { BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(tq(L"a"), BooleanClause::SHOULD); b->add(tq(L"b"), BooleanClause::MUST_NOT); b->add(tq(L"c"), BooleanClause::MUST); return b; }
    case 2: return phrase(L"a", L"b");
    case 3: { BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(phrase(L"a", L"b"), BooleanClause::SHOULD); b->add(tq(L"b"), BooleanClause::SHOULD); return b; }
    case 4: { BooleanQueryPtr b = newLucene<BooleanQuery>(); b->add(tq(L"b"), BooleanClause::SHOULD); b->add(phrase(L"a", L"b"), BooleanClause::SHOULD); return b; }
    case 5: return newLucene<PrefixQuery>(T(L"a"));
    case 6: { Collection<SpanQueryPtr> c = newCollection<SpanQueryPtr>(newLucene<SpanTermQuery>(T(L"a")), newLucene<SpanTermQuery>(T(L"c"))); return newLucene<SpanNearQuery>(c, 0, true); }
    case 7: return newLucene<SpanFirstQuery>(newLucene<SpanTermQuery>(T(L"a")), 2);
    case 8: { DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(0.1); d->add(tq(L"b")); d->add(newLucene<TermQuery>(newLucene<Term>(L"other", L"a"))); return d; }
    case 10: { MultiPhraseQueryPtr m = newLucene<MultiPhraseQuery>(); m->add(T(L"a")); m->add(newCollection<TermPtr>(T(L"b"), T(L"c"))); return m; }
    case 11: return newLucene<FilteredQuery>(phrase(L"b", L"a"), newLucene<QueryWrapperFilter>(tq(L"c")));
    case 12: return newLucene<SpanOrQuery>(newCollection<SpanQueryPtr>(newLucene<SpanTermQuery>(T(L"b")), newLucene<SpanFirstQuery>(newLucene<SpanTermQuery>(T(L"c")), 1)));
    case 13: return newLucene<SpanNotQuery>(newLucene<SpanTermQuery>(T(L"a")), newLucene<SpanFirstQuery>(newLucene<SpanTermQuery>(T(L"a")), 2));
    case 14: { BooleanQueryPtr b = newLucene<BooleanQuery>(), c = newLucene<BooleanQuery>(); b->add(tq(L"c"), BooleanClause::SHOULD); c->add(phrase(L"a", L"b"), BooleanClause::MUST_NOT); c->add(newLucene<PrefixQuery>(T(L"b")), BooleanClause::SHOULD); b->add(c, BooleanClause::MUST); return b; }
    case 15: { Collection<SpanQueryPtr> c = newCollection<SpanQueryPtr>(newLucene<SpanTermQuery>(T(L"a")), newLucene<SpanTermQuery>(T(L"b"))); return newLucene<SpanNearQuery>(c, 0, false); }
    case 17: { BooleanQueryPtr b = newLucene<BooleanQuery>(); QueryPtr x = tq(L"a"); x->setBoost(2.0); b->add(x, BooleanClause::SHOULD); QueryPtr y = phrase(L"b", L"b"); y->setBoost(0.5); b->add(y, BooleanClause::SHOULD); return b; }
    case 16: return newLucene<TermRangeQuery>(L"other", L"a", L"c", true, true);
    default: return newLucene<TermRangeQuery>(L"f", L"b", L"c", true, false);
    }
}
// what must be marked: an oracle written from the queries' meaning
static std::vector<bool> expected(int k, const std::vector<String>& t) {
    std::vector<bool> r(t.size(), false);
    auto pair = [&](const String& a, const String& b) { for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == a && t[i + 1] == b) r[i] = r[i + 1] = true; };
    for (size_t i = 0; i < t.size(); ++i) switch (k) {
        case 0: if (t[i] == L"a") r[i] = true; break;
        case 1: if (t[i] == L"a" || t[i] == L"c") r[i] = true; break;
        case 3: case 4: case 8: if (t[i] == L"b") r[i] = true; break;
        case 5: if (t[i][0] == L'a') r[i] = true; break;
        case 7: if (i < 2 && t[i] == L"a") r[i] = true; break;
        case 9: if (t[i] >= L"b" && t[i] < L"c") r[i] = true; break;
        case 12: if (t[i] == L"b" || (i == 0 && t[i] == L"c")) r[i] = true; break;
        case 13: if (i >= 2 && t[i] == L"a") r[i] = true; break;
        case 14: if (t[i] == L"c" || t[i][0] == L'b') r[i] = true; break;
        default: break;
    }
    if (k == 2 || k == 3 || k == 4) pair(L"a", L"b");
    if (k == 6 || k == 10) pair(L"a", L"c");
    if (k == 10 || k == 15) pair(L"a", L"b");
    if (k == 11 || k == 15) pair(L"b", L"a");
    if (k == 17) { for (size_t i = 0; i < t.size(); ++i) if (t[i] == L"a") r[i] = true; pair(L"b", L"b"); }
    return r;
}
struct Words { std::vector<String> t; std::vector<int> s, e; };
static Words words(const String& text) {
    Words w;
    for (size_t i = 0; i < text.size();) { if (text[i] == L' ') { ++i; continue; } size_t j = i; while (j < text.size() && text[j] != L' ') ++j; w.t.push_back(text.substr(i, j - i)); w.s.push_back((int)i); w.e.push_back((int)j); i = j; }
    return w;
}
static String marked(const String& text, const Words& w, const std::vector<bool>& m, int upto = 1 << 30) {
    String r;
    int at = 0;
    for (size_t i = 0; i < w.t.size(); ++i) {
        if (w.s[i] >= upto) return r;
        r += text.substr(at, w.s[i] - at);
        r += m[i] ? L"[" + w.t[i] + L"]" : w.t[i];
        at = w.e[i];
    }
    if ((int)text.size() <= upto) r += text.substr(at);
    return r;
}
static bool any(const std::vector<bool>& m) { for (bool b : m) if (b) return true; return false; }
static TokenStreamPtr tokens(const String& text) { return newLucene<WhitespaceAnalyzer>()->tokenStream(L"f", newLucene<StringReader>(text)); }
static String text(int n, wchar_t hi) { String s; for (int i = 0; i < n; ++i) s += (wchar_t)(sx_bool("blank") ? L' ' : (wchar_t)sx_range("t", L'a', hi)); return s; }
static String line(int n, wchar_t hi) { String s; for (int i = 0; i < n; ++i) { if (i) s += L' '; s += (wchar_t)sx_range("w", L'a', hi); } return s; }
// the whole text, marked
static void whole(const String& s, int from, int to) {
    Words w = words(s);
    int k = from + (int)sx_choose("query", to - from);
    HighlighterPtr h = newLucene<Highlighter>(newLucene<Marks>(), newLucene<QueryScorer>(query(k), L"f"));
    h->setTextFragmenter(newLucene<NullFragmenter>());
    String r = h->getBestFragment(tokens(s), s);
    std::vector<bool> m = expected(k, w.t);
    req(r == (any(m) ? marked(s, w, m) : String()), "the text comes back with exactly the matching words marked");
    sx_cover("whole");
}
SX_ENTRY(any_text) { whole(text(TIER(4, 5), L'c') + L" b", 0, 10); }
SX_ENTRY(any_words) { whole(line(TIER(4, 5), L'c'), 0, 10); }
// phrases with alternatives, combinations of span queries, filtered and nested queries, queries of other fields
SX_ENTRY(more_queries) { whole(line(TIER(3, 4), L'c'), 10, NQ); }
// scorers that look at words alone, or weigh them by an index
SX_ENTRY(scorers) {
    String s = line(TIER(3, 4), L'c');
    Words w = words(s);
    int how = (int)sx_choose("scorer", 3);
    static const int PL[] = {0, 1, 3, 8}, PH[] = {0, 1, 2, 3, 6, 7};
    int k = how == 2 ? PH[sx_choose("query", 6)] : PL[sx_choose("query", 4)];
    HighlighterScorerPtr sc;
    std::vector<bool> m = expected(k, w.t);
    if (how == 0) { sc = newLucene<QueryTermScorer>(query(k), L"f"); if (k == 3) for (size_t i = 0; i < m.size(); ++i) m[i] = w.t[i] == L"a" || w.t[i] == L"b"; }
    else {
        RAMDirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr wr = openWriter(dir, true);
        for (int i = 0; i < 4; ++i) { MDoc d; d.add(L"f", i == 0 ? L"a c" : i == 1 ? L"b" : L"x"); wr->addDocument(d.make()); }
        wr->close();
        IndexReaderPtr r = IndexReader::open(dir, true);
        if (how == 1) { sc = newLucene<QueryTermScorer>(query(k), r, L"f"); if (k == 3) for (size_t i = 0; i < m.size(); ++i) m[i] = w.t[i] == L"a" || w.t[i] == L"b"; }
        else sc = newLucene<QueryScorer>(query(k), r, L"f");
    }
    HighlighterPtr h = newLucene<Highlighter>(newLucene<Marks>(), sc);
    h->setTextFragmenter(newLucene<NullFragmenter>());
    for (int round = 0; round < 2; ++round) { // a scorer can be used again
        String r = h->getBestFragment(tokens(s), s);
        req(r == (any(m) ? marked(s, w, m) : String()), "the text comes back with exactly the matching words marked");
    }
    sx_cover("scorers");
}
// cut into fragments
static void fragments(const FragmenterPtr& fr, const String& s, const Words& w, int k, const QueryScorerPtr& sc, int size) {
    std::vector<bool> m = expected(k, w.t);
    String all = marked(s, w, m);
    HighlighterPtr h = newLucene<Highlighter>(newLucene<Marks>(), sc);
    h->setTextFragmenter(fr);
    Collection<TextFragmentPtr> f = h->getBestTextFragments(tokens(s), s, false, 50);
    std::map<int, TextFragmentPtr> by;
    for (int i = 0; i < f.size(); ++i) {
        req(!by.count(f[i]->getFragNum()), "each fragment is returned once");
        by[f[i]->getFragNum()] = f[i];
        if (i) req(f[i - 1]->getScore() > f[i]->getScore() || (f[i - 1]->getScore() == f[i]->getScore() && f[i - 1]->getFragNum() < f[i]->getFragNum()), "fragments come best first");
    }
    String cat;
    for (auto& p : by) {
        String x = p.second->toString();
        cat += x;
        std::set<String> q;
        int depth = 0;
        for (size_t i = 0; i < x.size(); ++i) { if (x[i] == L'[') { ++depth; q.insert(String(1, x[i + 1])); } if (x[i] == L']') --depth; req(depth == 0 || depth == 1, "fragments do not cut through a marked word"); }
        req(depth == 0, "fragments do not cut through a marked word");
        double score = 0;
        for (auto& x : q) score += k == 17 ? (x == L"a" ? 2.0 : 0.5) : 1.0;
        req(p.second->getScore() == score, "a fragment scores the weights of the different query words it contains");
    }
    req(cat == all, "the fragments together are the whole marked text");
    // the best ones only, merged where they touch
    int n = (int)sx_choose("max", 3) + 1;
    Collection<String> b = h->getBestFragments(tokens(s), s, n);
    req(b.size() <= n, "no more fragments than asked for");
    int c = 0;
    for (auto& p : by) if (p.second->getScore() > 0) ++c;
    // the n best fragments, those that touch joined, those without a match left out
    std::multiset<String> want;
    std::set<int> best;
    for (int i = 0; i < f.size() && i < n; ++i) best.insert(f[i]->getFragNum());
    for (auto i = best.begin(); i != best.end();) {
        String x = by[*i]->toString();
        double top = by[*i]->getScore();
        int last = *i;
        for (++i; i != best.end() && *i == last + 1; ++i) { x += by[*i]->toString(); top = std::max(top, by[*i]->getScore()); last = *i; }
        if (top > 0) want.insert(x);
    }
    req(want == std::multiset<String>(b.begin(), b.end()), "the best fragments come back, those that touch joined");
    if (c && n == 1) req(b[0] == f[0]->toString(), "the best fragment is the one with the highest score");
    if (n > 1) { String joined = h->getBestFragments(tokens(s), s, n, L"..."); String want; for (int i = 0; i < b.size(); ++i) { if (i) want += L"..."; want += b[i]; } req(joined == want, "fragments are joined by the separator"); }
}
SX_ENTRY(fragmented) {
    String s = line(TIER(4, 5), L'b');
    Words w = words(s);
    static const int Q[] = {0, 1, 3, 17};
    int k = Q[sx_choose("query", 4)];
    int size = sx_range("size", 1, TIER(5, 9));
    fragments(newLucene<SimpleFragmenter>(size), s, w, k, newLucene<QueryScorer>(query(k), L"f"), size);
    sx_cover("fragments");
}
// a fragmenter that promises not to cut through the match of a phrase
SX_ENTRY(span_fragmenter) {
    String s = line(TIER(4, 5), L'b');
    Words w = words(s);
    QueryScorerPtr sc = newLucene<QueryScorer>(query(2), L"f");
    HighlighterPtr h = newLucene<Highlighter>(newLucene<Marks>(), sc);
    h->setTextFragmenter(newLucene<SimpleSpanFragmenter>(sc, 1));
    Collection<TextFragmentPtr> f = h->getBestTextFragments(tokens(s), s, false, 50);
    std::map<int, String> by;
    for (int i = 0; i < f.size(); ++i) by[f[i]->getFragNum()] = f[i]->toString();
    String cat;
    for (auto& p : by) cat += p.second;
    req(cat == marked(s, w, expected(2, w.t)), "the fragments together are the whole marked text");
    for (auto& p : by) { size_t a = p.second.rfind(L"[a]"); req(a == String::npos || p.second.find(L"[b]", a) != String::npos, "a fragment does not end inside the match of a phrase"); }
    sx_cover("spans");
}
// words that overlap: any sequence of offsets, any of them matching
struct OffsetTokens : public TokenStream {
    TermAttributePtr term; OffsetAttributePtr off; PositionIncrementAttributePtr inc; std::vector<int> s, e, p; std::vector<bool> m; size_t k;
    OffsetTokens() : k(0) {}
    virtual void initialize() { term = addAttribute<TermAttribute>(); off = addAttribute<OffsetAttribute>(); inc = addAttribute<PositionIncrementAttribute>(); }
    virtual bool incrementToken() { if (k >= s.size()) return false; clearAttributes(); term->setTermBuffer(m[k] ? L"a" : L"x"); off->setOffset(s[k], e[k]); inc->setPositionIncrement(p[k]); ++k; return true; }
    virtual void reset() { k = 0; }
};
SX_ENTRY(overlapping) {
    String s = L"uvwxyz";
    boost::shared_ptr<OffsetTokens> t = newLucene<OffsetTokens>();
    int n = TIER(3, 4), last = 0;
    for (int i = 0; i < n; ++i) {
        int a = sx_range("start", 0, 5), b = sx_range("end", 1, 6);
        sx_assume(a >= last && a < b);
        last = a;
        t->s.push_back(a); t->e.push_back(b); t->p.push_back(i && a == t->s[i - 1] ? 0 : 1);
        t->m.push_back(sx_choose("match", 2));
    }
    HighlighterPtr h = newLucene<Highlighter>(newLucene<Marks>(), newLucene<QueryTermScorer>(tq(L"a")));
    h->setTextFragmenter(newLucene<NullFragmenter>());
    String r = h->getBestFragment(t, s);
    if (!any(t->m)) { req(r.empty(), "nothing matches, nothing is returned"); return; }
    String plain;
    int depth = 0, at = 0;
    std::vector<bool> in(6, false);
    for (wchar_t c : r) { if (c == L'[') { ++depth; continue; } if (c == L']') { --depth; continue; } plain += c; if (at < 6) in[at] = depth > 0; ++at; req(depth == 0 || depth == 1, "marks do not nest"); }
    req(plain == s, "without the marks it is the text");
    // words that overlap one another form a group: the mark goes from the first to the last matching word of it
    std::vector<bool> must(6, false);
    for (int i = 0; i < n;) {
        int end = t->e[i], j = i, from = -1, to = -1;
        for (; j < n && (j == i || t->s[j] < end); ++j) {
            end = std::max(end, t->e[j]);
            if (t->m[j]) { if (from == -1) { from = t->s[j]; to = t->e[j]; } else { from = std::min(from, t->s[j]); to = std::max(to, t->e[j]); } }
        }
        for (int x = from; x < to; ++x) must[x] = true;
        i = j;
    }
    req(in == must, "the mark of overlapping words goes from the first match to the last");
    sx_cover("overlap");
}
// a limit on how much is analyzed
SX_ENTRY(limited) {
    String s = line(3, L'b') + (sx_choose("tail", 2) ? L"  " : L"");
    Words w = words(s);
    int lim = sx_range("limit", 0, 8);
    HighlighterPtr h = newLucene<Highlighter>(newLucene<Marks>(), newLucene<QueryScorer>(query(0), L"f"));
    h->setTextFragmenter(newLucene<NullFragmenter>());
    h->setMaxDocCharsToAnalyze(lim);
    std::vector<bool> m = expected(0, w.t);
    for (size_t i = 0; i < m.size(); ++i) if (w.s[i] >= lim) m[i] = false;
    req(h->getBestFragment(tokens(s), s) == (any(m) ? marked(s, w, m, lim) : String()), "words beyond the limit are left out, those before it marked");
    sx_cover("limited");
}
// texts with any characters come out encoded, and decode to what they were
SX_ENTRY(encoded) {
    String s;
    int n = TIER(3, 4);
    for (int i = 0; i < n; ++i) s += (wchar_t)sx_range("c", 1, 127);
    String r = newLucene<SimpleHTMLEncoder>()->encodeText(s), d;
    for (size_t i = 0; i < r.size();) {
        req(r[i] != L'<' && r[i] != L'>' && r[i] != L'"', "encoded text holds no markup");
        if (r[i] != L'&') { d += r[i++]; continue; }
        static const wchar_t* E[] = {L"&quot;", L"&amp;", L"&lt;", L"&gt;"};
        bool f = false;
        for (int k = 0; k < 4 && !f; ++k) { String e = E[k]; if (r.compare(i, e.size(), e) == 0) { d += L"\"&<>"[k]; i += e.size(); f = true; } }
        req(f, "an ampersand starts an entity");
    }
    req(d == s, "decoding gives the text back");
    sx_cover("encoded");
}
SX_ENTRY(encoded_marks) {
    String s;
    s += (wchar_t)sx_range("c", 33, 127); s += L" a "; s += (wchar_t)sx_range("c", 33, 127); s += L" a";
    SimpleHTMLEncoderPtr enc = newLucene<SimpleHTMLEncoder>();
    HighlighterPtr h = newLucene<Highlighter>(newLucene<SimpleHTMLFormatter>(L"<i>", L"</i>"), enc, newLucene<QueryScorer>(tq(L"a"), L"f"));
    h->setTextFragmenter(newLucene<NullFragmenter>());
    auto one = [&](const String& x) { return x == L"a" ? String(L"<i>a</i>") : enc->encodeText(x); };
    req(h->getBestFragment(tokens(s), s) == one(s.substr(0, 1)) + L" <i>a</i> " + one(s.substr(4, 1)) + L" <i>a</i>", "text is encoded, marks are not");
    sx_cover("encoded");
}
// words taken from a stored term vector give the same result as analyzing the text again
SX_ENTRY(stored) {
    String s = sx_choose("line", 2) ? line(TIER(4, 5), L'c') : text(TIER(3, 4), L'b') + L" b";
    Words w = words(s);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr wr = openWriter(dir, true);
    bool pos = sx_choose("positions", 2);
    MDoc d;
    d.add(L"f", s, F_TEXT | F_TVOFF | (pos ? F_TVPOS : 0));
    wr->addDocument(d.make());
    wr->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    TokenStreamPtr ts;
    switch (sx_choose("source", 3)) {
    case 0: ts = TokenSources::getAnyTokenStream(r, 0, L"f", newLucene<WhitespaceAnalyzer>()); break;
    case 1: ts = TokenSources::getTokenStream(r, 0, L"f"); break;
    default: if (!pos) sx_stop(); ts = TokenSources::getTokenStream(boost::dynamic_pointer_cast<TermPositionVector>(r->getTermFreqVector(0, L"f")), true); break;
    }
    TermAttributePtr term = ts->addAttribute<TermAttribute>();
    OffsetAttributePtr off = ts->addAttribute<OffsetAttribute>();
    for (size_t i = 0; i < w.t.size(); ++i) {
        req(ts->incrementToken(), "every word of the text comes back");
        req(term->term() == w.t[i] && off->startOffset() == w.s[i] && off->endOffset() == w.e[i], "words come back in order, with their offsets");
    }
    req(!ts->incrementToken(), "no further words");
    sx_cover("stored");
}
