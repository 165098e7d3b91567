// C24: tokenizers and token filters give exactly the tokens the text contains, with exact offsets and positions, however the text is read.
// groups: core contrib snowball
#include "common.h"
#include "Reader.h"
#include "StringReader.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
#include "PositionIncrementAttribute.h"
#include "TypeAttribute.h"
#include "WhitespaceTokenizer.h"
#include "LetterTokenizer.h"
#include "LowerCaseTokenizer.h"
#include "KeywordTokenizer.h"
#include "StopFilter.h"
#include "LowerCaseFilter.h"
#include "LengthFilter.h"
#include "CachingTokenFilter.h"
#include "TeeSinkTokenFilter.h"
#include "StandardTokenizer.h"
#include "NGramTokenizer.h"
#include "EdgeNGramTokenizer.h"
#include "NGramTokenFilter.h"
#include "EdgeNGramTokenFilter.h"
#include "CJKTokenizer.h"
#include "ChineseTokenizer.h"
#include "UnicodeUtils.h"
#include "CharFolder.h"
// gives the text in pieces of the stated sizes
struct PieceReader : public Reader {
    String s; size_t p; int piece, calls;
    PieceReader(const String& t, int pc) : s(t), p(0), piece(pc), calls(0) {}
    virtual int32_t read() { return p < s.size() ? (int32_t)s[p++] : READER_EOF; }
    virtual int32_t read(wchar_t* b, int32_t off, int32_t len) {
        req(++calls < 20000, "the text is read only once");
        if (p >= s.size()) return READER_EOF;
        int32_t n = 0;
        while (n < len && n < piece && p < s.size()) b[off + n++] = s[p++];
        return n;
    }
    virtual void close() {}
};
struct Tok { String t; int s, e, inc; };
static std::vector<Tok> drain(const TokenStreamPtr& ts, int limit, int* end = NULL) {
    TermAttributePtr t = ts->addAttribute<TermAttribute>();
    OffsetAttributePtr o = ts->addAttribute<OffsetAttribute>();
    PositionIncrementAttributePtr p = ts->addAttribute<PositionIncrementAttribute>();
    std::vector<Tok> r;
    while (ts->incrementToken()) {
        Tok k = {t->term(), o->startOffset(), o->endOffset(), p->getPositionIncrement()};
        req(t->termLength() == (int)k.t.size(), "term length");
        r.push_back(k);
        req((int)r.size() <= limit, "no more tokens than characters allow");
    }
    req(!ts->incrementToken(), "an ended stream stays ended");
    ts->end();
    if (end) *end = o->endOffset();
    return r;
}
static void same(const std::vector<Tok>& a, const std::vector<Tok>& b) {
    req(a.size() == b.size(), "number of tokens");
    for (size_t i = 0; i < a.size(); ++i) {
        req(a[i].t.size() == b[i].t.size(), "token text");
        for (size_t j = 0; j < a[i].t.size(); ++j) sx_assert(a[i].t[j] == b[i].t[j], "token text");
        req(a[i].s == b[i].s && a[i].e == b[i].e, "token offsets");
        req(a[i].inc == b[i].inc, "position increment");
    }
}
static wchar_t anyChar(const char* n, bool wide) { wchar_t c = (wchar_t)sx_i32(n); sx_assume(c >= 1 && c < (wide ? 0x180 : 0x80)); return c; }
static bool isTok(int kind, wchar_t c) { return kind == 0 ? !UnicodeUtil::isSpace(c) : UnicodeUtil::isAlpha(c); }
static std::vector<Tok> expectChars(const String& s, int kind) {
    std::vector<Tok> r;
    if (kind == 3) { Tok k = {s, 0, (int)s.size(), 1}; r.push_back(k); return r; } // the whole text, even when empty
    for (size_t i = 0; i < s.size();) {
        while (i < s.size() && !isTok(kind, s[i])) ++i;
        size_t b = i;
        while (i < s.size() && isTok(kind, s[i]) && i - b < 255) ++i;
        if (i > b) { Tok k = {s.substr(b, i - b), (int)b, (int)i, 1}; if (kind == 2) for (auto& c : k.t) c = CharFolder::toLower(c); r.push_back(k); }
    }
    return r;
}
static TokenizerPtr chars(int kind, const ReaderPtr& in) {
    if (kind == 0) return newLucene<WhitespaceTokenizer>(in);
    if (kind == 1) return newLucene<LetterTokenizer>(in);
    if (kind == 2) return newLucene<LowerCaseTokenizer>(in);
    return newLucene<KeywordTokenizer>(in);
}
SX_ENTRY(character_classes) {
    int kind = (int)sx_choose("tokenizer", 4), n = (int)sx_pick("length", 0, TIER(3, 4));
    String s;
    for (int i = 0; i < n; ++i) s += anyChar("c", i == 1);
    int piece = sx_choose("piece", 2) ? 1 : 100;
    TokenizerPtr t = chars(kind, newLucene<PieceReader>(s, piece));
    int end = -1;
    std::vector<Tok> want = expectChars(s, kind);
    same(drain(t, n + 1, &end), want);
    req(end == n, "final offset is the length of the text");
    t->reset(ReaderPtr(newLucene<PieceReader>(s + L" x", piece)));
    t->reset(); // the same tokenizer is used for another text
    same(drain(t, n + 2, &end), expectChars(s + L" x", kind));
    req(end == n + 2, "final offset is the length of the text");
    sx_cover("classes");
}
// words and texts around the internal buffer sizes, read in pieces
SX_ENTRY(long_texts) {
    int kind = (int)sx_choose("tokenizer", 4);
    static const int B[] = {16, 255, 510, 4096};
    int len = B[sx_choose("around", 4)] + (int)sx_pick("offset", -1, 1);
    int gap = (int)sx_choose("gap", 3);
    String s;
    for (int i = 0; i < len; ++i) s += (wchar_t)(L'a' + i % 26);
    if (gap == 1) s[len / 2] = L' ';
    if (gap == 2) { s[len - 1] = L' '; s += L"tail"; }
    static const int P[] = {1000000, 4096, 4095, 7};
    int end = -1;
    same(drain(chars(kind, newLucene<PieceReader>(s, P[sx_choose("piece", 4)])), len + 5, &end), expectChars(s, kind));
    req(end == (int)s.size(), "final offset is the length of the text");
    sx_cover("long");
}
// a stream of chosen tokens
struct ListStream : public TokenStream {
    std::vector<Tok> v; size_t i; int fin; TermAttributePtr t; OffsetAttributePtr o; PositionIncrementAttributePtr p;
    ListStream(const std::vector<Tok>& x, int f) : v(x), i(0), fin(f) { t = addAttribute<TermAttribute>(); o = addAttribute<OffsetAttribute>(); p = addAttribute<PositionIncrementAttribute>(); }
    virtual bool incrementToken() {
        clearAttributes();
        if (i >= v.size()) return false;
        t->setTermBuffer(v[i].t); o->setOffset(v[i].s, v[i].e); p->setPositionIncrement(v[i].inc);
        ++i;
        return true;
    }
    virtual void end() { o->setOffset(fin, fin); }
    virtual void reset() { i = 0; }
};
static std::vector<Tok> tokens(int n) {
    std::vector<Tok> v;
    int at = 0;
    for (int i = 0; i < n; ++i) {
        String w;
        int k = (int)sx_choose("word", 4);
        if (k == 0) w = L"the"; else if (k == 1) w = L"THE"; else if (k == 2) { w = L"th"; w += (wchar_t)sx_range("last", L'd', L'f'); } else w = L"x";
        Tok t = {w, at, at + (int)w.size(), i == 0 ? 1 : (int)sx_range("inc", 0, 2)};
        at += (int)w.size() + 1;
        v.push_back(t);
    }
    return v;
}
SX_ENTRY(stop_filter) {
    std::vector<Tok> v = tokens((int)sx_pick("n", 1, TIER(3, 4)));
    bool incs = sx_choose("increments", 2), ic = sx_choose("ignorecase", 2);
    HashSet<String> stop = HashSet<String>::newInstance();
    stop.add(L"the"); stop.add(L"an");
    std::vector<Tok> want;
    int skipped = 0;
    for (auto& t : v) {
        bool s = t.t == L"the" || (ic && t.t == L"THE");
        if (s) { skipped += t.inc; continue; }
        Tok k = t; if (incs) k.inc += skipped; skipped = 0;
        want.push_back(k);
    }
    int end = -1;
    same(drain(newLucene<StopFilter>(incs, newLucene<ListStream>(v, 77), stop, ic), 10, &end), want);
    req(end == 77, "final offset passes through");
    sx_cover("stop");
}
SX_ENTRY(simple_filters) {
    std::vector<Tok> v = tokens(2), want;
    if (sx_choose("which", 2)) {
        int lo = (int)sx_range("min", 0, 4), hi = (int)sx_range("max", 0, 4);
        for (auto& t : v) if ((int)t.t.size() >= lo && (int)t.t.size() <= hi) want.push_back(t);
        same(drain(newLucene<LengthFilter>(newLucene<ListStream>(v, 5), lo, hi), 10), want);
    } else {
        want = v;
        for (auto& t : want) for (auto& c : t.t) c = CharFolder::toLower(c);
        same(drain(newLucene<LowerCaseFilter>(newLucene<ListStream>(v, 5)), 10), want);
    }
    sx_cover("filters");
}
// caches and tees give every consumer the same tokens, in any order of use
SX_ENTRY(replay) {
    std::vector<Tok> v = tokens((int)sx_pick("n", 0, 2));
    if (sx_choose("which", 2)) {
        CachingTokenFilterPtr c = newLucene<CachingTokenFilter>(newLucene<ListStream>(v, 42));
        int rounds = (int)sx_pick("rounds", 1, 3);
        for (int i = 0; i < rounds; ++i) {
            int stop = (int)sx_choose("stop", 2);
            if (stop && !v.empty()) { req(c->incrementToken(), "a token is there"); c->reset(); }
            int end = -1;
            same(drain(c, 10, &end), v);
            req(end == 42, "final offset");
            c->reset();
        }
    } else {
        TeeSinkTokenFilterPtr tee = newLucene<TeeSinkTokenFilter>(newLucene<ListStream>(v, 42));
        SinkTokenStreamPtr s1 = tee->newSinkTokenStream(), s2 = tee->newSinkTokenStream();
        int end = -1;
        if (sx_choose("consumeall", 2)) { tee->consumeAllTokens(); tee->end(); } else { same(drain(tee, 10, &end), v); req(end == 42, "final offset"); }
        same(drain(s1, 10, &end), v); req(end == 42, "final offset");
        s1->reset();
        same(drain(s2, 10, &end), v); req(end == 42, "final offset");
        same(drain(s1, 10, &end), v); req(end == 42, "final offset");
    }
    sx_cover("replay");
}
SX_ENTRY(ngrams) {
    int lo = (int)sx_pick("min", 1, 3), hi = (int)sx_pick("max", lo, 3), n = (int)sx_pick("length", 0, 5);
    int which = (int)sx_choose("which", 4);
    String s;
    for (int i = 0; i < n; ++i) s += (wchar_t)sx_range("c", L'a', L'b');
    std::vector<Tok> want, got;
    if (which < 2) {
        for (int b = 0; b + lo <= n && (which == 0 || b == 0); ++b) for (int l = lo; l <= hi && b + l <= n; ++l) { Tok t = {s.substr(b, l), b, b + l, 1}; want.push_back(t); }
        ReaderPtr in = newLucene<PieceReader>(s, sx_choose("piece", 2) ? 1 : 100);
        TokenStreamPtr ts = which ? TokenStreamPtr(newLucene<EdgeNGramTokenizer>(in, lo, hi)) : TokenStreamPtr(newLucene<NGramTokenizer>(in, lo, hi));
        got = drain(ts, 3 * n);
    } else {
        bool keep = sx_choose("original", 2);
        std::vector<Tok> v; Tok f = {s, 3, 3 + n, 1}, g = {L"xyz", 20, 23, 2};
        v.push_back(f); v.push_back(g);
        int inc = 0;
        for (auto& t : v) {
            int m = (int)t.t.size();
            inc += t.inc;
            if (keep && m < lo) { Tok k = t; k.inc = inc; inc = 0; want.push_back(k); continue; }
            for (int b = 0; b + lo <= m && (which == 2 || b == 0); ++b) for (int l = lo; l <= hi && b + l <= m; ++l) { Tok k = {t.t.substr(b, l), t.s, t.e, inc}; inc = 0; want.push_back(k); }
            if (keep && m > hi) { Tok k = t; k.inc = 0; want.push_back(k); }
        }
        TokenStreamPtr src = newLucene<ListStream>(v, 23);
        got = drain(which == 2 ? TokenStreamPtr(newLucene<NGramTokenFilter>(src, lo, hi, keep)) : TokenStreamPtr(newLucene<EdgeNGramTokenFilter>(src, lo, hi, keep)), 100);
    }
    same(got, want);
    sx_cover("ngrams");
}
// grams of texts longer than the buffer
SX_ENTRY(long_ngrams) {
    sx_limit(100000000);
    int lo = 1 + (int)sx_choose("min", 2), hi = lo + (int)sx_choose("more", 2);
    int n = 1024 + (int)sx_pick("around", -3, 3);
    if (sx_choose("twice", 2)) n *= 2; else if (sx_choose("grams", 2)) n += 2 * hi;
    bool edge = sx_choose("edge", 2);
    String s;
    for (int i = 0; i < n; ++i) s += (wchar_t)(L'a' + i % 23);
    std::vector<Tok> want;
    for (int b = 0; b + lo <= n && (!edge || b == 0); ++b) for (int l = lo; l <= hi && b + l <= n; ++l) { Tok t = {s.substr(b, l), b, b + l, 1}; want.push_back(t); }
    ReaderPtr in = newLucene<PieceReader>(s, sx_choose("piece", 2) ? 1000 : 100000);
    same(drain(edge ? TokenStreamPtr(newLucene<EdgeNGramTokenizer>(in, lo, hi)) : TokenStreamPtr(newLucene<NGramTokenizer>(in, lo, hi)), 3 * n), want);
    sx_cover("long");
}
static wchar_t grammarChar(const char* n) { static const wchar_t C[] = L"aB1.@-' \x4e2d\x00e9&_"; return C[sx_choose(n, 12)]; }
// the grammar-based tokenizer loses no letter or digit, and tokens are exactly the text at their offsets
SX_ENTRY(standard) {
    int n = (int)sx_pick("length", 0, TIER(3, 4));
    String s;
    for (int i = 0; i < n; ++i) s += i + 1 == n ? anyChar("c", true) : grammarChar("c");
    TokenStreamPtr ts = newLucene<StandardTokenizer>(LuceneVersion::LUCENE_30, newLucene<PieceReader>(s, 100));
    int end = -1;
    std::vector<Tok> v = drain(ts, n, &end);
    req(end == n, "final offset is the length of the text");
    int at = 0;
    std::vector<bool> in(n, false);
    for (auto& t : v) {
        req(t.s >= at && t.e > t.s && t.e <= n, "tokens are in order and inside the text");
        req((int)t.t.size() == t.e - t.s, "token length");
        for (int i = t.s; i < t.e; ++i) { sx_assert(s[i] == t.t[i - t.s], "token is the text at its offsets"); in[i] = true; }
        req(t.inc == 1, "position increment");
        at = t.e;
    }
    for (int i = 0; i < n; ++i) if (!in[i]) sx_assert(!((s[i] >= L'a' && s[i] <= L'z') || (s[i] >= L'A' && s[i] <= L'Z') || (s[i] >= L'0' && s[i] <= L'9') || s[i] == 0x4e2d || s[i] == 0xe9), "no letter or digit is lost");
    sx_cover("standard");
}
// CJK: Latin words whole, other letters as overlapping pairs; Chinese: one character at a time
SX_ENTRY(cjk) {
    int n = (int)sx_pick("length", 0, TIER(4, 5));
    static const wchar_t C[] = L"aB1 \x4e2d\x6587\xff21+";
    String s;
    for (int i = 0; i < n; ++i) s += C[sx_choose("c", TIER(6, 8))];
    bool chinese = sx_choose("chinese", 2);
    ReaderPtr in = newLucene<PieceReader>(s, 100);
    TokenStreamPtr ts = chinese ? TokenStreamPtr(newLucene<ChineseTokenizer>(in)) : TokenStreamPtr(newLucene<CJKTokenizer>(in));
    std::vector<Tok> v = drain(ts, 2 * n);
    std::vector<bool> cov(n, false);
    int at = 0;
    for (auto& t : v) {
        req(t.s >= at && t.e > t.s && t.e <= n, "tokens are in order and inside the text");
        req((int)t.t.size() == t.e - t.s, "token length");
        for (int i = t.s; i < t.e; ++i) { wchar_t c = s[i]; if (c == 0xff21) c = L'a'; if (c == L'B') c = L'b'; req(t.t[i - t.s] == c || (chinese && t.t[i - t.s] == s[i]), "token is the folded text at its offsets"); cov[i] = true; }
        bool wide = t.t[0] >= 0x4e00 && t.t[0] < 0xff00;
        if (wide) req(t.e - t.s == (chinese ? 1 : t.e - t.s) && t.e - t.s <= 2, "at most two wide characters together");
        at = t.s + 1;
    }
    for (int i = 0; i < n; ++i) req(cov[i] == (s[i] != L' ' && !(chinese && (s[i] == L'+' || s[i] == 0xff21)) ) || s[i] == L'+' || s[i] == 0xff21, "every letter and digit is in a token");
    sx_cover("cjk");
}
