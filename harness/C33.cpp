// C33: character filters replace the longest match and map every offset back to the original text.
// groups: core
#include "common.h"
#include "MappingCharFilter.h"
#include "NormalizeCharMap.h"
#include "CharReader.h"
#include "StringReader.h"
#include "WhitespaceTokenizer.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
struct Rule { String from, to; };
// the text with replacements, and for each offset of it (0 ... length) the offset in the original
static void oracle(const std::vector<Rule>& rules, const String& in, String& out, std::vector<int>& back) {
    out.clear(); back.clear();
    size_t i = 0;
    while (i < in.size()) {
        const Rule* best = NULL;
        for (auto& r : rules) if (in.compare(i, r.from.size(), r.from) == 0 && (!best || r.from.size() > best->from.size())) best = &r;
        if (!best) { out += in[i]; back.push_back((int)i); ++i; continue; }
        size_t m = best->from.size(), n = best->to.size();
        for (size_t k = 0; k < n; ++k) { out += best->to[k]; back.push_back((int)(i + std::min(k, m - 1))); }
        i += m;
    }
    back.push_back((int)in.size());
}
static NormalizeCharMapPtr mapOf(const std::vector<Rule>& rules) { NormalizeCharMapPtr m = newLucene<NormalizeCharMap>(); for (auto& r : rules) m->add(r.from, r.to); return m; }
// reads everything, one character at a time or in pieces of chosen sizes
static String readAll(const CharStreamPtr& s) {
    String r;
    int how = (int)sx_choose("how", 3);
    wchar_t b[32];
    for (int i = 0;; ++i) {
        if (how == 0 || (how == 2 && i % 2)) { int c = s->read(); if (c == -1) break; r += (wchar_t)c; }
        else {
            int len = how == 1 ? 1 + (int)sx_choose("piece", 3) : 4;
            b[0] = b[1 + len] = L'#';
            int n = s->read(b, 1, len);
            req(b[0] == L'#' && b[1 + len] == L'#', "reading stays within the buffer");
            if (n == -1) break;
            req(n > 0 && n <= len, "number of characters read");
            r.append(b + 1, n);
        }
        if (r.size() > 100) sx_fail("reading ends");
    }
    req(s->read() == -1, "the end stays the end");
    return r;
}
static void agree(const std::vector<Rule>& rules, const String& in) {
    String out;
    std::vector<int> back;
    oracle(rules, in, out, back);
    CharStreamPtr s = newLucene<MappingCharFilter>(mapOf(rules), newLucene<StringReader>(in));
    String got = readAll(s);
    sx_assert(got == out, "the longest match at each place is replaced, other text stays");
    for (size_t i = 0; i < back.size(); ++i) req(s->correctOffset((int)i) == back[i], "offsets are those of the original text");
}
static const std::vector<std::vector<Rule>>& sets() {
    static const std::vector<std::vector<Rule>> S = {
        {{L"a", L"b"}, {L"aa", L"cc"}, {L"bb", L""}},
        {{L"ab", L"x"}, {L"abcb", L"yyy"}, {L"c", L"cc"}},
        {{L"aaa", L"b"}, {L"b", L""}},
        {{L"a", L"xyz"}, {L"ba", L"b"}, {L"cc", L"ccc"}},
        {{L"abc", L""}, {L"b", L"ac"}, {L"bc", L"a"}},
        {{L"aab", L"aab"}, {L"ab", L""}, {L"a", L""}},
        {{L"b", L"a"}, {L"ca", L"c"}},
        {},
    };
    return S;
}
// every text over three letters under families of mappings with shared beginnings, removals and insertions
SX_ENTRY(texts) {
    std::vector<Rule> r = sets()[sx_choose("rules", sets().size())];
    agree(r, symStr("text", (int)sx_choose("length", TIER(6, 8)), L'a', L'c'));
    sx_cover("texts");
}
// symbolic mappings
SX_ENTRY(mappings) {
    std::vector<Rule> r;
    std::set<String> seen;
    int n = TIER(2, 3);
    for (int i = 0; i < n; ++i) {
        Rule x;
        x.from = pickStr("from", 1 + (int)sx_choose("from length", TIER(2, 3)), L'a', L'b');
        x.to = String((size_t)sx_choose("to length", 3), (wchar_t)(L'w' + i));
        if (!seen.insert(x.from).second) { NormalizeCharMapPtr m = mapOf(r); req(THROWS(m->add(x.from, x.to)), "a second mapping of the same text is refused"); sx_cover("twice"); return; }
        r.push_back(x);
    }
    agree(r, symStr("text", TIER(4, 5), L'a', L'b'));
    sx_cover("mappings");
}
// filters of filters
SX_ENTRY(chains) {
    std::vector<Rule> r = sets()[sx_choose("rules", 6)], q = sets()[sx_choose("rules2", 6)];
    String in = symStr("text", TIER(4, 5), L'a', L'c'), mid, out;
    std::vector<int> b1, b2;
    oracle(r, in, mid, b1);
    oracle(q, mid, out, b2);
    CharStreamPtr s = newLucene<MappingCharFilter>(mapOf(q), (CharStreamPtr)newLucene<MappingCharFilter>(mapOf(r), newLucene<StringReader>(in)));
    req(readAll(s) == out, "filters of filters replace one after the other");
    for (size_t i = 0; i < b2.size(); ++i) req(s->correctOffset((int)i) == b1[b2[i]], "offsets go back through all filters");
    sx_cover("chains");
}
// tokens of filtered text carry the offsets of the original
SX_ENTRY(tokens) {
    std::vector<Rule> r = {{L"a", L""}, {L"b", L" "}, {L"cc", L"ddd"}, {L"dbd", L"q"}};
    String in = symStr("text", TIER(5, 6), L'a', L'd'), out;
    std::vector<int> back;
    oracle(r, in, out, back);
    TokenizerPtr t = newLucene<WhitespaceTokenizer>(newLucene<MappingCharFilter>(mapOf(r), newLucene<StringReader>(in)));
    TermAttributePtr ta = t->addAttribute<TermAttribute>();
    OffsetAttributePtr oa = t->addAttribute<OffsetAttribute>();
    size_t i = 0;
    for (;;) {
        while (i < out.size() && out[i] == L' ') ++i;
        bool more = t->incrementToken();
        req(more == (i < out.size()), "one token for each word");
        if (!more) break;
        size_t e = i;
        while (e < out.size() && out[e] != L' ') ++e;
        req(ta->term() == out.substr(i, e - i), "term");
        req(oa->startOffset() == back[i] && oa->endOffset() == back[e], "offsets of a token");
        i = e;
    }
    t->end();
    req(oa->endOffset() == (int)in.size(), "the final offset is the length of the original");
    sx_cover("tokens");
}
// long texts with many corrections
SX_ENTRY(many) {
    std::vector<Rule> r = {{L"a", L""}, {L"b", L"xx"}, {L"cd", L"y"}};
    String in;
    int n = (int)sx_choose("length", 2) ? 40 : 300;
    int at = (int)sx_choose("at", 4) * 37;
    for (int i = 0; i < n; ++i) in += (wchar_t)(L'a' + (i * 7 + i / 5) % 5);
    for (int i = 0; i < 3; ++i) if (at + i < n) in[at + i] = (wchar_t)sx_range("text", L'a', L'e');
    String out;
    std::vector<int> back;
    oracle(r, in, out, back);
    CharStreamPtr s = newLucene<MappingCharFilter>(mapOf(r), newLucene<StringReader>(in));
    String got;
    wchar_t b[64];
    int k;
    while ((k = s->read(b, 0, 64)) > 0) got.append(b, k);
    req(got == out, "long texts");
    for (size_t i = 0; i < back.size(); ++i) req(s->correctOffset((int)i) == back[i], "offsets of long texts");
    sx_cover("many");
}
