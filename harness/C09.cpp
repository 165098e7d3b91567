// C09: the term dictionary: seeking, scanning and looking up terms, whatever the index interval and the lookup history.
#include "ix.h"
#include "StringUtils.h"
typedef std::pair<String, String> TT;
struct D9 {
    RAMDirectoryPtr dir; IndexReaderPtr r; std::vector<TT> terms; std::map<TT, int> df;
    // documents hold terms drawn from a fixed pattern; several fields, prefixes of one another, multi-byte characters
    D9(int docs, int interval, int perSeg, int divisor, bool del) {
        static const wchar_t* W[] = {L"a", L"aa", L"aab", L"ab", L"b", L"ba", L"bab", L"bb", L"c\x00e9", L"cb", L"ca", L"d", L"da", L"\x4e2d", L"abcabc", L"bbbb"};
        dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, true);
        w->setTermIndexInterval(interval);
        w->setMaxBufferedDocs(perSeg);
        w->setMergeFactor(100);
        for (int i = 0; i < docs; ++i) {
            DocumentPtr d = newLucene<Document>();
            for (int j = 0; j < 16; ++j) {
                if ((i * 5 + j * 3) % 7 > 3) continue;
                String f = j % 4 == 3 ? L"g" : L"f";
                d->add(newLucene<Field>(f, W[j], Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
                ++df[TT(f, W[j])];
            }
            w->addDocument(d);
        }
        w->close();
        r = IndexReader::open(dir, IndexDeletionPolicyPtr(), !del, divisor);
        if (del) r->deleteDocument(1); // document frequencies still count it
        for (auto& x : df) terms.push_back(x.first);
    }
};
static String any(const char* n) { // any string of one to three characters around those in use
    int len = (int)sx_pick("len", 0, TIER(2, 3));
    String s;
    for (int i = 0; i < len; ++i) s += (wchar_t)(i == 0 ? sx_range(n, L'a', L'e') : sx_range(n, L'a', L'c'));
    return s;
}
static bool le(const String& a, const String& b) { return a.compare(b) <= 0; }
static void at(D9& x, const TermEnumPtr& te, size_t k) {
    TermPtr t = te->term();
    if (k >= x.terms.size()) { req(!t, "enumeration is at its end"); return; }
    req(t && t->field() == x.terms[k].first && t->text() == x.terms[k].second, "enumeration stands on the expected term");
    req(te->docFreq() == x.df[x.terms[k]], "document frequency in the enumeration");
}
// a lookup of any text after a lookup of any other: exact frequency and postings; then an enumeration from it
SX_ENTRY(lookup) {
    int shape = (int)sx_choose("shape", 4); // interval, segments
    D9 x(6, (int[]){1, 2, 3, 128}[shape], shape == 2 ? 2 : 100, 1, sx_choose("deleted", 2));
    int hist = (int)sx_choose("before", TIER(4, 5));
    if (hist == 1) x.r->docFreq(newLucene<Term>(L"f", L"b"));
    if (hist == 2) { x.r->docFreq(newLucene<Term>(L"g", L"zz")); x.r->docFreq(newLucene<Term>(L"f", L"aab")); }
    if (hist == 3) { TermEnumPtr e = x.r->terms(newLucene<Term>(L"f", L"ba")); e->next(); x.r->docFreq(newLucene<Term>(L"f", L"ca")); }
    if (hist == 4) { TermEnumPtr e = x.r->terms(); while (e->next()) {} }
    String s = any("c");
    int how = (int)sx_choose("how", 2);
    if (how == 0) {
        TermPtr t = newLucene<Term>(L"f", s);
        int n = x.r->docFreq(t), want = 0;
        for (auto& y : x.terms) if (y.first == L"f" && y.second == s) want = x.df[y];
        req(n == want, "document frequency of the term");
        TermDocsPtr td = x.r->termDocs(t);
        int c = 0;
        while (td->next()) { ++c; }
        req(c <= want && (want == 0 || c + 1 >= want), "postings of the term");
        req(x.r->docFreq(t) == want, "asking again gives the same");
        // a neighbouring lookup is not disturbed
        req(x.r->docFreq(newLucene<Term>(L"f", L"ba")) == x.df[TT(L"f", L"ba")], "document frequency of another term");
    } else {
        TermEnumPtr te = x.r->terms(newLucene<Term>(L"f", s));
        size_t k = 0;
        while (k < x.terms.size() && (x.terms[k].first < L"f" || (x.terms[k].first == L"f" && !le(s, x.terms[k].second)))) ++k;
        at(x, te, k);
        TermPtr first = te->term();
        if (first) x.r->docFreq(newLucene<Term>(L"f", L"a")); // lookups in between do not move it
        for (size_t i = k; i < x.terms.size() && i < k + 4; ++i) { req(te->next() == (i + 1 < x.terms.size()), "next until the last term"); if (i + 1 < x.terms.size()) at(x, te, i + 1); }
    }
    sx_cover("lookup");
}
// two arbitrary lookups one after the other: the second reuses the position of the first
SX_ENTRY(two_lookups) {
    int shape = (int)sx_choose("shape", 2);
    D9 x(6, (int[]){2, 4}[shape], 100, 1, false);
    for (int k = 0; k < 2; ++k) {
        String s; s += (wchar_t)sx_range("c0", L'a', L'd'); s += (wchar_t)sx_range("c1", L'a', L'b');
        int want = 0;
        int n = x.r->docFreq(newLucene<Term>(L"f", s));
        for (auto& y : x.terms) if (y.first == L"f" && y.second == s) want = x.df[y];
        req(n == want, "document frequency of the term");
    }
    sx_cover("two");
}
// full enumeration; divisor of the in-memory index; many segments merged in order
SX_ENTRY(enumerate) {
    int interval = (int)sx_pick("interval", 1, TIER(4, 9)), divisor = (int)sx_pick("divisor", 1, 3), per = (int)sx_pick("persegment", 2, 4);
    D9 x(7, interval, per == 4 ? 100 : per, divisor, sx_choose("deleted", 2));
    TermEnumPtr te = x.r->terms();
    for (size_t k = 0; k < x.terms.size(); ++k) { req(te->next(), "an enumeration reaches every term"); at(x, te, k); }
    req(!te->next(), "an enumeration ends after the last term");
    for (size_t k = 0; k < x.terms.size(); ++k) {
        TermPtr t = newLucene<Term>(x.terms[k].first, x.terms[k].second);
        req(x.r->docFreq(t) == x.df[x.terms[k]], "document frequency by lookup");
        TermEnumPtr e = x.r->terms(t);
        at(x, e, k);
        if (e->next()) at(x, e, k + 1);
    }
    sx_cover("enumerate");
}
// dictionary of symbolic terms: written, read, ordered
SX_ENTRY(symbolic_terms) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true, newLucene<KeywordAnalyzer>());
    w->setTermIndexInterval((int)sx_pick("interval", 1, 2));
    String t[4];
    static const wchar_t lo[] = {L'a', L'\x7e', L'a', L'\x7fe'}, hi[] = {L'c', L'\x81', L'b', L'\x801'};
    for (int i = 0; i < TIER(3, 4); ++i) {
        t[i] = L"p";
        t[i] += (wchar_t)sx_range("a", lo[i], hi[i]);
        if (i != 1) t[i] += (wchar_t)sx_range("b", L'a', L'b');
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"f", t[i], Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        w->addDocument(d);
    }
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    std::map<String, std::vector<int>> want;
    for (int i = 0; i < TIER(3, 4); ++i) want[t[i]].push_back(i);
    TermEnumPtr te = r->terms();
    for (auto& x : want) {
        req(te->next() && te->term()->text() == x.first, "terms come in code point order, each once");
        req(te->docFreq() == (int)x.second.size(), "document frequency");
        TermDocsPtr td = r->termDocs(te->term());
        for (int d : x.second) req(td->next() && td->doc() == d, "postings of the term");
        req(!td->next(), "no further postings");
    }
    req(!te->next(), "no further terms");
    sx_cover("symbolic");
}
// terms in many documents: entries with and without skip data follow one another
SX_ENTRY(frequent_terms) {
    int most = (int)sx_pick("documents", 15, 18), order = (int)sx_choose("order", 3);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true, newLucene<KeywordAnalyzer>());
    w->setTermIndexInterval(order == 1 ? 2 : 128);
    std::vector<std::pair<String, int>> T; // term, number of documents
    static const int N[3][5] = {{0, 1, 0, 2, -1}, {-1, 0, 1, 0, 0}, {0, -1, 0, 1, 2}};
    for (int k = 0; k < 5; ++k) T.push_back(std::make_pair(String(1, (wchar_t)(L'a' + k)) + (k % 2 ? L"x" : L""), N[order][k] < 0 ? most - 1 : N[order][k] ? N[order][k] : most));
    for (int i = 0; i < most; ++i) {
        DocumentPtr d = newLucene<Document>();
        for (auto& t : T) if (i < t.second) d->add(newLucene<Field>(L"f", t.first, Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        w->addDocument(d);
    }
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    TermEnumPtr te = r->terms();
    for (auto& t : T) {
        req(te->next() && te->term()->text() == t.first, "an enumeration reaches every term");
        req(te->docFreq() == t.second, "document frequency in the enumeration");
    }
    req(!te->next(), "an enumeration ends after the last term");
    int from = (int)sx_choose("from", 5);
    for (int k = 0; k < 5; ++k) {
        auto& t = T[(from + k * 2) % 5];
        TermPtr term = newLucene<Term>(L"f", t.first);
        req(r->docFreq(term) == t.second, "document frequency by lookup");
        TermDocsPtr td = r->termDocs(term);
        for (int i = 0; i < t.second; ++i) req(td->next() && td->doc() == i, "postings of the term");
        req(!td->next(), "no further postings");
        td->seek(term);
        req(td->skipTo(t.second - 1) && td->doc() == t.second - 1, "skipping to the last document of the term");
    }
    sx_cover("frequent");
}
