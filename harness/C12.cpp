// C12: term vectors describe exactly the tokens of each document's fields, through flush, merge and reload.
#include "ix.h"
#include "rich.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
#include "FieldSortedTermVectorMapper.h"
#include "PositionBasedTermVectorMapper.h"
#include "SortedTermVectorMapper.h"
#include "TermVectorEntry.h"
#include "TermVectorEntryFreqSortedComparator.h"
struct Occ { int pos, s, e; };
typedef std::map<String, std::vector<Occ>> Vec;
struct VF { String name; std::vector<String> values; int flags; };
static Vec expect(const VF& f) {
    Vec r;
    int pos = 0, base = 0;
    for (auto& v : f.values) {
        bool any = false;
        size_t i = 0;
        while (i < v.size()) {
            while (i < v.size() && v[i] == L' ') ++i;
            size_t b = i;
            while (i < v.size() && v[i] != L' ') ++i;
            if (i > b) { Occ o = {pos++, base + (int)b, base + (int)i}; r[v.substr(b, i - b)].push_back(o); any = true; }
        }
        base += (int)v.size() + (any ? 1 : 0);
    }
    return r;
}
static void add(const DocumentPtr& d, const VF& f) {
    Field::TermVector tv = f.flags == 0 ? Field::TERM_VECTOR_NO : f.flags == 1 ? Field::TERM_VECTOR_YES : f.flags == 2 ? Field::TERM_VECTOR_WITH_POSITIONS : f.flags == 3 ? Field::TERM_VECTOR_WITH_OFFSETS : Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS;
    for (auto& v : f.values) d->add(newLucene<Field>(f.name, v, Field::STORE_NO, Field::INDEX_ANALYZED, tv));
}
static void same(const TermFreqVectorPtr& t, const VF& f) {
    Vec w = expect(f);
    if (w.empty() || f.flags == 0) { req(!t, "no vector where none was asked for"); return; }
    req(t.get() != NULL, "a vector is stored for the field");
    req(t->getField() == f.name, "vector names its field");
    req(t->size() == (int)w.size(), "vector holds each distinct term once");
    Collection<String> terms = t->getTerms();
    Collection<int32_t> fr = t->getTermFrequencies();
    TermPositionVectorPtr p = boost::dynamic_pointer_cast<TermPositionVector>(t);
    req(f.flags == 1 || p.get() != NULL, "positions or offsets where asked for");
    int k = 0;
    for (auto& x : w) {
        req(terms[k] == x.first, "terms of the vector, in order");
        req(fr[k] == (int)x.second.size(), "frequency in the vector");
        req(t->indexOf(x.first) == k, "a term is found in the vector");
        if (p && (f.flags == 2 || f.flags == 4)) { Collection<int32_t> ps = p->getTermPositions(k); req(ps.size() == (int)x.second.size(), "number of positions"); for (int i = 0; i < ps.size(); ++i) req(ps[i] == x.second[i].pos, "position in the vector"); }
        if (p && (f.flags == 3 || f.flags == 4)) { Collection<TermVectorOffsetInfoPtr> os = p->getOffsets(k); req(os.size() == (int)x.second.size(), "number of offsets"); for (int i = 0; i < os.size(); ++i) req(os[i]->getStartOffset() == x.second[i].s && os[i]->getEndOffset() == x.second[i].e, "offsets in the vector"); }
        ++k;
    }
    req(t->indexOf(L"nosuchterm") == -1, "an absent term is not found");
}
// any text: symbolic characters, one or two values per field
SX_ENTRY(texts) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    VF f; f.name = L"f"; f.flags = 1 + (int)sx_choose("store", 4);
    int n = TIER(4, 5);
    String s;
    for (int i = 0; i < n; ++i) s += (wchar_t)(L"ab "[sx_choose("char", 3)]);
    f.values.push_back(s);
    if (sx_choose("second", 2)) f.values.push_back(L"b ab ");
    DocumentPtr d = newLucene<Document>();
    add(d, f);
    w->addDocument(d);
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    same(r->getTermFreqVector(0, L"f"), f);
    sx_cover("texts");
}
// symbolic token characters: term bytes, shared prefixes, order
SX_ENTRY(symbolic_terms) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    VF f; f.name = L"f"; f.flags = 4;
    String a, b, c;
    a += (wchar_t)sx_range("a", L'a', L'b'); a += (wchar_t)sx_range("a2", L'\x7e', L'\x82');
    b += (wchar_t)sx_range("b", L'a', L'b'); b += (wchar_t)sx_range("b2", L'\x7fe', L'\x801');
    c += (wchar_t)sx_range("c", L'a', L'b'); c += (wchar_t)sx_range("c2", L'\x80', L'\x81');
    f.values.push_back(a + L" " + b + L" " + c);
    DocumentPtr d = newLucene<Document>();
    add(d, f);
    w->addDocument(d);
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    same(r->getTermFreqVector(0, L"f"), f);
    sx_cover("symbolic");
}
// several fields and documents, segments, deletions, merging; every way of asking
SX_ENTRY(documents) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(2 + (int)sx_choose("buffered", 2));
    w->setMergeFactor(20);
    w->setUseCompoundFile(sx_choose("cfs", 2));
    int pat = (int)sx_choose("pattern", 4);
    std::vector<std::vector<VF>> docs;
    static const wchar_t* T[] = {L"x y x", L"", L"long longer longest long", L"z", L"y \x4e2d\x6587 y\x00e9"};
    for (int i = 0; i < 6; ++i) {
        std::vector<VF> fs;
        for (int j = 0; j < 3; ++j) {
            VF f; f.name = String(1, (wchar_t)(L'f' + j));
            if (pat == 1 && (i + j) % 3 == 0) continue;
            if (pat == 2 && i < 3) continue;
            f.flags = pat == 3 ? (i + j) % 5 : (j == 0 ? 4 : j == 1 ? (i & 1 ? 2 : 0) : 1);
            f.values.push_back(T[(i + j * 2) % 5]);
            if (i % 3 == 1) f.values.push_back(T[(i + j) % 5]);
            fs.push_back(f);
        }
        docs.push_back(fs);
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"id", StringUtils::toString(i), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
        for (size_t k = fs.size(); k-- > 0;) add(d, fs[k]);
        w->addDocument(d);
        if (i == 3 && sx_choose("commit", 2)) w->commit();
    }
    int del = (int)sx_choose("deleted", 4);
    std::set<int> gone;
    if (del == 1) gone.insert(0);
    if (del == 2) { gone.insert(1); gone.insert(2); gone.insert(5); }
    if (del == 3) for (int i = 0; i < 4; ++i) gone.insert(i);
    for (int i : gone) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(i)));
    if (sx_choose("optimize", 2)) w->optimize();
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    for (int i = 0; i < r->maxDoc(); ++i) {
        if (r->isDeleted(i)) continue;
        int id = (int)StringUtils::toInt(r->document(i)->get(L"id"));
        req(!gone.count(id), "a deleted document is gone");
        int vec = 0;
        for (auto& f : docs[id]) {
            same(r->getTermFreqVector(i, f.name), f);
            vec += f.flags != 0 && !expect(f).empty();
        }
        Collection<TermFreqVectorPtr> all = r->getTermFreqVectors(i);
        req((all ? all.size() : 0) == vec, "all vectors of the document");
        if (all) for (int k = 0; k < all.size(); ++k) { bool hit = false; for (auto& f : docs[id]) if (f.name == all[k]->getField()) { same(all[k], f); hit = true; } req(hit, "a vector belongs to a field of the document"); }
        FieldSortedTermVectorMapperPtr m = newLucene<FieldSortedTermVectorMapper>(TermVectorEntryFreqSortedComparator::compare);
        r->getTermFreqVector(i, m);
        for (auto& f : docs[id]) {
            if (f.flags == 0 || expect(f).empty()) continue;
            Vec w = expect(f);
            MapStringCollectionTermVectorEntry mm = m->getFieldToTerms();
            Collection<TermVectorEntryPtr> es = mm.get(f.name);
            req(es && es.size() == (int)w.size(), "mapper receives every term");
            for (int k = 0; k < es.size(); ++k) { req(w.count(es[k]->getTerm()) && es[k]->getFrequency() == (int)w[es[k]->getTerm()].size(), "mapper receives the frequencies"); if (k) req(es[k - 1]->getFrequency() >= es[k]->getFrequency(), "mapper sorts by frequency"); }
        }
    }
    r->close();
    sx_cover("documents");
}
// any documents deleted, every way of merging
SX_ENTRY(merged_documents) { richMerging(RICH_VECTORS); }
// any tokens a token stream can give: increments of 0, 1 and 130, symbolic offsets (overlapping, going back), values that differ in what they store
struct AnyTokens : public TokenStream {
    struct Tok { int t, inc, s, e; };
    std::vector<Tok> v; size_t k; TermAttributePtr t; PositionIncrementAttributePtr p; OffsetAttributePtr o;
    AnyTokens(const std::vector<Tok>& x) : v(x), k(0) {}
    virtual void initialize() { TokenStream::initialize(); t = addAttribute<TermAttribute>(); p = addAttribute<PositionIncrementAttribute>(); o = addAttribute<OffsetAttribute>(); }
    virtual bool incrementToken() {
        if (k == v.size()) return false;
        clearAttributes();
        t->setTermBuffer(v[k].t ? L"u" : L"t"); p->setPositionIncrement(v[k].inc); o->setOffset(v[k].s, v[k].e);
        ++k;
        return true;
    }
    virtual void reset() { k = 0; }
};
SX_ENTRY(tokens) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    static const Field::TermVector F[] = {Field::TERM_VECTOR_NO, Field::TERM_VECTOR_YES, Field::TERM_VECTOR_WITH_POSITIONS, Field::TERM_VECTOR_WITH_OFFSETS, Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS};
    DocumentPtr d = newLucene<Document>();
    std::vector<Occ> want[2];
    int pos = 0, base = 0, flags = 0, n = 0;
    int values = (int)sx_pick("values", 1, 2);
    for (int i = 0; i < values; ++i) {
        int fl = (int)sx_choose("store", 5);
        flags |= fl == 0 ? 0 : fl == 1 ? 8 : fl == 2 ? 8 | 1 : fl == 3 ? 8 | 2 : 8 | 3;
        std::vector<AnyTokens::Tok> v;
        int last = 0;
        for (int k = 0; k < (i == 0 ? TIER(2, 3) : 1); ++k) {
            AnyTokens::Tok t;
            t.t = i == 0 ? (int)sx_choose("term", 2) : 0;
            t.inc = n == 0 ? 1 : i == 0 ? (int)sx_choose("increment", TIER(2, 3)) * 130 % 259 : 1; // 0, 130, 1
            t.s = (int)sx_range("start", 0, 3) * 50; t.e = t.s + (t.t ? 3 : 70);
            v.push_back(t);
            pos += t.inc; ++n; last = t.e;
            Occ o = {pos - 1, base + t.s, base + t.e};
            want[t.t].push_back(o);
        }
        base += last + 1; // the next value starts one further than the end of the last token
        d->add(newLucene<Field>(L"f", newLucene<AnyTokens>(v), F[fl]));
    }
    w->addDocument(d);
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    TermFreqVectorPtr v = r->getTermFreqVector(0, L"f");
    if (!flags) { req(!v, "no vector where none was asked for"); sx_cover("none"); return; }
    req(v.get() != NULL && v->size() == !want[0].empty() + !want[1].empty(), "vector holds each distinct term once");
    TermPositionVectorPtr p = boost::dynamic_pointer_cast<TermPositionVector>(v);
    int k = 0;
    for (int i = 0; i < 2; ++i) {
        if (want[i].empty()) continue;
        req(v->getTerms()[k] == (i ? L"u" : L"t") && v->getTermFrequencies()[k] == (int)want[i].size(), "terms and frequencies of the vector");
        Collection<int32_t> ps;
        Collection<TermVectorOffsetInfoPtr> os;
        if (p) { ps = p->getTermPositions(k); os = p->getOffsets(k); }
        req((flags & 1) ? ps && ps.size() == (int)want[i].size() : !ps, "positions where any value asks for them");
        req((flags & 2) ? os && os.size() == (int)want[i].size() : !os, "offsets where any value asks for them");
        for (size_t j = 0; j < want[i].size(); ++j) {
            if (flags & 1) sx_assert(ps[(int)j] == want[i][j].pos, "position in the vector");
            if (flags & 2) sx_assert(os[(int)j]->getStartOffset() == want[i][j].s && os[(int)j]->getEndOffset() == want[i][j].e, "offsets in the vector");
        }
        ++k;
    }
    r->close();
    sx_cover("tokens");
}
// every mapper, for one field or for the whole document, ignoring positions or offsets or not, after symbolic offsets and large positions
static bool byTerm(const TermVectorEntryPtr& a, const TermVectorEntryPtr& b) { return a->getTerm() < b->getTerm(); }
SX_ENTRY(mappers) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    static const wchar_t* NAMES[] = {L"f", L"g"};
    int fields = (int)sx_pick("fields", 1, 2), way = (int)sx_choose("mapper", 3), one = (int)sx_choose("one field", 2);
    DocumentPtr d = newLucene<Document>();
    std::map<String, std::vector<Occ>> want[2];
    bool pos[2], off[2];
    for (int i = 0; i < fields; ++i) {
        int fl = way == 2 ? 2 * (int)sx_choose("store", 2) : (int)sx_choose("store", 3);
        pos[i] = fl != 1; off[i] = fl != 0;
        std::vector<AnyTokens::Tok> v;
        int at = 0;
        static const int TERM[] = {0, 1, 0};
        for (int k = 0; k < 3 - i; ++k) {
            AnyTokens::Tok t;
            t.t = TERM[k]; t.inc = k == 0 ? 1 + 200 * i : k == 2 ? 150 : way == 2 ? 0 : 1;
            t.s = k == 1 ? (int)sx_range("start", 0, 3) * 60 : k * 40; t.e = t.s + 130 * k;
            v.push_back(t);
            at += t.inc;
            Occ o = {at - 1, t.s, t.e};
            want[i][t.t ? L"u" : L"t"].push_back(o);
        }
        d->add(newLucene<Field>(NAMES[i], newLucene<AnyTokens>(v), fl == 0 ? Field::TERM_VECTOR_WITH_POSITIONS : fl == 1 ? Field::TERM_VECTOR_WITH_OFFSETS : Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS));
    }
    w->addDocument(d);
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    bool noPos = way != 2 && sx_choose("ignore positions", 2), noOff = sx_choose("ignore offsets", 2);
    SortedTermVectorMapperPtr sm = newLucene<SortedTermVectorMapper>(noPos, noOff, byTerm);
    FieldSortedTermVectorMapperPtr fm = newLucene<FieldSortedTermVectorMapper>(noPos, noOff, byTerm);
    PositionBasedTermVectorMapperPtr pm = newLucene<PositionBasedTermVectorMapper>(noOff);
    TermVectorMapperPtr m = way == 0 ? TermVectorMapperPtr(sm) : way == 1 ? TermVectorMapperPtr(fm) : TermVectorMapperPtr(pm);
    if (one) r->getTermFreqVector(0, L"f", m); else r->getTermFreqVector(0, m);
    int seen = one ? 1 : fields;
    auto entry = [&](const TermVectorEntryPtr& e, const String& t, int from, int to) {
        req(e->getTerm() == t, "mapper receives the terms in order");
        std::vector<Occ> ps, os; int freq = 0;
        for (int i = from; i < to; ++i) { auto& x = want[i][t]; freq += (int)x.size(); if (pos[i]) ps.insert(ps.end(), x.begin(), x.end()); if (off[i]) os.insert(os.end(), x.begin(), x.end()); }
        req(e->getFrequency() == freq, "mapper receives the frequencies");
        Collection<int32_t> p = e->getPositions();
        Collection<TermVectorOffsetInfoPtr> o = e->getOffsets();
        if (noPos || ps.empty()) req(!p, "positions the mapper ignores are not given");
        else { req(p && p.size() == (int)ps.size(), "mapper receives every position"); for (int k = 0; k < p.size(); ++k) req(p[k] == ps[k].pos, "mapper receives the positions"); }
        if (noOff || os.empty()) req(!o, "offsets the mapper ignores are not given");
        else { req(o && o.size() == (int)os.size(), "mapper receives every offset"); for (int k = 0; k < o.size(); ++k) sx_assert(o[k]->getStartOffset() == os[k].s && o[k]->getEndOffset() == os[k].e, "mapper receives the offsets"); }
    };
    if (way == 0) {
        Collection<TermVectorEntryPtr> es = sm->getTermVectorEntrySet();
        req(es.size() == 2, "mapper receives every term once");
        entry(es[0], L"t", 0, seen); entry(es[1], L"u", 0, seen);
    } else if (way == 1) {
        MapStringCollectionTermVectorEntry mm = fm->getFieldToTerms();
        req(mm.size() == seen, "mapper receives every field");
        for (int i = 0; i < seen; ++i) { Collection<TermVectorEntryPtr> es = mm.get(NAMES[i]); req(es && es.size() == 2, "mapper receives every term once"); entry(es[0], L"t", i, i + 1); entry(es[1], L"u", i, i + 1); }
    } else {
        MapStringMapIntTermVectorsPositionInfo mm = pm->getFieldToTerms();
        req(mm.size() == seen, "mapper receives every field");
        for (int i = 0; i < seen; ++i) {
            MapIntTermVectorsPositionInfo x = mm.get(NAMES[i]);
            req(bool(x), "mapper receives the field");
            std::map<int, std::vector<std::pair<String, Occ>>> at;
            for (auto& t : want[i]) for (auto& o : t.second) at[o.pos].push_back(std::make_pair(t.first, o));
            req(x.size() == (int)at.size(), "mapper receives every position");
            for (auto& a : at) {
                TermVectorsPositionInfoPtr info = x.get(a.first);
                req(info.get() != NULL && info->getPosition() == a.first && info->getTerms().size() == (int)a.second.size(), "terms at a position");
                for (int k = 0; k < info->getTerms().size(); ++k) {
                    req(info->getTerms()[k] == a.second[k].first, "term at its position");
                    if (off[i] && !noOff) sx_assert(info->getOffsets()[k]->getStartOffset() == a.second[k].second.s && info->getOffsets()[k]->getEndOffset() == a.second[k].second.e, "offsets at a position");
                }
            }
        }
    }
    r->close();
    sx_cover("mappers");
}
