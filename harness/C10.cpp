// C10: postings enumeration: next, skipTo and read give exactly the live postings, with frequencies, positions and payloads.
#include "ix.h"
#include "rich.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "PayloadAttribute.h"
#include "Payload.h"
static int wantDoc(int kind, int i) { return kind == 0 ? i % 5 != 0 : kind == 1 ? 1 : i % 2 == 0 || i > 60; }
static int wantFreq(int i) { return 1 + i % 3; }
static int wantPos(int i, int k) { return k * (1 + i % 4) + (i % 7 == 3 ? 200 : i % 2); }
static std::vector<int> wantPayload(int pl, int i, int k) {
    std::vector<int> v;
    int n = pl == 0 ? 0 : pl == 1 ? 2 : (i + k) % 3;
    for (int j = 0; j < n; ++j) v.push_back((i * 31 + k * 7 + j) & 255);
    return v;
}
struct PT : public TokenStream {                      // emits the term x at given positions with given payloads
    int i, k, pl; TermAttributePtr t; PositionIncrementAttributePtr p; PayloadAttributePtr y;
    PT(int ii, int ppl) : i(ii), k(0), pl(ppl) {}
    virtual void initialize() { TokenStream::initialize(); t = addAttribute<TermAttribute>(); p = addAttribute<PositionIncrementAttribute>(); y = addAttribute<PayloadAttribute>(); }
    virtual bool incrementToken() {
        if (k >= wantFreq(i)) return false;
        clearAttributes();
        t->setTermBuffer(L"x");
        p->setPositionIncrement(k == 0 ? wantPos(i, 0) + 1 : wantPos(i, k) - wantPos(i, k - 1));
        std::vector<int> v = wantPayload(pl, i, k);
        if (!v.empty()) { ByteArray b = ByteArray::newInstance((int)v.size()); for (size_t j = 0; j < v.size(); ++j) b[(int)j] = (uint8_t)v[j]; y->setPayload(newLucene<Payload>(b)); }
        ++k;
        return true;
    }
    virtual void reset() { k = 0; }
};
struct P10 {
    RAMDirectoryPtr dir; IndexReaderPtr r; int n, kind, pl; bool notf; std::vector<int> live;
    P10(int nn, int k, int ppl, bool no, int perSeg, int del) : n(nn), kind(k), pl(ppl), notf(no) {
        dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, true);
        w->setMaxBufferedDocs(perSeg);
        w->setMergeFactor(1000);
        for (int i = 0; i < n; ++i) {
            DocumentPtr d = newLucene<Document>();
            d->add(newLucene<Field>(L"id", StringUtils::toString(i), Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
            if (wantDoc(kind, i)) {
                FieldPtr f = newLucene<Field>(L"b", newLucene<PT>(i, pl));
                f->setOmitNorms(true);
                f->setOmitTermFreqAndPositions(notf);
                d->add(f);
            }
            w->addDocument(d);
        }
        w->close();
        r = IndexReader::open(dir, del == 0);
        std::set<int> gone;
        if (del == 1) for (int i = 0; i < n; ++i) if (i % 3 == 1) gone.insert(i);
        if (del == 2) for (int i = 16; i < n - 20; ++i) gone.insert(i);
        if (del == 3) { gone.insert(0); gone.insert(n - 1); }
        for (int i : gone) r->deleteDocument(i);
        for (int i = 0; i < n; ++i) if (wantDoc(kind, i) && !gone.count(i)) live.push_back(i);
    }
};
// one posting, as far as the caller reads it
static void look(P10& p, const TermDocsPtr& td, const TermPositionsPtr& tp, int how) {
    int d = td->doc();
    int f = p.notf ? 1 : wantFreq(d);
    req(td->freq() == f, "frequency of the posting");
    if (!tp || p.notf) return;
    int upto = how == 0 ? 0 : how == 1 ? 1 : f;
    for (int k = 0; k < upto; ++k) {
        req(tp->nextPosition() == wantPos(d, k), "position of the occurrence");
        std::vector<int> v = wantPayload(p.pl, d, k);
        req(tp->isPayloadAvailable() == !v.empty(), "payload is available where one was stored");
        if (how == 3 || (how == 2 && k == 0)) {
            if (v.empty()) continue;
            req(tp->getPayloadLength() == (int)v.size(), "payload length");
            ByteArray b = tp->getPayload(ByteArray(), 0);
            for (size_t j = 0; j < v.size(); ++j) req(b[(int)j] == v[j], "payload bytes");
            req(!tp->isPayloadAvailable(), "a payload is read once");
        }
    }
}
static int after(const std::vector<int>& v, int cur) { for (size_t i = 0; i < v.size(); ++i) if (v[i] > cur) return (int)i; return (int)v.size(); }
static bool skip(P10& p, const TermDocsPtr& td, int64_t target, int& cur) {
    if (!td->skipTo((int)target)) {
        if (after(p.live, cur) < (int)p.live.size()) sx_assert(target > p.live.back(), "skipTo ends only past the last live posting");
        return false;
    }
    int d = td->doc();
    sx_assert(d >= target, "skipTo reaches the target");
    auto it = std::find(p.live.begin(), p.live.end(), d);
    req(it != p.live.end(), "skipTo lands on a live posting of the term");
    req(d > cur, "skipTo moves forward");
    if (it != p.live.begin() && *(it - 1) > cur) sx_assert(*(it - 1) < target, "skipTo passes over no posting at or after the target");
    cur = d;
    return true;
}
static bool step(P10& p, const TermDocsPtr& td, int& cur) {
    size_t k = after(p.live, cur);
    bool more = td->next();
    req(more == (k < p.live.size()), "next ends after the last live posting");
    if (!more) return false;
    req(td->doc() == p.live[k], "next gives the following live posting");
    cur = p.live[k];
    return true;
}
static TermDocsPtr cursor(P10& p, TermPositionsPtr& tp, int mode) {
    TermPtr t = newLucene<Term>(L"b", L"x");
    if (mode == 0) return p.r->termDocs(t);
    tp = p.r->termPositions();
    if (mode == 2) { tp->seek(newLucene<Term>(L"id", L"1")); tp->next(); tp->skipTo(5); }
    tp->seek(t);
    return tp;
}
// any target over a long posting list with two skip levels
SX_ENTRY(skip_long) {
    int pl = (int)sx_choose("payloads", 3);
    P10 p(330, 0, pl, false, 1000, (int)sx_choose("deleted", 3));
    TermPositionsPtr tp;
    TermDocsPtr td = cursor(p, tp, 1);
    int cur = -1;
    if (!skip(p, td, sx_range("target", 0, 331), cur)) { sx_cover("end"); return; }
    look(p, td, tp, 3 - pl);
    int far = (int)sx_choose("then", TIER(3, 4));
    int64_t t2 = far == 0 ? cur + 1 : far == 1 ? cur + 40 : far == 2 ? cur + 270 : cur;
    if (!skip(p, td, t2, cur)) { sx_cover("end2"); return; }
    look(p, td, tp, 3);
    if (step(p, td, cur)) look(p, td, tp, 3);
    sx_cover("long");
}
// two arbitrary skips on a list with one skip level, mixed with next, reading any part of each posting
SX_ENTRY(skip_mixed) {
    int mode = (int)sx_choose("cursor", 3);
    bool notf = mode == 0 && sx_choose("omitTf", 2);
    P10 p(TIER(40, 60), 0, 2, notf, 1000, (int)sx_choose("deleted", TIER(2, 4)));
    TermPositionsPtr tp;
    TermDocsPtr td = cursor(p, tp, mode);
    int cur = -1;
    if (sx_choose("next", 2)) { if (!step(p, td, cur)) return; look(p, td, tp, 1); }
    if (!skip(p, td, sx_range("t1", 0, p.n + 1), cur)) return;
    look(p, td, tp, mode == 0 ? 0 : TIER(1, (int)sx_choose("how", 4)));
    if (!skip(p, td, sx_range("t2", 0, p.n + 1), cur)) return;
    look(p, td, tp, 3);
    if (step(p, td, cur)) look(p, td, tp, 2);
    sx_cover("mixed");
}
// the same over several segments
SX_ENTRY(skip_segments) {
    bool pos = sx_choose("positions", 2);
    P10 p(TIER(40, 70), 2, 2, false, TIER(9, 20), (int)sx_choose("deleted", TIER(3, 4)));
    TermPositionsPtr tp;
    TermDocsPtr td = cursor(p, tp, pos ? 2 : 0);
    int cur = -1;
    if (sx_choose("next", 2)) { if (!step(p, td, cur)) return; look(p, td, tp, 1); }
    if (!skip(p, td, sx_range("t1", 0, p.n + 1), cur)) return;
    look(p, td, tp, 1);
    if (!skip(p, td, sx_range("t2", 0, p.n + 1), cur)) return;
    look(p, td, tp, 3);
    if (step(p, td, cur)) look(p, td, tp, 3);
    sx_cover("segments");
}
// stepping and block reading see the same list
SX_ENTRY(stepping) {
    int del = (int)sx_choose("deleted", 4), how = (int)sx_choose("how", 4), pl = (int)sx_choose("payloads", 3);
    bool notf = sx_choose("omitTf", 2);
    P10 p(40, (int)sx_choose("kind", 3), pl, notf, sx_choose("segments", 2) ? 7 : 1000, del);
    TermPositionsPtr tp;
    TermDocsPtr td = cursor(p, tp, 1);
    int cur = -1;
    while (step(p, td, cur)) look(p, td, tp, how);
    for (int bs = 1; bs < 40; bs += 12) {
        TermDocsPtr b = p.r->termDocs(newLucene<Term>(L"b", L"x"));
        Collection<int32_t> ds = Collection<int32_t>::newInstance(bs), fs = Collection<int32_t>::newInstance(bs);
        size_t k = 0;
        int n;
        while ((n = b->read(ds, fs)) > 0) for (int i = 0; i < n; ++i, ++k) {
            req(k < p.live.size() && ds[i] == p.live[k], "block reading gives the live postings in order");
            req(fs[i] == (notf ? 1 : wantFreq(ds[i])), "block reading gives the frequencies");
        }
        req(k == p.live.size(), "block reading gives every posting");
    }
    TermDocsPtr all = p.r->termDocs(TermPtr());
    for (int i = 0, k = 0; ; ++i) {
        if (!all->next()) { req(k == p.r->numDocs(), "every live document is enumerated"); break; }
        ++k;
        req(!p.r->isDeleted(all->doc()) && all->freq() == 1, "only live documents are enumerated");
    }
    sx_cover("stepping");
}
// all documents: any two targets
SX_ENTRY(all_docs) {
    P10 p(24, 1, 0, false, sx_choose("segments", 2) ? 7 : 1000, (int)sx_choose("deleted", 4) == 2 ? 1 : 3);
    p.live.clear();
    for (int i = 0; i < p.n; ++i) if (!p.r->isDeleted(i)) p.live.push_back(i);
    TermDocsPtr td = p.r->termDocs(TermPtr());
    int cur = -1;
    if (!skip(p, td, sx_range("t1", 0, p.n + 1), cur)) return;
    if (!skip(p, td, sx_range("t2", 0, p.n + 1), cur)) return;
    step(p, td, cur);
    sx_cover("all");
}
// postings with payloads through every way of merging, any documents deleted
SX_ENTRY(merged_documents) { richMerging(RICH_POSTINGS); }
