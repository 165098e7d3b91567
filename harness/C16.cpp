// C16: a reader is an unchanging snapshot; reopen, clone and isCurrent are exact.
#include "faultdir.h"
static MDoc mk(int serial, const String& id, const String& body) { MDoc d(id); d.add(L"b", body, F_BODY); d.add(L"s", L"s" + StringUtils::toString(serial), F_STORE); return d; }
struct W {
    FaultDirPtr dir;
    IndexWriterPtr w;
    std::vector<MDoc> live, last;
    int serial;
    bool dirty;
    W() : serial(0), dirty(false) { dir = newLucene<FaultDir>(); }
    void open(bool create, int mb, int mf, bool cfs) { w = openWriter(dir, create); w->setMaxBufferedDocs(mb); w->setMergeFactor(mf); w->setUseCompoundFile(cfs); }
    void add(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->addDocument(d.make()); live.push_back(d); dirty = true; }
    void upd(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->updateDocument(newLucene<Term>(L"id", id), d.make()); removeIds(live, L"id", id); live.push_back(d); dirty = true; }
    void del(const String& id) { w->deleteDocuments(newLucene<Term>(L"id", id)); removeIds(live, L"id", id); dirty = true; }
    void commit() { w->commit(); last = live; dirty = false; }
    void base(int n) { static const wchar_t* ids[] = {L"a", L"b", L"c", L"d"}; for (int i = 0; i < n; ++i) add(ids[i], i % 2 ? L"x y" : L"y z z"); }
};
struct Snap { IndexReaderPtr r; std::vector<MDoc> docs; bool nrt; };
// what a reader shows never changes, whatever the writer does; reopened readers show the newest commit
SX_ENTRY(snapshots) {
    W t;
    int cfs = (int)sx_choose("cfs", 2);
    t.open(true, 2, 2, cfs);
    t.base(3);
    t.commit();
    std::vector<Snap> snaps;
    snaps.push_back(Snap{IndexReader::open(t.dir, TIER(cfs, (int)sx_choose("readonly", 2))), t.last, false});
    for (int i = 0; i < TIER(4, 5); ++i) {
        switch (sx_choose("op", 7)) {
        case 0: t.add(L"e", L"x"); break;
        case 1: t.upd(L"a", L"w"); break;
        case 2: t.del(L"b"); break;
        case 3: t.w->optimize(); break;
        case 4: { t.commit();
            IndexReaderPtr cur = snaps.back().r, r = cur->reopen();
            req(r->isCurrent(), "a reopened reader is current");
            snaps.push_back(Snap{r, t.last, snaps.back().nrt});
            break; }
        case 5: snaps.push_back(Snap{t.w->getReader(), t.live, true}); break;
        case 6: { IndexReaderPtr cur = snaps.back().r, r = cur->reopen(); // reopening a reader obtained from the writer shows everything so far, otherwise the last commit
            bool nrt = snaps.back().nrt;
            if (r != cur) snaps.push_back(Snap{r, nrt ? t.live : t.last, nrt}); else { verifyReader(r, nrt ? t.live : t.last, false); sx_cover("same"); }
            break; }
        }
        if (TIER(0, 1)) for (size_t k = 0; k + 1 < snaps.size(); ++k) verifyReader(snaps[k].r, snaps[k].docs, false);
    }
    t.w->close();
    // all snapshots still show what they showed, although the files may be gone from the directory
    for (auto& s : snaps) verifyReader(s.r, s.docs);
    std::set<IndexReader*> closed;
    for (auto& s : snaps) if (closed.insert(s.r.get()).second) s.r->close();
    req(t.dir->handles == 0, "all files are closed when all readers are");
    verifyDir(t.dir, t.live);
    sx_cover("snapshots");
}
// currency, versions, and the choice between the same and a new reader
SX_ENTRY(currency) {
    W t;
    t.open(true, 2, 2, false);
    t.base(2);
    t.commit();
    IndexReaderPtr r = IndexReader::open(t.dir, true);
    req(r->isCurrent() && r->reopen() == r, "nothing changed: current, and reopen returns the same reader");
    int64_t v = r->getVersion();
    req(v == IndexReader::getCurrentVersion(t.dir), "version");
    std::vector<MDoc> first = t.last;
    bool changed = false, opt = false;
    for (int i = 0; i < TIER(2, 3); ++i)
        switch (sx_choose("op", 6)) {
        case 0: t.add(L"e", L"x"); break;
        case 1: t.del(L"a"); break;
        case 2: t.del(L"none"); t.dirty = true; break;
        case 3: { bool d = t.dirty; t.commit(); changed |= d; } break;
        case 4: break;
        case 5: t.w->optimize(); opt = true; break;
        }
    if (opt) { sx_cover("optimized"); }
    else if (!changed) req(r->isCurrent(), "uncommitted changes leave a reader current");
    bool cur = r->isCurrent();
    req(cur == (IndexReader::getCurrentVersion(t.dir) == v), "current exactly while the version is unchanged");
    IndexReaderPtr q = r->reopen();
    req((q == r) == cur, "reopen returns the same reader exactly when it is current");
    verifyReader(q, t.last);
    req(q->isCurrent() && q->getVersion() >= v, "reopened reader is current");
    verifyReader(r, first);
    sx_cover("currency");
}
// clones change independently; a reader's own deletions become visible to others only when committed
SX_ENTRY(clones) {
    W t;
    t.open(true, 2, 10, sx_choose("cfs", 2));
    t.base(4);
    t.commit();
    t.w->close();
    IndexReaderPtr r = IndexReader::open(t.dir, false);
    std::vector<MDoc> mine = t.last;
    bool changed = false, undeleted = false;
    IndexReaderPtr c;
    std::vector<MDoc> cdocs;
    for (int i = 0; i < TIER(3, 4); ++i) {
        switch (sx_choose("op", 6)) {
        case 0: { int n = r->deleteDocuments(newLucene<Term>(L"id", L"b")); size_t before = mine.size(); removeIds(mine, L"id", L"b"); req(n == (int)(before - mine.size()), "number of documents deleted"); changed |= n > 0; } break;
        case 1: { int n = r->deleteDocuments(newLucene<Term>(L"b", L"z")); size_t before = mine.size(); removeIds(mine, L"b", L"z"); req(n == (int)(before - mine.size()), "number of documents deleted"); changed |= n > 0; } break;
        case 2: r->undeleteAll(); mine = t.last; changed = true; undeleted = true; break;
        case 3: if (c) c->close(); c = boost::dynamic_pointer_cast<IndexReader>(r->clone(true)); cdocs = mine; break;
        case 4: { // a fresh reader sees the last commit only
            IndexReaderPtr o = IndexReader::open(t.dir, true); verifyReader(o, t.last); o->close(); } break;
        case 5: req(r->hasChanges() == changed, "pending changes are reported"); break;
        }
        verifyReader(r, mine);
        if (c) verifyReader(c, cdocs);
    }
    (void)undeleted;
    if (changed) req(THROWS(openWriter(t.dir, false)), "no writer while a reader has pending changes");
    r->close();
    if (c) { verifyReader(c, cdocs); c->close(); }
    verifyDir(t.dir, mine);
    req(t.dir->handles == 0, "all files are closed");
    req(!IndexWriter::isLocked(t.dir), "lock freed");
    sx_cover("clones");
}
// a reader that is no longer current cannot change the index; read-only readers never can
SX_ENTRY(stale) {
    W t;
    t.open(true, 2, 10, false);
    t.base(2);
    t.commit();
    IndexReaderPtr r = IndexReader::open(t.dir, false), ro = IndexReader::open(t.dir, true);
    int how = (int)sx_choose("how", 3);
    req(THROWS(ro->deleteDocument(0)) && THROWS(ro->setNorm(0, L"b", (uint8_t)3)) && THROWS(ro->undeleteAll()), "a read-only reader refuses changes");
    req(THROWS(r->deleteDocument(0)), "a reader cannot change while a writer holds the lock");
    if (how == 0) { t.w->close(); r->deleteDocument(0); r->close(); std::vector<MDoc> e(t.last.begin() + 1, t.last.end()); verifyDir(t.dir, e); }
    else {
        if (how == 1) t.add(L"n", L"x"); else t.del(L"a");
        t.w->close();
        req(THROWS(r->deleteDocument(1)), "a stale reader refuses deletions");
        req(THROWS(r->setNorm(0, L"b", (uint8_t)3)), "a stale reader refuses norm changes");
        r->close();
        verifyDir(t.dir, t.live);
    }
    ro->close();
    sx_cover("stale");
}
// norm changes: visible at once in the reader, to others after commit, and independent in clones
SX_ENTRY(norms) {
    W t;
    t.open(true, 2, 10, sx_choose("cfs", 2));
    t.base(3);
    t.commit();
    t.w->close();
    uint8_t v = sx_u8("v"), u = sx_u8("u");
    int d = (int)sx_choose("doc", 3), e = (int)sx_choose("doc2", 3);
    IndexReaderPtr r = IndexReader::open(t.dir, false);
    ByteArray n0 = r->norms(L"b");
    std::vector<uint8_t> ref;
    for (int i = 0; i < 3; ++i) ref.push_back(n0[i]);
    std::vector<uint8_t> orig = ref;
    IndexReaderPtr before = sx_choose("clonefirst", 2) ? boost::dynamic_pointer_cast<IndexReader>(r->clone(true)) : IndexReaderPtr();
    r->setNorm(d, L"b", v); ref[d] = v;
    IndexReaderPtr after = sx_choose("clonelater", 2) ? boost::dynamic_pointer_cast<IndexReader>(r->clone(true)) : IndexReaderPtr();
    std::vector<uint8_t> mid = ref;
    if (sx_choose("delete", 2)) { if (!after) r->deleteDocument(2); }
    if (!after) { r->setNorm(e, L"b", u); ref[e] = u; }
    auto same = [](const IndexReaderPtr& x, const std::vector<uint8_t>& w, const char* m) { ByteArray n = x->norms(L"b"); ByteArray m2 = ByteArray::newInstance(5); x->norms(L"b", m2, 1); for (int i = 0; i < 3; ++i) sx_assert((n[i] == w[i]) & (m2[i + 1] == w[i]), m); };
    same(r, ref, "norms of the changed reader");
    if (before) { same(before, orig, "norms of a clone made before the change"); before->close(); }
    if (after) { same(after, mid, "norms of a clone made after the change"); }
    { IndexReaderPtr o = IndexReader::open(t.dir, true); same(o, orig, "norms of another reader before the commit"); o->close(); }
    r->close();
    if (after) after->close();
    { IndexReaderPtr o = IndexReader::open(t.dir, true); same(o, ref, "norms after the commit"); o->close(); }
    req(t.dir->handles == 0, "all files are closed");
    sx_cover("norms");
}
// norms of a family of clones: loaded, cloned, changed and closed in any order
SX_ENTRY(norm_clones) {
    W t;
    t.open(true, 2, 10, false);
    t.base(2);
    t.commit();
    t.w->close();
    uint8_t v = sx_u8("v");
    std::vector<uint8_t> last, orig;
    { IndexReaderPtr o = IndexReader::open(t.dir, true); ByteArray n = o->norms(L"b"); orig.assign(n.get(), n.get() + 2); o->close(); }
    last = orig;
    std::vector<IndexReaderPtr> r(1, IndexReader::open(t.dir, false));
    std::vector<std::vector<uint8_t> > ref(1, orig);
    int changed = -1, alive = 1;
    auto norms = [&](int k) { ByteArray n = r[k]->norms(L"b"); for (int i = 0; i < 2; ++i) sx_assert(n[i] == ref[k][i], "norms of a clone"); };
    auto close = [&](int k) { r[k]->close(); r[k].reset(); --alive; if (k == changed) last = ref[k]; for (size_t x = 0; x < r.size(); ++x) if (r[x] && changed >= 0) norms((int)x); };
    for (int i = 0; i < TIER(5, 6) && alive; ++i) {
        int op = (int)sx_choose("op", 4), k = 0;
        if (op == 1 && r.size() > 3) sx_stop();
        std::vector<int> open;
        for (size_t x = 0; x < r.size(); ++x) if (r[x]) open.push_back((int)x);
        k = op == 2 && changed >= 0 ? changed : open[sx_choose("reader", open.size())]; // changes go through one reader only
        if (!r[k]) sx_stop();
        switch (op) {
        case 0: norms(k); break;
        case 1: if (k == changed) sx_stop(); r.push_back(boost::dynamic_pointer_cast<IndexReader>(r[k]->clone(false))); ref.push_back(ref[k]); ++alive; break; // (a clone would take over the changes)
        case 2: if (last != orig) sx_stop(); r[k]->setNorm(1, L"b", v); ref[k][1] = v; changed = k; break;
        case 3: close(k); if (k == changed) { last = ref[k]; i = 100; } break;
        }
    }
    for (size_t k = 0; k < r.size(); ++k) if (r[k]) norms((int)k);
    for (size_t k = 0; k < r.size(); ++k) if (r[k]) close((int)k);
    { IndexReaderPtr o = IndexReader::open(t.dir, true); ByteArray n = o->norms(L"b"); for (int i = 0; i < 2; ++i) sx_assert(n[i] == last[i], "norms after the commit"); o->close(); }
    req(t.dir->handles == 0, "all files are closed");
    sx_cover("norm_clones");
}
// deletions of symbolic documents, by number and by term, seen by clones and reopened readers
SX_ENTRY(deletions) {
    W t;
    t.open(true, 2, 10, false);
    t.base(4);
    t.commit();
    t.w->close();
    IndexReaderPtr r = IndexReader::open(t.dir, false);
    std::vector<MDoc> mine = t.last;
    std::vector<bool> dead(4, false);
    auto live = [&] { std::vector<MDoc> m; for (int i = 0; i < 4; ++i) if (!dead[i]) m.push_back(t.last[i]); return m; };
    int d = (int)sx_range("doc", 0, 3);
    r->deleteDocument(d);
    for (int i = 0; i < 4; ++i) if (d == i) dead[i] = true;
    IndexReaderPtr c = boost::dynamic_pointer_cast<IndexReader>(r->clone(true));
    std::vector<MDoc> then = live();
    String id = symStr("id", 1, L'a', L'e');
    int n = r->deleteDocuments(newLucene<Term>(L"id", id)), want = 0;
    static const wchar_t* ids[] = {L"a", L"b", L"c", L"d"};
    for (int i = 0; i < 4; ++i) if (id == ids[i] && !dead[i]) { dead[i] = true; ++want; }
    req(n == want, "number of documents deleted");
    for (int i = 0; i < 4; ++i) req(r->isDeleted(i) == dead[i] , "a deleted document is reported as such");
    verifyReader(r, live());
    verifyReader(c, then);
    r->close();
    IndexReaderPtr o = IndexReader::open(t.dir, true);
    verifyReader(o, live());
    o->close();
    verifyReader(c, then);
    c->close();
    verifyDir(t.dir, live());
    req(t.dir->handles == 0, "all files are closed");
    sx_cover("deletions");
}
