// C15: rollback, two-phase commit and failing operations never disturb the committed index.
#include "faultdir.h"
#include "TermQuery.h"
#include "IndexCommit.h"
static MDoc mk(int serial, const String& id, const String& body) { MDoc d(id); d.add(L"b", body, F_BODY); d.add(L"s", L"s" + StringUtils::toString(serial), F_STORE); return d; }
struct Fail : public DirEvents {
    bool armed, sticky, failed, reads;
    int kindOf;
    SymPoint at;
    Fail() : armed(false), sticky(false), failed(false), reads(false), kindOf(-1), at("fail at") {}
    virtual void op(int kind, const String& name) {
        if (!armed) return;
        if (failed) { if (sticky && kind != OP_OPEN && kind != OP_READ && kind != OP_CLOSE && kind != OP_DELETE) boost::throw_exception(IOException(L"disk failed")); return; }
        if (!reads && (kind == OP_OPEN || kind == OP_READ)) return;
        if (kind == OP_CLOSE || kind == OP_DELETE) return;
        if (at.now()) { failed = true; kindOf = kind; sticky = sx_bool("sticky"); boost::throw_exception(IOException(L"disk failed")); }
    }
};
struct W {
    FaultDirPtr dir;
    Fail ev;
    IndexWriterPtr w;
    std::vector<MDoc> live, last;
    int serial;
    W() : serial(0) { dir = newLucene<FaultDir>(); dir->ev = &ev; }
    void open(bool create, int mb, int mf, bool cfs) { w = openWriter(dir, create); w->setMaxBufferedDocs(mb); w->setMergeFactor(mf); w->setUseCompoundFile(cfs); }
    void add(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->addDocument(d.make()); live.push_back(d); }
    void upd(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->updateDocument(newLucene<Term>(L"id", id), d.make()); removeIds(live, L"id", id); live.push_back(d); }
    void del(const String& id) { w->deleteDocuments(newLucene<Term>(L"id", id)); removeIds(live, L"id", id); }
    void base(int n) { static const wchar_t* ids[] = {L"a", L"b", L"c", L"d"}; for (int i = 0; i < n; ++i) add(ids[i], i % 2 ? L"x y" : L"y z z"); }
    void unlockedAndUsable() {
        req(!IndexWriter::isLocked(dir), "write lock is free after the writer is gone");
        IndexWriterPtr v = openWriter(dir, false);
        MDoc d = mk(99, L"later", L"x");
        v->addDocument(d.make());
        v->close();
        std::vector<MDoc> e = last;
        e.push_back(d);
        verifyDir(dir, e);
        SegmentInfosPtr si = newLucene<SegmentInfos>();
        si->read(dir);
        HashSet<String> used = si->files(dir, true);
        for (auto& f : dir->files) if (!used.contains(f.first) && f.first != L"segments.gen") sx_fail("a file no commit refers to is left behind");
    }
};
static void change(W& t, int op) {
    switch (op) {
    case 0: t.add(L"e", L"x"); break;
    case 1: t.upd(L"a", L"w"); break;
    case 2: t.del(L"b"); break;
    case 3: t.w->optimize(); break;
    case 4: t.w->deleteAll(); t.live.clear(); break;
    case 5: { IndexReaderPtr r = t.w->getReader(); verifyReader(r, t.live); r->close(); } break;
    case 6: t.w->expungeDeletes(); break;
    case 7: t.upd(symStr("id", 1, L'a', L'e'), symStr("word", 1, L'w', L'z') + L" q"); break;
    case 8: t.del(symStr("id", 1, L'a', L'e')); break;
    }
}
// rollback discards exactly what was not committed
SX_ENTRY(rollback) {
    W t;
    t.open(true, 2, (int)sx_pick("mergefactor", 2, 3), sx_choose("cfs", 2));
    t.base(3);
    t.w->commit();
    t.last = t.live;
    for (int i = 0; i < TIER(3, 4); ++i) change(t, (int)sx_choose("op", 6));
    t.w->rollback();
    verifyDir(t.dir, t.last);
    req(t.dir->handles == 0, "no file is left open after rollback");
    t.unlockedAndUsable();
    sx_cover("rollback");
}
// the same with symbolic documents and deletions
SX_ENTRY(rollback_symbolic) {
    W t;
    t.open(true, 2, 2, false);
    t.base(3);
    t.w->commit();
    t.last = t.live;
    for (int i = 0; i < TIER(2, 3); ++i) change(t, (int[]){7, 8, 3}[sx_choose("op", 3)]);
    if (sx_choose("prepare", 2)) t.w->prepareCommit();
    if (sx_choose("commit", 2)) { t.w->commit(); t.last = t.live; }
    change(t, 8);
    t.w->rollback();
    verifyDir(t.dir, t.last);
    t.unlockedAndUsable();
    sx_cover("rollback_symbolic");
}
// two-phase commit: nothing is visible until commit(); what was prepared is what becomes visible
SX_ENTRY(prepared) {
    W t;
    t.open(true, 2, 2, sx_choose("cfs", 2));
    t.base(3);
    t.w->commit();
    t.last = t.live;
    t.add(L"d", L"v");
    for (int i = 0; i < TIER(1, 2); ++i) change(t, (int)sx_choose("op", 4));
    MapStringString ud = MapStringString::newInstance();
    ud.put(L"k", L"v1");
    t.w->prepareCommit(ud);
    std::vector<MDoc> prepared = t.live;
    verifyDir(t.dir, t.last);
    for (int i = 0; i < TIER(2, 2); ++i) change(t, (int[]){0, 1, 2, 4, 5, 3}[sx_choose("later", TIER(5, 6))]);
    verifyDir(t.dir, t.last);
    req(THROWS(t.w->prepareCommit()), "a second prepare is refused");
    bool ok = sx_choose("commit", 2);
    if (ok) {
        t.w->commit();
        verifyDir(t.dir, prepared);
        req(IndexReader::getCommitUserData(t.dir).get(L"k") == L"v1", "commit user data");
        t.last = prepared;
        if (sx_choose("close", 2)) { t.w->close(); verifyDir(t.dir, t.live); t.last = t.live; }
        else { t.w->rollback(); verifyDir(t.dir, prepared); }
    } else {
        t.w->rollback();
        verifyDir(t.dir, t.last);
    }
    t.unlockedAndUsable();
    sx_cover("prepared");
}
// an operation fails at any point: the committed index is unchanged, rollback restores it, the writer goes away cleanly
// a commit that returned survives a power cut that loses everything not synced
static void durable(W& t) {
    RAMDirectoryPtr im = t.dir->image(FaultDir::GONE);
    IndexReaderPtr r = IndexReader::open(im, true), q = IndexReader::open(t.dir, true);
    req(readPostings(r) == readPostings(q), "what was committed is durable");
    r->close();
    q->close();
}
static void failing(std::initializer_list<int> ops, int n, int mf) {
    W t;
    int mb = 2, endop = (int)sx_choose("end", 2);
    t.open(true, mb, mf, TIER(endop, (int)sx_choose("cfs", 2)));
    t.base(3);
    t.w->commit();
    t.last = t.live;
    std::vector<int> seq;
    for (int i = 0; i < n; ++i) seq.push_back(ops.begin()[sx_choose("op", ops.size())]);
    t.ev.armed = true;
    t.ev.reads = TIER(0, 1);
    bool threw = false, committing = false;
    try {
        for (int o : seq) change(t, o);
        committing = true;
        if (endop == 0) t.w->commit(); else t.w->close();
        committing = false;
        t.last = t.live;
    } catch (LuceneException&) { threw = true; }
    if (threw) req(t.ev.failed, "an exception only when the disk failed");
    else if (t.ev.failed) sx_cover("absorbed");
    t.ev.armed = false;
    if (!threw) { verifyDir(t.dir, t.last); durable(t); sx_cover("no failure"); if (!endop) t.w->close(); return; }
    // the commit may have taken effect when its very last steps failed
    IndexReaderPtr r = IndexReader::open(t.dir, true);
    MPost have = readPostings(r);
    r->close();
    bool old = have == expectedPostings(t.last), isnew = committing && have == expectedPostings(t.live);
    req(old || isnew, "a failed operation leaves the committed index as it was");
    if (isnew) t.last = t.live;
    switch (sx_choose("then", 2)) {
    case 0: t.w->rollback(); {
        IndexReaderPtr q = IndexReader::open(t.dir, true);
        have = readPostings(q);
        q->close();
        req(have == expectedPostings(t.last), "rollback after a failure restores the last commit");
        if (std::find(seq.begin(), seq.end(), 5) == seq.end()) req(t.dir->handles == 0, "no file is left open");
        t.unlockedAndUsable(); }
        break;
    case 1: { // the same writer goes on
        if (endop == 1 && !threw) break;
        MDoc x = mk(50, L"go", L"on");
        try { t.w->addDocument(x.make()); t.w->close(); } catch (LuceneException&) { sx_cover("writer refuses"); t.w->rollback(); verifyDir(t.dir, t.last); return; }
        IndexReaderPtr q = IndexReader::open(t.dir, true);
        MPost p = readPostings(q);
        req(p.count(MTerm(L"id", L"go")) == 1 && p[MTerm(L"id", L"go")].size() == 1, "a document added after a failure is in the index once");
        // every document present is one that was added, whole
        std::map<int, int> ranks = liveRanks(q);
        for (auto& k : ranks) {
            DocumentPtr d = q->document(k.first);
            String id = d->get(L"id");
            MPost::iterator it = p.find(MTerm(L"id", id));
            req(it != p.end() && it->second.count(k.second), "stored and indexed identity agree");
        }
        q->close();
        durable(t);
        break; }
    }
    sx_cover("failure");
}
SX_ENTRY(failing_adds) { failing({0, 1, 2}, 2, 10); }
SX_ENTRY(failing_merges) { failing({0, 3, 6}, TIER(2, 3), 2); }
SX_ENTRY(failing_nrt) { failing({1, 5, 4}, TIER(2, 3), 2); }
SX_ENTRY(failing_symbolic) { failing({7, 8}, 2, 2); }
