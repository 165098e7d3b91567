// C14: a crash at any point leaves the last completed commit (or the one in progress) intact.
#include "faultdir.h"
#include "TermQuery.h"

static MDoc mk(int serial, const String& id, const String& body) { MDoc d(id); d.add(L"b", body, F_BODY | F_TV); d.add(L"s", L"s" + StringUtils::toString(serial), F_STORE); return d; }

struct Crash : public DirEvents {
    FaultDirPtr dir;
    bool armed, inCommit, any;
    std::vector<MDoc> last, next;
    SymPoint at;
    Crash() : armed(false), inCommit(false), any(false), at("crash at") {}
    void recover() {
        armed = false;
        dir->ev = NULL;
        int mode = (int)sx_choose("survives", FaultDir::NMODES);
        RAMDirectoryPtr d = dir->image(mode);
        bool isNext = false;
        std::vector<MDoc> have = last;
        if (!any && !IndexReader::indexExists(d)) { sx_cover("nothing committed yet"); }
        else {
            IndexReaderPtr r;
            try { r = IndexReader::open(d, true); } catch (LuceneException& e) {
                if (any) sx_fail("index cannot be opened after a crash");
                sx_cover("nothing committed yet"); return;
            }
            bool fitsLast = any && r->numDocs() == (int)last.size();
            if (inCommit && r->numDocs() == (int)next.size() && (!fitsLast || expectedPostings(next) == readPostings(r))) { isNext = true; have = next; }
            req(any || isNext, "only a completed commit is visible");
            verifyReader(r, have);
            r->close();
        }
        // the recovered index accepts further changes, and unreferenced files disappear
        if (!any && !isNext) have.clear();
        IndexWriterPtr w = openWriter(d, !IndexReader::indexExists(d));
        w->setMaxBufferedDocs(2);
        MDoc x = mk(77, L"zz", L"x new");
        w->addDocument(x.make());
        have.push_back(x);
        w->close();
        verifyDir(d, have);
        SegmentInfosPtr si = newLucene<SegmentInfos>();
        si->read(d);
        HashSet<String> used = si->files(d, true);
        HashSet<String> all = d->listAll();
        for (HashSet<String>::iterator i = all.begin(); i != all.end(); ++i)
            if (!used.contains(*i) && *i != L"segments.gen") sx_fail("a file no commit refers to is left behind");
        sx_cover("recovered");
    }
    virtual void op(int kind, const String& name) {
        if (!armed || kind == OP_OPEN || kind == OP_READ) return;
        // creating, writing and closing an ordinary file only changes unsynced data: the following sync or delete stands for it
        if (TIER(1, 0) && kind != OP_SYNC && kind != OP_DELETE && name.substr(0, 8) != L"segments") return;
        if (at.now()) { recover(); sx_stop(); }
    }
};
struct S {
    Crash c;
    IndexWriterPtr w;
    std::vector<MDoc> live;
    int serial, mb, mf;
    bool cfs;
    S() : serial(0) { c.dir = newLucene<FaultDir>(); c.dir->ev = &c; }
    ~S() {}
    void open(bool create) { bool fresh = !c.any; if (fresh) begin(); w = openWriter(c.dir, create); if (fresh) end(); w->setMaxBufferedDocs(mb); w->setMergeFactor(mf); w->setUseCompoundFile(cfs); }
    void add(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->addDocument(d.make()); live.push_back(d); }
    void upd(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->updateDocument(newLucene<Term>(L"id", id), d.make()); removeIds(live, L"id", id); live.push_back(d); }
    void del(const String& id) { w->deleteDocuments(newLucene<Term>(L"id", id)); removeIds(live, L"id", id); }
    void begin() { c.next = live; c.inCommit = true; }
    void end() { c.last = live; c.inCommit = false; c.any = true; }
    void commit() { begin(); w->commit(); end(); }
    void close() { begin(); w->close(); end(); }
};
static void base(S& s, int docs) {
    static const wchar_t* ids[] = {L"a", L"b", L"c", L"d"};
    for (int i = 0; i < docs; ++i) s.add(ids[i], i % 2 ? L"x y" : L"y z z");
}
static void script(S& s, int k) {
    switch (k) {
    case 0: base(s, 2); s.commit(); s.add(L"e", L"x"); s.upd(L"a", L"w"); s.commit(); s.close(); break;
    case 1: base(s, 3); s.commit(); s.del(L"b"); s.w->optimize(); s.close(); break;
    case 2: base(s, 4); s.close(); s.open(false); s.del(L"a"); s.del(L"d"); s.w->expungeDeletes(); s.commit(); s.add(L"q", L"y"); s.close(); break;
    case 3: base(s, 3); s.commit(); s.w->deleteAll(); s.live.clear(); s.add(L"n", L"m"); s.commit(); s.close(); break;
    case 4: base(s, 3); s.commit(); { // deletion and norm changes through a reader
        s.close();
        s.c.armed = true;
        IndexReaderPtr r = IndexReader::open(s.c.dir, false);
        r->deleteDocuments(newLucene<Term>(L"id", L"b")); r->setNorm(0, L"b", (uint8_t)99);
        removeIds(s.live, L"id", L"b");
        s.begin(); r->close(); s.end();
        break; }
    case 5: base(s, 2); s.commit(); s.add(L"e", L"x"); s.begin(); s.w->prepareCommit(); s.w->commit(); s.end(); s.add(L"f", L"x"); s.w->rollback(); break;
    case 6: base(s, 2); s.commit(); { s.add(L"e", L"x"); IndexReaderPtr r = s.w->getReader(); s.del(L"a"); r = r->reopen(); r->close(); } s.commit(); s.close(); break;
    case 7: base(s, 2); s.close(); { RAMDirectoryPtr o = newLucene<RAMDirectory>(); IndexWriterPtr w2 = openWriter(o, true); MDoc d1 = mk(90, L"o", L"y z"); w2->addDocument(d1.make()); w2->close();
        s.open(false); s.w->addIndexesNoOptimize(newCollection<DirectoryPtr>(o)); s.live.push_back(d1); s.commit(); s.close(); } break;
    case 8: base(s, 2); s.close(); s.open(true); s.live.clear(); s.add(L"r", L"x"); s.close(); break;       // replaced index
    }
}
static void crash(int from, int to) {
    S s;
    int k = from + (int)sx_choose("script", to - from), cfg = (int)sx_choose("config", TIER(2, 4));
    s.mb = 2; s.mf = cfg & 2 ? 3 : 2; s.cfs = cfg & 1;
    s.c.armed = true;
    s.open(true);
    script(s, k);
    s.c.armed = false;
    s.c.inCommit = false;
    s.c.recover();          // after the last operation
    sx_cover("end");
}
SX_ENTRY(crash_commit) { crash(0, 2); sx_cover("end-commit"); }
SX_ENTRY(crash_deletes) { crash(2, 4); }
SX_ENTRY(crash_reader) { crash(4, 6); }
SX_ENTRY(crash_nrt) { crash(6, 9); }
// what is deleted, updated and added is symbolic
SX_ENTRY(crash_symbolic) {
    S s;
    s.mb = 2; s.mf = 2; s.cfs = sx_choose("cfs", 2);
    s.open(true);
    base(s, 3);
    s.c.armed = true;
    s.commit();
    String x = symStr("id", 1, L'a', L'd'), y = symStr("id2", 1, L'a', L'd'), b = symStr("word", 1, L'v', L'z');
    s.upd(x, b + L" y");
    if (sx_choose("delete", 2)) s.del(y);
    s.commit();
    s.close();
    s.c.armed = false;
    s.c.recover();
}
