// C17: exactly the commits the deletion policy keeps exist, whole; every other file goes away.
#include "faultdir.h"
#include "IndexCommit.h"
#include "IndexDeletionPolicy.h"
#include "SnapshotDeletionPolicy.h"
static MDoc mk(int serial, const String& id, const String& body) { MDoc d(id); d.add(L"b", body, F_BODY); d.add(L"s", L"s" + StringUtils::toString(serial), F_STORE); return d; }
struct Kept { int64_t gen; String tag; std::vector<MDoc> docs; };
struct Policy : public IndexDeletionPolicy {
    int mode;                          // 0 keep all, 1 keep last, 2 keep last two, 3 drop the second last, 4 symbolic choice
    std::vector<int64_t> seen, dropped;
    int inits, commits;
    bool wrapped;                      // commits are wrapped by a snapshot policy, which may refuse to delete them
    Policy(int m, bool wr = false) : mode(m), inits(0), commits(0), wrapped(wr) {}
    void apply(Collection<IndexCommitPtr> c) {
        seen.clear(); dropped.clear();
        int n = c.size();
        for (int i = 0; i < n; ++i) {
            req(i == 0 || c[i]->getGeneration() > c[i - 1]->getGeneration(), "commits are passed to the policy oldest first");
            req(!c[i]->isDeleted(), "commits passed to the policy are not deleted");
            seen.push_back(c[i]->getGeneration());
        }
        for (int i = 0; i + 1 < n; ++i) {
            bool drop = mode == 1 ? true : mode == 2 ? i + 2 < n : mode == 3 ? i + 2 == n : mode == 4 ? sx_bool("drop") : false;
            if (drop) { dropped.push_back(c[i]->getGeneration()); c[i]->deleteCommit(); req(wrapped || c[i]->isDeleted(), "a deleted commit says so"); }
        }
    }
    virtual void onInit(Collection<IndexCommitPtr> c) { ++inits; apply(c); }
    virtual void onCommit(Collection<IndexCommitPtr> c) { ++commits; apply(c); }
};
static std::vector<IndexCommitPtr> byGeneration(const DirectoryPtr& d) {
    Collection<IndexCommitPtr> c = IndexReader::listCommits(d);
    std::map<int64_t, IndexCommitPtr> m;
    for (int i = 0; i < c.size(); ++i) m[c[i]->getGeneration()] = c[i];
    req(m.size() == (size_t)c.size(), "no commit is listed twice");
    std::vector<IndexCommitPtr> r;
    for (auto& x : m) r.push_back(x.second);
    return r;
}
struct T {
    FaultDirPtr dir;
    IndexWriterPtr w;
    boost::shared_ptr<Policy> p;
    std::vector<Kept> kept;
    std::vector<MDoc> live;
    int serial;
    T(int mode) : serial(0) { dir = newLucene<FaultDir>(); p = newLucene<Policy>(mode); }
    void drop() {
        for (int64_t g : p->dropped) for (size_t i = 0; i < kept.size(); ++i) if (kept[i].gen == g) { kept.erase(kept.begin() + i); break; }
        p->dropped.clear();
    }
    void open(bool create, const IndexCommitPtr& at = IndexCommitPtr()) {
        if (at) w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), p, IndexWriter::MaxFieldLengthUNLIMITED, at);
        else w = openWriter(dir, create, AnalyzerPtr(), p);
        w->setMergeScheduler(newLucene<SerialMergeScheduler>());
        w->setMaxBufferedDocs(2); w->setMergeFactor(2); w->setUseCompoundFile(false);
        if (kept.empty()) kept.push_back(Kept{SegmentInfos::getCurrentSegmentGeneration(dir), L"", live});
        drop();
    }
    void add(const String& id, const String& b) { MDoc d = mk(serial++, id, b); w->addDocument(d.make()); live.push_back(d); }
    void commit(bool close) {
        String tag = L"t" + StringUtils::toString((int32_t)serial);
        MapStringString ud = MapStringString::newInstance();
        ud.put(L"tag", tag);
        w->commit(ud);
        kept.push_back(Kept{SegmentInfos::getCurrentSegmentGeneration(dir), tag, live});
        drop();
        if (close) { w->close(); drop(); }
    }
    void check(bool closed) {
        std::vector<IndexCommitPtr> c = byGeneration(dir);
        req((size_t)c.size() == kept.size(), "exactly the kept commits are listed");
        std::set<String> used;
        for (size_t i = 0; i < c.size(); ++i) {
            req(c[i]->getGeneration() == kept[i].gen, "kept commits");
            MapStringString ud = c[i]->getUserData();
            if (!kept[i].tag.empty()) req(ud.get(L"tag") == kept[i].tag, "user data of a kept commit");
            HashSet<String> f = c[i]->getFileNames();
            for (HashSet<String>::iterator j = f.begin(); j != f.end(); ++j) { used.insert(*j); req(dir->fileExists(*j), "every file of a kept commit exists"); }
            IndexReaderPtr r = IndexReader::open(c[i], true);
            verifyReader(r, kept[i].docs);
            req(r->getIndexCommit()->getGeneration() == kept[i].gen, "commit of an opened reader");
            r->close();
        }
        if (closed) for (auto& f : dir->files) if (!used.count(f.first) && f.first != L"segments.gen") sx_fail("a file of no kept commit is left behind");
    }
};
static void history(int modes) {
    T t(modes == 1 ? 4 : (int)sx_choose("policy", 4));
    t.open(true);
    t.add(L"a", L"x y");
    t.add(L"b", L"y");
    t.commit(false);
    for (int i = 0; i < TIER(modes == 1 ? 2 : 3, modes == 1 ? 3 : 4); ++i) {
        int op = (int)sx_choose("op", 5);
        switch (op) {
        case 0: t.add(L"c", L"x"); t.commit(false); break;
        case 1: t.w->deleteDocuments(newLucene<Term>(L"id", L"a")); removeIds(t.live, L"id", L"a"); t.add(L"d", L"z"); t.commit(false); break;
        case 2: t.add(L"e", L"x"); t.w->optimize(); t.commit(false); break;
        case 3: t.add(L"f", L"z"); t.commit(true); t.check(true); t.open(false); break;
        case 4: { // back to an earlier commit
            t.w->close(); t.drop();
            std::vector<IndexCommitPtr> c = byGeneration(t.dir);
            int k = (int)sx_choose("back", c.size() > 2 ? 2 : (uint64_t)c.size());
            t.live = t.kept[k].docs;
            t.open(false, c[k]);
            t.add(L"g", L"y"); t.commit(false);
            break; }
        }
        if (TIER(0, 1)) t.check(false);
    }
    t.check(false);
    t.w->close(); t.drop();
    t.check(true);
    sx_cover("history");
}
SX_ENTRY(policies) { history(4); }
SX_ENTRY(chosen_deletions) { history(1); }
// a snapshot keeps one commit alive until released
SX_ENTRY(snapshot) {
    FaultDirPtr dir = newLucene<FaultDir>();
    SnapshotDeletionPolicyPtr sp = newLucene<SnapshotDeletionPolicy>(newLucene<KeepOnlyLastCommitDeletionPolicy>());
    IndexWriterPtr w = openWriter(dir, true, AnalyzerPtr(), sp);
    w->setMaxBufferedDocs(2); w->setMergeFactor(2); w->setUseCompoundFile(sx_choose("cfs", 2));
    std::vector<MDoc> live, snap;
    int serial = 0;
    auto add = [&](const String& id) { MDoc d = mk(serial++, id, L"x " + id); w->addDocument(d.make()); live.push_back(d); };
    add(L"a"); add(L"b");
    w->commit();
    IndexCommitPtr c;
    bool released = false;
    for (int i = 0; i < TIER(4, 5); ++i) {
        switch (sx_choose("op", 5)) {
        case 0: add(L"c"); w->commit(); break;
        case 1: add(L"d"); w->optimize(); w->commit(); break;
        case 2: if (c) { req(THROWS(sp->snapshot()), "one snapshot at a time"); break; }
            c = sp->snapshot(); snap = std::vector<MDoc>(); { IndexReaderPtr r = IndexReader::open(dir, true); req(r->getIndexCommit()->getGeneration() == c->getGeneration(), "a snapshot is the last commit"); r->close(); }
            snap = live; break;
        case 3: if (c) { sp->release(); c.reset(); released = true; } else req(THROWS(sp->release()), "release without snapshot is refused"); break;
        case 4: w->deleteDocuments(newLucene<Term>(L"id", L"a")); removeIds(live, L"id", L"a"); w->commit(); break;
        }
        if (c) {
            HashSet<String> f = c->getFileNames();
            for (HashSet<String>::iterator j = f.begin(); j != f.end(); ++j) req(dir->fileExists(*j), "every file of the snapshot exists");
        }
    }
    if (c) {
        // a copy of the snapshot's files is a complete index
        RAMDirectoryPtr copy = newLucene<RAMDirectory>();
        HashSet<String> f = c->getFileNames();
        for (HashSet<String>::iterator j = f.begin(); j != f.end(); ++j) { FFilePtr x = dir->get(*j); FaultDir::put(copy, *j, x->data, x->data.size()); }
        verifyDir(copy, snap);
        sp->release();
        sx_cover("snapshot");
    }
    (void)released;
    add(L"z");
    w->close();
    verifyDir(dir, live);
    req(IndexReader::listCommits(dir).size() == 1, "after release only the last commit remains");
    SegmentInfosPtr si = newLucene<SegmentInfos>();
    si->read(dir);
    HashSet<String> used = si->files(dir, true);
    for (auto& f : dir->files) if (!used.contains(f.first) && f.first != L"segments.gen") sx_fail("a file of no kept commit is left behind");
    sx_cover("end");
}
// files of uncommitted work never replace or outlive committed ones; readers holding deleted commits keep working
SX_ENTRY(readers_hold) {
    T t((int)sx_choose("policy", 3));
    t.open(true);
    t.add(L"a", L"x y"); t.add(L"b", L"y");
    t.commit(false);
    IndexReaderPtr r = IndexReader::open(t.dir, true);
    std::vector<MDoc> d = t.live;
    for (int i = 0; i < 2; ++i) { t.add(L"c", L"x"); if (sx_choose("opt", 2)) t.w->optimize(); t.commit(false); }
    verifyReader(r, d);
    r->close();
    t.w->close(); t.drop();
    t.check(true);
    sx_cover("hold");
}
// deletions that fail for a while (files held open elsewhere) are made up for
struct Busy : public DirEvents {
    int left;                                          // deletions still to decide
    std::set<String> held;
    Busy() : left(0) {}
    virtual void op(int kind, const String& name) {
        if (kind != OP_DELETE) return;
        if (left > 0) { --left; if (sx_bool("busy")) held.insert(name); }
        if (held.count(name)) boost::throw_exception(IOException(L"busy " + name));
    }
};
SX_ENTRY(busy_files) {
    Busy b;
    T t(1);
    t.dir->ev = &b;
    t.open(true);
    t.add(L"a", L"x y");
    t.commit(false);
    b.left = TIER(5, 8);
    t.add(L"b", L"y");
    if (sx_choose("first", 2)) { t.w->deleteDocuments(newLucene<Term>(L"id", L"a")); removeIds(t.live, L"id", L"a"); }
    t.commit(false);
    if (sx_choose("optimize", 2)) t.w->optimize();
    t.add(L"c", L"z");
    t.commit(false);
    t.check(false);
    b.left = 0; b.held.clear();
    int end = (int)sx_choose("end", 3);
    if (end == 1) { t.add(L"d", L"x"); t.commit(false); }
    t.w->close(); t.drop();
    if (end == 2) { t.open(false); t.w->close(); t.drop(); }
    t.check(true);
    sx_cover("busy_files");
}
// a snapshot taken right after opening protects the last commit, whatever the primary policy keeps
SX_ENTRY(snapshot_opening) {
    int mode = (int)sx_choose("policy", 4);
    T t(mode);
    t.open(true);
    int n = 1 + (int)sx_choose("commits", 3);
    for (int i = 0; i < n; ++i) { t.add(StringUtils::toString(i), L"x"); t.commit(false); }
    if (sx_choose("optimize", 2)) t.w->optimize();
    t.w->close(); t.drop();
    std::vector<IndexCommitPtr> before = byGeneration(t.dir);
    SnapshotDeletionPolicyPtr sp = newLucene<SnapshotDeletionPolicy>(newLucene<Policy>(mode, true));
    IndexWriterPtr w = openWriter(t.dir, false, AnalyzerPtr(), sp);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    w->setMaxBufferedDocs(2); w->setMergeFactor(2); w->setUseCompoundFile(false);
    IndexCommitPtr c = sp->snapshot();
    req(c->getGeneration() == before.back()->getGeneration(), "a snapshot is the last commit");
    int more = (int)sx_choose("more", 3);
    for (int i = 0; i < more; ++i) { MDoc d = mk(90 + i, L"n", L"y"); w->addDocument(d.make()); w->commit(); }
    if (sx_choose("merge", 2)) { w->optimize(); w->commit(); }
    HashSet<String> f = c->getFileNames();
    for (HashSet<String>::iterator j = f.begin(); j != f.end(); ++j) req(t.dir->fileExists(*j), "every file of the snapshot exists");
    std::vector<MDoc> docs = t.live;
    IndexReaderPtr r = IndexReader::open(c, true);
    verifyReader(r, docs);
    r->close();
    sp->release();
    w->close();
    sx_cover("snapshot_opening");
}
