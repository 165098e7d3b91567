// C30: threads that use one index at the same time see it as if their operations came one after the other.
// groups: core
#include "ix.h"
#include "ConcurrentMergeScheduler.h"
#include "LuceneThread.h"
#include "IndexSearcher.h"
#include "TermQuery.h"
#include "TopDocs.h"
#include "SnapshotDeletionPolicy.h"
#include "SimpleLRUCache.h"
#include "FieldCache.h"
#include <functional>
struct Job : public LuceneThread {
    std::function<void()> f; bool ok, ran; String err;
    Job(std::function<void()> g) : f(g), ok(false), ran(false) {}
    virtual void run() { try { f(); ok = true; } catch (LuceneException& e) { err = e.getError(); } ran = true; }
};
typedef boost::shared_ptr<Job> JobPtr;
static void together(std::vector<std::function<void()>> fs, int preemptions, bool mustSucceed = true) {
    std::vector<JobPtr> js;
    for (auto& f : fs) js.push_back(newLucene<Job>(f));
    sx_sched(TIER(2, 1), preemptions);
    for (auto& j : js) j->start();
    for (auto& j : js) j->join();
    sx_sched(0, 0);
    for (auto& j : js) req(j->ran && (j->ok || !mustSucceed), "an operation does not fail because another one runs");
}
// the state of the index as the set of (id, version)
typedef std::multiset<std::pair<String, String>> State;
static MDoc D(const String& id, const String& v) { MDoc d(id); d.add(L"v", v, F_ID); d.add(L"t", L"x " + v, F_BODY); return d; }
static State shown(const IndexReaderPtr& r) {
    State s;
    for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) { DocumentPtr d = r->document(i); s.insert(std::make_pair(d->get(L"id"), d->get(L"v"))); }
    req((int)s.size() == r->numDocs(), "number of documents");
    TermDocsPtr td = r->termDocs(newLucene<Term>(L"t", L"x"));
    int n = 0;
    while (td->next()) ++n;
    req(n == r->numDocs(), "postings hold exactly the live documents");
    return s;
}
static State inDir(const DirectoryPtr& d) { IndexReaderPtr r = IndexReader::open(d, true); State s = shown(r); r->close(); return s; }
enum { ADD, UPDATE, UPDATE2, DELETE, COMMIT, OPTIMIZE, READER, FLUSHADD, NOPS };
static void model(State& s, int op) {
    auto drop = [&](const String& id) { for (auto i = s.begin(); i != s.end();) if (i->first == id) i = s.erase(i); else ++i; };
    switch (op) {
    case ADD: s.insert(std::make_pair(L"n", L"1")); break;
    case UPDATE: drop(L"a"); s.insert(std::make_pair(L"a", L"2")); break;
    case UPDATE2: drop(L"a"); s.insert(std::make_pair(L"a", L"3")); break;
    case DELETE: drop(L"b"); drop(L"a"); break;
    case FLUSHADD: s.insert(std::make_pair(L"m", L"1")); s.insert(std::make_pair(L"m", L"2")); break;
    default: break;
    }
}
static void act(const IndexWriterPtr& w, int op, const State& s0, const State& s1) {
    switch (op) {
    case ADD: w->addDocument(D(L"n", L"1").make()); break;
    case UPDATE: w->updateDocument(newLucene<Term>(L"id", L"a"), D(L"a", L"2").make()); break;
    case UPDATE2: w->updateDocument(newLucene<Term>(L"id", L"a"), D(L"a", L"3").make()); break;
    case DELETE: w->deleteDocuments(newCollection<TermPtr>(newLucene<Term>(L"id", L"b"), newLucene<Term>(L"id", L"a"))); break;
    case COMMIT: w->commit(); break;
    case OPTIMIZE: w->optimize(); break;
    case READER: { IndexReaderPtr r = w->getReader(); State s = shown(r); req(s == s0 || s == s1, "a reader shows the index before or after the other operation"); r->close(); break; }
    case FLUSHADD: w->addDocument(D(L"m", L"1").make()); w->addDocument(D(L"m", L"2").make()); break;
    }
}
static IndexWriterPtr start(const DirectoryPtr& dir, State& s, bool buffered, const IndexDeletionPolicyPtr& pol = IndexDeletionPolicyPtr()) {
    IndexWriterPtr w = openWriter(dir, true, AnalyzerPtr(), pol);
    w->setMaxBufferedDocs(2);
    w->setMergeFactor(10);
    for (auto id : {L"a", L"b"}) { w->addDocument(D(id, L"1").make()); s.insert(std::make_pair(String(id), String(L"1"))); }
    w->commit();
    w->addDocument(D(L"c", L"1").make());
    s.insert(std::make_pair(L"c", L"1"));
    if (!buffered) w->commit();
    return w;
}
// two operations of one writer in two threads: the outcome is that of one order
SX_ENTRY(two_writers) {
    static const int P[][2] = {{UPDATE, UPDATE2}, {FLUSHADD, UPDATE}, {UPDATE, COMMIT}, {DELETE, READER}, {COMMIT, OPTIMIZE}, {FLUSHADD, FLUSHADD},
        {ADD, UPDATE}, {ADD, COMMIT}, {UPDATE, DELETE}, {ADD, OPTIMIZE}, {UPDATE, READER}, {ADD, READER}, {COMMIT, COMMIT}, {DELETE, COMMIT}, {FLUSHADD, COMMIT}, {UPDATE, OPTIMIZE}, {OPTIMIZE, READER}, {COMMIT, READER}};
    int k = (int)sx_choose("pair", TIER(6, sizeof P / sizeof *P));
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    State s;
    IndexWriterPtr w = start(dir, s, TIER(1, sx_choose("buffered", 2)));
    int a = P[k][0], b = P[k][1];
    State sa = s, sb = s;
    model(sa, a); model(sb, b);
    State ab = sa, ba = sb;
    model(ab, b); model(ba, a);
    together({[&] { act(w, a, s, sb); }, [&] { act(w, b, s, sa); }}, TIER(1, 2));
    IndexReaderPtr r = w->getReader();
    State now = shown(r);
    r->close();
    req(now == ab || now == ba, "both operations took effect, in some order");
    State disk = inDir(dir);
    if (a == COMMIT && b != COMMIT) req(disk == s || disk == sb, "a commit holds a state the index was in");
    if (b == COMMIT && a != COMMIT) req(disk == s || disk == sa, "a commit holds a state the index was in");
    w->close();
    req(inDir(dir) == now, "closing keeps everything");
    req(!IndexWriter::isLocked(dir), "the lock is released");
    sx_cover("two");
}
// two threads that change documents named by symbolic ids
SX_ENTRY(symbolic_ids) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    State s;
    IndexWriterPtr w = start(dir, s, true);
    String x = symStr("id", 1, L'a', L'd'), y = symStr("id2", 1, L'a', L'd');
    auto upd = [](State& t, const String& id, const wchar_t* v) { for (auto i = t.begin(); i != t.end();) if (i->first == id) i = t.erase(i); else ++i; if (v) t.insert(std::make_pair(id, String(v))); };
    bool del = sx_choose("delete", 2);
    State ab = s, ba = s;
    upd(ab, x, L"8"); upd(ab, y, del ? NULL : L"9");
    upd(ba, y, del ? NULL : L"9"); upd(ba, x, L"8");
    together({[&] { w->updateDocument(newLucene<Term>(L"id", x), D(x, L"8").make()); },
              [&] { if (del) w->deleteDocuments(newLucene<Term>(L"id", y)); else w->updateDocument(newLucene<Term>(L"id", y), D(y, L"9").make()); }}, TIER(1, 2));
    w->close();
    State now = inDir(dir);
    req(now == ab || now == ba, "both changes took effect, in some order");
    sx_cover("ids");
}
// an index can be opened at any time while a writer commits and merges
SX_ENTRY(open_while_committing) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    State s;
    IndexWriterPtr w = start(dir, s, false);
    State s1 = s, s2;
    s1.insert(std::make_pair(L"n", L"1"));
    s2 = s1;
    s2.insert(std::make_pair(L"a", L"9"));
    bool opt = sx_choose("optimize", 2), reopen = sx_choose("reopen", 2);
    IndexReaderPtr old = reopen ? IndexReader::open(dir, true) : IndexReaderPtr();
    together({[&] { w->addDocument(D(L"n", L"1").make()); if (opt) w->optimize(); w->commit(); w->addDocument(D(L"a", L"9").make()); w->commit(); },
              [&] { IndexReaderPtr r = reopen ? old->reopen() : IndexReader::open(dir, true); State x = shown(r); req(x == s || x == s1 || x == s2, "opening shows a committed state"); if (r != old) r->close(); }}, TIER(1, 2));
    if (old) { req(shown(old) == s, "an open reader keeps showing its commit"); old->close(); }
    w->close();
    req(inDir(dir) == s2, "the last commit is complete");
    sx_cover("opened");
}
// merges in the background while documents are added, and closing waits for them or gives them up
SX_ENTRY(background_merges) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMergeScheduler(newLucene<ConcurrentMergeScheduler>());
    w->setMaxBufferedDocs(2);
    w->setMergeFactor(2);
    State s;
    int n = TIER(4, 6);
    int at = (int)sx_choose("update", 3);
    sx_sched(TIER(2, 1), TIER(1, 2));
    for (int i = 0; i < n; ++i) {
        String id(1, (wchar_t)(L'a' + i));
        w->addDocument(D(id, L"1").make());
        s.insert(std::make_pair(id, String(L"1")));
        if (at && i == n - at) { w->updateDocument(newLucene<Term>(L"id", L"a"), D(L"a", L"2").make()); s.erase(std::make_pair(String(L"a"), String(L"1"))); s.insert(std::make_pair(L"a", L"2")); }
    }
    switch (sx_choose("end", 4)) {
    case 0: w->close(true); break;
    case 1: w->close(false); break;
    case 2: w->commit(); { State x = inDir(dir); req(x == s, "a commit holds all documents while merges run"); } w->close(); break;
    default: w->optimize(); w->close(); { IndexReaderPtr r = IndexReader::open(dir, true); req(r->isOptimized(), "optimized"); r->close(); } break;
    }
    sx_sched(0, 0);
    req(inDir(dir) == s, "no document is lost or repeated by merges in the background");
    req(!IndexWriter::isLocked(dir), "the lock is released");
    sx_cover("merged");
}
// a writer is closed or rolled back in one thread while another one still uses it
SX_ENTRY(ending_while_using) {
    static const int U[] = {FLUSHADD, COMMIT, UPDATE, READER, OPTIMIZE, DELETE};
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    State s1, s0;
    bool buffered = TIER(1, sx_choose("buffered", 2));
    IndexWriterPtr w = start(dir, s1, buffered);
    s0 = s1;
    if (buffered) s0.erase(std::make_pair(String(L"c"), String(L"1")));
    int use = U[sx_choose("use", 6)], end = (int)sx_choose("end", TIER(2, 3));
    bool prepared = sx_choose("prepared", TIER(1, 2));
    if (prepared) w->prepareCommit();
    State s2 = s1;
    model(s2, use);
    bool used = false;
    together({[&] { act(w, use, s1, State()); used = true; }, [&] { if (end == 0) w->rollback(); else w->close(end == 1); }}, TIER(1, 2), false);
    State now = inDir(dir);
    if (end == 0) req(now == s0 || (use == COMMIT && now == s1), "rolling back leaves the last commit");
    else if (used) req(now == s2, "what was done before closing is in the index");
    else if (use == FLUSHADD) { State p = s1; p.insert(std::make_pair(L"m", L"1")); req(now == s1 || now == p || now == s2, "closing keeps everything done before"); }
    else req(now == s1 || now == s2, "closing keeps everything done before");
    req(!IndexWriter::isLocked(dir), "the lock is released");
    req(THROWS(w->addDocument(D(L"y", L"1").make())), "a closed writer refuses documents");
    IndexWriterPtr x = openWriter(dir, false);
    x->addDocument(D(L"z", L"1").make());
    x->close();
    now.insert(std::make_pair(L"z", L"1"));
    req(inDir(dir) == now, "the index can be written again");
    sx_cover("ended");
}
// readers are closed while they are cloned, reopened and searched
SX_ENTRY(readers) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    State s;
    start(dir, s, false)->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    int how = (int)sx_choose("how", 4);
    r->incRef();
    r->incRef();
    std::function<void()> use = [&] {
        if (how == 0) { IndexReaderPtr c = boost::dynamic_pointer_cast<IndexReader>(r->clone()); req(shown(c) == s, "a clone shows the index"); c->close(); }
        else if (how == 1) { IndexReaderPtr c = r->reopen(); req(shown(c) == s, "a reopened reader shows the index"); if (c != r) c->close(); }
        else if (how == 2) { IndexSearcherPtr se = newLucene<IndexSearcher>(r); req(se->search(newLucene<TermQuery>(newLucene<Term>(L"t", L"x")), 9)->totalHits == 3, "search finds the documents"); }
        else { Collection<String> v = FieldCache::DEFAULT()->getStrings(r, L"id"); req(v[0] == L"a" && v[2] == L"c", "cached values"); }
        r->decRef();
    };
    together({use, use, [&] { r->close(); }}, 1);
    req(r->getRefCount() == 0, "closed when the last user is gone");
    sx_cover("readers");
}
// one snapshot at a time is held while commits go on
SX_ENTRY(snapshots) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    State s;
    SnapshotDeletionPolicyPtr pol = newLucene<SnapshotDeletionPolicy>(newLucene<KeepOnlyLastCommitDeletionPolicy>());
    IndexWriterPtr w = start(dir, s, false, pol);
    together({[&] { w->addDocument(D(L"n", L"1").make()); w->commit(); w->addDocument(D(L"m", L"1").make()); w->commit(); },
              [&] { IndexCommitPtr c = pol->snapshot(); HashSet<String> f = c->getFileNames(); for (HashSet<String>::iterator i = f.begin(); i != f.end(); ++i) req(dir->fileExists(*i), "files of a snapshot stay"); req(dir->fileExists(c->getSegmentsFileName()), "files of a snapshot stay"); pol->release(); }}, TIER(1, 2));
    w->close();
    sx_cover("snapshot");
}
// the smallest pieces: a thread and an object lock that two threads ask for first at the same time
SX_ENTRY(threads) {
    int n = 0;
    JobPtr j = newLucene<Job>([&] { ++n; });
    sx_sched(TIER(2, 1), 3);
    j->start();
    j->join();
    req(n == 1, "a joined thread has run");
    req(!j->isAlive(), "a joined thread is not alive");
    sx_cover("thread");
}
SX_ENTRY(cache) {
    typedef SimpleLRUCache<int, int> Cache;
    boost::shared_ptr<Cache> c = newLucene<Cache>(2);
    together({[&] { SyncLock l(c); c->put(1, 10); }, [&] { SyncLock l(c); c->put(2, 20); }}, 2);
    req(c->get(1) == 10 && c->get(2) == 20, "a shared cache holds what was put");
    sx_cover("cache");
}
