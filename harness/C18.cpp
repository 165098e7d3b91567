// C18: at most one writer per index; the lock is always freed and never freed by others.
#include "faultdir.h"
#include "NoLockFactory.h"
#include "Lock.h"
static MDoc mk(const String& id) { MDoc d(id); d.add(L"b", L"x y", F_BODY); return d; }
// writers and changing readers, in every order of opening, changing and closing
SX_ENTRY(exclusion) {
    IndexWriter::setDefaultWriteLockTimeout(0);
    FaultDirPtr dir = newLucene<FaultDir>();
    IndexWriterPtr w[2];
    IndexReaderPtr r[2];
    bool rdirty[2] = {false, false}, rstale[2] = {false, false};
    { IndexWriterPtr i = openWriter(dir, true); for (int k = 0; k < 4; ++k) { MDoc d = mk(String(1, L'a' + k)); i->addDocument(d.make()); } i->close(); }
    int holder = -1;   // 0,1 writers, 2,3 readers
    int del = 0, n = 4;
    for (int i = 0; i < TIER(8, 10); ++i) {
        int who = (int)sx_choose("who", 3);
        if (who < 2) {
            if (!w[who]) {
                bool mode = TIER(0, 1) && sx_choose("rollback", 2);
                (void)mode;
                try { w[who] = openWriter(dir, false); req(holder < 0, "a second writer was admitted"); holder = who; }
                catch (LockObtainFailedException&) { req(holder >= 0, "writer refused though nobody holds the lock"); }
            } else {
                req(holder == who, "lock holder");
                if (sx_choose("end", 2)) w[who]->rollback();
                else { MDoc d = mk(L"n"); w[who]->addDocument(d.make()); ++n; w[who]->close(); for (int k = 0; k < 2; ++k) if (r[k]) rstale[k] = true; }
                w[who].reset();
                holder = -1;
            }
        } else {
            int k = 0;
            if (!r[k]) { r[k] = IndexReader::open(dir, false); rdirty[k] = rstale[k] = false; }
            else if (!rdirty[k]) {
                try { r[k]->deleteDocument(del % 4); req(holder < 0 && !rstale[k], "reader changes while another holds the lock or after a newer commit"); rdirty[k] = true; holder = 2 + k; ++del; }
                catch (LockObtainFailedException&) { req(holder >= 0, "reader refused though nobody holds the lock"); }
                catch (StaleReaderException&) { req(rstale[k] || holder >= 0, "reader called stale though it is current"); r[k]->close(); r[k].reset(); }
            } else { r[k]->close(); r[k].reset(); rdirty[k] = false; holder = -1; }
        }
        req(IndexWriter::isLocked(dir) == (holder >= 0), "lock state is exact");
    }
    sx_cover("exclusion");
}
// failing constructors and closes do not leave the lock behind
struct FailOpen : public DirEvents {
    bool armed, failed;
    SymPoint at;
    FailOpen() : armed(false), failed(false), at("fail at") {}
    virtual void op(int kind, const String& name) { if (armed && !failed && kind != OP_CLOSE && at.now()) { failed = true; boost::throw_exception(IOException(L"disk")); } }
};
SX_ENTRY(failing_open) {
    IndexWriter::setDefaultWriteLockTimeout(0);
    FaultDirPtr dir = newLucene<FaultDir>();
    FailOpen ev;
    bool existing = sx_choose("existing", 2);
    if (existing) { IndexWriterPtr i = openWriter(dir, true); MDoc d = mk(L"a"); i->addDocument(d.make()); i->close(); }
    dir->ev = &ev;
    ev.armed = true;
    IndexWriterPtr w;
    bool create = !existing || sx_choose("create", 2);
    try { w = openWriter(dir, create); } catch (LuceneException&) { req(ev.failed, "constructor fails only when the disk does"); }
    ev.armed = false;
    if (!w) { req(!IndexWriter::isLocked(dir), "a failed constructor frees the lock"); sx_cover("failed"); w = openWriter(dir, !IndexReader::indexExists(dir)); }
    req(IndexWriter::isLocked(dir), "an open writer holds the lock");
    req(THROWS(openWriter(dir, false)), "second writer refused");
    w->rollback();
    req(!IndexWriter::isLocked(dir), "free after rollback");
    dir->ev = NULL;
    sx_cover("open");
}
// closing that fails keeps the lock with the writer; finally closing frees it
SX_ENTRY(failing_close) {
    IndexWriter::setDefaultWriteLockTimeout(0);
    FaultDirPtr dir = newLucene<FaultDir>();
    FailOpen ev;
    dir->ev = &ev;
    IndexWriterPtr w = openWriter(dir, true);
    MDoc d = mk(L"a");
    w->addDocument(d.make());
    ev.armed = true;
    bool threw = THROWS(w->close());
    ev.armed = false;
    if (threw) { req(IndexWriter::isLocked(dir), "a writer whose close failed still holds the lock"); sx_cover("failed"); if (sx_choose("again", 2)) w->close(); else w->rollback(); }
    req(!IndexWriter::isLocked(dir), "lock freed in the end");
    IndexWriterPtr v = openWriter(dir, false);
    v->close();
    dir->ev = NULL;
    sx_cover("close");
}
// lock factories: names are independent, prefixes separate directories, clearing and releasing are exact
SX_ENTRY(factory) {
    SingleInstanceLockFactoryPtr f = newLucene<SingleInstanceLockFactory>(), g = newLucene<SingleInstanceLockFactory>();
    LockPtr l[4] = {f->makeLock(L"a"), f->makeLock(L"a"), f->makeLock(L"b"), g->makeLock(L"a")};
    int held[3] = {-1, -1, -1};      // f:a, f:b, g:a
    static const int slot[4] = {0, 0, 1, 2};
    for (int i = 0; i < TIER(4, 5); ++i) {
        int k = (int)sx_choose("lock", 4), s = slot[k];
        switch (sx_choose("op", 3)) {
        case 0: { bool got = l[k]->obtain(); req(got == (held[s] < 0), "a lock is granted exactly when it is free"); if (got) held[s] = k; } break;
        case 1: if (held[s] != k) break; l[k]->release(); held[s] = -1; break;
        case 2: if (k == 2) { f->clearLock(L"b"); held[1] = -1; } break;
        }
        for (int q = 0; q < 4; ++q) req(l[q]->isLocked() == (held[slot[q]] >= 0), "lock state");
    }
    sx_cover("factory");
}
SX_ENTRY(no_lock) {
    IndexWriter::setDefaultWriteLockTimeout(0);
    LockFactoryPtr f = NoLockFactory::getNoLockFactory();
    LockPtr l = f->makeLock(L"x");
    req(l->obtain() && l->obtain() && !l->isLocked(), "the no-lock factory always grants");
    l->release(); f->clearLock(L"x");
    FaultDirPtr dir = newLucene<FaultDir>();
    dir->setLockFactory(f);
    IndexWriterPtr w = openWriter(dir, true);
    req(!IndexWriter::isLocked(dir), "never locked");
    w->close();
    // unlock() frees a lock left behind
    FaultDirPtr e = newLucene<FaultDir>();
    IndexWriterPtr v = openWriter(e, true);
    v->commit();
    IndexWriter::unlock(e);
    req(!IndexWriter::isLocked(e), "forcibly unlocked");
    IndexWriterPtr u = openWriter(e, false);
    u->close();
    sx_cover("no-lock");
}
// timed waiting: succeeds when the lock is freed in time, otherwise fails after the timeout
SX_ENTRY(timeout) {
    SingleInstanceLockFactoryPtr f = newLucene<SingleInstanceLockFactory>();
    LockPtr a = f->makeLock(L"a"), b = f->makeLock(L"a");
    req(a->obtain(0), "free lock obtained at once");
    req(THROWS(b->obtain((int32_t)sx_pick("ms", 0, 3) * 700)), "held lock is not obtained within the timeout");
    a->release();
    req(b->obtain(500), "freed lock obtained");
    req(THROWS(a->obtain(-5)), "negative timeouts are refused");
    b->release();
    sx_cover("timeout");
}
