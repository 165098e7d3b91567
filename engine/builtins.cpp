// Builtin functions of the symbolic executor: harness API, allocation, memory/string primitives, exceptions, threads, time.
#include "interp.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>

int spawnThread(DFunc* f, uint64_t arg);
bool replayValue(const char* name, uint64_t& v);
extern std::map<uint64_t, uint64_t> dummyMap;

#define B(name) static bool name(CallInfo* ci, Reg* A, int n, Reg& ret)
static std::string cstr(uint64_t a) {
    std::string s;
    for (int i = 0; i < 400; ++i) {
        Reg r;
        loadMem(a + i, 1, 8, r);
        char c = (char)conc(r);
        if (!c) break;
        s += c;
    }
    return s;
}
static void retEx(Reg& r, EX e) {
    if (NODES[e].op == X_CONST) { r.v = NODES[e].k; r.e = 0; } else { r.v = NODES[e].val; r.e = e; }
}
static void rewindCall() { T->st.back().pc--; T->st.back().callop = nullptr; }

// ------------------------------------------------------------ harness API
B(b_sym) {
    std::string nm = cstr(conc(A[0]));
    int bits = (int)conc(A[1]);
    if (bits < 1) bits = 1;
    if (bits > 64) bits = 64;
    uint64_t v;
    if (replayValue(nm.c_str(), v)) { INPUTS.push_back({nm, 0, v}); ret.v = v & wmask(bits); return true; }
    EX e = xNewVar(nm + "#" + std::to_string(VARS.size()), bits, 0);
    INPUTS.push_back({nm, e, 0});
    retEx(ret, bits < 64 ? xZExt(e, 64) : e);
    return true;
}
static void assume(EX c) {
    __sync_fetch_and_add(&SH->assumes, 1);
    if (xIsConst(c)) { if (!NODES[c].k) endPath(1, "assumption"); return; }
    if (NODES[c].val) { if (!holdsByPC(c)) addPC(c); return; }
    std::vector<uint64_t> m;
    SatRes r = solve(c, &m);
    if (r == R_UNSAT) endPath(1, "assumption");
    if (r == R_UNKNOWN) endPath(2, "solver gave no answer on an assumption");
    setWitness(m);
    addPC(c);
}
static EX truth(const Reg& r, unsigned w) {
    EX e = r.e;
    if (!e) return xConst(r.v != 0, 1);
    w = xW(e);
    if (w == 1) return e;
    return xNot(xBin(X_EQ, e, xConst(0, w)));
}
B(b_assume) { assume(truth(A[0], 32)); return true; }
B(b_assert) {
    EX c = truth(A[0], 32);
    __sync_fetch_and_add(&SH->asserts, 1);
    std::string what = cstr(conc(A[1]));
    if (xIsConst(c)) {
        if (!NODES[c].k) { violation("assert", what, nullptr); endPath(0, nullptr); }
        return true;
    }
    __sync_fetch_and_add(&SH->assertsSolved, 1);
    if (!NODES[c].val) {
        violation("assert", what, nullptr);
        assume(c);
        return true;
    }
    std::vector<uint64_t> m;
    SatRes r = solve(xNot(c), &m, true);
    if (r == R_SAT) { violation("assert", what, &m); addPC(c); }
    else if (r == R_UNKNOWN) { incomplete("solver gave no answer on assertion: " + what); addPC(c); }
    return true;
}
B(b_fail) { violation("assert", cstr(conc(A[0])), nullptr); endPath(0, nullptr); return true; }
B(b_cover) {
    std::string s = cstr(conc(A[0])).substr(0, 90);
    for (auto& c : SH->covers) {
        if (!c.name[0]) {
            static volatile int* lock = nullptr; (void)lock;
            strncpy(c.name, s.c_str(), sizeof(c.name) - 1);
        }
        if (!strcmp(c.name, s.c_str())) { __sync_fetch_and_add(&c.n, 1); break; }
    }
    return true;
}
B(b_choose) {
    std::string nm = cstr(conc(A[0]));
    uint64_t k = conc(A[1]), v;
    if (k == 0) endPath(1, "empty choice");
    if (replayValue(nm.c_str(), v)) { INPUTS.push_back({nm, 0, v}); ret.v = v; return true; }
    if (k == 1) { INPUTS.push_back({nm, 0, 0}); ret.v = 0; return true; }
    EX e = xNewVar(nm + "#" + std::to_string(VARS.size()), 32, 0);
    INPUTS.push_back({nm, e, 0});
    VARS.back().hi = k - 1;
    addPC(xBin(X_ULT, e, xConst(k, 32)));
    // every value of the fresh variable is feasible: one path each
    uint64_t i = 0;
    for (; i + 1 < k; ++i) if (!forkState()) { break; } else NODES[e].val = i + 1;
    addPC(xBin(X_EQ, e, xConst(i, 32)));
    ret.v = i;
    return true;
}
B(b_range) {
    std::string nm = cstr(conc(A[0]));
    int64_t lo = (int64_t)conc(A[1]), hi = (int64_t)conc(A[2]);
    uint64_t v;
    if (replayValue(nm.c_str(), v)) { INPUTS.push_back({nm, 0, v}); ret.v = v; return true; }
    if (lo > hi) endPath(1, "empty range");
    if (lo == hi) { INPUTS.push_back({nm, 0, (uint64_t)lo}); ret.v = lo; return true; }
    uint64_t bias = lo < 0 && (uint64_t)hi - (uint64_t)lo <= (1ull << 62) ? (uint64_t)lo : 0;  // a range with negative values is an offset from its lower end
    if (bias) { hi = (int64_t)((uint64_t)hi - (uint64_t)lo); lo = 0; }
    unsigned w = lo < 0 ? 64 : 64 - __builtin_clzll((uint64_t)hi);
    EX e = xNewVar(nm + "#" + std::to_string(VARS.size()), w, (uint64_t)lo);
    INPUTS.push_back({nm, e, bias});
    if (lo >= 0) {
        VARS.back().lo = lo; VARS.back().hi = hi;
        if (lo > 0) addPC(xBin(X_ULE, xConst(lo, w), e));
        if ((uint64_t)hi != wmask(w)) addPC(xBin(X_ULE, e, xConst(hi, w)));
        NODES[e].umin = lo; NODES[e].umax = hi;
    } else {
        addPC(xBin(X_SLE, xConst((uint64_t)lo, 64), e));
        addPC(xBin(X_SLE, e, xConst((uint64_t)hi, 64)));
    }
    e = w < 64 ? xZExt(e, 64) : e;
    retEx(ret, bias ? xBin(X_ADD, e, xConst(bias, 64)) : e);
    return true;
}
B(b_concretize) { ret.v = conc(A[0]); return true; }
B(b_issym) { ret.v = A[0].e != 0; return true; }
B(b_limit) { loopLimit(conc(A[0])); return true; }
B(b_stop) { endPath(0, nullptr); return true; }
B(b_note) {
    if (getenv("SX_NOTE")) fprintf(stderr, "[%d] note %s = %s\n", (int)getpid(), cstr(conc(A[0])).c_str(), A[1].e ? xStr(A[1].e, 5).c_str() : std::to_string((long long)A[1].v).c_str());
    return true;
}
B(b_schedmode) { SCHED_MODE = (int)conc(A[0]); SCHED_PREEMPT = (int)conc(A[1]); return true; }
B(b_threads) { int k = 0; for (auto* t : THREADS) if (t->state != 1) ++k; ret.v = k; return true; }

// ------------------------------------------------------------ threads
static std::map<int, int> PHASE;   // per-thread phase of a multi-step builtin
struct Mtx { int owner = 0, count = 0, creator = -1; bool shared = false; };
static std::map<uint64_t, Mtx> MTX;
// scheduling point before a synchronisation operation; true if the call must be retried
static bool preSched(const char* why) {
    if (SCHED_MODE == 0 || THREADS.size() < 2) return false;
    int id = T->id;
    if (PHASE[id] & 1) { PHASE[id] &= ~1; return false; }
    PHASE[id] |= 1;
    rewindCall();
    schedPoint(why);
    return true;
}
B(b_yield) {
    if (preSched("yield")) return false;
    // with exploration off a yield still lets the other threads run (round robin)
    if (SCHED_MODE == 0 && THREADS.size() > 1 && !(PHASE[T->id] & 2)) {
        int id = T->id, nt = THREADS.size();
        for (int i = 1; i < nt; ++i) {
            int j = (id + i) % nt;
            if (THREADS[j]->state == 0) { PHASE[id] |= 2; rewindCall(); T = THREADS[j]; return false; }
        }
    }
    PHASE[T->id] &= ~2;
    return true;
}
static bool lockMutex(uint64_t m) {
    Mtx& x = MTX[m];
    int me = T->id + 1;
    if (x.owner == 0 || x.owner == me) { x.owner = me; x.count++; raceAcquire(m); return true; }
    return false;
}
static void unlockMutex(uint64_t m, bool full) {
    Mtx& x = MTX[m];
    if (full) x.count = 0; else --x.count;
    if (x.count <= 0) {
        raceRelease(m);
        x.owner = 0;
        x.count = 0;
        for (auto* t : THREADS) if (t->state == 2 && t->waitObj == m) t->state = 0;
    }
}
B(b_mutex_init) { Mtx x; x.creator = T->id; MTX[conc(A[0])] = x; return true; }
B(b_mutex_destroy) { uint64_t m = conc(A[0]); auto it = MTX.find(m); if (it != MTX.end()) { if (it->second.owner) violation("lock", "mutex destroyed while held", nullptr); MTX.erase(it); } return true; }
B(b_mutex_lock) {
    uint64_t m = conc(A[0]);
    checkRange(m, 40, false, "lock");
    {   // no choice where none matters: a mutex this thread holds already; in mode 2 also one that only its creator has used so far
        Mtx& x = MTX[m];
        if (x.creator != T->id) x.shared = true;
        bool skip = x.owner == T->id + 1 || (SCHED_MODE == 2 && !x.shared);
        if (skip && SCHED_MODE && THREADS.size() >= 2) PHASE[T->id] |= 1;
    }
    if (preSched("lock")) return false;
    if (!lockMutex(m)) { rewindCall(); PHASE[T->id] |= 1; blockCurrent(2, m, 0); return false; }
    return true;
}
B(b_mutex_trylock) {
    uint64_t m = conc(A[0]);
    checkRange(m, 40, false, "lock");
    if (preSched("trylock")) return false;
    ret.v = lockMutex(m) ? 0 : EBUSY;
    return true;
}
B(b_mutex_unlock) {
    uint64_t m = conc(A[0]);
    checkRange(m, 40, false, "unlock");
    Mtx& x = MTX[m];
    if (x.owner != T->id + 1) { violation("lock", "unlock of a mutex that is not held", nullptr); ret.v = EPERM; return true; }
    unlockMutex(m, false);
    return true;
}
static std::map<int, int> SAVEDCNT;
static bool condWait(uint64_t c, uint64_t m, bool timed, Reg& ret) {
    int id = T->id;
    if (PHASE[id] & 8) {  // waking up: reacquire
        Mtx& x = MTX[m];
        if (x.owner != 0) { rewindCall(); blockCurrent(2, m, 0); return false; }
        x.owner = id + 1;
        x.count = SAVEDCNT[id];
        raceAcquire(m);
        PHASE[id] &= ~8;
        ret.v = T->timedOut ? ETIMEDOUT : 0;
        T->timedOut = false;
        return true;
    }
    Mtx& x = MTX[m];
    SAVEDCNT[id] = x.count;
    unlockMutex(m, true);
    PHASE[id] |= 8;
    T->timed = timed;
    T->timedOut = false;
    T->signaled = false;
    rewindCall();
    blockCurrent(3, c, m);
    return false;
}
B(b_cond_wait) { return condWait(conc(A[0]), conc(A[1]), false, ret); }
B(b_cond_timedwait) { return condWait(conc(A[0]), conc(A[1]), true, ret); }
B(b_cond_signal) {
    uint64_t c = conc(A[0]);
    for (auto* t : THREADS) if (t->state == 3 && t->waitObj == c) { t->state = 0; t->signaled = true; break; }
    return true;
}
B(b_cond_broadcast) {
    uint64_t c = conc(A[0]);
    for (auto* t : THREADS) if (t->state == 3 && t->waitObj == c) { t->state = 0; t->signaled = true; }
    return true;
}
B(b_self) { ret.v = 0x10000 + T->id * 0x1000; return true; }
B(b_thread_create) {
    DFunc* f = funcAt(conc(A[0]));
    if (!f) endPath(2, "thread entry is not a guest function");
    ret.v = spawnThread(f, conc(A[1]));
    return true;
}
B(b_thread_join) {
    uint64_t id = conc(A[0]);
    if (id >= THREADS.size()) return true;
    if (THREADS[id]->state == 1) { raceJoin(id); return true; }
    rewindCall();
    blockCurrent(4, id, 0);
    return false;
}
B(b_zero) { ret.v = 0; return true; }

// ------------------------------------------------------------ allocation
static uint64_t allocBytes(Reg& r, uint64_t mul, bool& bad) {
    uint64_t n = conc(r);
    bad = false;
    if (n > (1ull << 31) || (mul && n > (1ull << 31) / mul)) { bad = true; return 0; }
    return n;
}
B(b_new) {
    bool bad;
    uint64_t k = allocBytes(A[0], 0, bad);
    uint64_t p = bad ? 0 : gMalloc(k);
    if (!p) { throwStd("bad_alloc", "bad_alloc"); return false; }
    ret.v = p;
    return true;
}
B(b_newNothrow) { bool bad; uint64_t k = allocBytes(A[0], 0, bad); ret.v = bad ? 0 : gMalloc(k); return true; }
B(b_malloc) { bool bad; uint64_t k = allocBytes(A[0], 0, bad); ret.v = bad ? 0 : gMalloc(k); return true; }
B(b_aligned) { uint64_t al = conc(A[0]); bool bad; uint64_t k = allocBytes(A[1], 0, bad); ret.v = bad ? 0 : gMalloc(k, al); return true; }
B(b_newAligned) { uint64_t al = conc(A[1]); bool bad; uint64_t k = allocBytes(A[0], 0, bad); ret.v = bad ? 0 : gMalloc(k, al); return true; }
B(b_calloc) {
    uint64_t a = conc(A[0]), b = conc(A[1]);
    if (b && a > (1ull << 31) / b) return true;
    ret.v = gMalloc(a * b);
    if (ret.v) memset((void*)ret.v, 0, a * b);
    return true;
}
static void doFree(uint64_t p, const char* what) {
    if (!p) return;
    if (!inArena(p)) { if (p > 65536) free((void*)p); return; }
    if (!gFree(p)) { violation("memory", std::string("invalid or double ") + what, nullptr); endPath(0, nullptr); }
}
B(b_free) { doFree(conc(A[0]), "free"); return true; }
B(b_delete) { doFree(conc(A[0]), "delete"); return true; }
B(b_realloc) {
    uint64_t p = conc(A[0]);
    bool bad;
    uint64_t k = allocBytes(A[1], 0, bad);
    if (bad) return true;
    uint64_t q = gMalloc(k);
    if (p) {
        uint64_t os = gAllocSize(p);
        if (os == ~0ull) { violation("memory", "realloc of an invalid pointer", nullptr); endPath(0, nullptr); }
        copyMem(q, p, std::min(os, k));
        gFree(p);
    }
    ret.v = q;
    return true;
}

// ------------------------------------------------------------ memory and strings
B(b_memcpy) { uint64_t d = conc(A[0]), s = conc(A[1]), k = conc(A[2]); copyMem(d, s, k); ret.v = d; return true; }
B(b_wmemcpy) { uint64_t d = conc(A[0]), s = conc(A[1]), k = conc(A[2]); copyMem(d, s, k * 4); ret.v = d; return true; }
B(b_memset) { uint64_t d = conc(A[0]), k = conc(A[2]); Reg b = A[1]; if (b.e) { EX e = xExtract(b.e, 0, 8); if (xIsConst(e)) { b.v = NODES[e].k; b.e = 0; } else b.e = e; } b.v &= 0xff; setMem(d, b, k); ret.v = d; return true; }
B(b_wmemset) { uint64_t d = conc(A[0]), k = conc(A[2]); for (uint64_t i = 0; i < k; ++i) storeMem(d + i * 4, 4, A[1], 32); ret.v = d; return true; }
static EX elemEx(uint64_t a, unsigned sz) {
    Reg r;
    loadMem(a, sz, sz * 8, r);
    return r.e ? r.e : xConst(r.v, sz * 8);
}
static bool cmpMem(uint64_t a, uint64_t b, uint64_t k, unsigned sz, bool sgn, bool eqOnly, Reg& ret) {
    if (!k) { ret.v = 0; return true; }
    checkRange(a, k * sz, false, "compare");
    checkRange(b, k * sz, false, "compare");
    // concrete prefix
    uint64_t i = 0;
    for (; i < k; ++i) {
        Reg x, y;
        loadMem(a + i * sz, sz, sz * 8, x);
        loadMem(b + i * sz, sz, sz * 8, y);
        if (x.e || y.e) { if (x.e == y.e) continue; break; }
        if (x.v != y.v) {
            bool lt = sgn ? sx64(x.v, sz * 8) < sx64(y.v, sz * 8) : x.v < y.v;
            ret.v = eqOnly ? 1 : (lt ? 0xffffffffu : 1);
            return true;
        }
    }
    if (i == k) { ret.v = 0; return true; }
    if (k - i > 200) {
        for (; i < k; ++i) {
            EX x = elemEx(a + i * sz, sz), y = elemEx(b + i * sz, sz);
            if (branch(xBin(X_EQ, x, y))) continue;
            ret.v = branch(xBin(sgn ? X_SLT : X_ULT, x, y)) ? 0xffffffffu : 1;
            return true;
        }
        ret.v = 0;
        return true;
    }
    EX r = xConst(0, 32);
    for (uint64_t j = k; j-- > i;) {
        EX x = elemEx(a + j * sz, sz), y = elemEx(b + j * sz, sz);
        EX ne = eqOnly ? xConst(1, 32) : xIte(xBin(sgn ? X_SLT : X_ULT, x, y), xConst(0xffffffffu, 32), xConst(1, 32));
        r = xIte(xBin(X_EQ, x, y), r, ne);
    }
    retEx(ret, r);
    return true;
}
B(b_memcmp) { return cmpMem(conc(A[0]), conc(A[1]), conc(A[2]), 1, false, false, ret); }
B(b_bcmp) { return cmpMem(conc(A[0]), conc(A[1]), conc(A[2]), 1, false, true, ret); }
B(b_wmemcmp) { return cmpMem(conc(A[0]), conc(A[1]), conc(A[2]), 4, true, false, ret); }
static uint64_t scanFor(uint64_t a, const Reg& c, uint64_t k, unsigned sz, bool& found) {
    EX ce = c.e ? xExtract(c.e, 0, sz * 8) : 0;
    for (uint64_t i = 0; i < k; ++i) {
        Reg x;
        loadMem(a + i * sz, sz, sz * 8, x);
        bool eq;
        if (!x.e && !ce) eq = x.v == (c.v & wmask(sz * 8));
        else eq = branch(xBin(X_EQ, x.e ? x.e : xConst(x.v, sz * 8), ce ? ce : xConst(c.v & wmask(sz * 8), sz * 8)));
        if (eq) { found = true; return i; }
    }
    found = false;
    return k;
}
B(b_strlen) { bool f; ret.v = scanFor(conc(A[0]), Reg{0, 0, 0}, ~0ull, 1, f); return true; }
B(b_wcslen) { bool f; ret.v = scanFor(conc(A[0]), Reg{0, 0, 0}, ~0ull, 4, f); return true; }
B(b_memchr) { bool f; uint64_t a = conc(A[0]); uint64_t i = scanFor(a, A[1], conc(A[2]), 1, f); ret.v = f ? a + i : 0; return true; }
B(b_wmemchr) { bool f; uint64_t a = conc(A[0]); uint64_t i = scanFor(a, A[1], conc(A[2]), 4, f); ret.v = f ? a + i * 4 : 0; return true; }
B(b_wcschr) {
    uint64_t a = conc(A[0]);
    bool f;
    uint64_t len = scanFor(a, Reg{0, 0, 0}, ~0ull, 4, f);
    uint64_t i = scanFor(a, A[1], len + 1, 4, f);
    ret.v = f ? a + i * 4 : 0;
    return true;
}
B(b_wcstod) {  // concretizes
    uint64_t a = conc(A[0]);
    for (uint64_t i = 0;; ++i) {
        Reg r;
        loadMem(a + i * 4, 4, 32, r);
        bool was = r.e;
        conc(r);
        if (was) storeMem(a + i * 4, 4, r, 32);
        if (!r.v) break;
    }
    uint64_t endp = conc(A[1]);
    wchar_t* e = nullptr;
    double d = wcstod((const wchar_t*)a, &e);
    if (endp) { Reg r{(uint64_t)e, 0, 0}; storeMem(endp, 8, r, 64); }
    memcpy(&ret.v, &d, 8);
    return true;
}

// ------------------------------------------------------------ libstdc++ runtime
#define THROWER(fn, kind) B(fn) { std::string m = n ? cstr(conc(A[0])) : ""; throwStd(kind, m.c_str()); return false; }
THROWER(b_thr_oor, "out_of_range")
THROWER(b_thr_len, "length_error")
THROWER(b_thr_logic, "logic_error")
THROWER(b_thr_inv, "invalid_argument")
THROWER(b_thr_rt, "runtime_error")
B(b_thr_alloc) { throwStd("bad_alloc", ""); return false; }
B(b_thr_cast) { throwStd("bad_cast", ""); return false; }
B(b_thr_fn) { throwStd("runtime_error", "bad_function_call"); return false; }
B(b_thr_sys) { throwStd("runtime_error", "system_error"); return false; }
static void nodeCheck(uint64_t p, uint64_t sz, bool wr = false) { checkRange(p, sz, wr, "container node"); }
template <typename R, typename... P> static R callSym(const char* name, P... p) {
    static std::map<std::string, void*> cache;
    void*& f = cache[name];
    if (!f) f = (void*)symbolAddr(name);
    return ((R(*)(P...))f)(p...);
}
B(b_rbinc) { uint64_t p = conc(A[0]); nodeCheck(p, 32); ret.v = callSym<uint64_t>("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", p); return true; }
B(b_rbdec) { uint64_t p = conc(A[0]); nodeCheck(p, 32); ret.v = callSym<uint64_t>("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", p); return true; }
B(b_rbins) {
    bool l = conc(A[0]);
    uint64_t x = conc(A[1]), p = conc(A[2]), h = conc(A[3]);
    nodeCheck(x, 32, true); nodeCheck(p, 32, true); nodeCheck(h, 32, true);
    callSym<void>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", l, x, p, h);
    return true;
}
B(b_rberase) { uint64_t x = conc(A[0]), h = conc(A[1]); nodeCheck(x, 32, true); nodeCheck(h, 32, true); ret.v = callSym<uint64_t>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", x, h); return true; }
B(b_lhook) { uint64_t a = conc(A[0]), b = conc(A[1]); nodeCheck(a, 16, true); nodeCheck(b, 16, true); callSym<void>("_ZNSt8__detail15_List_node_base7_M_hookEPS0_", a, b); return true; }
B(b_lunhook) { uint64_t a = conc(A[0]); nodeCheck(a, 16, true); callSym<void>("_ZNSt8__detail15_List_node_base9_M_unhookEv", a); return true; }
B(b_ltransfer) { uint64_t a = conc(A[0]), b = conc(A[1]), c = conc(A[2]); nodeCheck(a, 16, true); nodeCheck(b, 16, true); nodeCheck(c, 16, true); callSym<void>("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", a, b, c); return true; }

// ------------------------------------------------------------ exceptions
B(b_exalloc) { uint64_t k = conc(A[0]); ret.v = newExn(k); memset((void*)ret.v, 0, k); return true; }
B(b_exfree) { return true; }
B(b_throw) {
    uint64_t o = conc(A[0]);
    EXNS[o] = ExnInfo{conc(A[1]), conc(A[2]), o, 0, 0};
    throwExn(o);
    return false;
}
B(b_exinit) { uint64_t o = conc(A[0]); EXNS[o] = ExnInfo{conc(A[1]), conc(A[2]), o, 0, 0}; ret.v = o; return true; }
B(b_begincatch) { uint64_t o = conc(A[0]); T->caught.push_back(o); EXNS[o].handlers++; ret.v = EXNS[o].adjusted; return true; }
B(b_getexptr) { uint64_t o = conc(A[0]); ret.v = EXNS[o].adjusted; return true; }
B(b_endcatch) { if (!T->caught.empty()) T->caught.pop_back(); return true; }
B(b_rethrow) {
    if (T->caught.empty()) { violation("exception", "rethrow without a current exception", nullptr); endPath(0, nullptr); }
    throwExn(T->caught.back());
    return false;
}
B(b_terminate) { violation("exception", "std::terminate called: " + where().substr(0, 200), nullptr); endPath(0, nullptr); return true; }
B(b_abort) { violation("exception", "abort called: " + where().substr(0, 200), nullptr); endPath(0, nullptr); return true; }
B(b_pure) { violation("exception", "pure virtual function called", nullptr); endPath(0, nullptr); return true; }
B(b_curexn) { uint64_t d = conc(A[0]); Reg r{T->caught.empty() ? 0 : T->caught.back(), 0, 0}; storeMem(d, 8, r, 64); ret.v = d; return true; }
B(b_rethrowptr) {
    Reg r;
    loadMem(conc(A[0]), 8, 64, r);
    uint64_t o = conc(r);
    if (!o || !EXNS.count(o)) { violation("exception", "rethrow of a null exception_ptr", nullptr); endPath(0, nullptr); }
    throwExn(o);
    return false;
}
B(b_exptrctor) { Reg r{conc(A[1]), 0, 0}; storeMem(conc(A[0]), 8, r, 64); return true; }
B(b_guardacq) {
    uint64_t g = conc(A[0]);
    Reg r;
    loadMem(g, 1, 8, r);
    ret.v = conc(r) ? 0 : 1;
    raceAcquire(g);
    return true;
}
B(b_guardrel) { raceRelease(conc(A[0])); Reg r{1, 0, 0}; storeMem(conc(A[0]), 1, r, 8); return true; }
B(b_dyncast) {
    uint64_t o = conc(A[0]);
    if (!o) return true;
    checkRange(o, 8, false, "dynamic_cast");
    ret.v = callSym<uint64_t>("__dynamic_cast", o, conc(A[1]), conc(A[2]), conc(A[3]));
    return true;
}

// ------------------------------------------------------------ time (virtual clock)
static uint64_t VT = 1300000000000000ull;  // microseconds
static uint64_t tick() { return VT += 1000; }
B(b_gettimeofday) { uint64_t t = tick(), p = conc(A[0]); Reg s{t / 1000000, 0, 0}, u{t % 1000000, 0, 0}; storeMem(p, 8, s, 64); storeMem(p + 8, 8, u, 64); return true; }
B(b_clock_gettime) { uint64_t t = tick(), p = conc(A[1]); Reg s{t / 1000000, 0, 0}, u{t % 1000000 * 1000, 0, 0}; storeMem(p, 8, s, 64); storeMem(p + 8, 8, u, 64); return true; }
B(b_time) { uint64_t t = tick() / 1000000, p = conc(A[0]); if (p) { Reg s{t, 0, 0}; storeMem(p, 8, s, 64); } ret.v = t; return true; }
B(b_sleep) { VT += 1000000; return b_yield(ci, A, n, ret); }
static int FAKEERRNO;
B(b_errno) { ret.v = (uint64_t)&FAKEERRNO; return true; }

void registerBuiltins() {
    struct { const char* n; Builtin f; } tab[] = {
        {"sx_sym", b_sym}, {"sx_assume", b_assume}, {"sx_assert", b_assert}, {"sx_fail", b_fail}, {"sx_cover", b_cover}, {"sx_choose", b_choose}, {"sx_range_", b_range},
        {"sx_concretize", b_concretize}, {"sx_is_symbolic", b_issym}, {"sx_stop", b_stop}, {"sx_limit", b_limit}, {"sx_note", b_note}, {"sx_sched", b_schedmode},
        {"sx_threads_running", b_threads}, {"sx_yield", b_yield}, {"sx_thread_create", b_thread_create}, {"sx_thread_join", b_thread_join},
        {"pthread_mutex_init", b_mutex_init}, {"pthread_mutex_destroy", b_mutex_destroy}, {"pthread_mutex_lock", b_mutex_lock}, {"pthread_mutex_trylock", b_mutex_trylock},
        {"pthread_mutex_unlock", b_mutex_unlock}, {"pthread_cond_init", b_zero}, {"pthread_cond_destroy", b_zero}, {"pthread_cond_wait", b_cond_wait},
        {"pthread_cond_timedwait", b_cond_timedwait}, {"pthread_cond_signal", b_cond_signal}, {"pthread_cond_broadcast", b_cond_broadcast},
        {"pthread_condattr_init", b_zero}, {"pthread_condattr_destroy", b_zero}, {"pthread_condattr_setclock", b_zero},
        {"pthread_mutexattr_init", b_zero}, {"pthread_mutexattr_destroy", b_zero}, {"pthread_mutexattr_settype", b_zero},
        {"pthread_self", b_self}, {"sched_yield", b_yield}, {"nanosleep", b_sleep}, {"usleep", b_sleep}, {"clock_nanosleep", b_sleep},
        {"_Znwm", b_new}, {"_Znam", b_new}, {"_ZnwmRKSt9nothrow_t", b_newNothrow}, {"_ZnamRKSt9nothrow_t", b_newNothrow},
        {"_ZnwmSt11align_val_t", b_newAligned}, {"_ZnamSt11align_val_t", b_newAligned},
        {"_ZdlPv", b_delete}, {"_ZdaPv", b_delete}, {"_ZdlPvm", b_delete}, {"_ZdaPvm", b_delete}, {"_ZdlPvSt11align_val_t", b_delete}, {"_ZdlPvmSt11align_val_t", b_delete},
        {"_ZdaPvSt11align_val_t", b_delete}, {"_ZdlPvRKSt9nothrow_t", b_delete}, {"_ZdaPvRKSt9nothrow_t", b_delete},
        {"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"aligned_alloc", b_aligned},
        {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"wmemcpy", b_wmemcpy}, {"wmemmove", b_wmemcpy}, {"wmemset", b_wmemset},
        {"memcmp", b_memcmp}, {"bcmp", b_bcmp}, {"wmemcmp", b_wmemcmp}, {"strlen", b_strlen}, {"wcslen", b_wcslen}, {"memchr", b_memchr}, {"wmemchr", b_wmemchr},
        {"wcschr", b_wcschr}, {"wcstod", b_wcstod},
        {"_ZSt20__throw_out_of_rangePKc", b_thr_oor}, {"_ZSt24__throw_out_of_range_fmtPKcz", b_thr_oor}, {"_ZSt20__throw_length_errorPKc", b_thr_len},
        {"_ZSt19__throw_logic_errorPKc", b_thr_logic}, {"_ZSt24__throw_invalid_argumentPKc", b_thr_inv}, {"_ZSt21__throw_runtime_errorPKc", b_thr_rt},
        {"_ZSt17__throw_bad_allocv", b_thr_alloc}, {"_ZSt28__throw_bad_array_new_lengthv", b_thr_alloc}, {"_ZSt16__throw_bad_castv", b_thr_cast},
        {"_ZSt25__throw_bad_function_callv", b_thr_fn}, {"_ZSt20__throw_system_errori", b_thr_sys}, {"__cxa_bad_cast", b_thr_cast},
        {"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", b_rbinc}, {"_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", b_rbinc},
        {"_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", b_rbdec}, {"_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", b_rbdec},
        {"_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", b_rbins}, {"_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", b_rberase},
        {"_ZNSt8__detail15_List_node_base7_M_hookEPS0_", b_lhook}, {"_ZNSt8__detail15_List_node_base9_M_unhookEv", b_lunhook},
        {"_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", b_ltransfer},
        {"__cxa_allocate_exception", b_exalloc}, {"__cxa_free_exception", b_exfree}, {"__cxa_throw", b_throw}, {"__cxa_init_primary_exception", b_exinit},
        {"__cxa_begin_catch", b_begincatch}, {"__cxa_end_catch", b_endcatch}, {"__cxa_get_exception_ptr", b_getexptr}, {"__cxa_rethrow", b_rethrow},
        {"_ZSt9terminatev", b_terminate}, {"abort", b_abort}, {"__cxa_pure_virtual", b_pure}, {"__cxa_call_terminate", b_terminate}, {"__clang_call_terminate", b_terminate},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort}, {"__assert_fail", b_abort},
        {"_ZSt17current_exceptionv", b_curexn}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrowptr},
        {"_ZNSt15__exception_ptr13exception_ptrC1EPv", b_exptrctor}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", b_exptrctor},
        {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_zero}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_zero},
        {"__cxa_guard_acquire", b_guardacq}, {"__cxa_guard_release", b_guardrel}, {"__cxa_guard_abort", b_zero}, {"__cxa_atexit", b_zero}, {"__dynamic_cast", b_dyncast},
        {"_ZSt21ios_base_library_initv", b_zero}, {"_ZNSt8ios_base4InitC1Ev", b_zero},
        {"gettimeofday", b_gettimeofday}, {"clock_gettime", b_clock_gettime}, {"time", b_time}, {"__errno_location", b_errno},
    };
    for (auto& t : tab) BUILTINS[t.n] = t.f;
    for (const char* s : {"log", "log10", "log2", "exp", "pow", "sqrt", "sin", "cos", "floor", "ceil", "fmod", "round", "gmtime_r", "strerror", "sysconf",
                          "logf", "sqrtf", "powf", "expf", "timegm", "mktime", "snprintf", "vsnprintf"}) NATIVES[s] = 1;
}
