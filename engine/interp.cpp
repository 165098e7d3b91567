#include <execinfo.h>
#include <map>
#include <set>
// LLVM IR symbolic interpreter: state = OS process, symbolic branches fork().
#include "interp.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <array>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <new>
#include <signal.h>
#include <setjmp.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sched.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>
#include <algorithm>

using namespace llvm;

Thread* T;
std::vector<Thread*> THREADS;
std::vector<DFunc*> FUNCS;
std::map<std::string, Builtin> BUILTINS;
std::map<std::string, int> NATIVES;
std::vector<InputRec> INPUTS;
std::map<uint64_t, ExnInfo> EXNS;
std::vector<std::string> SCHEDLOG;
int SCHED_MODE = 0, SCHED_PREEMPT = 0;
Shared* SH;
uint64_t DEADLINE_US;
static std::string OUTDIR;
static Module* MOD;
static const DataLayout* DL;
static uint64_t MAXINSTR = 2000000000ull, LOOPLIMIT = ~0ull;
static int TOKENS = 8;
static uint64_t instrCount, instrFlushed;
static bool ownToken = true;
static std::map<const Function*, DFunc*> FMAP;
static std::map<const GlobalValue*, uint64_t> GADDR;
static bool CONCRETE_REPLAY = false;
static std::vector<std::pair<std::string, uint64_t>> REPLAYIN;
size_t REPLAYPOS = 0;
static int MAXVIOL = 10;
static int depthForks = 0;

uint64_t nowUs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }

bool replayValue(const char* name, uint64_t& v) {
    if (!CONCRETE_REPLAY) return false;
    v = REPLAYPOS < REPLAYIN.size() ? REPLAYIN[REPLAYPOS++].second : 0;
    return true;
}

// ------------------------------------------------------------ reporting
static void appendFile(const char* name, const std::string& s) {
    std::string p = OUTDIR + "/" + name;
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0) return;
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
}
void logTrace(const char* fmt, ...) {
    static int on = getenv("SX_TRACE") ? atoi(getenv("SX_TRACE")) : 0;
    if (!on) return;
    va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
}
static uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h ? h : 1;
}
static bool firstTime(volatile uint64_t* tab, int n, const std::string& key) {
    uint64_t h = hashStr(key);
    for (int i = 0; i < n; ++i) {
        int j = (h + i) % n;
        if (tab[j] == h) return false;
        if (tab[j] == 0 && __sync_bool_compare_and_swap(&tab[j], 0, h)) return true;
        if (tab[j] == h) return false;
    }
    return false;
}
static std::string demangle1(const std::string& n) { return llvm::demangle(n); }
std::string where() {
    std::string s;
    if (!T) return s;
    for (int i = (int)T->st.size() - 1, n = 0; i >= 0 && n < 14; --i, ++n) {
        s += n ? " < " : "";
        std::string d = demangle1(T->st[i].f->name);
        if (d.size() > 120) d = d.substr(0, 120) + "...";
        s += d;
    }
    return s;
}
static std::string inputsStr(const std::vector<uint64_t>* model) {
    std::string s;
    for (auto& in : INPUTS) {
        uint64_t v = in.v;
        if (in.e) {
            const Node& n = NODES[in.e];
            v = ((model && n.op == X_VAR && n.k < model->size()) ? (*model)[n.k] : n.val) + in.v;  // in.v: offset of a biased range
        }
        s += in.name + " " + std::to_string(v) + "\n";
    }
    return s;
}
void incomplete(const std::string& why) {
    __sync_fetch_and_add(&SH->incomplete, 1);
    if (firstTime(SH->incKeys, 256, why)) appendFile("incomplete.txt", why + " @ " + where() + "\n");
}
void violation(const std::string& kind, const std::string& msg, const std::vector<uint64_t>* model) {
    std::string key = kind + ": " + msg;
    if (!firstTime(SH->violKeys, 256, key)) return;
    static int seq = 0;
    char fn[64];
    snprintf(fn, sizeof fn, "viol-%d-%d", (int)getpid(), seq++);
    std::string w = where();
    appendFile((std::string(fn) + ".inputs").c_str(), inputsStr(model));
    std::string sched;
    for (auto& s : SCHEDLOG) sched += " " + s;
    appendFile("violations.txt", std::string(fn) + "\t" + kind + "\t" + msg + "\t" + w + "\t" + sched + "\n");
    if (SH->cnt.queries || true) {
        static volatile int dummy; (void)dummy;
        int n = 0;
        for (int i = 0; i < 256; ++i) if (SH->violKeys[i]) ++n;
        if (n >= MAXVIOL) SH->stop = 1;
    }
}
static void flushInstr() {
    __sync_fetch_and_add(&SH->instrs, instrCount - instrFlushed);
    instrFlushed = instrCount;
}
static void leave() {
    if (ownToken) __sync_fetch_and_add(&SH->tokens, 1);
    __sync_fetch_and_sub(&SH->live, 1);
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}
void endPath(int kind, const char* why) {
    flushInstr();
    if (kind == 0) {
        __sync_fetch_and_add(&SH->paths, 1);
        if (SH->samples < 12 && __sync_fetch_and_add(&SH->samples, 1) < 12) {
            std::string s = inputsStr(nullptr);
            for (char& c : s) if (c == '\n') c = ';';
            appendFile("samples.txt", s.substr(0, 1500) + "\n");
        }
    } else if (kind == 1) __sync_fetch_and_add(&SH->pathsPruned, 1);
    else __sync_fetch_and_add(&SH->pathsError, 1);
    if (VARS.size() > SH->maxVars) SH->maxVars = VARS.size();
    if ((uint64_t)depthForks > SH->maxDepth) SH->maxDepth = depthForks;
    if (kind == 2 && why) incomplete(why);
    logTrace("[%d] end path kind=%d %s\n", (int)getpid(), kind, why ? why : "");
    leave();
    __builtin_unreachable();
}
static void checkBudget() {
    if (SH->stop) { flushInstr(); leave(); }
    if (instrCount > LOOPLIMIT) { violation("loop", "no end within the stated number of steps", nullptr); endPath(0, nullptr); }
    // a path this long is a candidate for not ending at all; it is reported only if the native run does not end either
    bool late = nowUs() > DEADLINE_US;
    if ((late && instrCount > 250000000ull) || instrCount > MAXINSTR) violation("loop", "no end", nullptr);
    if (late) endPath(2, "time budget exhausted");
    if (instrCount > MAXINSTR) endPath(2, "per-path instruction budget exhausted");
}
void loopLimit(uint64_t n) { LOOPLIMIT = instrCount + n; }

// ------------------------------------------------------------ forking
bool forkState() {
    checkBudget();
    if (CONCRETE_REPLAY) { fprintf(stderr, "fork in concrete replay\n"); }
    flushInstr();
    __sync_fetch_and_add(&SH->forks, 1);
    ++depthForks;
    int st;
    while (waitpid(-1, &st, WNOHANG) > 0) {}
    // take a token if there is one
    bool tok = false;
    while (true) {
        int t = SH->tokens;
        if (t <= 0) break;
        if (__sync_bool_compare_and_swap(&SH->tokens, t, t - 1)) { tok = true; break; }
    }
    __sync_fetch_and_add(&SH->live, 1);
    __sync_fetch_and_add(&SH->started, 1);
    pid_t p;
    for (int i = 0; (p = fork()) < 0 && i < 200; ++i) usleep(50000);
    if (p < 0) { __sync_fetch_and_sub(&SH->live, 1); if (tok) __sync_fetch_and_add(&SH->tokens, 1); endPath(2, "fork failed"); }
    if (p == 0) {
        ownToken = tok;
        instrFlushed = instrCount;
        return true;
    }
    if (!tok) {
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) { __sync_fetch_and_sub(&SH->live, 1); incomplete("worker killed by signal"); }
        checkBudget();
    }
    return false;
}

bool branch(EX c) {
    if (NODES[c].op == X_CONST) return NODES[c].k;
    bool w = NODES[c].val;
    EX t = w ? c : xNot(c), o = w ? xNot(c) : c;
    if (holdsByPC(t)) return w;
    std::vector<uint64_t> m;
    SatRes r = solve(o, &m);
    if (r == R_UNSAT) { return w; }
    if (r == R_UNKNOWN) { incomplete("solver gave no answer on a branch"); addPC(t); return w; }
    if (forkState()) { setWitness(m); addPC(o); logTrace("[%d] fork other side of %s\n", (int)getpid(), xStr(c, 4).c_str()); return !w; }
    addPC(t);
    return w;
}
uint64_t concretize(EX e) {
    if (NODES[e].op == X_CONST) return NODES[e].k;
    __sync_fetch_and_add(&SH->concretizations, 1);
    while (true) {
        uint64_t v = NODES[e].val;
        EX eq = xBin(X_EQ, e, xConst(v, NODES[e].w));
        if (branch(eq)) return v;
    }
}
uint64_t conc(Reg& r) {
    if (r.e) { r.v = concretize(r.e); r.e = 0; }
    return r.v;
}
static inline EX toEx(const Reg& r, unsigned w) { return r.e ? r.e : xConst(r.v, w); }
static inline void setEx(Reg& d, EX e) {
    const Node& n = NODES[e];
    if (n.op == X_CONST) { d.v = n.k; d.e = 0; } else { d.v = n.val; d.e = e; }
}

// ------------------------------------------------------------ memory
static sigjmp_buf* volatile faultJmp;
static void memErr(const char* what, uint64_t a, uint64_t n) {
    const char* k = "out of bounds";
    if (a < 65536) k = "null pointer";
    else if (inArena(a)) {
        for (uint64_t i = 0; i < n; ++i) {
            uint8_t s = *ST(a + i);
            if (!(s & M_V)) { k = s & M_FREED ? "freed memory" : s & M_DEADSTACK ? "dead stack memory" : "out of bounds"; break; }
            if ((s & M_RO) && !strcmp(what, "write")) k = "read-only memory";
        }
    }
    std::string f = T && T->st.size() ? demangle1(T->st.back().f->name) : "";
    if (f.size() > 160) f = f.substr(0, 160);
    char buf[400];
    snprintf(buf, sizeof buf, "invalid %s (%s) in %s", what, k, f.c_str());
    violation("memory", buf, nullptr);
    endPath(0, nullptr);
}
static void onFault(int sig, siginfo_t* si, void*) {
    if (faultJmp) siglongjmp(*faultJmp, 1);
    static int once = 0;
    if (once++) _exit(3);
    char buf[200];
    snprintf(buf, sizeof buf, "engine: signal %d at %p", sig, si->si_addr);
    uint64_t a = (uint64_t)si->si_addr;
    if (a >= FBASE && a < FBASE + FUNCS.size() * 16) snprintf(buf, sizeof buf, "native code called guest function %s", FUNCS[(a - FBASE) / 16]->name.c_str());
    if (getenv("SX_DEBUG")) { void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); fprintf(stderr, "%s @ %s\n", buf, where().c_str()); }
    endPath(2, buf);
}
EX loadByteEx(uint64_t a) {
    if (inArena(a) && (*ST(a) & M_S)) return *SE(a);
    return xConst(*(uint8_t*)a, 8);
}
static void hostAccess(uint64_t a, unsigned n, bool wr) {
    sigjmp_buf jb;
    if (a < 65536) memErr(wr ? "write" : "read", a, n);
    if (sigsetjmp(jb, 1)) { faultJmp = nullptr; memErr(wr ? "write" : "read", a, n); }
    faultJmp = &jb;
    volatile uint8_t* p = (volatile uint8_t*)a;
    (void)p[0];
    (void)p[n - 1];
    faultJmp = nullptr;
}
__attribute__((noinline)) static void loadSlow(uint64_t a, unsigned n, unsigned w, Reg& r) {
    if (!inArena(a)) {
        hostAccess(a, n, false);
        r.v = 0; r.e = 0;
        memcpy(&r.v, (void*)a, n);
        r.v &= wmask(w);
        return;
    }
    bool sym = false;
    for (unsigned i = 0; i < n; ++i) {
        uint8_t s = *ST(a + i);
        if (!(s & M_V)) memErr("read", a, n);
        if (s & M_S) sym = true;
    }
    if (!sym) {
        r.v = 0; r.e = 0;
        memcpy(&r.v, (void*)a, n);
        r.v &= wmask(w);
        return;
    }
    EX e = loadByteEx(a);
    for (unsigned i = 1; i < n; ++i) e = xConcat(loadByteEx(a + i), e);
    if (w < n * 8) e = xExtract(e, 0, w);
    setEx(r, e);
}
// ------------------------------------------------------------ unordered accesses
static const uint64_t RSH = 0x400000000000ull;
static const int RT = 6;
struct RWord { uint32_t w, wf; uint32_t r[RT]; };   // w: thread + 1 << 26 | judged << 25 | clock
bool RACE_ON = false;
static uint32_t RVC[RT][RT];
static std::unordered_map<uint64_t, std::array<uint32_t, RT>> RSYNC;
void raceStart() {
    if (RACE_ON) return;
    static bool mapped = false;
    uint64_t sz = ASIZE * 4;
    if (!mapped) {
        void* p = mmap((void*)RSH, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)RSH) return;
        mapped = true;
    }
    memset(RVC, 0, sizeof RVC);
    for (int i = 0; i < RT; ++i) RVC[i][i] = 1;
    RACE_ON = true;
}
static inline RWord* rword(uint64_t a) { return (RWord*)(RSH + ((a - ABASE) >> 3 << 5)); }
static inline bool ptrish(uint64_t v) { return v >= GLOBALS && v < ABASE + ASIZE; }
static void raceFound(const RWord* s, bool wr, bool otherWr) {
    std::string f = T && T->st.size() ? demangle1(T->st.back().f->name) : "";
    std::string g = s->wf && s->wf < FUNCS.size() ? demangle1(FUNCS[s->wf]->name) : "";
    if (f.size() > 120) f = f.substr(0, 120);
    if (g.size() > 120) g = g.substr(0, 120);
    std::string m = std::string(wr ? "written" : "read") + " in " + f + ", by another thread " + (otherWr ? "written in " + g : "read");
    if (getenv("SX_RACELOG")) { int fd = open(getenv("SX_RACELOG"), O_WRONLY | O_CREAT | O_APPEND, 0644); std::string L = m + "\t" + where() + "\n"; if (write(fd, L.data(), L.size()) < 0) {} close(fd); return; }
    violation("race", "memory used by two threads with nothing to order them: " + m, nullptr);
    endPath(0, nullptr);
}
void raceAcc(uint64_t a, unsigned n, bool wr, bool ptr) {
    if (!T || T->id >= RT || !inArena(a)) return;
    uint64_t base = STACKS + T->id * STACK_SZ;
    if (a - base < STACK_SZ) return;
    RWord* s = rword(a);
    int me = T->id;
    uint32_t* vc = RVC[me];
    uint32_t wt = s->w >> 26, wc = s->w & 0x1ffffff;
    bool wp = s->w >> 25 & 1;
    if (wt && (int)wt - 1 != me && wc > vc[wt - 1] && (wp || (wr && ptr))) raceFound(s, wr, true);
    if (wr) {
        if (ptr) for (int i = 0; i < RT; ++i) if (i != me && s->r[i] > vc[i]) { raceFound(s, true, false); break; }
        s->w = (me + 1) << 26 | (uint32_t)ptr << 25 | vc[me];
        s->wf = T->st.size() ? T->st.back().f->id : 0;
    } else s->r[me] = vc[me];
}
void raceRange(uint64_t a, uint64_t n, bool wr, int freed) {
    if (!inArena(a) || !inArena(a + n)) return;
    for (uint64_t p = a & ~7ull; p < a + n; p += 8) {
        // giving memory back is judged only against pointers in it
        raceAcc(p, 8, wr, wr && (!freed || ptrish(*(uint64_t*)p)));
    }
}
void raceFresh(uint64_t a, uint64_t n) { memset(rword(a), 0, (n + 7) / 8 * sizeof(RWord)); }
void raceAcquire(uint64_t o) {
    if (!RACE_ON || !T || T->id >= RT) return;
    auto it = RSYNC.find(o);
    if (it == RSYNC.end()) return;
    for (int i = 0; i < RT; ++i) RVC[T->id][i] = std::max(RVC[T->id][i], it->second[i]);
}
void raceRelease(uint64_t o) {
    if (!RACE_ON || !T || T->id >= RT) return;
    auto& v = RSYNC[o];
    for (int i = 0; i < RT; ++i) v[i] = std::max(v[i], RVC[T->id][i]);
    RVC[T->id][T->id]++;
}
void raceSpawn(int c) {
    if (!RACE_ON || c >= RT || T->id >= RT) return;
    for (int i = 0; i < RT; ++i) if (i != c) RVC[c][i] = std::max(RVC[c][i], RVC[T->id][i]);
    RVC[T->id][T->id]++;
}
void raceJoin(int o) {
    if (!RACE_ON || o >= RT || T->id >= RT) return;
    for (int i = 0; i < RT; ++i) RVC[T->id][i] = std::max(RVC[T->id][i], RVC[o][i]);
}
static inline void loadFast(uint64_t a, unsigned n, unsigned w, Reg& r) {
    if (inArena(a)) {
        switch (n) {
        case 1: if ((*ST(a) & 3) == 1) { r.v = *(uint8_t*)a & wmask(w); r.e = 0; return; } break;
        case 2: if ((*(uint16_t*)ST(a) & 0x0303) == 0x0101) { r.v = *(uint16_t*)a & wmask(w); r.e = 0; return; } break;
        case 4: if ((*(uint32_t*)ST(a) & 0x03030303u) == 0x01010101u) { r.v = *(uint32_t*)a & wmask(w); r.e = 0; return; } break;
        case 8: if ((*(uint64_t*)ST(a) & 0x0303030303030303ull) == 0x0101010101010101ull) { r.v = *(uint64_t*)a & wmask(w); r.e = 0; return; } break;
        }
    }
    loadSlow(a, n, w, r);
}
bool loadMem(uint64_t a, unsigned n, unsigned w, Reg& r) { loadFast(a, n, w, r); return true; }
__attribute__((noinline)) static void storeSlow(uint64_t a, unsigned n, const Reg& r, unsigned w) {
    if (!inArena(a)) {
        hostAccess(a, n, true);
        Reg t = r;
        uint64_t v = conc(t);
        memcpy((void*)a, &v, n);
        return;
    }
    for (unsigned i = 0; i < n; ++i) {
        uint8_t s = *ST(a + i);
        if (!(s & M_V) || (s & M_RO)) memErr("write", a, n);
    }
    if (!r.e) {
        memcpy((void*)a, &r.v, n);
        for (unsigned i = 0; i < n; ++i) *ST(a + i) &= ~M_S;
        return;
    }
    EX e = r.e;
    if (NODES[e].w < n * 8) e = xZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i) {
        EX b = xExtract(e, i * 8, 8);
        if (NODES[b].op == X_CONST) {
            *(uint8_t*)(a + i) = NODES[b].k;
            *ST(a + i) &= ~M_S;
        } else {
            *(uint8_t*)(a + i) = 0xEE;
            *SE(a + i) = b;
            *ST(a + i) |= M_S;
        }
    }
}
static inline void storeFast(uint64_t a, unsigned n, const Reg& r, unsigned w) {
    if (inArena(a) && !r.e) {
        switch (n) {
        case 1: if (*ST(a) == 1) { *(uint8_t*)a = r.v; return; } break;
        case 2: if (*(uint16_t*)ST(a) == 0x0101) { *(uint16_t*)a = r.v; return; } break;
        case 4: if (*(uint32_t*)ST(a) == 0x01010101u) { *(uint32_t*)a = r.v; return; } break;
        case 8: if (*(uint64_t*)ST(a) == 0x0101010101010101ull) { *(uint64_t*)a = r.v; return; } break;
        }
    }
    storeSlow(a, n, r, w);
}
bool storeMem(uint64_t a, unsigned n, const Reg& r, unsigned w) { storeFast(a, n, r, w); return true; }
void checkRange(uint64_t a, uint64_t n, bool wr, const char* what) {
    if (!n) return;
    if (RACE_ON && strcmp(what, "copy") && strcmp(what, "lock") && strcmp(what, "unlock")) raceRange(a, n, wr, 0);
    if (!inArena(a)) {
        if (a < 65536) memErr(wr ? "write" : "read", a, n);
        if (!wr) hostAccess(a, n, wr);
        return;
    }
    if (n > ASIZE || a + n > ABASE + ASIZE) memErr(wr ? "write" : "read", a, n);
    uint8_t* s = ST(a);
    for (uint64_t i = 0; i < n; ++i)
        if (!(s[i] & M_V) || (wr && (s[i] & M_RO))) memErr(wr ? "write" : "read", a + i, 1);
}
static bool anySym(uint64_t a, uint64_t n) {
    if (!inArena(a)) return false;
    uint8_t* s = ST(a);
    for (uint64_t i = 0; i < n; ++i) if (s[i] & M_S) return true;
    return false;
}
void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return;
    checkRange(s, n, false, "copy");
    checkRange(d, n, true, "copy");
    if (RACE_ON) { raceRange(s, n, false, 0); raceRange(d, n, true, 0); }
    bool ss = anySym(s, n), ds = anySym(d, n);
    if (ss && inArena(d)) {
        std::vector<EX> ex(n, 0);
        for (uint64_t i = 0; i < n; ++i) if (*ST(s + i) & M_S) ex[i] = *SE(s + i);
        memmove((void*)d, (void*)s, n);
        for (uint64_t i = 0; i < n; ++i) {
            if (ex[i]) { *SE(d + i) = ex[i]; *ST(d + i) |= M_S; } else *ST(d + i) &= ~M_S;
        }
        return;
    }
    if (ss) { for (uint64_t i = 0; i < n; ++i) { Reg r; loadMem(s + i, 1, 8, r); conc(r); *(uint8_t*)(d + i) = r.v; } return; }
    memmove((void*)d, (void*)s, n);
    if (ds) for (uint64_t i = 0; i < n; ++i) *ST(d + i) &= ~M_S;
}
void setMem(uint64_t d, const Reg& b, uint64_t n) {
    if (!n) return;
    checkRange(d, n, true, "memset");
    if (!b.e) {
        memset((void*)d, b.v, n);
        if (anySym(d, n)) for (uint64_t i = 0; i < n; ++i) *ST(d + i) &= ~M_S;
    } else for (uint64_t i = 0; i < n; ++i) storeSlow(d + i, 1, b, 8);
}

// object extent around an address (bytes with the valid flag)
static void extent(uint64_t a, uint64_t& lo, uint64_t& hi) {
    lo = a; hi = a;
    if (!inArena(a) || !(*ST(a) & M_V)) return;
    while (lo > ABASE && (*ST(lo - 1) & M_V) && a - lo < (1u << 20)) --lo;
    while (hi < ABASE + ASIZE && (*ST(hi) & M_V) && hi - a < (1u << 20)) ++hi;
}

// native code cannot see symbolic bytes: make everything it may read through this pointer concrete
static void concretizeReach(uint64_t a, int depth) {
    uint64_t lo, hi;
    if (!inArena(a)) return;
    extent(a, lo, hi);
    if (hi == lo) return;
    if (hi - lo > 65536) { lo = std::max(lo, a > 4096 ? a - 4096 : a); hi = std::min(hi, a + 65536); }
    for (uint64_t i = lo; i < hi; ++i) {
        if (!(*ST(i) & M_S)) continue;
        uint8_t v = (uint8_t)concretize(*SE(i));
        *(uint8_t*)i = v;
        *ST(i) &= ~M_S;
    }
    if (depth > 1 && hi - lo <= 4096)
        for (uint64_t i = (lo + 7) & ~7ull; i + 8 <= hi; i += 8) {
            uint64_t p = *(uint64_t*)i;
            if (inArena(p) && !(p >= lo && p < hi)) concretizeReach(p, depth - 1);
        }
}

// symbolic address: enumerate a bounded number of feasible addresses
static bool feasibleAddrs(EX addr, unsigned limit, std::vector<uint64_t>& out) {
    size_t mark = PC.size();
    (void)mark;
    out.clear();
    uint64_t v = NODES[addr].val;
    out.push_back(v);
    EX block = xNot(xBin(X_EQ, addr, xConst(v, 64)));
    while (out.size() <= limit) {
        std::vector<uint64_t> m;
        SatRes r = solve(block, &m);
        if (r == R_UNSAT) return true;
        if (r == R_UNKNOWN) return false;
        std::vector<uint64_t> old = getWitness();
        setWitness(m);
        uint64_t nv = NODES[addr].val;
        setWitness(old);
        out.push_back(nv);
        block = xBin(X_AND, block, xNot(xBin(X_EQ, addr, xConst(nv, 64))));
    }
    return false;
}
static bool maxMin(EX addr, uint64_t lo, uint64_t hi, uint64_t& mn, uint64_t& mx) {
    // addr known within [lo,hi]; binary search
    uint64_t v = NODES[addr].val;
    uint64_t a = lo, b = v;
    while (a < b) {
        uint64_t mid = a + (b - a) / 2;
        std::vector<uint64_t> m;
        SatRes r = solve(xBin(X_ULE, addr, xConst(mid, 64)), &m);
        if (r == R_UNKNOWN) return false;
        if (r == R_SAT) b = mid; else a = mid + 1;
    }
    mn = a;
    a = v; b = hi;
    while (a < b) {
        uint64_t mid = a + (b - a + 1) / 2;
        std::vector<uint64_t> m;
        SatRes r = solve(xBin(X_ULE, xConst(mid, 64), addr), &m);
        if (r == R_UNKNOWN) return false;
        if (r == R_SAT) a = mid; else b = mid - 1;
    }
    mx = a;
    return true;
}
// trailing zero alignment that the address always has, relative to base
static uint64_t strideOf(EX e) {
    const Node& n = NODES[e];
    switch (n.op) {
    case X_SHL: if (NODES[n.b].op == X_CONST) return 1ull << std::min<uint64_t>(NODES[n.b].k, 20); return 1;
    case X_MUL: if (NODES[n.b].op == X_CONST && NODES[n.b].k) return NODES[n.b].k & (~NODES[n.b].k + 1); return 1;
    case X_CONCAT: if (NODES[n.b].op == X_CONST && NODES[n.b].k == 0) return 1ull << std::min<unsigned>(NODES[n.b].w, 20); return 1;
    case X_ZEXT: case X_SEXT: return strideOf(n.a);
    case X_ADD: if (NODES[n.b].op == X_CONST) return strideOf(n.a); return std::min(strideOf(n.a), strideOf(n.b));
    case X_ITE: return 1;
    }
    return 1;
}
// make sure addr lies inside one object; forks for other objects / reports out-of-bounds
static void pinObject(EX addr, unsigned n, bool wr, uint64_t& lo, uint64_t& hi) {
    while (true) {
        uint64_t v = NODES[addr].val;
        extent(v, lo, hi);
        if (lo == hi || v + n > hi) {
            // witness itself is invalid: the feasible invalid access is a violation
            if (inArena(v) || v < 65536) memErr(wr ? "write" : "read", v, n);
            lo = v; hi = v + n;
        }
        EX in = xBin(X_AND, xBin(X_ULE, xConst(lo, 64), addr), xBin(X_ULE, addr, xConst(hi - n, 64)));
        if (branch(in)) return;
    }
}
static EX bytesAt(uint64_t a, unsigned n) {
    EX e = loadByteEx(a);
    for (unsigned i = 1; i < n; ++i) e = xConcat(loadByteEx(a + i), e);
    return e;
}
static void loadSymAddr(EX addr, unsigned n, unsigned w, Reg& r) {
    if (NODES[addr].op == X_CONST) { loadFast(NODES[addr].k, n, w, r); return; }
    __sync_fetch_and_add(&SH->memops_sym, 1);
    uint64_t lo, hi;
    int uv = xUnaryVar(addr);
    if (uv >= 0) {   // an index that depends on one byte only (lookup tables): the result by its values
        std::vector<uint64_t> av = xUnaryVals(addr);
        std::vector<char> ok = xUnaryFeasible(uv);
        extent(NODES[addr].val, lo, hi);
        std::set<uint64_t> distinct;
        bool fine = lo != hi;
        for (size_t i = 0; fine && i < av.size(); ++i) if (ok[i]) { distinct.insert(av[i]); fine = av[i] >= lo && av[i] + n <= hi; }
        if (fine && distinct.size() > 12) {
            std::vector<uint64_t> rv(av.size(), 0);
            std::map<uint64_t, uint64_t> seen;
            for (size_t i = 0; fine && i < av.size(); ++i) if (ok[i]) {
                auto it = seen.find(av[i]);
                if (it == seen.end()) {
                    EX b = bytesAt(av[i], n);
                    if (w < n * 8) b = xExtract(b, 0, w);
                    if (!xIsConst(b)) { fine = false; break; }
                    it = seen.emplace(av[i], NODES[b].k).first;
                }
                rv[i] = it->second;
            }
            if (fine) {
                uint64_t any = NODES[addr].val;
                for (size_t i = 0; i < rv.size(); ++i) if (!ok[i]) rv[i] = seen.count(any) ? seen[any] : 0;
                setEx(r, xTable(uv, rv, w));
                return;
            }
        }
    }
    pinObject(addr, n, false, lo, hi);
    if (NODES[addr].op == X_CONST) { loadFast(NODES[addr].k, n, w, r); return; }
    std::vector<uint64_t> as;
    uint64_t mn = std::max(lo, NODES[addr].umin), mx = std::min(hi - n, NODES[addr].umax);
    uint64_t stride = strideOf(addr);
    if (feasibleAddrs(addr, 12, as)) {
        std::sort(as.begin(), as.end());
        EX e = bytesAt(as[0], n);
        for (size_t i = 1; i < as.size(); ++i) e = xIte(xBin(X_EQ, addr, xConst(as[i], 64)), bytesAt(as[i], n), e);
        if (w < n * 8) e = xExtract(e, 0, w);
        setEx(r, e);
        return;
    }
    if ((mx - mn) / stride > 64) maxMin(addr, mn, mx, mn, mx);
    uint64_t v = NODES[addr].val;
    mn = v - (v - mn) / stride * stride;
    if ((mx - mn) / stride <= 70000) {
        // run-length compressed balanced decision tree over the feasible range
        struct Run { uint64_t last; EX val; };
        std::vector<Run> runs;
        for (uint64_t a = mn; a <= mx; a += stride) {
            EX b = bytesAt(a, n);
            if (w < n * 8) b = xExtract(b, 0, w);
            if (!runs.empty() && runs.back().val == b) runs.back().last = a;
            else runs.push_back({a, b});
        }
        struct L { static EX go(std::vector<Run>& r, size_t i, size_t j, EX addr) {
            if (i + 1 == j) return r[i].val;
            size_t m = (i + j) / 2;
            return xIte(xBin(X_ULE, addr, xConst(r[m - 1].last, 64)), go(r, i, m, addr), go(r, m, j, addr));
        } };
        setEx(r, L::go(runs, 0, runs.size(), addr));
        return;
    }
    loadFast(concretize(addr), n, w, r);
}
static void storeSymAddr(EX addr, unsigned n, const Reg& r, unsigned w) {
    if (NODES[addr].op == X_CONST) { storeFast(NODES[addr].k, n, r, w); return; }
    __sync_fetch_and_add(&SH->memops_sym, 1);
    uint64_t lo, hi;
    pinObject(addr, n, true, lo, hi);
    std::vector<uint64_t> as;
    if (NODES[addr].op != X_CONST && feasibleAddrs(addr, 40, as)) {
        bool overlap = false;
        std::sort(as.begin(), as.end());
        for (size_t i = 1; i < as.size(); ++i) if (as[i] - as[i - 1] < n) overlap = true;
        if (!overlap && inArena(as[0])) {
            EX ne = toEx(r, w);
            if (w < n * 8) ne = xZExt(ne, n * 8);
            for (uint64_t a : as) {
                EX old = bytesAt(a, n);
                Reg t;
                setEx(t, xIte(xBin(X_EQ, addr, xConst(a, 64)), ne, old));
                storeFast(a, n, t, n * 8);
            }
            return;
        }
    }
    storeFast(concretize(addr), n, r, w);
}

// ------------------------------------------------------------ decoding
enum OpCode : uint16_t {
    O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
    O_ZEXT, O_SEXT, O_TRNC,
    O_LOAD, O_STORE, O_ALLOCA, O_GEPC, O_GEPI,
    O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_LPAD, O_RESUME, O_UNREACH,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP,
    O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
    O_ARMW, O_CMPXCHG, O_NOP,
    O_MEMCPY, O_MEMSET, O_CTPOP, O_CTLZ, O_CTTZ, O_BSWAP, O_FSHL, O_FSHR, O_ABS, O_SMAX, O_SMIN, O_UMAX, O_UMIN,
    O_UADDO, O_SADDO, O_USUBO, O_SSUBO, O_UMULO, O_SMULO, O_UADDSAT, O_USUBSAT, O_TYPEID, O_STACKSAVE, O_STACKRESTORE, O_VASTART, O_VACOPY, O_FUN1, O_FUN2, O_FMA, O_TRAP,
    O_BIN128, O_ICMP128, O_ZEXT128, O_SEXT128, O_TRUNC128, O_BITREV, O_FSHX
};
enum { FN_SQRT, FN_FABS, FN_FLOOR, FN_CEIL, FN_TRUNC, FN_ROUND, FN_RINT, FN_LOG, FN_EXP, FN_LOG10, FN_LOG2, FN_SIN, FN_COS, FN_POW, FN_MINNUM, FN_MAXNUM, FN_COPYSIGN, FN_EXP2, FN_POWI };

static void leavesOf(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) leavesOf(s->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); ++i) leavesOf(a->getElementType(), off + i * es, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeStoreSize(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); ++i) leavesOf(v->getElementType(), off + i * es, out);
    } else if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
        Type* i64 = Type::getInt64Ty(t->getContext());
        out.push_back({i64, off});
        out.push_back({i64, off + 8});
    } else if (t->isX86_FP80Ty()) {
        Type* i64 = Type::getInt64Ty(t->getContext());
        out.push_back({i64, off});
        out.push_back({Type::getInt16Ty(t->getContext()), off + 8});
    } else if (!t->isVoidTy()) out.push_back({t, off});
}
static int nLeaves(Type* t) {
    if (t->isVoidTy()) return 0;
    if (t->isIntegerTy()) return t->getIntegerBitWidth() > 64 ? 2 : 1;
    if (t->isPointerTy() || t->isDoubleTy() || t->isFloatTy()) return 1;
    std::vector<std::pair<Type*, uint64_t>> v;
    leavesOf(t, 0, v);
    return v.size();
}
static unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
uint64_t symbolAddr(const std::string& name) { return (uint64_t)dlsym(RTLD_DEFAULT, name.c_str()); }

static uint64_t gvAddr(const GlobalValue* g) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) {
        const Constant* a = ga->getAliasee();
        APInt off(64, 0);
        const Value* b = a->stripAndAccumulateConstantOffsets(*DL, off, true);
        return gvAddr(cast<GlobalValue>(b)) + off.getZExtValue();
    }
    if (auto* f = dyn_cast<Function>(g)) {
        auto it = FMAP.find(f);
        if (it != FMAP.end()) return FBASE + it->second->id * 16;
        return 0;
    }
    auto it = GADDR.find(g);
    return it == GADDR.end() ? 0 : it->second;
}

static uint64_t constVal(const Constant* c);
static void constLeaves(const Constant* c, std::vector<Reg>& out) {
    Type* t = c->getType();
    auto put = [&](uint64_t v) { out.push_back(Reg{v, 0, 0}); };
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) { put(ci->getValue().extractBitsAsZExtValue(64, 0)); put(ci->getValue().getBitWidth() > 64 ? ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getValue().getBitWidth() - 64), 64) : 0); }
        else { put(0); put(0); }
        return;
    }
    if (t->isX86_FP80Ty()) {
        if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); put(b.extractBitsAsZExtValue(64, 0)); put(b.extractBitsAsZExtValue(16, 64)); }
        else { put(0); put(0); }
        return;
    }
    if (t->isAggregateType() || t->isVectorTy()) {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { int n = nLeaves(t); for (int i = 0; i < n; ++i) put(0); return; }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constLeaves(cd->getElementAsConstant(i), out); return; }
        if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) constLeaves(cast<Constant>(c->getOperand(i)), out); return; }
        errs() << "unhandled constant " << *c << "\n";
        exit(2);
    }
    put(constVal(c));
}
static uint64_t constVal(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getZExtValue();
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantTokenNone>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return gvAddr(g);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = widthOf(c->getType());
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
            return constVal(ce->getOperand(0)) + off.getZExtValue();
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return constVal(ce->getOperand(0)) & wmask(w);
        case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & wmask(w);
        case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & wmask(w);
        case Instruction::And: return constVal(ce->getOperand(0)) & constVal(ce->getOperand(1));
        case Instruction::Or: return constVal(ce->getOperand(0)) | constVal(ce->getOperand(1));
        case Instruction::ICmp: {
            uint64_t a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
        }
        default: break;
        }
    }
    if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return constVal(d->getGlobalValue());
    if (auto* d = dyn_cast<NoCFIValue>(c)) return constVal(d->getGlobalValue());
    errs() << "unhandled constant expr " << *c << "\n";
    return 0xdeadbeef;
}
static void initGlobal(uint64_t a, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset((void*)a, 0, DL->getTypeAllocSize(t)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef s = cd->getRawDataValues(); memcpy((void*)a, s.data(), s.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobal(a + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(a + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cv = dyn_cast<ConstantVector>(c)) {
        uint64_t es = DL->getTypeStoreSize(cv->getType()->getElementType());
        for (unsigned i = 0; i < cv->getNumOperands(); ++i) initGlobal(a + i * es, cv->getOperand(i));
        return;
    }
    std::vector<Reg> l;
    constLeaves(c, l);
    if (l.size() == 2) { memcpy((void*)a, &l[0].v, 8); memcpy((void*)(a + 8), &l[1].v, 8); return; }
    uint64_t v = l[0].v;
    memcpy((void*)a, &v, DL->getTypeStoreSize(t));
}

struct Decoder {
    DFunc& df;
    Function& F;
    std::map<const Value*, int> slot;
    std::map<const Constant*, int> cslot;
    std::map<const BasicBlock*, int> bbpc;
    int next = 0;
    explicit Decoder(DFunc& d) : df(d), F(*d.F) {}

    int opnd(const Value* v, int leaf = 0) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cslot.find(c);
            if (it == cslot.end()) {
                int base = df.consts.size();
                std::vector<Reg> l;
                constLeaves(c, l);
                df.consts.insert(df.consts.end(), l.begin(), l.end());
                it = cslot.emplace(c, base).first;
            }
            return ~(it->second + leaf);
        }
        auto it = slot.find(v);
        if (it == slot.end()) {
            if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~addConst(0);
            errs() << "no slot for " << *v << " in " << F.getName() << "\n";
            exit(2);
        }
        return it->second + leaf;
    }
    int addConst(uint64_t v) { df.consts.push_back(Reg{v, 0, 0}); return df.consts.size() - 1; }
    Op& emit(uint16_t op) {
        Op o;
        memset(&o, 0, sizeof o);
        o.op = op;
        df.code.push_back(o);
        return df.code.back();
    }
    int edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.pc = -1;
        e.tmp = false;
        for (const PHINode& p : to->phis()) {
            const Value* v = p.getIncomingValueForBlock(from);
            int n = nLeaves(p.getType());
            for (int i = 0; i < n; ++i) {
                int d = slot[&p] + i, s = opnd(v, i);
                if (d != s) e.moves.push_back({d, s});
            }
        }
        for (size_t i = 0; i < e.moves.size(); ++i)
            for (size_t j = i + 1; j < e.moves.size(); ++j) if (e.moves[j].second == e.moves[i].first) e.tmp = true;
        edgeTo.push_back(to);
        df.edges.push_back(e);
        return df.edges.size() - 1;
    }
    std::vector<const BasicBlock*> edgeTo;

    // byte offset -> leaf index for insert/extractvalue
    int leafIndex(Type* t, ArrayRef<unsigned> idx) {
        int l = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) l += nLeaves(s->getElementType(j)); t = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(t); l += i * nLeaves(a->getElementType()); t = a->getElementType(); }
        }
        return l;
    }
    void mov(int d, int s) { if (d == s) return; Op& o = emit(O_MOV); o.d = d; o.a = s; }

    void decode() {
        for (Argument& a : F.args()) {
            slot[&a] = next;
            int n = nLeaves(a.getType());
            next += n;
        }
        df.nargs = next;
        for (BasicBlock& b : F)
            for (Instruction& i : b) {
                int n = nLeaves(i.getType());
                if (n) { slot[&i] = next; next += n; }
            }
        for (BasicBlock& b : F) {
            bbpc[&b] = df.code.size();
            for (Instruction& i : b) inst(i);
        }
        for (size_t i = 0; i < df.edges.size(); ++i) df.edges[i].pc = bbpc[edgeTo[i]];
        df.nregs = next;
        df.vararg = F.isVarArg();
        df.decoded = true;
    }
    void unsupported(Instruction& i) {
        std::string s;
        raw_string_ostream os(s);
        os << i;
        Op& o = emit(O_TRAP);
        o.p = new std::string("unsupported instruction: " + os.str());
    }
    void inst(Instruction& I);
    void call(CallBase& cb);
    bool intrinsic(CallBase& cb, Intrinsic::ID id);
};

void Decoder::inst(Instruction& I) {
    int d = slot.count(&I) ? slot[&I] : 0;
    Type* ty = I.getType();
    switch (I.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        if (b.isUnconditional()) { int e = edge(I.getParent(), b.getSuccessor(0)); Op& o = emit(O_BR); o.a = e; }
        else {
            int c = opnd(b.getCondition());
            int e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1));
            Op& o = emit(O_CBR); o.a = c; o.b = e1; o.c = e2;
        }
        return;
    }
    case Instruction::Switch: {
        auto& s = cast<SwitchInst>(I);
        auto* si = new SwitchInfo;
        for (auto& c : s.cases()) { int e = edge(I.getParent(), c.getCaseSuccessor()); si->cases.push_back({c.getCaseValue()->getZExtValue(), e}); si->map[c.getCaseValue()->getZExtValue()] = e; }
        si->def = edge(I.getParent(), s.getDefaultDest());
        int c = opnd(s.getCondition());
        Op& o = emit(O_SWITCH); o.a = c; o.w = widthOf(s.getCondition()->getType()); o.p = si;
        return;
    }
    case Instruction::Ret: {
        auto& r = cast<ReturnInst>(I);
        int n = 0, a = 0;
        if (r.getReturnValue()) { n = nLeaves(r.getReturnValue()->getType()); a = opnd(r.getReturnValue()); }
        Op& o = emit(O_RET); o.a = a; o.b = n;
        return;
    }
    case Instruction::Unreachable: emit(O_UNREACH); return;
    case Instruction::Resume: { int a = opnd(I.getOperand(0)); Op& o = emit(O_RESUME); o.a = a; o.b = opnd(I.getOperand(0), 1); return; }
    case Instruction::LandingPad: { Op& o = emit(O_LPAD); o.d = d; return; }
    case Instruction::Alloca: {
        auto& a = cast<AllocaInst>(I);
        uint64_t sz = DL->getTypeAllocSize(a.getAllocatedType());
        int n = opnd(a.getArraySize());
        Op& o = emit(O_ALLOCA); o.d = d; o.a = n; o.k = sz; o.b = a.getAlign().value();
        return;
    }
    case Instruction::Load: case Instruction::Store: {
        bool ld = isa<LoadInst>(I);
        Type* vt = ld ? ty : I.getOperand(0)->getType();
        int p = opnd(ld ? I.getOperand(0) : I.getOperand(1));
        std::vector<std::pair<Type*, uint64_t>> lv;
        leavesOf(vt, 0, lv);
        if (vt->isVectorTy() && widthOf(cast<FixedVectorType>(vt)->getElementType()) % 8) { unsupported(I); return; }
        for (size_t i = 0; i < lv.size(); ++i) {
            unsigned w = widthOf(lv[i].first);
            if (!w) { unsupported(I); return; }
            int v = ld ? 0 : opnd(I.getOperand(0), i);
            Op& o = emit(ld ? O_LOAD : O_STORE);
            o.d = d + i; o.a = p; o.b = v; o.k = lv[i].second; o.w = w; o.w2 = (w + 7) / 8;
            AtomicOrdering ord = ld ? cast<LoadInst>(I).getOrdering() : cast<StoreInst>(I).getOrdering();
            int at = ord == AtomicOrdering::NotAtomic ? 0 : ord == AtomicOrdering::Monotonic || ord == AtomicOrdering::Unordered ? 1 : 2;
            (ld ? o.b : o.d) = at;
        }
        return;
    }
    case Instruction::GetElementPtr: {
        auto& g = cast<GetElementPtrInst>(I);
        if (ty->isVectorTy()) { unsupported(I); return; }
        int cur = opnd(g.getPointerOperand());
        uint64_t cofs = 0;
        bool any = false;
        auto flush = [&](bool force) {
            if (cofs || force) { Op& o = emit(O_GEPC); o.d = d; o.a = cur; o.k = cofs; cur = d; cofs = 0; }
        };
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* ix = it.getOperand();
            if (StructType* st = it.getStructTypeOrNull()) { cofs += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ix)) { cofs += ci->getSExtValue() * es; continue; }
            int b = opnd(ix);
            Op& o = emit(O_GEPI); o.d = d; o.a = cur; o.b = b; o.k = es; o.w2 = widthOf(ix->getType());
            cur = d;
            any = true;
        }
        flush(cur != d || !any);
        return;
    }
    case Instruction::Select: {
        int n = nLeaves(ty);
        bool vc = I.getOperand(0)->getType()->isVectorTy();
        std::vector<std::pair<Type*, uint64_t>> lv;
        leavesOf(ty, 0, lv);
        for (int i = 0; i < n; ++i) {
            int c = opnd(I.getOperand(0), vc ? i : 0), a = opnd(I.getOperand(1), i), b = opnd(I.getOperand(2), i);
            Op& o = emit(O_SELECT); o.d = d + i; o.a = c; o.b = a; o.c = b; o.w = widthOf(lv[i].first); o.w2 = lv[i].first->isPointerTy();
        }
        return;
    }
    case Instruction::ICmp: {
        auto& c = cast<ICmpInst>(I);
        static const std::map<unsigned, OpCode> mp = {{CmpInst::ICMP_EQ, O_EQ}, {CmpInst::ICMP_NE, O_NE}, {CmpInst::ICMP_ULT, O_ULT}, {CmpInst::ICMP_ULE, O_ULE}, {CmpInst::ICMP_UGT, O_UGT}, {CmpInst::ICMP_UGE, O_UGE}, {CmpInst::ICMP_SLT, O_SLT}, {CmpInst::ICMP_SLE, O_SLE}, {CmpInst::ICMP_SGT, O_SGT}, {CmpInst::ICMP_SGE, O_SGE}};
        Type* et = c.getOperand(0)->getType();
        if (et->isIntegerTy() && et->getIntegerBitWidth() > 64) {
            int a = opnd(c.getOperand(0)), b = opnd(c.getOperand(1));
            int a1 = opnd(c.getOperand(0), 1), b1 = opnd(c.getOperand(1), 1);
            Op& o = emit(O_ICMP128); o.d = d; o.a = a; o.b = b; o.c = a1; o.k = (uint64_t)(uint32_t)b1 | ((uint64_t)mp.at(c.getPredicate()) << 32);
            return;
        }
        int n = nLeaves(et);
        unsigned w = widthOf(et->getScalarType());
        for (int i = 0; i < n; ++i) {
            int a = opnd(c.getOperand(0), i), b = opnd(c.getOperand(1), i);
            Op& o = emit(mp.at(c.getPredicate())); o.d = d + i; o.a = a; o.b = b; o.w = w;
        }
        return;
    }
    case Instruction::FCmp: {
        auto& c = cast<FCmpInst>(I);
        int n = nLeaves(c.getOperand(0)->getType());
        unsigned w = widthOf(c.getOperand(0)->getType()->getScalarType());
        if (!w) { unsupported(I); return; }
        for (int i = 0; i < n; ++i) {
            int a = opnd(c.getOperand(0), i), b = opnd(c.getOperand(1), i);
            Op& o = emit(O_FCMP); o.d = d + i; o.a = a; o.b = b; o.w = w; o.k = c.getPredicate();
        }
        return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        static const std::map<unsigned, OpCode> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
        OpCode oc = mp.at(I.getOpcode());
        if (ty->isIntegerTy() && ty->getIntegerBitWidth() > 64) {
            if (ty->getIntegerBitWidth() > 128) { unsupported(I); return; }
            int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)), a1 = opnd(I.getOperand(0), 1), b1 = opnd(I.getOperand(1), 1);
            Op& o = emit(O_BIN128); o.d = d; o.a = a; o.b = b; o.c = a1; o.k = (uint64_t)(uint32_t)b1 | ((uint64_t)oc << 32); o.w = ty->getIntegerBitWidth();
            return;
        }
        unsigned w = widthOf(ty->getScalarType());
        if (!w) { unsupported(I); return; }
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) {
            int a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i);
            Op& o = emit(oc); o.d = d + i; o.a = a; o.b = b; o.w = w; o.k = wmask(w);
        }
        return;
    }
    case Instruction::FNeg: {
        unsigned w = widthOf(ty->getScalarType());
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) { int a = opnd(I.getOperand(0), i); Op& o = emit(O_FNEG); o.d = d + i; o.a = a; o.w = w; }
        return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
        Type* st = I.getOperand(0)->getType();
        unsigned w = widthOf(ty->getScalarType()), sw = widthOf(st->getScalarType());
        if (w > 64 || sw > 64) {
            if (w > 128 || sw > 128 || ty->isVectorTy()) { unsupported(I); return; }
            int a = opnd(I.getOperand(0));
            Op& o = emit(I.getOpcode() == Instruction::Trunc ? O_TRUNC128 : I.getOpcode() == Instruction::ZExt ? O_ZEXT128 : O_SEXT128);
            o.d = d; o.a = a; o.w = std::min(w, 64u); o.w2 = std::min(sw, 64u);
            return;
        }
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) {
            int a = opnd(I.getOperand(0), i);
            Op& o = emit(I.getOpcode() == Instruction::ZExt ? O_ZEXT : I.getOpcode() == Instruction::SExt ? O_SEXT : O_TRNC);
            o.d = d + i; o.a = a; o.w = w; o.w2 = sw;
        }
        return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned w = widthOf(ty->getScalarType()), sw = widthOf(I.getOperand(0)->getType()->getScalarType());
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) {
            int a = opnd(I.getOperand(0), i);
            if (w == sw) mov(d + i, a);
            else { Op& o = emit(w > sw ? O_ZEXT : O_TRNC); o.d = d + i; o.a = a; o.w = w; o.w2 = sw; }
        }
        return;
    }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        int n = nLeaves(ty), m = nLeaves(I.getOperand(0)->getType());
        if (n == m) { for (int i = 0; i < n; ++i) mov(d + i, opnd(I.getOperand(0), i)); return; }
        unsupported(I);
        return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        static const std::map<unsigned, OpCode> mp = {{Instruction::SIToFP, O_SITOFP}, {Instruction::UIToFP, O_UITOFP}, {Instruction::FPToSI, O_FPTOSI}, {Instruction::FPToUI, O_FPTOUI}, {Instruction::FPExt, O_FPEXT}, {Instruction::FPTrunc, O_FPTRUNC}};
        unsigned w = widthOf(ty->getScalarType()), sw = widthOf(I.getOperand(0)->getType()->getScalarType());
        if (!w || !sw || w > 64 || sw > 64) { unsupported(I); return; }
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) { int a = opnd(I.getOperand(0), i); Op& o = emit(mp.at(I.getOpcode())); o.d = d + i; o.a = a; o.w = w; o.w2 = sw; }
        return;
    }
    case Instruction::ExtractValue: {
        auto& e = cast<ExtractValueInst>(I);
        int l = leafIndex(e.getAggregateOperand()->getType(), e.getIndices());
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) mov(d + i, opnd(e.getAggregateOperand(), l + i));
        return;
    }
    case Instruction::InsertValue: {
        auto& e = cast<InsertValueInst>(I);
        int l = leafIndex(ty, e.getIndices()), k = nLeaves(e.getInsertedValueOperand()->getType()), n = nLeaves(ty);
        for (int i = 0; i < n; ++i) mov(d + i, i >= l && i < l + k ? opnd(e.getInsertedValueOperand(), i - l) : opnd(e.getAggregateOperand(), i));
        return;
    }
    case Instruction::ExtractElement: {
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!ci) { unsupported(I); return; }
        mov(d, opnd(I.getOperand(0), ci->getZExtValue()));
        return;
    }
    case Instruction::InsertElement: {
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!ci) { unsupported(I); return; }
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) mov(d + i, (uint64_t)i == ci->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), i));
        return;
    }
    case Instruction::ShuffleVector: {
        auto& s = cast<ShuffleVectorInst>(I);
        int n = nLeaves(ty), m = nLeaves(s.getOperand(0)->getType());
        for (int i = 0; i < n; ++i) {
            int x = s.getMaskValue(i);
            if (x < 0) x = 0;
            mov(d + i, x < m ? opnd(s.getOperand(0), x) : opnd(s.getOperand(1), x - m));
        }
        return;
    }
    case Instruction::AtomicRMW: {
        auto& a = cast<AtomicRMWInst>(I);
        unsigned w = widthOf(a.getValOperand()->getType());
        int p = opnd(a.getPointerOperand()), v = opnd(a.getValOperand());
        Op& o = emit(O_ARMW); o.d = d; o.a = p; o.b = v; o.w = w; o.w2 = w / 8; o.k = a.getOperation(); o.c = a.getOrdering() != AtomicOrdering::Monotonic;
        return;
    }
    case Instruction::AtomicCmpXchg: {
        auto& a = cast<AtomicCmpXchgInst>(I);
        unsigned w = widthOf(a.getCompareOperand()->getType());
        int p = opnd(a.getPointerOperand()), x = opnd(a.getCompareOperand()), y = opnd(a.getNewValOperand());
        Op& o = emit(O_CMPXCHG); o.d = d; o.a = p; o.b = x; o.c = y; o.w = w; o.w2 = w / 8;
        return;
    }
    case Instruction::Fence: return;
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
    case Instruction::VAArg: default: unsupported(I); return;
    }
}

bool Decoder::intrinsic(CallBase& I, Intrinsic::ID id) {
    int d = slot.count(&I) ? slot[&I] : 0;
    Type* ty = I.getType();
    unsigned w = widthOf(ty->getScalarType());
    auto un = [&](uint16_t op, uint64_t k = 0) {
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) { int a = opnd(I.getArgOperand(0), i); Op& o = emit(op); o.d = d + i; o.a = a; o.w = w; o.w2 = widthOf(I.getArgOperand(0)->getType()->getScalarType()); o.k = k; }
        return true;
    };
    auto bin = [&](uint16_t op, uint64_t k = 0) {
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) { int a = opnd(I.getArgOperand(0), i), b = opnd(I.getArgOperand(1), i); Op& o = emit(op); o.d = d + i; o.a = a; o.b = b; o.w = w; o.k = k; }
        return true;
    };
    auto ovf = [&](uint16_t op) {
        int a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1));
        unsigned ww = widthOf(I.getArgOperand(0)->getType());
        if (ww > 64) return false;
        Op& o = emit(op); o.d = d; o.a = a; o.b = b; o.w = ww;
        return true;
    };
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::vaend:
        return true;
    case Intrinsic::invariant_start: return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
        mov(d, opnd(I.getArgOperand(0)));
        return true;
    case Intrinsic::is_constant: mov(d, ~addConst(0)); return true;
    case Intrinsic::objectsize: mov(d, ~addConst(cast<ConstantInt>(I.getArgOperand(1))->isZero() ? ~0ull : 0)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        int a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)), c = opnd(I.getArgOperand(2));
        Op& o = emit(O_MEMCPY); o.a = a; o.b = b; o.c = c;
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        int a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)), c = opnd(I.getArgOperand(2));
        Op& o = emit(O_MEMSET); o.a = a; o.b = b; o.c = c;
        return true;
    }
    case Intrinsic::ctpop: return w <= 64 && un(O_CTPOP);
    case Intrinsic::ctlz: return w <= 64 && un(O_CTLZ);
    case Intrinsic::cttz: return w <= 64 && un(O_CTTZ);
    case Intrinsic::bswap: return w <= 64 && un(O_BSWAP);
    case Intrinsic::abs: return un(O_ABS);
    case Intrinsic::smax: return bin(O_SMAX);
    case Intrinsic::smin: return bin(O_SMIN);
    case Intrinsic::umax: return bin(O_UMAX);
    case Intrinsic::umin: return bin(O_UMIN);
    case Intrinsic::uadd_sat: return bin(O_UADDSAT);
    case Intrinsic::usub_sat: return bin(O_USUBSAT);
    case Intrinsic::fshl: case Intrinsic::fshr: {
        int a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)), c = opnd(I.getArgOperand(2));
        if (w > 64 || nLeaves(ty) != 1) return false;
        Op& o = emit(id == Intrinsic::fshl ? O_FSHL : O_FSHR); o.d = d; o.a = a; o.b = b; o.c = c; o.w = w;
        return true;
    }
    case Intrinsic::uadd_with_overflow: return ovf(O_UADDO);
    case Intrinsic::sadd_with_overflow: return ovf(O_SADDO);
    case Intrinsic::usub_with_overflow: return ovf(O_USUBO);
    case Intrinsic::ssub_with_overflow: return ovf(O_SSUBO);
    case Intrinsic::umul_with_overflow: return ovf(O_UMULO);
    case Intrinsic::smul_with_overflow: return ovf(O_SMULO);
    case Intrinsic::eh_typeid_for: { int a = opnd(I.getArgOperand(0)); Op& o = emit(O_TYPEID); o.d = d; o.a = a; return true; }
    case Intrinsic::stacksave: { Op& o = emit(O_STACKSAVE); o.d = d; return true; }
    case Intrinsic::stackrestore: { int a = opnd(I.getArgOperand(0)); Op& o = emit(O_STACKRESTORE); o.a = a; return true; }
    case Intrinsic::vastart: { int a = opnd(I.getArgOperand(0)); Op& o = emit(O_VASTART); o.a = a; return true; }
    case Intrinsic::vacopy: { int a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)); Op& o = emit(O_VACOPY); o.a = a; o.b = b; return true; }
    case Intrinsic::sqrt: return un(O_FUN1, FN_SQRT);
    case Intrinsic::fabs: return un(O_FUN1, FN_FABS);
    case Intrinsic::floor: return un(O_FUN1, FN_FLOOR);
    case Intrinsic::ceil: return un(O_FUN1, FN_CEIL);
    case Intrinsic::trunc: return un(O_FUN1, FN_TRUNC);
    case Intrinsic::round: return un(O_FUN1, FN_ROUND);
    case Intrinsic::rint: case Intrinsic::nearbyint: return un(O_FUN1, FN_RINT);
    case Intrinsic::log: return un(O_FUN1, FN_LOG);
    case Intrinsic::exp: return un(O_FUN1, FN_EXP);
    case Intrinsic::exp2: return un(O_FUN1, FN_EXP2);
    case Intrinsic::log10: return un(O_FUN1, FN_LOG10);
    case Intrinsic::log2: return un(O_FUN1, FN_LOG2);
    case Intrinsic::sin: return un(O_FUN1, FN_SIN);
    case Intrinsic::cos: return un(O_FUN1, FN_COS);
    case Intrinsic::pow: return bin(O_FUN2, FN_POW);
    case Intrinsic::minnum: return bin(O_FUN2, FN_MINNUM);
    case Intrinsic::maxnum: return bin(O_FUN2, FN_MAXNUM);
    case Intrinsic::copysign: return bin(O_FUN2, FN_COPYSIGN);
    case Intrinsic::fmuladd: case Intrinsic::fma: {
        int n = nLeaves(ty);
        for (int i = 0; i < n; ++i) { int a = opnd(I.getArgOperand(0), i), b = opnd(I.getArgOperand(1), i), c = opnd(I.getArgOperand(2), i); Op& o = emit(O_FMA); o.d = d + i; o.a = a; o.b = b; o.c = c; o.w = w; o.k = id == Intrinsic::fma; }
        return true;
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { Op& o = emit(O_TRAP); o.p = new std::string("llvm.trap"); return true; }
    default: return false;
    }
}

void Decoder::call(CallBase& I) {
    int d = slot.count(&I) ? slot[&I] : 0;
    Value* cv = I.getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
    Function* f = dyn_cast<Function>(cv);
    if (f && f->isIntrinsic()) {
        if (!intrinsic(I, f->getIntrinsicID())) unsupported(I);
        else if (auto* inv = dyn_cast<InvokeInst>(&I)) { int e = edge(I.getParent(), inv->getNormalDest()); Op& o = emit(O_BR); o.a = e; }
        return;
    }
    if (isa<InlineAsm>(cv)) {
        auto* ia = cast<InlineAsm>(cv);
        if (ia->getAsmString().empty() || ia->getAsmString().find("pause") != std::string::npos) {
            if (nLeaves(I.getType()) == 0) return;
        }
        unsupported(I);
        return;
    }
    auto* ci = new CallInfo;
    ci->inst = &I;
    ci->retLeaves = nLeaves(I.getType());
    ci->retW = ci->retLeaves == 1 ? widthOf(I.getType()) : 0;
    if (ci->retLeaves == 2)
        if (auto* st = dyn_cast<StructType>(I.getType()))
            if (st->getNumElements() == 2 && (st->getElementType(0)->isPointerTy() || st->getElementType(0)->isIntegerTy(64)) && st->getElementType(1)->isIntegerTy()) {
                ci->retPtrInt = true;
                ci->retW2 = widthOf(st->getElementType(1));
            }
    ci->retFp = I.getType()->isFloatingPointTy();
    for (unsigned i = 0; i < I.arg_size(); ++i) {
        Value* a = I.getArgOperand(i);
        std::vector<std::pair<Type*, uint64_t>> lv;
        if (a->getType()->isMetadataTy()) continue;
        leavesOf(a->getType(), 0, lv);
        if (I.isByValArgument(i)) {
            ci->byvalMask |= 1ull << ci->args.size();
            ci->byvalSize.resize(ci->args.size() + 1);
            ci->byvalSize[ci->args.size()] = DL->getTypeAllocSize(I.getParamByValType(i));
        }
        for (size_t k = 0; k < lv.size(); ++k) {
            ci->args.push_back(opnd(a, k));
            ci->argW.push_back(widthOf(lv[k].first));
            ci->argFp.push_back(lv[k].first->isFloatingPointTy());
        }
        if (i + 1 == I.getFunctionType()->getNumParams()) ci->fixedArgs = ci->args.size();
    }
    if (I.getFunctionType()->getNumParams() == 0) ci->fixedArgs = 0;
    if (f) {
        auto it = FMAP.find(f);
        DFunc* df = it == FMAP.end() ? nullptr : it->second;
        ci->name = f->getName().str();
        if (df && df->bi) ci->bi = df->bi;
        else if (df && !f->isDeclaration()) ci->callee = df;
        else ci->callee = df;
    } else {
        ci->indirect = true;
        ci->calleeReg = opnd(cv);
    }
    if (auto* inv = dyn_cast<InvokeInst>(&I)) {
        ci->invoke = true;
        ci->normalEdge = edge(I.getParent(), inv->getNormalDest());
        ci->unwindEdge = edge(I.getParent(), inv->getUnwindDest());
        auto* lp = inv->getLandingPadInst();
        ci->lp = new LPInfo;
        ci->lp->cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            LPClause c;
            c.isCatch = lp->isCatch(i);
            if (c.isCatch) c.tis.push_back(constVal(lp->getClause(i)));
            else { std::vector<Reg> l; constLeaves(lp->getClause(i), l); for (auto& r : l) c.tis.push_back(r.v); }
            ci->lp->clauses.push_back(c);
        }
    }
    Op& o = emit(O_CALL);
    o.d = d;
    o.p = ci;
}

static void decodeFn(DFunc* f) {
    Decoder dc(*f);
    dc.decode();
}

// ------------------------------------------------------------ calls, frames
DFunc* funcAt(uint64_t a) {
    if (a < FBASE || (a & 15)) return nullptr;
    uint64_t i = (a - FBASE) / 16;
    return i < FUNCS.size() ? FUNCS[i] : nullptr;
}
static void killStack(uint64_t from, uint64_t to) { if (to > from) memset(ST(from), M_DEADSTACK, to - from); }

void pushCall(DFunc* f, Reg* args, int n, int retDst, bool discard) {
    if (!f->decoded) decodeFn(f);
    SH->executed[f->id] = 1;
    Frame fr;
    fr.f = f;
    fr.pc = f->code.data();
    fr.r = T->regTop;
    fr.sp = T->sp;
    fr.retDst = retDst;
    fr.callop = nullptr;
    fr.va = fr.vaEnd = 0;
    fr.discardRet = discard;
    T->regTop += f->nregs;
    if (T->st.size() > 6000) {
        violation("stack", "unbounded recursion in " + demangle1(f->name), nullptr);
        endPath(0, nullptr);
    }
    for (int i = 0; i < f->nargs; ++i) fr.r[i] = i < n ? args[i] : Reg{0, 0, 0};
    if (f->vararg && n > f->nargs) {
        // overflow area for va_arg
        uint64_t sz = (n - f->nargs) * 8;
        uint64_t a = (T->sp + 31) & ~15ull;
        memset(ST(a), M_V, sz);
        for (int i = f->nargs; i < n; ++i) { Reg r = args[i]; storeFast(a + (i - f->nargs) * 8, 8, r, 64); }
        fr.va = a;
        fr.vaEnd = a + sz;
        T->sp = a + sz;
    }
    T->st.push_back(fr);
}

static void takeEdge(Frame& f, int ei) {
    Edge& e = f.f->edges[ei];
    Reg* R = f.r;
    const Reg* C = f.f->consts.data();
#define RD(i) ((i) >= 0 ? R[i] : C[~(i)])
    if (!e.tmp) {
        for (auto& m : e.moves) R[m.first] = RD(m.second);
    } else {
        Reg tmp[256];
        std::vector<Reg> big;
        Reg* t = tmp;
        if (e.moves.size() > 256) { big.resize(e.moves.size()); t = big.data(); }
        for (size_t i = 0; i < e.moves.size(); ++i) t[i] = RD(e.moves[i].second);
        for (size_t i = 0; i < e.moves.size(); ++i) R[e.moves[i].first] = t[i];
    }
    f.pc = f.f->code.data() + e.pc;
}

static int typeIdFor(uint64_t ti) {
    static std::map<uint64_t, int> ids;
    auto it = ids.find(ti);
    if (it == ids.end()) it = ids.emplace(ti, (int)ids.size() + 1).first;
    return it->second;
}
static bool exnMatch(uint64_t cti, uint64_t obj, uint64_t& adj) {
    ExnInfo& x = EXNS[obj];
    adj = obj;
    if (!cti) return true;
    const std::type_info* ct = (const std::type_info*)cti;
    const std::type_info* tt = (const std::type_info*)x.ti;
    void* p = (void*)obj;
    if (tt->__is_pointer_p()) p = *(void**)p;
    if (ct->__do_catch(tt, &p, 1)) { adj = (uint64_t)p; return true; }
    return false;
}
static void popFrame() {
    Frame& f = T->st.back();
    killStack(f.sp, T->sp);
    T->sp = f.sp;
    T->regTop = f.r;
    T->st.pop_back();
}
static std::string exnName(uint64_t obj) {
    ExnInfo& x = EXNS[obj];
    return x.ti ? demangle1(std::string("_ZTI") + ((const std::type_info*)x.ti)->name()) : "?";
}
static void threadFinished();
void throwExn(uint64_t obj) {
    logTrace("throw %s @ %s\n", exnName(obj).c_str(), where().c_str());
    while (!T->st.empty()) {
        Frame& f = T->st.back();
        Op* o = f.callop;
        if (o && o->op == O_CALL) {
            CallInfo* ci = (CallInfo*)o->p;
            if (ci->invoke) {
                bool enter = false;
                int sel = 0;
                for (auto& c : ci->lp->clauses) {
                    uint64_t adj;
                    if (c.isCatch) {
                        if (exnMatch(c.tis[0], obj, adj)) { enter = true; sel = c.tis[0] ? typeIdFor(c.tis[0]) : 0x7fff; if (!c.tis[0]) sel = typeIdFor(0); EXNS[obj].adjusted = adj; break; }
                    } else {
                        bool any = false;
                        for (uint64_t t : c.tis) if (exnMatch(t, obj, adj)) any = true;
                        if (!any) { enter = true; sel = -1; break; }
                    }
                }
                if (!enter && ci->lp->cleanup) { enter = true; sel = 0; }
                if (enter) {
                    T->exnPtr = obj;
                    T->exnSel = sel;
                    f.callop = nullptr;
                    takeEdge(f, ci->unwindEdge);
                    return;
                }
            }
        }
        popFrame();
    }
    if (T->id == 0) {
        violation("exception", "uncaught exception " + exnName(obj), nullptr);
        endPath(0, nullptr);
    }
    violation("exception", "uncaught exception in thread " + exnName(obj), nullptr);
    endPath(0, nullptr);
}
uint64_t newExn(uint64_t size) { return gMalloc(size + 16); }
void throwStd(const char* kind, const char* msg) {
    uint64_t o = newExn(sizeof(std::out_of_range) + 64);
    ExnInfo x{0, 0, o, 0, 0};
    std::string k = kind;
    if (k == "out_of_range") { new ((void*)o) std::out_of_range(msg); x.ti = (uint64_t)&typeid(std::out_of_range); }
    else if (k == "length_error") { new ((void*)o) std::length_error(msg); x.ti = (uint64_t)&typeid(std::length_error); }
    else if (k == "logic_error") { new ((void*)o) std::logic_error(msg); x.ti = (uint64_t)&typeid(std::logic_error); }
    else if (k == "invalid_argument") { new ((void*)o) std::invalid_argument(msg); x.ti = (uint64_t)&typeid(std::invalid_argument); }
    else if (k == "bad_alloc") { new ((void*)o) std::bad_alloc(); x.ti = (uint64_t)&typeid(std::bad_alloc); }
    else if (k == "bad_cast") { new ((void*)o) std::bad_cast(); x.ti = (uint64_t)&typeid(std::bad_cast); }
    else { new ((void*)o) std::runtime_error(msg); x.ti = (uint64_t)&typeid(std::runtime_error); }
    EXNS[o] = x;
    throwExn(o);
}

// native pass-through
static uint64_t nativeRdx; // second return register of the last native call
static uint64_t nativeCall(void* fn, Reg* args, CallInfo* ci, int n, bool& threw, std::string& exn) {
    uint64_t iv[16] = {0};
    double dv[8] = {0};
    int ni = 0, nd = 0;
    for (int i = 0; i < n; ++i) {
        if (i < (int)ci->argFp.size() && ci->argFp[i]) {
            if (nd < 8) {
                if (ci->argW[i] == 32) { float f; uint32_t u = args[i].v; memcpy(&f, &u, 4); memset(&dv[nd], 0, 8); memcpy(&dv[nd], &f, 4); nd++; }
                else memcpy(&dv[nd++], &args[i].v, 8);
            }
        } else if (ni < 16) {
            uint64_t v = args[i].v;
            if (i < (int)ci->argW.size() && ci->argW[i] == 32) v = (uint64_t)(int64_t)(int32_t)v;
            iv[ni++] = v;
        }
    }
    __sync_fetch_and_add(&SH->nativeCalls, 1);
    threw = false;
    try {
        if (ci->retFp) {
            typedef double (*FD)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, ...);
            double r = ((FD)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], iv[6], iv[7], iv[8], iv[9]);
            uint64_t v;
            memcpy(&v, &r, 8);
            if (ci->retW == 32) v &= 0xffffffffu;
            return v;
        }
        struct Pair { uint64_t a, b; };
        typedef Pair (*FI)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, ...);
        Pair r = ((FI)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], iv[6], iv[7], iv[8], iv[9]);
        nativeRdx = r.b;
        return r.a;
    } catch (const std::exception& e) { threw = true; exn = e.what(); }
    catch (...) { threw = true; exn = "native exception"; }
    return 0;
}

static Reg ARGBUF[64];

// executes the call in the current frame; the frame's pc already points past the call
static void doCall(Op* o) {
    CallInfo* ci = (CallInfo*)o->p;
    Frame& f = T->st.back();
    Reg* R = f.r;
    const Reg* C = f.f->consts.data();
    int n = ci->args.size();
    if (n > 64) endPath(2, "too many call arguments");
    for (int i = 0; i < n; ++i) ARGBUF[i] = RD(ci->args[i]);
    DFunc* callee = ci->callee;
    Builtin bi = ci->bi;
    void* native = nullptr;
    std::string nm;
    f.callop = o;
    if (ci->indirect) {
        Reg t = RD(ci->calleeReg);
        uint64_t a = conc(t);
        callee = funcAt(a);
        if (!callee) {
            if (a < 65536 || inArena(a)) {
                violation("memory", "call through invalid function pointer in " + demangle1(f.f->name), nullptr);
                endPath(0, nullptr);
            }
            native = (void*)a;
        }
    }
    if (callee && callee->bi) { bi = callee->bi; }
    else if (callee && callee->F->isDeclaration()) {
        nm = callee->name;
        auto it = NATIVES.find(nm);
        bool ok = it != NATIVES.end();
        if (!ok) for (auto& p : {"_ZNSt", "_ZNKSt", "_ZSt", "_ZNSi", "_ZNSo"}) if (nm.compare(0, strlen(p), p) == 0) ok = true;
        if (!ok) { std::string w = "unmodelled external function " + demangle1(nm); endPath(2, w.c_str()); }
        native = (void*)symbolAddr(nm);
        if (!native) { std::string w = "unresolved external function " + demangle1(nm); endPath(2, w.c_str()); }
    }
    if (bi) {
        Reg ret{0, 0, 0};
        Op* savedPc = f.pc;
        size_t depth = T->st.size();
        Thread* me = T;
        CallInfo* cci = ci;
        bool done = bi(cci, ARGBUF, n, ret);
        if (!done) {  // blocked or control transferred: builtin set things up
            return;
        }
        if (me->st.size() < depth) return;
        Frame& ff = me->st[depth - 1];
        if (ff.callop != o && ff.pc != savedPc) return;  // control transferred (exception)
        if (ci->retLeaves) {
            ff.r[o->d] = ret;
            if (ci->retLeaves > 1) endPath(2, "builtin returns aggregate");
        }
        if (me->st.size() == depth) {
            ff.callop = nullptr;
            if (ci->invoke) takeEdge(ff, ci->normalEdge);
        } else if (ci->invoke) {
            // builtin pushed a guest frame that returns into this frame: take the edge when it returns
            me->st.back().retDst = -2;
        }
        return;
    }
    if (native) {
        for (int i = 0; i < n; ++i) conc(ARGBUF[i]);
        for (int i = 0; i < n; ++i) concretizeReach(ARGBUF[i].v, 2);
        bool threw;
        std::string ex;
        uint64_t v = nativeCall(native, ARGBUF, ci, n, threw, ex);
        if (threw) { throwStd("runtime_error", ex.c_str()); return; }
        if (ci->retLeaves == 1) { R[o->d].v = v & wmask(ci->retW ? ci->retW : 64); R[o->d].e = 0; }
        else if (ci->retLeaves > 1) {
            std::string w = "native call returns aggregate: " + nm;
            // {pointer, small integer} comes back in rax:rdx
            if (ci->retLeaves != 2 || !ci->retPtrInt) endPath(2, w.c_str());
            R[o->d].v = v; R[o->d].e = 0;
            R[o->d + 1].v = nativeRdx & wmask(ci->retW2); R[o->d + 1].e = 0;
        }
        f.callop = nullptr;
        if (ci->invoke) takeEdge(f, ci->normalEdge);
        return;
    }
    // guest function
    if (ci->byvalMask) {
        for (int i = 0; i < n; ++i)
            if (i < 64 && (ci->byvalMask >> i & 1)) {
                uint64_t sz = ci->byvalSize[i];
                uint64_t a = (T->sp + 31) & ~15ull;
                memset(ST(a), M_V, sz);
                T->sp = a + sz + 16;
                copyMem(a, conc(ARGBUF[i]), sz);
                ARGBUF[i] = Reg{a, 0, 0};
            }
    }
    pushCall(callee, ARGBUF, n, o->d, false);
}

static void doRet(Op* o) {
    Frame& f = T->st.back();
    Reg* R = f.r;
    const Reg* C = f.f->consts.data();
    int n = o->b;
    Reg tmp[64];
    if (n > 64) endPath(2, "large return");
    for (int i = 0; i < n; ++i) { int s = o->a >= 0 ? o->a + i : o->a - i; tmp[i] = RD(s); }
    int rd = f.retDst;
    bool disc = f.discardRet;
    popFrame();
    if (T->st.empty()) {
        if (T->id != 0) T->retval = n ? tmp[0].v : 0;
        threadFinished();
        return;
    }
    Frame& c = T->st.back();
    if (!disc) for (int i = 0; i < n; ++i) c.r[rd + i] = tmp[i];
    Op* co = c.callop;
    c.callop = nullptr;
    if (co && co->op == O_CALL) {
        CallInfo* ci = (CallInfo*)co->p;
        if (ci->invoke) takeEdge(c, ci->normalEdge);
    }
}

// ------------------------------------------------------------ threads
static int runnableCount(std::vector<int>& v) {
    v.clear();
    for (auto* t : THREADS) if (t->state == 0) v.push_back(t->id);
    return v.size();
}
static void switchTo(int id) {
    if (T && T->id != id) __sync_fetch_and_add(&SH->threadSwitches, 1);
    T = THREADS[id];
    SCHEDLOG.push_back("T" + std::to_string(id));
    if (SCHEDLOG.size() > 400) SCHEDLOG.erase(SCHEDLOG.begin(), SCHEDLOG.begin() + 100);
}
static int chooseIdx(int n) {
    if (SCHED_MODE == 0 || CONCRETE_REPLAY) return 0;
    for (int i = n - 1; i > 0; --i) if (forkState()) return i;
    return 0;
}
static void pickNext() {  // current thread cannot run
    std::vector<int> r;
    if (!runnableCount(r)) {
        // timed waiters may time out
        for (auto* t : THREADS) if (t->state == 3 && t->timed) { t->state = 0; t->timedOut = true; r.push_back(t->id); }
        if (r.empty()) {
            if (THREADS[0]->state == 1) endPath(0, nullptr);
            violation("deadlock", "no runnable thread", nullptr);
            endPath(0, nullptr);
        }
    }
    switchTo(r[chooseIdx(r.size())]);
}
void blockCurrent(int state, uint64_t o1, uint64_t o2) {
    T->state = state;
    T->waitObj = o1;
    T->waitObj2 = o2;
    pickNext();
}
void schedPoint(const char* why) {
    if (THREADS.size() < 2) return;
    std::vector<int> r;
    if (runnableCount(r) < 2) return;
    if (SCHED_MODE == 0 || SCHED_PREEMPT <= 0) return;
    // option 0: continue with the current thread; others cost one preemption
    std::vector<int> opts{T->id};
    for (int i : r) if (i != T->id) opts.push_back(i);
    int c = chooseIdx(opts.size());
    if (c) { --SCHED_PREEMPT; switchTo(opts[c]); }
}
static void threadFinished() {
    if (T->id == 0) endPath(0, nullptr);
    T->state = 1;
    for (auto* t : THREADS) if (t->state == 4 && t->waitObj == (uint64_t)T->id) t->state = 0;
    pickNext();
}
static Thread* makeThread() {
    Thread* t = new Thread;
    t->id = THREADS.size();
    size_t nreg = 1 << 20;
    t->regBase = (Reg*)mmap(nullptr, nreg * sizeof(Reg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->regTop = t->regBase;
    t->sp = STACKS + t->id * STACK_SZ + 4096;
    t->spLimit = STACKS + (t->id + 1) * STACK_SZ - 65536;
    t->state = 0;
    t->waitObj = t->waitObj2 = 0;
    t->signaled = t->timedOut = t->timed = false;
    t->exnPtr = 0;
    t->exnSel = 0;
    t->retval = 0;
    if (t->id >= 20) endPath(2, "too many threads");
    THREADS.push_back(t);
    return t;
}
int spawnThread(DFunc* f, uint64_t arg) {
    Thread* t = makeThread();
    Thread* save = T;
    T = t;
    Reg a{arg, 0, 0};
    pushCall(f, &a, 1, 0, true);
    T = save;
    if (SCHED_MODE) raceStart();
    raceSpawn(t->id);
    return t->id;
}

// ------------------------------------------------------------ main loop
static double fD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float fF(uint64_t v) { uint32_t u = v; float f; memcpy(&f, &u, 4); return f; }
static uint64_t dB(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fB(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }

static void divCheck(const Reg& b, unsigned w) {
    bool zero;
    if (b.e) zero = branch(xBin(X_EQ, b.e, xConst(0, w)));
    else zero = b.v == 0;
    if (zero) {
        violation("arith", "division by zero in " + demangle1(T->st.back().f->name), nullptr);
        endPath(0, nullptr);
    }
}
static EX symCmp(uint16_t op, EX a, EX b) {
    switch (op) {
    case O_EQ: return xBin(X_EQ, a, b);
    case O_NE: return xNot(xBin(X_EQ, a, b));
    case O_ULT: return xBin(X_ULT, a, b);
    case O_ULE: return xBin(X_ULE, a, b);
    case O_UGT: return xBin(X_ULT, b, a);
    case O_UGE: return xBin(X_ULE, b, a);
    case O_SLT: return xBin(X_SLT, a, b);
    case O_SLE: return xBin(X_SLE, a, b);
    case O_SGT: return xBin(X_SLT, b, a);
    default: return xBin(X_SLE, b, a);
    }
}
static EX symPop(EX a, unsigned w) {
    EX s = xConst(0, w);
    for (unsigned i = 0; i < w; ++i) s = xBin(X_ADD, s, xZExt(xExtract(a, i, 1), w));
    return s;
}
static EX symCtz(EX a, unsigned w) {
    EX r = xConst(w, w);
    for (int i = w - 1; i >= 0; --i) r = xIte(xExtract(a, i, 1), xConst(i, w), r);
    return r;
}
static EX symClz(EX a, unsigned w) {
    EX r = xConst(w, w);
    for (unsigned i = 0; i < w; ++i) r = xIte(xExtract(a, i, 1), xConst(w - 1 - i, w), r);
    return r;
}
static EX symFcmp(unsigned pred, EX a, EX b) {
    EX uno = xFp(X_FUNO, a, b, 1), ord = xNot(uno);
    EX eq = xFp(X_FEQ, a, b, 1);
    switch (pred) {
    case CmpInst::FCMP_FALSE: return xConst(0, 1);
    case CmpInst::FCMP_TRUE: return xConst(1, 1);
    case CmpInst::FCMP_OEQ: return eq;
    case CmpInst::FCMP_OGT: return xFp(X_FLT, b, a, 1);
    case CmpInst::FCMP_OGE: return xFp(X_FLE, b, a, 1);
    case CmpInst::FCMP_OLT: return xFp(X_FLT, a, b, 1);
    case CmpInst::FCMP_OLE: return xFp(X_FLE, a, b, 1);
    case CmpInst::FCMP_ONE: return xBin(X_AND, ord, xNot(eq));
    case CmpInst::FCMP_ORD: return ord;
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return xBin(X_OR, uno, eq);
    case CmpInst::FCMP_UGT: return xNot(xFp(X_FLE, a, b, 1));
    case CmpInst::FCMP_UGE: return xNot(xFp(X_FLT, a, b, 1));
    case CmpInst::FCMP_ULT: return xNot(xFp(X_FLE, b, a, 1));
    case CmpInst::FCMP_ULE: return xNot(xFp(X_FLT, b, a, 1));
    case CmpInst::FCMP_UNE: return xNot(eq);
    }
    abort();
}
static bool concFcmp(unsigned pred, double a, double b) {
    bool uno = std::isnan(a) || std::isnan(b);
    switch (pred) {
    case CmpInst::FCMP_FALSE: return false;
    case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return a == b;
    case CmpInst::FCMP_OGT: return a > b;
    case CmpInst::FCMP_OGE: return a >= b;
    case CmpInst::FCMP_OLT: return a < b;
    case CmpInst::FCMP_OLE: return a <= b;
    case CmpInst::FCMP_ONE: return !uno && a != b;
    case CmpInst::FCMP_ORD: return !uno;
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return uno || a == b;
    case CmpInst::FCMP_UGT: return uno || a > b;
    case CmpInst::FCMP_UGE: return uno || a >= b;
    case CmpInst::FCMP_ULT: return uno || a < b;
    case CmpInst::FCMP_ULE: return uno || a <= b;
    case CmpInst::FCMP_UNE: return uno || a != b;
    }
    return false;
}
static double fun1(int k, double x) {
    switch (k) {
    case FN_SQRT: return sqrt(x); case FN_FABS: return fabs(x); case FN_FLOOR: return floor(x); case FN_CEIL: return ceil(x);
    case FN_TRUNC: return trunc(x); case FN_ROUND: return round(x); case FN_RINT: return rint(x); case FN_LOG: return log(x);
    case FN_EXP: return exp(x); case FN_EXP2: return exp2(x); case FN_LOG10: return log10(x); case FN_LOG2: return log2(x); case FN_SIN: return sin(x); case FN_COS: return cos(x);
    }
    return 0;
}

[[noreturn]] static void run() {
    uint64_t nextCheck = instrCount + 4000000;
reload:
    if (instrCount > nextCheck) { checkBudget(); nextCheck = instrCount + 4000000; }
    Frame* f = &T->st.back();
    Reg* R = f->r;
    const Reg* C = f->f->consts.data();
    Op* pc = f->pc;
    while (true) {
        Op* o = pc++;
        ++instrCount;
        switch (o->op) {
        case O_MOV: R[o->d] = RD(o->a); break;
#define BIN(OP, EXPR, XOP) case OP: { const Reg &A = RD(o->a), &B = RD(o->b); if (__builtin_expect(!(A.e | B.e), 1)) { uint64_t a = A.v, b = B.v; (void)a; (void)b; Reg& D = R[o->d]; D.v = (EXPR) & o->k; D.e = 0; } else { EX e = xBin(XOP, toEx(A, o->w), toEx(B, o->w)); setEx(R[o->d], e); } break; }
        BIN(O_ADD, a + b, X_ADD)
        BIN(O_SUB, a - b, X_SUB)
        BIN(O_MUL, a * b, X_MUL)
        BIN(O_AND, a & b, X_AND)
        BIN(O_OR, a | b, X_OR)
        BIN(O_XOR, a ^ b, X_XOR)
        BIN(O_SHL, b >= o->w ? 0 : a << b, X_SHL)
        BIN(O_LSHR, b >= o->w ? 0 : a >> b, X_LSHR)
        BIN(O_ASHR, (uint64_t)(sx64(a, o->w) >> (b >= o->w ? o->w - 1 : b)), X_ASHR)
#define DIVOP(OP, XOP) case OP: { Reg A = RD(o->a), B = RD(o->b); f->pc = pc; divCheck(B, o->w); if (!(A.e | B.e)) { R[o->d].v = evalOp(XOP, o->w, A.v, B.v, 0, 0, o->w, o->w); R[o->d].e = 0; } else setEx(R[o->d], xBin(XOP, toEx(A, o->w), toEx(B, o->w))); break; }
        DIVOP(O_UDIV, X_UDIV)
        DIVOP(O_SDIV, X_SDIV)
        DIVOP(O_UREM, X_UREM)
        DIVOP(O_SREM, X_SREM)
#define CMP(OP, EXPR) case OP: { const Reg &A = RD(o->a), &B = RD(o->b); if (__builtin_expect(!(A.e | B.e), 1)) { uint64_t a = A.v, b = B.v; Reg& D = R[o->d]; D.v = (EXPR); D.e = 0; } else { EX e = symCmp(OP, toEx(A, o->w), toEx(B, o->w)); setEx(R[o->d], e); } break; }
        CMP(O_EQ, a == b)
        CMP(O_NE, a != b)
        CMP(O_ULT, a < b)
        CMP(O_ULE, a <= b)
        CMP(O_UGT, a > b)
        CMP(O_UGE, a >= b)
        CMP(O_SLT, sx64(a, o->w) < sx64(b, o->w))
        CMP(O_SLE, sx64(a, o->w) <= sx64(b, o->w))
        CMP(O_SGT, sx64(a, o->w) > sx64(b, o->w))
        CMP(O_SGE, sx64(a, o->w) >= sx64(b, o->w))
        case O_ZEXT: { const Reg& A = RD(o->a); if (!A.e) { R[o->d] = Reg{A.v, 0, 0}; } else setEx(R[o->d], xZExt(A.e, o->w)); break; }
        case O_SEXT: { const Reg& A = RD(o->a); if (!A.e) { R[o->d] = Reg{(uint64_t)sx64(A.v, o->w2) & wmask(o->w), 0, 0}; } else setEx(R[o->d], xSExt(A.e, o->w)); break; }
        case O_TRNC: { const Reg& A = RD(o->a); if (!A.e) { R[o->d] = Reg{A.v & wmask(o->w), 0, 0}; } else setEx(R[o->d], xExtract(A.e, 0, o->w)); break; }
        case O_LOAD: {
            const Reg& A = RD(o->a);
            if (__builtin_expect(!A.e, 1)) {
                f->pc = pc;
                if (__builtin_expect(RACE_ON, 0)) { if (o->b) { if (o->b > 1) raceAcquire(A.v + o->k); } else raceAcc(A.v + o->k, o->w2, false, false); }
                loadFast(A.v + o->k, o->w2, o->w, R[o->d]);
            } else { f->pc = pc; Reg t; loadSymAddr(xBin(X_ADD, A.e, xConst(o->k, 64)), o->w2, o->w, t); R[o->d] = t; }
            break;
        }
        case O_STORE: {
            const Reg &A = RD(o->a), &B = RD(o->b);
            f->pc = pc;
            if (__builtin_expect(RACE_ON, 0) && !A.e) {
                uint64_t at = A.v + o->k;
                if (o->d) { if (o->d > 1) raceRelease(at); }
                else raceAcc(at, o->w2, true, o->w2 == 8);
            }
            if (__builtin_expect(!A.e, 1)) storeFast(A.v + o->k, o->w2, B, o->w);
            else storeSymAddr(xBin(X_ADD, A.e, xConst(o->k, 64)), o->w2, B, o->w);
            break;
        }
        case O_ALLOCA: {
            Reg nn = RD(o->a);
            f->pc = pc;
            uint64_t n = conc(nn) * o->k;
            uint64_t al = o->b < 16 ? 16 : o->b;
            uint64_t a = (T->sp + 16 + al - 1) & ~(al - 1);
            if (a + n + 64 > T->spLimit) { violation("stack", "stack overflow in " + demangle1(f->f->name), nullptr); endPath(0, nullptr); }
            memset(ST(a), M_V, n);
            memset((void*)a, 0xA5, n);
            T->sp = a + n + 16;
            R[o->d] = Reg{a, 0, 0};
            break;
        }
        case O_GEPC: { const Reg& A = RD(o->a); if (!A.e) R[o->d] = Reg{A.v + o->k, 0, 0}; else setEx(R[o->d], xBin(X_ADD, A.e, xConst(o->k, 64))); break; }
        case O_GEPI: {
            const Reg &A = RD(o->a), &B = RD(o->b);
            if (!(A.e | B.e)) R[o->d] = Reg{A.v + (uint64_t)sx64(B.v, o->w2) * o->k, 0, 0};
            else {
                EX ix = toEx(B, o->w2);
                if (o->w2 < 64) ix = xSExt(ix, 64); else if (o->w2 > 64) ix = xExtract(ix, 0, 64);
                EX e = xBin(X_ADD, toEx(A, 64), xBin(X_MUL, ix, xConst(o->k, 64)));
                setEx(R[o->d], e);
            }
            break;
        }
        case O_SELECT: {
            const Reg& A = RD(o->a);
            if (!A.e) R[o->d] = A.v & 1 ? RD(o->b) : RD(o->c);
            else {
                Reg B = RD(o->b), D = RD(o->c);
                if (B.e == D.e && (B.e || B.v == D.v)) R[o->d] = B;
                else if (o->w2) { f->pc = pc; R[o->d] = branch(A.e) ? B : D; }
                else setEx(R[o->d], xIte(A.e, toEx(B, o->w), toEx(D, o->w)));
            }
            break;
        }
        case O_BR: { takeEdge(*f, o->a); pc = f->pc; if (instrCount > nextCheck) { checkBudget(); nextCheck = instrCount + 4000000; } break; }
        case O_CBR: {
            const Reg& A = RD(o->a);
            bool t;
            if (!A.e) t = A.v & 1;
            else { f->pc = pc; t = branch(A.e); }
            takeEdge(*f, t ? o->b : o->c);
            pc = f->pc;
            if (instrCount > nextCheck) { checkBudget(); nextCheck = instrCount + 4000000; }
            break;
        }
        case O_SWITCH: {
            Reg A = RD(o->a);
            auto* si = (SwitchInfo*)o->p;
            int e = -1;
            if (!A.e) { auto it = si->map.find(A.v); e = it == si->map.end() ? si->def : it->second; }
            else {
                f->pc = pc;
                // group cases by target block, one fork per target
                std::vector<std::pair<int, EX>> groups;
                for (auto& c : si->cases) {
                    EX q = xBin(X_EQ, A.e, xConst(c.first, o->w));
                    bool found = false;
                    for (auto& g : groups) {
                        Edge &x = f->f->edges[g.first], &y = f->f->edges[c.second];
                        if (x.pc == y.pc && x.moves == y.moves) { g.second = xBin(X_OR, g.second, q); found = true; break; }
                    }
                    if (!found) groups.push_back({c.second, q});
                }
                e = si->def;
                // try the group the witness is in first (cheap), order otherwise irrelevant
                for (auto& g : groups) if (branch(g.second)) { e = g.first; break; }
            }
            takeEdge(*f, e);
            pc = f->pc;
            break;
        }
        case O_RET: f->pc = pc; doRet(o); goto reload;
        case O_CALL: {
            f->pc = pc;
            doCall(o);
            goto reload;
        }
        case O_LPAD: R[o->d] = Reg{T->exnPtr, 0, 0}; R[o->d + 1] = Reg{(uint32_t)T->exnSel, 0, 0}; break;
        case O_RESUME: {
            uint64_t obj = RD(o->a).v;
            f->pc = pc;
            f->callop = nullptr;
            popFrame();
            if (T->st.empty()) { violation("exception", "uncaught exception " + exnName(obj), nullptr); endPath(0, nullptr); }
            throwExn(obj);
            goto reload;
        }
        case O_UNREACH:
            f->pc = pc;
            violation("ub", "unreachable code reached in " + demangle1(f->f->name), nullptr);
            endPath(0, nullptr);
#define FBIN(OP, EXPR, XOP) case OP: { const Reg &A = RD(o->a), &B = RD(o->b); if (!(A.e | B.e)) { if (o->w == 64) { double a = fD(A.v), b = fD(B.v); R[o->d] = Reg{dB(EXPR), 0, 0}; } else { float a = fF(A.v), b = fF(B.v); R[o->d] = Reg{fB(EXPR), 0, 0}; } } else { EX e = xFp(XOP, toEx(A, o->w), toEx(B, o->w), o->w); setEx(R[o->d], e); } break; }
        FBIN(O_FADD, a + b, X_FADD)
        FBIN(O_FSUB, a - b, X_FSUB)
        FBIN(O_FMUL, a * b, X_FMUL)
        FBIN(O_FDIV, a / b, X_FDIV)
        case O_FREM: { Reg A = RD(o->a), B = RD(o->b); f->pc = pc; conc(A); conc(B); R[o->d] = Reg{o->w == 64 ? dB(fmod(fD(A.v), fD(B.v))) : fB(fmodf(fF(A.v), fF(B.v))), 0, 0}; break; }
        case O_FNEG: { const Reg& A = RD(o->a); uint64_t s = 1ull << (o->w - 1); if (!A.e) R[o->d] = Reg{A.v ^ s, 0, 0}; else setEx(R[o->d], xBin(X_XOR, A.e, xConst(s, o->w))); break; }
        case O_FCMP: {
            const Reg &A = RD(o->a), &B = RD(o->b);
            if (!(A.e | B.e)) R[o->d] = Reg{concFcmp(o->k, o->w == 64 ? fD(A.v) : fF(A.v), o->w == 64 ? fD(B.v) : fF(B.v)), 0, 0};
            else { EX e = symFcmp(o->k, toEx(A, o->w), toEx(B, o->w)); setEx(R[o->d], e); }
            break;
        }
#define FCVT(OP, XOP) case OP: { const Reg& A = RD(o->a); if (!A.e) R[o->d] = Reg{evalOp(XOP, o->w, A.v, 0, 0, 0, o->w2, 0), 0, 0}; else setEx(R[o->d], xFp(XOP, A.e, 0, o->w)); break; }
        FCVT(O_SITOFP, X_SITOFP)
        FCVT(O_UITOFP, X_UITOFP)
        FCVT(O_FPTOSI, X_FPTOSI)
        FCVT(O_FPTOUI, X_FPTOUI)
        FCVT(O_FPEXT, X_FPEXT)
        FCVT(O_FPTRUNC, X_FPTRUNC)
        case O_FUN1: {
            Reg A = RD(o->a);
            if (A.e && (o->k == FN_SQRT || o->k == FN_FABS || o->k == FN_FLOOR || o->k == FN_CEIL)) {
                setEx(R[o->d], xFp(o->k == FN_SQRT ? X_FSQRT : o->k == FN_FABS ? X_FABS : o->k == FN_FLOOR ? X_FFLOOR : X_FCEIL, A.e, 0, o->w));
                break;
            }
            f->pc = pc; conc(A);
            R[o->d] = Reg{o->w == 64 ? dB(fun1(o->k, fD(A.v))) : fB((float)fun1(o->k, fF(A.v))), 0, 0};
            break;
        }
        case O_FUN2: {
            Reg A = RD(o->a), B = RD(o->b);
            f->pc = pc; conc(A); conc(B);
            double a = o->w == 64 ? fD(A.v) : fF(A.v), b = o->w == 64 ? fD(B.v) : fF(B.v), r = 0;
            switch (o->k) { case FN_POW: r = pow(a, b); break; case FN_MINNUM: r = fmin(a, b); break; case FN_MAXNUM: r = fmax(a, b); break; case FN_COPYSIGN: r = copysign(a, b); break; }
            R[o->d] = Reg{o->w == 64 ? dB(r) : fB((float)r), 0, 0};
            break;
        }
        case O_FMA: {
            Reg A = RD(o->a), B = RD(o->b), D = RD(o->c);
            if (A.e | B.e | D.e) { EX e = xFp(X_FADD, xFp(X_FMUL, toEx(A, o->w), toEx(B, o->w), o->w), toEx(D, o->w), o->w); setEx(R[o->d], e); break; }
            if (o->w == 64) R[o->d] = Reg{dB(o->k ? fma(fD(A.v), fD(B.v), fD(D.v)) : fD(A.v) * fD(B.v) + fD(D.v)), 0, 0};
            else R[o->d] = Reg{fB(fF(A.v) * fF(B.v) + fF(D.v)), 0, 0};
            break;
        }
        case O_ARMW: {
            Reg P = RD(o->a), V = RD(o->b), old, nw;
            f->pc = pc;
            uint64_t a = conc(P);
            if (RACE_ON && o->c) { raceAcquire(a); raceRelease(a); }
            loadFast(a, o->w2, o->w, old);
            uint64_t m = wmask(o->w);
            XBIN:
            switch (o->k) {
            case AtomicRMWInst::Xchg: nw = V; break;
            case AtomicRMWInst::Add: if (old.e | V.e) setEx(nw, xBin(X_ADD, toEx(old, o->w), toEx(V, o->w))); else nw = Reg{(old.v + V.v) & m, 0, 0}; break;
            case AtomicRMWInst::Sub: if (old.e | V.e) setEx(nw, xBin(X_SUB, toEx(old, o->w), toEx(V, o->w))); else nw = Reg{(old.v - V.v) & m, 0, 0}; break;
            case AtomicRMWInst::And: conc(old); conc(V); nw = Reg{old.v & V.v, 0, 0}; break;
            case AtomicRMWInst::Or: conc(old); conc(V); nw = Reg{old.v | V.v, 0, 0}; break;
            case AtomicRMWInst::Xor: conc(old); conc(V); nw = Reg{old.v ^ V.v, 0, 0}; break;
            default: endPath(2, "atomicrmw op");
            }
            (void)&&XBIN;
            storeFast(a, o->w2, nw, o->w);
            R[o->d] = old;
            break;
        }
        case O_CMPXCHG: {
            Reg P = RD(o->a), X = RD(o->b), Y = RD(o->c), old;
            f->pc = pc;
            uint64_t a = conc(P);
            if (RACE_ON) { raceAcquire(a); raceRelease(a); }
            loadFast(a, o->w2, o->w, old);
            conc(old); conc(X);
            bool eq = old.v == X.v;
            if (eq) storeFast(a, o->w2, Y, o->w);
            R[o->d] = old;
            R[o->d + 1] = Reg{eq, 0, 0};
            break;
        }
        case O_MEMCPY: { Reg A = RD(o->a), B = RD(o->b), N = RD(o->c); f->pc = pc; conc(N); if (N.v) { conc(A); conc(B); copyMem(A.v, B.v, N.v); } break; }
        case O_MEMSET: { Reg A = RD(o->a), B = RD(o->b), N = RD(o->c); f->pc = pc; conc(N); if (N.v) { conc(A); setMem(A.v, B, N.v); } break; }
        case O_CTPOP: { const Reg& A = RD(o->a); if (!A.e) R[o->d] = Reg{(uint64_t)__builtin_popcountll(A.v), 0, 0}; else setEx(R[o->d], symPop(A.e, o->w)); break; }
        case O_CTTZ: { const Reg& A = RD(o->a); if (!A.e) R[o->d] = Reg{A.v ? (uint64_t)__builtin_ctzll(A.v) : o->w, 0, 0}; else setEx(R[o->d], symCtz(A.e, o->w)); break; }
        case O_CTLZ: { const Reg& A = RD(o->a); if (!A.e) R[o->d] = Reg{A.v ? (uint64_t)__builtin_clzll(A.v) - (64 - o->w) : o->w, 0, 0}; else setEx(R[o->d], symClz(A.e, o->w)); break; }
        case O_BSWAP: {
            const Reg& A = RD(o->a);
            if (!A.e) R[o->d] = Reg{__builtin_bswap64(A.v) >> (64 - o->w), 0, 0};
            else { EX e = xExtract(A.e, 0, 8); for (unsigned i = 8; i < o->w; i += 8) e = xConcat(e, xExtract(A.e, i, 8)); setEx(R[o->d], e); }
            break;
        }
        case O_FSHL: case O_FSHR: {
            Reg A = RD(o->a), B = RD(o->b), S = RD(o->c);
            f->pc = pc;
            if (A.e | B.e | S.e) {
                uint64_t s = conc(S) % o->w;
                if (o->op == O_FSHR) s = s ? o->w - s : 0; 
                // fshr(a,b,s) = fshl(a,b,w-s) for s != 0, and b for s == 0
                if (s == 0) R[o->d] = o->op == O_FSHL ? A : B;
                else setEx(R[o->d], xBin(X_OR, xBin(X_SHL, toEx(A, o->w), xConst(s, o->w)), xBin(X_LSHR, toEx(B, o->w), xConst(o->w - s, o->w))));
            } else {
                uint64_t s = S.v % o->w, m = wmask(o->w);
                if (o->op == O_FSHR) { if (!s) { R[o->d] = B; break; } s = o->w - s; }
                R[o->d] = s ? Reg{((A.v << s) | (B.v >> (o->w - s))) & m, 0, 0} : A;
            }
            break;
        }
        case O_ABS: {
            const Reg& A = RD(o->a);
            if (!A.e) { int64_t x = sx64(A.v, o->w); R[o->d] = Reg{(uint64_t)(x < 0 ? -x : x) & wmask(o->w), 0, 0}; }
            else setEx(R[o->d], xIte(xBin(X_SLT, A.e, xConst(0, o->w)), xBin(X_SUB, xConst(0, o->w), A.e), A.e));
            break;
        }
#define MM(OP, COND, XOP, SW) case OP: { const Reg &A = RD(o->a), &B = RD(o->b); if (!(A.e | B.e)) { R[o->d] = (COND) ? A : B; } else { EX a = toEx(A, o->w), b = toEx(B, o->w); setEx(R[o->d], xIte(SW ? xBin(XOP, b, a) : xBin(XOP, a, b), a, b)); } break; }
        MM(O_SMAX, sx64(A.v, o->w) > sx64(B.v, o->w), X_SLT, true)
        MM(O_SMIN, sx64(A.v, o->w) < sx64(B.v, o->w), X_SLT, false)
        MM(O_UMAX, A.v > B.v, X_ULT, true)
        MM(O_UMIN, A.v < B.v, X_ULT, false)
        case O_UADDSAT: { EX a = toEx(RD(o->a), o->w), b = toEx(RD(o->b), o->w); EX s = xBin(X_ADD, a, b); setEx(R[o->d], xIte(xBin(X_ULT, s, a), xConst(~0ull, o->w), s)); break; }
        case O_USUBSAT: { EX a = toEx(RD(o->a), o->w), b = toEx(RD(o->b), o->w); setEx(R[o->d], xIte(xBin(X_ULT, a, b), xConst(0, o->w), xBin(X_SUB, a, b))); break; }
        case O_UADDO: { EX a = toEx(RD(o->a), o->w), b = toEx(RD(o->b), o->w); EX s = xBin(X_ADD, a, b); setEx(R[o->d], s); setEx(R[o->d + 1], xBin(X_ULT, s, a)); break; }
        case O_USUBO: { EX a = toEx(RD(o->a), o->w), b = toEx(RD(o->b), o->w); setEx(R[o->d], xBin(X_SUB, a, b)); setEx(R[o->d + 1], xBin(X_ULT, a, b)); break; }
        case O_SADDO: { EX a = toEx(RD(o->a), o->w), b = toEx(RD(o->b), o->w); EX s = xBin(X_ADD, a, b), z = xConst(0, o->w); EX v = xBin(X_AND, xNot(xBin(X_XOR, xBin(X_SLT, a, z), xBin(X_SLT, b, z))), xBin(X_XOR, xBin(X_SLT, s, z), xBin(X_SLT, a, z))); setEx(R[o->d], s); setEx(R[o->d + 1], v); break; }
        case O_SSUBO: { EX a = toEx(RD(o->a), o->w), b = toEx(RD(o->b), o->w); EX s = xBin(X_SUB, a, b), z = xConst(0, o->w); EX v = xBin(X_AND, xBin(X_XOR, xBin(X_SLT, a, z), xBin(X_SLT, b, z)), xBin(X_XOR, xBin(X_SLT, s, z), xBin(X_SLT, a, z))); setEx(R[o->d], s); setEx(R[o->d + 1], v); break; }
        case O_UMULO: case O_SMULO: {
            Reg A = RD(o->a), B = RD(o->b);
            f->pc = pc;
            if ((A.e | B.e) && o->w == 64 && o->op == O_UMULO && (!A.e || !B.e)) {
                uint64_t k = A.e ? B.v : A.v;
                EX x = A.e ? A.e : B.e;
                setEx(R[o->d], xBin(X_MUL, x, xConst(k, 64)));
                setEx(R[o->d + 1], k ? xBin(X_ULT, xConst(~0ull / k, 64), x) : xConst(0, 1));
                break;
            }
            conc(A); conc(B);
            if (o->op == O_UMULO) { unsigned __int128 r = (unsigned __int128)A.v * B.v; R[o->d] = Reg{(uint64_t)r & wmask(o->w), 0, 0}; R[o->d + 1] = Reg{(r >> o->w) != 0, 0, 0}; }
            else { __int128 r = (__int128)sx64(A.v, o->w) * sx64(B.v, o->w); R[o->d] = Reg{(uint64_t)r & wmask(o->w), 0, 0}; R[o->d + 1] = Reg{r != (__int128)sx64((uint64_t)r, o->w), 0, 0}; }
            break;
        }
        case O_TYPEID: R[o->d] = Reg{(uint64_t)typeIdFor(RD(o->a).v), 0, 0}; break;
        case O_STACKSAVE: R[o->d] = Reg{T->sp, 0, 0}; break;
        case O_STACKRESTORE: { uint64_t s = RD(o->a).v; killStack(s, T->sp); T->sp = s; break; }
        case O_VASTART: {
            uint64_t a = RD(o->a).v;
            uint32_t gp = 48, fp = 304;
            f->pc = pc;
            checkRange(a, 24, true, "va_start");
            memcpy((void*)a, &gp, 4); memcpy((void*)(a + 4), &fp, 4); memcpy((void*)(a + 8), &f->va, 8); memset((void*)(a + 16), 0, 8);
            break;
        }
        case O_VACOPY: { f->pc = pc; copyMem(RD(o->a).v, RD(o->b).v, 24); break; }
        case O_ZEXT128: { const Reg A = RD(o->a); R[o->d] = A; if (o->w2 < 64 && A.e) setEx(R[o->d], xZExt(A.e, 64)); R[o->d + 1] = Reg{0, 0, 0}; break; }
        case O_SEXT128: { Reg A = RD(o->a); f->pc = pc; conc(A); int64_t x = sx64(A.v, o->w2); R[o->d] = Reg{(uint64_t)x, 0, 0}; R[o->d + 1] = Reg{x < 0 ? ~0ull : 0, 0, 0}; break; }
        case O_TRUNC128: { const Reg A = RD(o->a); if (A.e && o->w < 64) setEx(R[o->d], xExtract(A.e, 0, o->w)); else R[o->d] = Reg{A.v & wmask(o->w), A.e, 0}; break; }
        case O_BIN128: {
            int bi = (int)(uint32_t)o->k, op = o->k >> 32;
            Reg A0 = RD(o->a), A1 = RD(o->c), B0 = RD(o->b), B1 = RD(bi);
            f->pc = pc;
            if ((A0.e | A1.e) && !(B0.e | B1.e) && op == O_LSHR && B0.v == 64) { R[o->d] = A1; R[o->d + 1] = Reg{0, 0, 0}; break; }
            if ((A0.e | B0.e) && !(A1.e | B1.e) && A1.v == 0 && B1.v == 0 && op == O_MUL) {
                // 64x64 -> 128 by 32-bit halves
                EX x = toEx(A0, 64), y = toEx(B0, 64), c32 = xConst(32, 64);
                EX xl = xZExt(xExtract(x, 0, 32), 64), xh = xZExt(xExtract(x, 32, 32), 64), yl = xZExt(xExtract(y, 0, 32), 64), yh = xZExt(xExtract(y, 32, 32), 64);
                EX ll = xBin(X_MUL, xl, yl), lh = xBin(X_MUL, xl, yh), hl = xBin(X_MUL, xh, yl), hh = xBin(X_MUL, xh, yh);
                EX mid = xBin(X_ADD, xBin(X_LSHR, ll, c32), xZExt(xExtract(lh, 0, 32), 64));
                mid = xBin(X_ADD, mid, xZExt(xExtract(hl, 0, 32), 64));
                EX hi = xBin(X_ADD, xBin(X_ADD, hh, xBin(X_LSHR, lh, c32)), xBin(X_ADD, xBin(X_LSHR, hl, c32), xBin(X_LSHR, mid, c32)));
                setEx(R[o->d], xBin(X_MUL, x, y));
                setEx(R[o->d + 1], hi);
                break;
            }
            conc(A0); conc(A1); conc(B0); conc(B1);
            typedef unsigned __int128 u128;
            u128 a = ((u128)A1.v << 64) | A0.v, b = ((u128)B1.v << 64) | B0.v, r = 0;
            switch (op) {
            case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a * b; break;
            case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
            case O_SHL: r = b < 128 ? a << (int)b : 0; break; case O_LSHR: r = b < 128 ? a >> (int)b : 0; break;
            case O_ASHR: r = (u128)((__int128)a >> (int)(b < 128 ? b : 127)); break;
            case O_UDIV: r = b ? a / b : 0; break; case O_UREM: r = b ? a % b : 0; break;
            default: endPath(2, "128-bit op");
            }
            R[o->d] = Reg{(uint64_t)r, 0, 0};
            R[o->d + 1] = Reg{(uint64_t)(r >> 64), 0, 0};
            break;
        }
        case O_ICMP128: {
            int bi = (int)(uint32_t)o->k, op = o->k >> 32;
            Reg A0 = RD(o->a), A1 = RD(o->c), B0 = RD(o->b), B1 = RD(bi);
            f->pc = pc;
            conc(A0); conc(A1); conc(B0); conc(B1);
            typedef unsigned __int128 u128;
            u128 a = ((u128)A1.v << 64) | A0.v, b = ((u128)B1.v << 64) | B0.v;
            bool r;
            switch (op) { case O_EQ: r = a == b; break; case O_NE: r = a != b; break; case O_ULT: r = a < b; break; case O_ULE: r = a <= b; break; case O_UGT: r = a > b; break; case O_UGE: r = a >= b; break; case O_SLT: r = (__int128)a < (__int128)b; break; case O_SLE: r = (__int128)a <= (__int128)b; break; case O_SGT: r = (__int128)a > (__int128)b; break; default: r = (__int128)a >= (__int128)b; }
            R[o->d] = Reg{r, 0, 0};
            break;
        }
        case O_NOP: break;
        case O_TRAP:
            f->pc = pc;
            if (*(std::string*)o->p == "llvm.trap") { violation("ub", "trap reached in " + demangle1(f->f->name), nullptr); endPath(0, nullptr); }
            endPath(2, ((std::string*)o->p)->c_str());
        default:
            endPath(2, "bad opcode");
        }
    }
}

// ------------------------------------------------------------ operator new/delete of the host process
void operator delete(void* p) noexcept { if (inArena((uint64_t)p)) gFree((uint64_t)p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------ setup
static void setupModule() {
    for (Function& f : *MOD) {
        if (f.isIntrinsic()) continue;
        DFunc* d = new DFunc;
        d->F = &f;
        d->name = f.getName().str();
        d->id = FUNCS.size();
        auto it = BUILTINS.find(d->name);
        if (it != BUILTINS.end()) d->bi = it->second;
        FUNCS.push_back(d);
        FMAP[&f] = d;
    }
    std::vector<GlobalVariable*> defs;
    for (GlobalVariable& g : MOD->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        if (g.isDeclaration()) {
            uint64_t a = symbolAddr(g.getName().str());
            if (!a && getenv("SX_DEBUG")) fprintf(stderr, "unresolved external variable %s\n", g.getName().str().c_str());
            GADDR[&g] = a;
            continue;
        }
        uint64_t n = DL->getTypeAllocSize(g.getValueType());
        GADDR[&g] = gGlobal(n ? n : 1, DL->getPreferredAlign(&g).value());
        defs.push_back(&g);
    }
    for (GlobalVariable* g : defs) {
        initGlobal(GADDR[g], g->getInitializer());
        if (g->isConstant()) {
            uint64_t n = DL->getTypeAllocSize(g->getValueType());
            uint8_t* s = ST(GADDR[g]);
            for (uint64_t i = 0; i < n; ++i) s[i] |= M_RO;
        }
    }
}
static std::string ENTRY = "sx_main";
static void worker() {
    makeThread();
    T = THREADS[0];
    // program: global constructors, then sx_main, run as one call list via a synthetic driver
    std::vector<DFunc*> seq;
    if (GlobalVariable* gc = MOD->getNamedGlobal("llvm.global_ctors")) {
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<int, Function*>> v;
            for (auto& op : ca->operands()) {
                auto* cs = cast<ConstantStruct>(op);
                auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
                if (fn) v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), fn});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) seq.push_back(FMAP[p.second]);
        }
    }
    Function* mf = MOD->getFunction(ENTRY);
    if (!mf) { fprintf(stderr, "no entry %s\n", ENTRY.c_str()); exit(2); }
    seq.push_back(FMAP[mf]);
    // driver function: code = calls in order, then ret
    DFunc* drv = new DFunc;
    drv->name = "<driver>";
    drv->id = (1 << 17) - 1;
    drv->decoded = true;
    drv->nregs = 1;
    for (DFunc* s : seq) {
        Op o;
        memset(&o, 0, sizeof o);
        o.op = O_CALL;
        auto* ci = new CallInfo;
        ci->callee = s;
        ci->name = s->name;
        o.p = ci;
        drv->code.push_back(o);
    }
    Op o;
    memset(&o, 0, sizeof o);
    o.op = O_RET;
    o.a = -1;
    drv->code.push_back(o);
    pushCall(drv, nullptr, 0, 0, true);
    run();
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static bool RUNKILLED;
static int runEntry(const std::string& entry, const std::string& outdir, double secs, const char* altstack, uint64_t loadUs, uint64_t graceUs) {
    ENTRY = entry;
    OUTDIR = outdir;
    mkdir(OUTDIR.c_str(), 0755);
    memset((void*)SH, 0, sizeof(Shared));
    uint64_t t1 = nowUs();
    DEADLINE_US = t1 + (uint64_t)(secs * 1e6);
    SH->tokens = TOKENS - 1;
    SH->live = 1;
    fflush(stdout);
    solverServersStart(TOKENS);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = (void*)altstack;
        ss.ss_size = 1 << 16;
        sigaltstack(&ss, nullptr);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = onFault;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        sigaction(SIGSEGV, &sa, nullptr);
        sigaction(SIGBUS, &sa, nullptr);
        sigaction(SIGFPE, &sa, nullptr);
        sigaction(SIGABRT, &sa, nullptr);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        worker();
    }
    solverServersClose();
    setpgid(p, p);
    bool killed = false;
    int abnormal = 0;
    while (true) {
        int st;
        pid_t r = waitpid(-1, &st, WNOHANG);
        if (r > 0) { if (WIFSIGNALED(st)) { ++abnormal; __sync_fetch_and_sub(&SH->live, 1); } continue; }
        if (r < 0 && errno == ECHILD) break;
        if (nowUs() > DEADLINE_US + graceUs && !killed) { kill(-p, SIGKILL); killed = true; }
        usleep(1000);
    }
    RUNKILLED = killed || abnormal;
    uint64_t t2 = nowUs();
    // ---- report
    std::string j = "{";
    auto num = [&](const char* k, uint64_t v) { j += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
    num("paths", SH->paths); num("paths_pruned", SH->pathsPruned); num("paths_error", SH->pathsError); num("forks", SH->forks);
    num("instructions", SH->instrs); num("queries", SH->cnt.queries); num("sat", SH->cnt.sat); num("unsat", SH->cnt.unsat); num("unknown", SH->cnt.unknown);
    num("query_cache_hits", SH->cnt.cachehits); num("finite_domain_decisions", SH->cnt.finite); num("solver_us", SH->cnt.solver_us); num("max_query_us", SH->cnt.max_query_us);
    num("asserts", SH->asserts); num("asserts_solver_decided", SH->assertsSolved); num("concretizations", SH->concretizations); num("native_calls", SH->nativeCalls);
    num("symbolic_address_ops", SH->memops_sym); num("incomplete", SH->incomplete + abnormal + (killed ? 1 : 0)); num("max_symbolic_vars", SH->maxVars); num("max_fork_depth", SH->maxDepth);
    num("thread_switches", SH->threadSwitches); num("load_us", loadUs); num("run_us", t2 - t1); num("killed", killed); num("abnormal", abnormal);
    j += "\"covers\":{";
    bool first = true;
    for (auto& c : SH->covers) if (c.name[0]) { j += std::string(first ? "" : ",") + jstr((const char*)c.name) + ":" + std::to_string(c.n); first = false; }
    j += "},\"functions\":[";
    first = true;
    for (auto* f : FUNCS) if (SH->executed[f->id] && !f->F->isDeclaration()) {
        std::string d = demangle1(f->name);
        if (d.find("Lucene::") == std::string::npos && d.find("guni") == std::string::npos && d.find("stem") == std::string::npos) continue;
        size_t lp = d.find('(');
        std::string head = d.substr(0, lp == std::string::npos ? d.size() : lp);
        if (head.compare(0, 8, "Lucene::") != 0 && head.find(" Lucene::") == std::string::npos && head.find('<') != std::string::npos) continue;
        if (head.find("boost::") != std::string::npos || head.find("std::") != std::string::npos) continue;
        j += std::string(first ? "" : ",") + jstr(head);
        first = false;
    }
    j += "]}";
    FILE* f = fopen((OUTDIR + "/result.json").c_str(), "w");
    fputs(j.c_str(), f);
    fclose(f);
    return 0;
}

int main(int argc, char** argv) {
    std::string replay, out;
    std::vector<std::string> bcs, only;
    double secs = 60;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "-o") out = nxt();
        else if (a == "-t") secs = atof(nxt().c_str());
        else if (a == "-e") only.push_back(nxt());
        else if (a == "-j") TOKENS = atoi(nxt().c_str());
        else if (a == "-solver-ms") SOLVER_MS = atoi(nxt().c_str());
        else if (a == "-max-instr") MAXINSTR = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "-max-viol") MAXVIOL = atoi(nxt().c_str());
        else if (a == "-replay") replay = nxt();
        else bcs.push_back(a);
    }
    if (bcs.empty() || out.empty()) { fprintf(stderr, "usage: sxrun -o DIR [-t TOTAL_SECS] [-e ENTRY]... [-j N] module.bc...\n"); return 2; }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    mkdir(out.c_str(), 0755);
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    CNT = &SH->cnt;
    if (!replay.empty()) {
        CONCRETE_REPLAY = true;
        FILE* f = fopen(replay.c_str(), "r");
        char nm[256]; unsigned long long v;
        while (f && fscanf(f, "%255s %llu", nm, &v) == 2) REPLAYIN.push_back({nm, v});
        if (f) fclose(f);
    }
    uint64_t t0 = nowUs();
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(bcs[0], err, ctx);
    if (!m) { err.print("sxrun", errs()); return 2; }
    Linker L(*m);
    for (size_t i = 1; i < bcs.size(); ++i) {
        auto k = parseIRFile(bcs[i], err, ctx);
        if (!k) { err.print("sxrun", errs()); return 2; }
        if (L.linkInModule(std::move(k))) { fprintf(stderr, "sxrun: linking %s failed\n", bcs[i].c_str()); return 2; }
    }
    // a harness function sx_stub_<symbol> stands in for the library function of that name (only in the engine; the
    // native replay runs the real one)
    for (Function& f : *m)
        if (f.getName().starts_with("sx_stub_"))
            if (Function* t = m->getFunction(f.getName().substr(8))) t->replaceAllUsesWith(&f);
    MOD = m.get();
    DL = &MOD->getDataLayout();
    memInit();
    registerBuiltins();
    setupModule();
    struct rlimit rl = {512u << 20, 512u << 20};
    setrlimit(RLIMIT_STACK, &rl);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    static char altstack[1 << 16];
    uint64_t loadUs = nowUs() - t0;
    std::vector<std::string> entries;
    for (Function& f : *MOD) if (!f.isDeclaration() && f.getName().starts_with("sx_h_")) entries.push_back(f.getName().str());
    if (MOD->getFunction("sx_main") && !MOD->getFunction("sx_main")->isDeclaration()) entries.push_back("sx_main");
    if (!only.empty()) entries = only;
    // a short first pass over every entry: small entries are finished by it, and it shows which functions to decode before forking
    double left = secs;
    double slice = std::min(1.0, secs / (4 * entries.size()));
    std::vector<std::string> rest;
    auto warm = [&] { for (size_t i = 0; i < FUNCS.size(); ++i) if (SH->executed[i] && !FUNCS[i]->decoded && !FUNCS[i]->F->isDeclaration() && !FUNCS[i]->bi) decodeFn(FUNCS[i]); };
    for (auto& e : entries) {
        uint64_t s0 = nowUs();
        runEntry(e, out + "/" + e, slice, altstack, loadUs, 300000);
        if (SH->incomplete || RUNKILLED) rest.push_back(e);
        warm();
        left -= (nowUs() - s0) / 1e6;
    }
    if (left < secs / 2) left = secs / 2;
    for (size_t i = 0; i < rest.size(); ++i) {
        // every entry gets at least its share of the remaining time, at most what is left
        uint64_t s0 = nowUs();
        double share = left / (rest.size() - i);
        std::string d = out + "/" + rest[i];
        if (DIR* dp = opendir(d.c_str())) {
            while (dirent* de = readdir(dp)) if (de->d_type == DT_REG) unlink((d + "/" + de->d_name).c_str());
            closedir(dp);
        }
        runEntry(rest[i], d, share, altstack, loadUs, 10000000);
        warm();
        left -= (nowUs() - s0) / 1e6;
        if (left < 1) left = 1;
    }
    fflush(stdout);
    _exit(0);
}
