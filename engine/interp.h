#pragma once
#include "expr.h"
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <string>
#include <vector>

struct Reg { uint64_t v; EX e; uint32_t pad; };

struct DFunc;
struct CallInfo;
typedef bool (*Builtin)(CallInfo* ci, Reg* args, int n, Reg& ret);  // true: done, false: blocked (retry) 

struct Edge { int pc; bool tmp; std::vector<std::pair<int, int>> moves; };
struct LPClause { bool isCatch; std::vector<uint64_t> tis; };
struct LPInfo { std::vector<LPClause> clauses; bool cleanup; };
struct CallInfo {
    DFunc* callee = nullptr;       // guest function with body
    Builtin bi = nullptr;
    void* native = nullptr;
    std::string name;              // external name
    int calleeReg = 0; bool indirect = false;
    std::vector<int> args;         // operand indexes, one per leaf
    std::vector<uint8_t> argW;     // leaf widths
    std::vector<uint8_t> argFp;
    int retLeaves = 0; uint8_t retW = 0, retW2 = 0; bool retPtrInt = false; bool retFp = false;
    int fixedArgs = -1;            // leaves belonging to the fixed parameters (variadic callee)
    bool invoke = false;
    int normalEdge = -1, unwindEdge = -1;
    LPInfo* lp = nullptr;
    uint64_t byvalMask = 0; std::vector<uint64_t> byvalSize;
    llvm::CallBase* inst = nullptr;
};
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; std::unordered_map<uint64_t, int> map; };

struct Op {
    uint16_t op; uint8_t w, w2;
    int32_t d, a, b, c;
    uint64_t k;
    void* p;
};
struct DFunc {
    llvm::Function* F = nullptr;
    std::string name;
    int id = 0;
    bool decoded = false;
    int nregs = 0, nargs = 0;
    bool vararg = false;
    std::vector<Op> code;
    std::vector<Reg> consts;
    std::vector<Edge> edges;
    std::vector<int> argLeaf;
    Builtin bi = nullptr;  // override
};
struct Frame {
    DFunc* f; Op* pc; Reg* r;
    uint64_t sp;
    int retDst; 
    Op* callop;       // the call this frame is currently executing
    uint64_t va, vaEnd;
    bool discardRet;
};
struct Thread {
    int id; std::vector<Frame> st; Reg* regBase; Reg* regTop; uint64_t sp, spLimit;
    int state;  // 0 runnable, 1 done, 2 blocked on mutex, 3 cond wait, 4 join
    uint64_t waitObj, waitObj2; bool signaled; bool timedOut, timed;
    uint64_t exnPtr; int exnSel;
    std::vector<uint64_t> caught;
    uint64_t retval;
};
extern Thread* T;
extern std::vector<Thread*> THREADS;
extern std::vector<DFunc*> FUNCS;
extern std::map<std::string, Builtin> BUILTINS;
extern std::map<std::string, int> NATIVES;

struct Shared {
    Counters cnt;
    volatile int tokens;
    volatile int stop;
    volatile uint64_t paths, pathsPruned, pathsError, forks, instrs, live, started, asserts, assertsSolved, assumes, concretizations, nativeCalls, memops_sym, incomplete, threadSwitches, maxVars, maxDepth;
    volatile uint64_t violKeys[256];
    volatile uint64_t incKeys[256];
    volatile int samples;
    struct { char name[96]; volatile uint64_t n; } covers[128];
    volatile uint8_t executed[1 << 17];
};
extern Shared* SH;
extern uint64_t DEADLINE_US;
void loopLimit(uint64_t n);

[[noreturn]] void endPath(int kind, const char* why);  // kind 0 complete, 1 pruned, 2 error/incomplete
void violation(const std::string& kind, const std::string& msg, const std::vector<uint64_t>* model);
void incomplete(const std::string& why);
bool branch(EX c);
uint64_t concretize(EX e);
uint64_t conc(Reg& r);
bool forkState();  // true in the child
void throwExn(uint64_t obj);
uint64_t newExn(uint64_t size);
void throwStd(const char* kind, const char* msg);
std::string where();
void pushCall(DFunc* f, Reg* args, int n, int retDst, bool discard);
bool loadMem(uint64_t a, unsigned n, unsigned w, Reg& r);
bool storeMem(uint64_t a, unsigned n, const Reg& r, unsigned w);
EX loadByteEx(uint64_t a);
void copyMem(uint64_t d, uint64_t s, uint64_t n);
void setMem(uint64_t d, const Reg& b, uint64_t n);
void checkRange(uint64_t a, uint64_t n, bool wr, const char* what);
DFunc* funcAt(uint64_t a);
void registerBuiltins();
void schedPoint(const char* why);
void blockCurrent(int state, uint64_t o1, uint64_t o2);
struct InputRec { std::string name; EX e; uint64_t v; };
extern std::vector<InputRec> INPUTS;
struct ExnInfo { uint64_t ti, dtor, adjusted; int handlers, refs; };
extern std::map<uint64_t, ExnInfo> EXNS;
extern std::vector<std::string> SCHEDLOG;
extern int SCHED_MODE, SCHED_PREEMPT;
void logTrace(const char* fmt, ...);
uint64_t symbolAddr(const std::string& name);
