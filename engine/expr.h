// Symbolic expression DAG (hash-consed bit-vectors, width 1..64) and the SMT back end (Z3 C API).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

typedef uint32_t EX;  // expression id, 0 = "no expression" (concrete)

enum ExOp : uint8_t {
    X_NONE, X_CONST, X_VAR,
    X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
    X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR,
    X_EQ, X_ULT, X_ULE, X_SLT, X_SLE, X_NOT,
    X_ITE, X_ZEXT, X_SEXT, X_EXTRACT, X_CONCAT,
    // floating point on IEEE bit patterns (operand width 32/64)
    X_FADD, X_FSUB, X_FMUL, X_FDIV, X_FREM, X_FEQ, X_FLT, X_FLE, X_FUNO,
    X_SITOFP, X_UITOFP, X_FPTOSI, X_FPTOUI, X_FPEXT, X_FPTRUNC, X_FSQRT, X_FABS, X_FFLOOR, X_FCEIL,
    X_TAB   // value of table k at variable a (tabulated function of one small variable)
};

static const int MAXVARW = 8;  // 512 symbolic variables at most
struct VarSet {
    uint64_t w[MAXVARW];
    bool intersects(const VarSet& o) const {
        for (int i = 0; i < MAXVARW; ++i) if (w[i] & o.w[i]) return true;
        return false;
    }
    void add(const VarSet& o) { for (int i = 0; i < MAXVARW; ++i) w[i] |= o.w[i]; }
    bool operator==(const VarSet& o) const {
        for (int i = 0; i < MAXVARW; ++i) if (w[i] != o.w[i]) return false;
        return true;
    }
};

struct Node {
    uint8_t op, w;
    EX a, b, c;
    uint64_t k;           // constant value / extract offset / variable number
    uint64_t val;         // value under the current witness
    uint64_t umin, umax;  // syntactic unsigned range
    VarSet vs;
};

extern std::vector<Node> NODES;

inline uint64_t wmask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx64(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= wmask(w);
    return (int64_t)((v ^ m) - m);
}

EX xConst(uint64_t v, unsigned w);
EX xNewVar(const std::string& name, unsigned w, uint64_t witness);
EX xBin(ExOp op, EX a, EX b);
EX xNot(EX a);
EX xIte(EX c, EX a, EX b);
EX xZExt(EX a, unsigned w);
EX xSExt(EX a, unsigned w);
EX xExtract(EX a, unsigned off, unsigned w);
EX xConcat(EX hi, EX lo);
EX xFp(ExOp op, EX a, EX b, unsigned w);  // b==0 for unary; w = result width
inline bool xIsConst(EX e) { return NODES[e].op == X_CONST; }
inline uint64_t xVal(EX e) { return NODES[e].val; }
inline unsigned xW(EX e) { return NODES[e].w; }
std::string xStr(EX e, int depth = 6);
// expressions over one variable of at most 256 values, by their values
int xUnaryVar(EX e, unsigned limit = 256);   // its variable number, or -1
const std::vector<uint64_t>& xUnaryVals(EX e);   // value of e for every value of the variable from its lower to its upper bound
EX xTable(int var, const std::vector<uint64_t>& vals, unsigned w);
std::vector<char> xUnaryFeasible(int var);       // which values the path constraints on this variable alone admit
uint64_t evalOp(uint8_t op, unsigned w, uint64_t a, uint64_t b, uint64_t c, uint64_t k, unsigned wa, unsigned wb);

struct VarInfo { std::string name; unsigned w; EX e; uint64_t lo, hi; };  // [lo, hi]: bounds that are also path constraints
extern std::vector<VarInfo> VARS;

// path condition and solver
extern std::vector<EX> PC;
struct Counters {  // lives in shared memory
    volatile uint64_t queries, sat, unsat, unknown, solver_us, cachehits, max_query_us, finite;
};
extern Counters* CNT;
extern unsigned SOLVER_MS;

void solverInit();
void solverServersStart(int n);       // solver processes; the caller closes its ends after starting the worker
void solverServersClose();
void xReseed();                     // recompute witness values of all nodes from VARS' node values
enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };
// is PC /\ extra satisfiable?  on R_SAT `model` gets values for every variable (witness for unrelated ones)
// exact: decided by Z3; otherwise small finite domains may be decided by exhaustive evaluation of the formula
SatRes solve(EX extra, std::vector<uint64_t>* model, bool exact = false);
void setWitness(const std::vector<uint64_t>& m);
std::vector<uint64_t> getWitness();
void addPC(EX e);  // e already known to hold under the witness
bool holdsByPC(EX e);  // e is literally among the path constraints
