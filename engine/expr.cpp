#include "expr.h"
#include <z3.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <unistd.h>
static const unsigned SRV_USES = 3000;
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

std::vector<Node> NODES(1);
std::vector<VarInfo> VARS;
std::vector<EX> PC;
Counters* CNT;
unsigned SOLVER_MS = 10000;

namespace {
struct KeyHash {
    size_t operator()(EX i) const {
        const Node& n = NODES[i];
        uint64_t h = n.op * 0x9E3779B97F4A7C15ull + n.w;
        h = (h ^ n.a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
        h = (h ^ n.b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
        h = (h ^ n.c) * 0xff51afd7ed558ccdull; h ^= h >> 29;
        h = (h ^ n.k) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 32;
        return h;
    }
};
struct KeyEq {
    bool operator()(EX x, EX y) const {
        const Node &a = NODES[x], &b = NODES[y];
        return a.op == b.op && a.w == b.w && a.a == b.a && a.b == b.b && a.c == b.c && a.k == b.k;
    }
};
std::unordered_set<EX, KeyHash, KeyEq> TABLE;
std::unordered_map<uint64_t, EX> CONSTS[65];
std::unordered_set<EX> PCSET;

struct Tab { std::vector<uint64_t> v; uint64_t lo, mn, mx; };
std::vector<Tab> TABS;

double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
float asF(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
uint64_t ofF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
}

uint64_t evalOp(uint8_t op, unsigned w, uint64_t a, uint64_t b, uint64_t c, uint64_t k, unsigned wa, unsigned wb) {
    uint64_t m = wmask(w);
    switch (op) {
    case X_ADD: return (a + b) & m;
    case X_SUB: return (a - b) & m;
    case X_MUL: return (a * b) & m;
    case X_UDIV: return b ? (a / b) : m;
    case X_UREM: return b ? (a % b) : a;
    case X_SDIV: {
        int64_t x = sx64(a, w), y = sx64(b, w);
        if (!y) return (x < 0 ? 1 : m) & m;
        if (y == -1) return (0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m;
    }
    case X_SREM: {
        int64_t x = sx64(a, w), y = sx64(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case X_AND: return a & b;
    case X_OR: return a | b;
    case X_XOR: return a ^ b;
    case X_SHL: return b >= w ? 0 : (a << b) & m;
    case X_LSHR: return b >= w ? 0 : a >> b;
    case X_ASHR: return (uint64_t)(sx64(a, w) >> (b >= w ? w - 1 : b)) & m;
    case X_EQ: return a == b;
    case X_ULT: return a < b;
    case X_ULE: return a <= b;
    case X_SLT: return sx64(a, wa) < sx64(b, wa);
    case X_SLE: return sx64(a, wa) <= sx64(b, wa);
    case X_NOT: return !a;
    case X_ITE: return a ? b : c;
    case X_ZEXT: return a;
    case X_SEXT: return (uint64_t)sx64(a, wa) & m;
    case X_EXTRACT: return (a >> k) & m;
    case X_CONCAT: return (a << wb) | b;
    case X_FADD: return w == 64 ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
    case X_FSUB: return w == 64 ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
    case X_FMUL: return w == 64 ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
    case X_FDIV: return w == 64 ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
    case X_FREM: return w == 64 ? ofD(fmod(asD(a), asD(b))) : ofF(fmodf(asF(a), asF(b)));
    case X_FEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case X_FLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case X_FLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case X_FUNO: return wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case X_SITOFP: return w == 64 ? ofD((double)sx64(a, wa)) : ofF((float)sx64(a, wa));
    case X_UITOFP: return w == 64 ? ofD((double)a) : ofF((float)a);
    case X_FPTOSI: {
        double d = wa == 64 ? asD(a) : (double)asF(a);
        if (std::isnan(d)) return (1ull << (w - 1)) & m;
        if (d >= 9.2233720368547758e18 || d < -9.2233720368547758e18) return (1ull << (w - 1)) & m;
        int64_t r = (int64_t)d;
        if (w == 32 && (r > INT32_MAX || r < INT32_MIN)) return 0x80000000u;
        return (uint64_t)r & m;
    }
    case X_FPTOUI: { double d = wa == 64 ? asD(a) : (double)asF(a); return (d >= 9.2233720368547758e18 ? (uint64_t)d : (uint64_t)(int64_t)d) & m; }
    case X_FPEXT: return ofD((double)asF(a));
    case X_FPTRUNC: return ofF((float)asD(a));
    case X_FSQRT: return w == 64 ? ofD(sqrt(asD(a))) : ofF(sqrtf(asF(a)));
    case X_FABS: return a & (m >> 1);
    case X_FFLOOR: return w == 64 ? ofD(floor(asD(a))) : ofF(floorf(asF(a)));
    case X_FCEIL: return w == 64 ? ofD(ceil(asD(a))) : ofF(ceilf(asF(a)));
    case X_TAB: { const Tab& t = TABS[k]; return a - t.lo < t.v.size() ? t.v[a - t.lo] : 0; }
    }
    fprintf(stderr, "evalOp: bad op %d\n", op);
    abort();
}

static void ranges(Node& n) {
    uint64_t m = wmask(n.w);
    n.umin = 0; n.umax = m;
    const Node* A = n.a ? &NODES[n.a] : nullptr;
    const Node* B = n.b ? &NODES[n.b] : nullptr;
    const Node* C = n.c ? &NODES[n.c] : nullptr;
    switch (n.op) {
    case X_ZEXT: n.umin = A->umin; n.umax = A->umax; break;
    case X_ADD: {
        uint64_t hi; 
        if (!__builtin_add_overflow(A->umax, B->umax, &hi) && hi <= m) { n.umin = A->umin + B->umin; n.umax = hi; }
        break;
    }
    case X_MUL: {
        uint64_t hi;
        if (!__builtin_mul_overflow(A->umax, B->umax, &hi) && hi <= m) { n.umin = A->umin * B->umin; n.umax = hi; }
        break;
    }
    case X_SUB: if (A->umin >= B->umax) { n.umin = A->umin - B->umax; n.umax = A->umax - B->umin; } break;
    case X_AND: n.umax = std::min(A->umax, B->umax); break;
    case X_OR: {
        n.umin = std::max(A->umin, B->umin);
        uint64_t x = A->umax | B->umax;
        n.umax = x ? (wmask(64 - __builtin_clzll(x)) & m) : 0;
        break;
    }
    case X_XOR: { uint64_t x = A->umax | B->umax; n.umax = x ? (wmask(64 - __builtin_clzll(x)) & m) : 0; break; }
    case X_LSHR: if (B->op == X_CONST && B->k < n.w) { n.umin = A->umin >> B->k; n.umax = A->umax >> B->k; } else n.umax = A->umax; break;
    case X_SHL: if (B->op == X_CONST && B->k < n.w && (A->umax << B->k >> B->k) == A->umax && (A->umax << B->k) <= m) { n.umin = A->umin << B->k; n.umax = A->umax << B->k; } break;
    case X_UDIV: if (B->op == X_CONST && B->k) { n.umin = A->umin / B->k; n.umax = A->umax / B->k; } break;
    case X_UREM: if (B->op == X_CONST && B->k) n.umax = std::min(A->umax, B->k - 1); break;
    case X_ITE: n.umin = std::min(B->umin, C->umin); n.umax = std::max(B->umax, C->umax); break;
    case X_EXTRACT: if (n.k == 0 && A->umax <= m) { n.umin = A->umin; n.umax = A->umax; } else if (n.k && (A->umax >> n.k) <= m) n.umax = A->umax >> n.k; break;
    case X_TAB: n.umin = TABS[n.k].mn; n.umax = TABS[n.k].mx; break;
    case X_CONCAT: n.umin = (A->umin << NODES[n.b].w) | B->umin; n.umax = (A->umax << NODES[n.b].w) | B->umax; break;
    }
}

static EX mk(uint8_t op, unsigned w, EX a, EX b = 0, EX c = 0, uint64_t k = 0) {
    Node n;
    n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.k = k; n.val = 0; n.umin = 0; n.umax = 0;
    NODES.push_back(n);
    EX id = NODES.size() - 1;
    auto it = TABLE.find(id);
    if (it != TABLE.end()) { NODES.pop_back(); return *it; }
    Node& N = NODES[id];
    memset(&N.vs, 0, sizeof N.vs);
    if (a) N.vs.add(NODES[a].vs);
    if (b) N.vs.add(NODES[b].vs);
    if (c) N.vs.add(NODES[c].vs);
    N.val = evalOp(op, w, a ? NODES[a].val : 0, b ? NODES[b].val : 0, c ? NODES[c].val : 0, k, a ? NODES[a].w : 0, b ? NODES[b].w : 0);
    ranges(N);
    if (N.umin == N.umax) { uint64_t v = N.umin; NODES.pop_back(); return xConst(v, w); }
    TABLE.insert(id);
    return id;
}

EX xConst(uint64_t v, unsigned w) {
    v &= wmask(w);
    auto& m = CONSTS[w];
    auto it = m.find(v);
    if (it != m.end()) return it->second;
    Node n;
    memset(&n, 0, sizeof n);
    n.op = X_CONST; n.w = w; n.k = v; n.val = v; n.umin = n.umax = v;
    NODES.push_back(n);
    EX id = NODES.size() - 1;
    m[v] = id;
    return id;
}

EX xNewVar(const std::string& name, unsigned w, uint64_t witness) {
    Node n;
    memset(&n, 0, sizeof n);
    unsigned num = VARS.size();
    if (num >= MAXVARW * 64) { fprintf(stderr, "too many symbolic variables\n"); abort(); }
    n.op = X_VAR; n.w = w; n.k = num; n.val = witness & wmask(w); n.umin = 0; n.umax = wmask(w);
    n.vs.w[num / 64] |= 1ull << (num % 64);
    NODES.push_back(n);
    EX id = NODES.size() - 1;
    VARS.push_back({name, w, id, 0, wmask(w)});
    return id;
}

int xUnaryVar(EX e, unsigned limit) {
    int v = -1;
    for (int w = 0; w < MAXVARW; ++w) {
        uint64_t b = NODES[e].vs.w[w];
        if (!b) continue;
        if (v >= 0 || (b & (b - 1))) return -1;
        v = w * 64 + __builtin_ctzll(b);
    }
    return v >= 0 && VARS[v].hi - VARS[v].lo < limit ? v : -1;
}
const std::vector<uint64_t>& xUnaryVals(EX root) {
    static std::unordered_map<EX, std::vector<uint64_t>> memo;
    static std::unordered_map<int, std::pair<uint64_t, uint64_t>> dom;
    int var = xUnaryVar(root, 4096);
    auto d = std::make_pair(VARS[var].lo, VARS[var].hi);
    auto& old = dom[var];
    if (old != d || memo.size() > 20000) { memo.clear(); dom.clear(); dom[var] = d; }
    size_t n = d.second - d.first + 1;
    std::vector<EX> st{root};
    while (!st.empty()) {
        EX x = st.back();
        if (memo.count(x)) { st.pop_back(); continue; }
        const Node& N = NODES[x];
        if (N.op == X_VAR) { auto& r = memo[x]; for (size_t i = 0; i < n; ++i) r.push_back(d.first + i); st.pop_back(); continue; }
        bool ready = true;
        for (EX ch : {N.a, N.b, N.c}) if (ch && NODES[ch].op != X_CONST && !memo.count(ch)) { st.push_back(ch); ready = false; }
        if (!ready) continue;
        std::vector<uint64_t> r(n);
        auto vec = [&](EX ch) -> const uint64_t* { return ch && NODES[ch].op != X_CONST ? memo[ch].data() : 0; };
        const uint64_t *a = vec(N.a), *b = vec(N.b), *c = vec(N.c);
        uint64_t ka = N.a ? NODES[N.a].k : 0, kb = N.b ? NODES[N.b].k : 0, kc = N.c ? NODES[N.c].k : 0;
        unsigned wa = N.a ? NODES[N.a].w : 0, wb = N.b ? NODES[N.b].w : 0;
        for (size_t i = 0; i < n; ++i) r[i] = evalOp(N.op, N.w, a ? a[i] : ka, b ? b[i] : kb, c ? c[i] : kc, N.k, wa, wb);
        memo[x] = std::move(r);
        st.pop_back();
    }
    return memo[root];
}
std::vector<char> xUnaryFeasible(int var) {
    std::vector<char> ok(VARS[var].hi - VARS[var].lo + 1, 1);
    for (EX c : PC) if (xUnaryVar(c) == var) {
        const auto& v = xUnaryVals(c);
        for (size_t i = 0; i < ok.size(); ++i) if (!v[i]) ok[i] = 0;
    }
    return ok;
}
EX xTable(int var, const std::vector<uint64_t>& vals, unsigned w) {
    static std::unordered_multimap<uint64_t, uint32_t> idx;
    uint64_t h = VARS[var].lo * 31 + vals.size(), mn = ~0ull, mx = 0;
    for (uint64_t v : vals) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; mn = std::min(mn, v); mx = std::max(mx, v); }
    uint32_t k = ~0u;
    auto r = idx.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) if (TABS[i->second].lo == VARS[var].lo && TABS[i->second].v == vals) k = i->second;
    if (k == ~0u) { k = TABS.size(); TABS.push_back({vals, VARS[var].lo, mn, mx}); idx.emplace(h, k); }
    return mk(X_TAB, w, VARS[var].e, 0, 0, k);
}
// the same function as a decision tree, for the solver
static EX tabExpand(EX x) {
    EX var = NODES[x].a; unsigned w = NODES[x].w;
    std::vector<std::pair<uint64_t, uint64_t>> runs;   // last variable value, result
    { const Tab& t = TABS[NODES[x].k]; for (size_t i = 0; i < t.v.size(); ++i) if (!runs.empty() && runs.back().second == t.v[i]) runs.back().first = t.lo + i; else runs.push_back({t.lo + i, t.v[i]}); }
    struct L { static EX go(std::vector<std::pair<uint64_t, uint64_t>>& r, size_t i, size_t j, EX v, unsigned w) {
        if (i + 1 == j) return xConst(r[i].second, w);
        size_t m = (i + j) / 2;
        return xIte(xBin(X_ULE, v, xConst(r[m - 1].first, NODES[v].w)), go(r, i, m, v, w), go(r, m, j, v, w));
    } };
    return L::go(runs, 0, runs.size(), var, w);
}
static inline bool isC(EX e, uint64_t v) { return NODES[e].op == X_CONST && NODES[e].k == v; }

EX xNot(EX a) {
    Node n = NODES[a];
    if (n.op == X_CONST) return xConst(!n.k, 1);
    if (n.op == X_NOT) return n.a;
    if (n.op == X_ULT) return xBin(X_ULE, n.b, n.a);
    if (n.op == X_ULE) return xBin(X_ULT, n.b, n.a);
    if (n.op == X_SLT) return xBin(X_SLE, n.b, n.a);
    if (n.op == X_SLE) return xBin(X_SLT, n.b, n.a);
    return mk(X_NOT, 1, a);
}

EX xZExt(EX a, unsigned w) {
    Node n = NODES[a];
    if (n.w == w) return a;
    if (n.op == X_CONST) return xConst(n.k, w);
    if (n.op == X_ZEXT) return xZExt(n.a, w);
    if (n.op == X_ITE && NODES[n.b].op == X_CONST && NODES[n.c].op == X_CONST)
        return xIte(n.a, xConst(NODES[n.b].k, w), xConst(NODES[n.c].k, w));
    return mk(X_ZEXT, w, a);
}
EX xSExt(EX a, unsigned w) {
    Node n = NODES[a];
    if (n.w == w) return a;
    if (n.op == X_CONST) return xConst((uint64_t)sx64(n.k, n.w), w);
    if (n.op == X_SEXT) return xSExt(n.a, w);
    if (n.op == X_ZEXT) return xZExt(n.a, w);
    if (n.umax <= wmask(n.w - 1)) return xZExt(a, w);
    if (n.op == X_ITE && NODES[n.b].op == X_CONST && NODES[n.c].op == X_CONST)
        return xIte(n.a, xConst((uint64_t)sx64(NODES[n.b].k, n.w), w), xConst((uint64_t)sx64(NODES[n.c].k, n.w), w));
    return mk(X_SEXT, w, a);
}
EX xExtract(EX a, unsigned off, unsigned w) {
    Node n = NODES[a];
    if (off == 0 && w == n.w) return a;
    switch (n.op) {
    case X_CONST: return xConst(n.k >> off, w);
    case X_EXTRACT: return xExtract(n.a, off + n.k, w);
    case X_ZEXT: {
        unsigned iw = NODES[n.a].w;
        if (off >= iw) return xConst(0, w);
        if (off + w <= iw) return xExtract(n.a, off, w);
        return xZExt(xExtract(n.a, off, iw - off), w);
    }
    case X_SEXT: {
        unsigned iw = NODES[n.a].w;
        if (off + w <= iw) return xExtract(n.a, off, w);
        if (off < iw) return xSExt(xExtract(n.a, off, iw - off), w);
        break;
    }
    case X_CONCAT: {
        unsigned lw = NODES[n.b].w;
        if (off >= lw) return xExtract(n.a, off - lw, w);
        if (off + w <= lw) return xExtract(n.b, off, w);
        return xConcat(xExtract(n.a, 0, off + w - lw), xExtract(n.b, off, lw - off));
    }
    case X_AND: case X_OR: case X_XOR:
        return xBin((ExOp)n.op, xExtract(n.a, off, w), xExtract(n.b, off, w));
    case X_SHL:
        if (NODES[n.b].op == X_CONST) {
            uint64_t s = NODES[n.b].k;
            if (off >= s) return xExtract(n.a, off - s, w);
            if (off + w <= s) return xConst(0, w);
            return xConcat(xExtract(n.a, 0, off + w - s), xConst(0, s - off));
        }
        break;
    case X_LSHR:
        if (NODES[n.b].op == X_CONST) {
            uint64_t s = NODES[n.b].k;
            if (off + s >= n.w) return xConst(0, w);
            if (off + s + w <= n.w) return xExtract(n.a, off + s, w);
            return xZExt(xExtract(n.a, off + s, n.w - off - s), w);
        }
        break;
    case X_ASHR:
        if (NODES[n.b].op == X_CONST) {
            uint64_t s = NODES[n.b].k;
            if (off + s + w <= n.w) return xExtract(n.a, off + s, w);
        }
        break;
    case X_ADD: case X_SUB: case X_MUL:
        if (off == 0) return xBin((ExOp)n.op, xExtract(n.a, 0, w), xExtract(n.b, 0, w));
        break;
    case X_ITE:
        return xIte(n.a, xExtract(n.b, off, w), xExtract(n.c, off, w));
    }
    if ((n.umax >> off) == 0) return xConst(0, w);
    return mk(X_EXTRACT, w, a, 0, 0, off);
}
EX xConcat(EX hi, EX lo) {
    Node h = NODES[hi], l = NODES[lo];
    unsigned w = h.w + l.w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (h.op == X_CONST && l.op == X_CONST) return xConst((h.k << l.w) | l.k, w);
    if (h.op == X_CONST && h.k == 0) return xZExt(lo, w);
    if (h.op == X_EXTRACT && l.op == X_EXTRACT && h.a == l.a && h.k == l.k + l.w) return xExtract(h.a, l.k, w);
    if (h.op == X_EXTRACT && h.k == l.w && h.a == lo) return xExtract(h.a, 0, w);
    // hi = extract(x), lo = concat(extract(x), rest): re-associate
    if (l.op == X_CONCAT) {
        Node m = NODES[l.a];
        if (h.op == X_EXTRACT && m.op == X_EXTRACT && h.a == m.a && h.k == m.k + m.w)
            return xConcat(xExtract(h.a, m.k, h.w + m.w), l.b);
    }
    if (h.op == X_ZEXT) {  // concat(zext(x), lo) = zext(concat(x, lo))
        EX in = xConcat(h.a, lo);
        return xZExt(in, w);
    }
    if (h.op == X_ITE && l.op == X_ITE && h.a == l.a) return xIte(h.a, xConcat(h.b, l.b), xConcat(h.c, l.c));
    return mk(X_CONCAT, w, hi, lo);
}

EX xIte(EX c, EX a, EX b) {
    Node n = NODES[c];
    if (n.op == X_CONST) return n.k ? a : b;
    if (a == b) return a;
    if (n.op == X_NOT) return xIte(n.a, b, a);
    unsigned w = NODES[a].w;
    if (w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return xNot(c);
        if (isC(a, 1)) return xBin(X_OR, c, b);
        if (isC(a, 0)) return xBin(X_AND, xNot(c), b);
        if (isC(b, 0)) return xBin(X_AND, c, a);
        if (isC(b, 1)) return xBin(X_OR, xNot(c), a);
    }
    Node na = NODES[a], nb = NODES[b];
    if (na.op == X_ITE && na.a == c) return xIte(c, na.b, b);
    if (nb.op == X_ITE && nb.a == c) return xIte(c, a, nb.c);
    return mk(X_ITE, w, c, a, b);
}

EX xBin(ExOp op, EX a, EX b) {
    bool cmp = op >= X_EQ && op <= X_SLE;
    {
        const Node &A = NODES[a], &B = NODES[b];
        if (A.w != B.w) { fprintf(stderr, "xBin width mismatch op %d: %d %d\n", op, A.w, B.w); abort(); }
        if (A.op == X_CONST && B.op == X_CONST)
            return xConst(evalOp(op, cmp ? 1 : A.w, A.k, B.k, 0, 0, A.w, B.w), cmp ? 1 : A.w);
    }
    unsigned w = NODES[a].w;
    uint64_t m = wmask(w);
    // commutative: constant to the right
    if ((op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR || op == X_EQ)) {
        if (NODES[a].op == X_CONST) std::swap(a, b);
        else if (NODES[b].op != X_CONST && a > b) std::swap(a, b);
    }
    Node A = NODES[a], B = NODES[b];
    bool bc = B.op == X_CONST, ac = A.op == X_CONST;
    switch (op) {
    case X_ADD:
        if (w == 1) return xBin(X_XOR, a, b);
        if (bc && B.k == 0) return a;
        if (bc && A.op == X_ADD && NODES[A.b].op == X_CONST) return xBin(X_ADD, A.a, xConst(NODES[A.b].k + B.k, w));
        if (!bc && A.op == X_ADD && NODES[A.b].op == X_CONST) return xBin(X_ADD, xBin(X_ADD, A.a, b), A.b);
        if (!bc && B.op == X_ADD && NODES[B.b].op == X_CONST) return xBin(X_ADD, xBin(X_ADD, a, B.a), B.b);
        if (A.op == X_SUB && A.b == b) return A.a;
        if (B.op == X_SUB && B.b == a) return B.a;
        if (bc && A.op == X_ITE && NODES[A.b].op == X_CONST && NODES[A.c].op == X_CONST)
            return xIte(A.a, xConst(NODES[A.b].k + B.k, w), xConst(NODES[A.c].k + B.k, w));
        break;
    case X_SUB:
        if (w == 1) return xBin(X_XOR, a, b);
        if (a == b) return xConst(0, w);
        if (bc) return xBin(X_ADD, a, xConst(0 - B.k, w));
        if (A.op == X_ADD && A.a == b) return A.b;
        if (A.op == X_ADD && A.b == b) return A.a;
        if (A.op == X_ADD && NODES[A.b].op == X_CONST) return xBin(X_ADD, xBin(X_SUB, A.a, b), A.b);
        if (B.op == X_ADD && NODES[B.b].op == X_CONST) return xBin(X_ADD, xBin(X_SUB, a, B.a), xConst(0 - NODES[B.b].k, w));
        break;
    case X_MUL:
        if (bc && B.k == 0) return b;
        if (bc && B.k == 1) return a;
        if (bc && __builtin_popcountll(B.k) == 1) return xBin(X_SHL, a, xConst(__builtin_ctzll(B.k), w));
        break;
    case X_UDIV:
        if (bc && B.k == 1) return a;
        if (bc && B.k && __builtin_popcountll(B.k) == 1) return xBin(X_LSHR, a, xConst(__builtin_ctzll(B.k), w));
        if (bc && B.k && A.umax < B.k) return xConst(0, w);
        break;
    case X_UREM:
        if (bc && B.k && __builtin_popcountll(B.k) == 1) return xBin(X_AND, a, xConst(B.k - 1, w));
        if (bc && B.k && A.umax < B.k) return a;
        break;
    case X_SDIV: case X_SREM:
        if (A.umax <= (m >> 1) && B.umax <= (m >> 1) && B.umin > 0) return xBin(op == X_SDIV ? X_UDIV : X_UREM, a, b);
        break;
    case X_AND:
        if (a == b) return a;
        if (bc) {
            if (B.k == 0) return b;
            if (B.k == m) return a;
            // the mask covers every possible bit
            if (A.umax && (B.k & wmask(64 - __builtin_clzll(A.umax))) == wmask(64 - __builtin_clzll(A.umax))) return a;
            if (A.op == X_AND && NODES[A.b].op == X_CONST) return xBin(X_AND, A.a, xConst(NODES[A.b].k & B.k, w));
            if ((B.k & (B.k + 1)) == 0 && B.k) {  // low mask
                unsigned lw = 64 - __builtin_clzll(B.k);
                if (lw < w) return xZExt(xExtract(a, 0, lw), w);
            }
            if (A.op == X_ZEXT) {
                unsigned iw = NODES[A.a].w;
                return xZExt(xBin(X_AND, A.a, xConst(B.k, iw)), w);
            }
            if (A.op == X_ITE && NODES[A.b].op == X_CONST && NODES[A.c].op == X_CONST)
                return xIte(A.a, xConst(NODES[A.b].k & B.k, w), xConst(NODES[A.c].k & B.k, w));
        }
        if (w == 1 && ((A.op == X_NOT && A.a == b) || (B.op == X_NOT && B.a == a))) return xConst(0, 1);
        break;
    case X_OR:
        if (a == b) return a;
        if (bc) {
            if (B.k == 0) return a;
            if (B.k == m) return b;
        }
        if (w == 1 && ((A.op == X_NOT && A.a == b) || (B.op == X_NOT && B.a == a))) return xConst(1, 1);
        // disjoint zext | shl(zext): becomes a concat
        {
            Node S = A, Z = B; EX s = a, z = b;
            for (int t = 0; t < 2; ++t) {
                if (S.op == X_SHL && NODES[S.b].op == X_CONST) {
                    uint64_t sh = NODES[S.b].k;
                    if (sh && sh < w && Z.umax <= wmask(sh)) {
                        EX lo = xExtract(z, 0, sh), hi = xExtract(S.a, 0, w - sh);
                        return xConcat(hi, lo);
                    }
                }
                std::swap(S, Z); std::swap(s, z);
            }
        }
        break;
    case X_XOR:
        if (a == b) return xConst(0, w);
        if (bc && B.k == 0) return a;
        if (w == 1 && bc && B.k == 1) return xNot(a);
        if (bc && A.op == X_XOR && NODES[A.b].op == X_CONST) return xBin(X_XOR, A.a, xConst(NODES[A.b].k ^ B.k, w));
        break;
    case X_SHL:
        if (bc && B.k == 0) return a;
        if (bc && B.k >= w) return xConst(0, w);
        if (ac && A.k == 0) return a;
        if (bc && A.op == X_SHL && NODES[A.b].op == X_CONST) return xBin(X_SHL, A.a, xConst(std::min<uint64_t>(w, B.k + NODES[A.b].k), w));
        break;
    case X_LSHR:
        if (bc && B.k == 0) return a;
        if (bc && B.k >= w) return xConst(0, w);
        if (ac && A.k == 0) return a;
        if (bc) return xZExt(xExtract(a, B.k, w - B.k), w);
        break;
    case X_ASHR:
        if (bc && B.k == 0) return a;
        if (A.umax <= (m >> 1)) return xBin(X_LSHR, a, b);
        if (bc && B.k < w) return xSExt(xExtract(a, B.k, w - B.k), w);
        break;
    case X_EQ:
        if (a == b) return xConst(1, 1);
        if (A.umin > B.umax || A.umax < B.umin) return xConst(0, 1);
        if (w == 1 && bc) return B.k ? a : xNot(a);
        if (bc) {
            switch (A.op) {
            case X_ZEXT: { unsigned iw = NODES[A.a].w; return B.k > wmask(iw) ? xConst(0, 1) : xBin(X_EQ, A.a, xConst(B.k, iw)); }
            case X_SEXT: {
                unsigned iw = NODES[A.a].w;
                if (((uint64_t)sx64(B.k, iw) & m) != B.k) return xConst(0, 1);
                return xBin(X_EQ, A.a, xConst(B.k, iw));
            }
            case X_ADD: if (NODES[A.b].op == X_CONST) return xBin(X_EQ, A.a, xConst(B.k - NODES[A.b].k, w)); break;
            case X_SUB: if (B.k == 0) return xBin(X_EQ, A.a, A.b); break;
            case X_XOR: if (NODES[A.b].op == X_CONST) return xBin(X_EQ, A.a, xConst(B.k ^ NODES[A.b].k, w)); if (B.k == 0) return xBin(X_EQ, A.a, A.b); break;
            case X_CONCAT: {
                unsigned lw = NODES[A.b].w;
                EX l = A.b, h = A.a;
                return xBin(X_AND, xBin(X_EQ, h, xConst(B.k >> lw, w - lw)), xBin(X_EQ, l, xConst(B.k, lw)));
            }
            case X_ITE: {
                Node p = NODES[A.b], q = NODES[A.c];
                if (p.op == X_CONST || q.op == X_CONST)
                    return xIte(A.a, xBin(X_EQ, A.b, b), xBin(X_EQ, A.c, b));
                break;
            }
            }
        }
        if (A.op == X_ZEXT && B.op == X_ZEXT && NODES[A.a].w == NODES[B.a].w) return xBin(X_EQ, A.a, B.a);
        if (A.op == X_SEXT && B.op == X_SEXT && NODES[A.a].w == NODES[B.a].w) return xBin(X_EQ, A.a, B.a);
        break;
    case X_ULT:
        if (a == b) return xConst(0, 1);
        if (A.umax < B.umin) return xConst(1, 1);
        if (A.umin >= B.umax) return xConst(0, 1);
        if (w == 1) return xBin(X_AND, xNot(a), b);
        if (bc && B.k == 1) return xBin(X_EQ, a, xConst(0, w));
        if (ac && A.k == 0) return xNot(xBin(X_EQ, b, a));
        if (bc && A.op == X_ZEXT) { unsigned iw = NODES[A.a].w; if (B.k > wmask(iw)) return xConst(1, 1); return xBin(X_ULT, A.a, xConst(B.k, iw)); }
        if (ac && B.op == X_ZEXT) { unsigned iw = NODES[B.a].w; if (A.k > wmask(iw)) return xConst(0, 1); return xBin(X_ULT, xConst(A.k, iw), B.a); }
        if (A.op == X_ZEXT && B.op == X_ZEXT && NODES[A.a].w == NODES[B.a].w) return xBin(X_ULT, A.a, B.a);
        if (bc && A.op == X_ITE && NODES[A.b].op == X_CONST && NODES[A.c].op == X_CONST)
            return xIte(A.a, xConst(NODES[A.b].k < B.k, 1), xConst(NODES[A.c].k < B.k, 1));
        break;
    case X_ULE:
        if (a == b) return xConst(1, 1);
        if (A.umax <= B.umin) return xConst(1, 1);
        if (A.umin > B.umax) return xConst(0, 1);
        if (w == 1) return xBin(X_OR, xNot(a), b);
        if (bc && B.k == 0) return xBin(X_EQ, a, b);
        if (bc && B.k < m) return xBin(X_ULT, a, xConst(B.k + 1, w));
        if (A.op == X_ZEXT && B.op == X_ZEXT && NODES[A.a].w == NODES[B.a].w) return xBin(X_ULE, A.a, B.a);
        if (ac && B.op == X_ZEXT) { unsigned iw = NODES[B.a].w; if (A.k > wmask(iw)) return xConst(0, 1); return xBin(X_ULE, xConst(A.k, iw), B.a); }
        break;
    case X_SLT: case X_SLE:
        if (a == b) return xConst(op == X_SLE, 1);
        if (w > 1 && A.umax <= (m >> 1) && B.umax <= (m >> 1)) return xBin(op == X_SLT ? X_ULT : X_ULE, a, b);
        // one side always negative, other always non-negative
        if (w > 1 && A.umin > (m >> 1) && B.umax <= (m >> 1)) return xConst(1, 1);
        if (w > 1 && B.umin > (m >> 1) && A.umax <= (m >> 1)) return xConst(0, 1);
        if (A.op == X_SEXT && B.op == X_SEXT && NODES[A.a].w == NODES[B.a].w) return xBin(op, A.a, B.a);
        if (A.op == X_SEXT && bc) {
            unsigned iw = NODES[A.a].w;
            if (((uint64_t)sx64(B.k, iw) & m) == B.k) return xBin(op, A.a, xConst(B.k, iw));
        }
        if (B.op == X_SEXT && ac) {
            unsigned iw = NODES[B.a].w;
            if (((uint64_t)sx64(A.k, iw) & m) == A.k) return xBin(op, xConst(A.k, iw), B.a);
        }
        if (bc && A.op == X_ITE && NODES[A.b].op == X_CONST && NODES[A.c].op == X_CONST)
            return xIte(A.a, xBin(op, A.b, b), xBin(op, A.c, b));
        break;
    default: break;
    }
    EX made = mk(op, cmp ? 1 : w, a, b);
    if (w >= 32 && (op == X_UDIV || op == X_UREM || op == X_SDIV || op == X_SREM)) {   // division is hard for the solver: a table if it depends on one small variable
        int uv = xUnaryVar(made, 2048);
        if (uv >= 0) { std::vector<uint64_t> vals = xUnaryVals(made); return xTable(uv, vals, w); }
    }
    return made;
}

EX xFp(ExOp op, EX a, EX b, unsigned w) {
    const Node& A = NODES[a];
    if (A.op == X_CONST && (!b || NODES[b].op == X_CONST))
        return xConst(evalOp(op, w, A.k, b ? NODES[b].k : 0, 0, 0, A.w, b ? NODES[b].w : 0), w);
    return mk(op, w, a, b);
}

std::string xStr(EX e, int depth) {
    static const char* names[] = {"none", "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
        "eq", "ult", "ule", "slt", "sle", "not", "ite", "zext", "sext", "extract", "concat",
        "fadd", "fsub", "fmul", "fdiv", "frem", "feq", "flt", "fle", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fsqrt", "fabs", "ffloor", "fceil", "table"};
    const Node& n = NODES[e];
    char buf[64];
    if (n.op == X_CONST) { snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)n.k, n.w); return buf; }
    if (n.op == X_VAR) return VARS[n.k].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + names[n.op];
    if (n.op == X_EXTRACT || n.op == X_ZEXT || n.op == X_SEXT) { snprintf(buf, sizeof buf, "[%llu,%d]", (unsigned long long)n.k, n.w); s += buf; }
    if (n.a) s += " " + xStr(n.a, depth - 1);
    if (n.b) s += " " + xStr(n.b, depth - 1);
    if (n.c) s += " " + xStr(n.c, depth - 1);
    return s + ")";
}

// ------------------------------------------------------------------ Z3
static Z3_context Z;
static std::vector<Z3_ast> ZCACHE;
static volatile sig_atomic_t inQuery;

static void onAlarm(int) { if (inQuery && Z) Z3_interrupt(Z); }
static Z3_error_code zerr;
static void onErr(Z3_context c, Z3_error_code e) { zerr = e; }

void solverInit() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    Z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(Z, onErr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onAlarm;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
}

static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1))); }

// Boolean-sorted (w==1) nodes are represented as Z3 Bool; others as BV.
static Z3_ast zx(EX e);
static Z3_ast asBV(EX e) { return NODES[e].w == 1 ? b2bv(zx(e)) : zx(e); }
static Z3_ast asFP(EX e) { return Z3_mk_fpa_to_fp_bv(Z, asBV(e), fps(NODES[e].w)); }

static Z3_ast build(EX e) {
    const Node n = NODES[e];
    auto bl = [&](EX x) { return zx(x); };
    switch (n.op) {
    case X_CONST: if (n.w == 1) return n.k ? Z3_mk_true(Z) : Z3_mk_false(Z); return Z3_mk_unsigned_int64(Z, n.k, bvs(n.w));
    case X_VAR: {
        char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)n.k);
        return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), n.w == 1 ? Z3_mk_bool_sort(Z) : bvs(n.w));
    }
    case X_ADD: return Z3_mk_bvadd(Z, zx(n.a), zx(n.b));
    case X_SUB: return Z3_mk_bvsub(Z, zx(n.a), zx(n.b));
    case X_MUL: return n.w == 1 ? ([&] { Z3_ast t[2] = {zx(n.a), zx(n.b)}; return Z3_mk_and(Z, 2, t); })() : Z3_mk_bvmul(Z, zx(n.a), zx(n.b));
    case X_UDIV: return Z3_mk_bvudiv(Z, zx(n.a), zx(n.b));
    case X_SDIV: return Z3_mk_bvsdiv(Z, zx(n.a), zx(n.b));
    case X_UREM: return Z3_mk_bvurem(Z, zx(n.a), zx(n.b));
    case X_SREM: return Z3_mk_bvsrem(Z, zx(n.a), zx(n.b));
    case X_AND: if (n.w == 1) { Z3_ast t[2] = {bl(n.a), bl(n.b)}; return Z3_mk_and(Z, 2, t); } return Z3_mk_bvand(Z, zx(n.a), zx(n.b));
    case X_OR: if (n.w == 1) { Z3_ast t[2] = {bl(n.a), bl(n.b)}; return Z3_mk_or(Z, 2, t); } return Z3_mk_bvor(Z, zx(n.a), zx(n.b));
    case X_XOR: if (n.w == 1) return Z3_mk_xor(Z, bl(n.a), bl(n.b)); return Z3_mk_bvxor(Z, zx(n.a), zx(n.b));
    case X_SHL: return Z3_mk_bvshl(Z, zx(n.a), zx(n.b));
    case X_LSHR: return Z3_mk_bvlshr(Z, zx(n.a), zx(n.b));
    case X_ASHR: return Z3_mk_bvashr(Z, zx(n.a), zx(n.b));
    case X_EQ: return Z3_mk_eq(Z, zx(n.a), zx(n.b));
    case X_ULT: return Z3_mk_bvult(Z, asBV(n.a), asBV(n.b));
    case X_ULE: return Z3_mk_bvule(Z, asBV(n.a), asBV(n.b));
    case X_SLT: return Z3_mk_bvslt(Z, asBV(n.a), asBV(n.b));
    case X_SLE: return Z3_mk_bvsle(Z, asBV(n.a), asBV(n.b));
    case X_NOT: return Z3_mk_not(Z, zx(n.a));
    case X_ITE: return Z3_mk_ite(Z, zx(n.a), zx(n.b), zx(n.c));
    case X_ZEXT: return Z3_mk_zero_ext(Z, n.w - NODES[n.a].w, asBV(n.a));
    case X_SEXT: return Z3_mk_sign_ext(Z, n.w - NODES[n.a].w, asBV(n.a));
    case X_EXTRACT: {
        Z3_ast x = Z3_mk_extract(Z, n.k + n.w - 1, n.k, asBV(n.a));
        if (n.w == 1) return Z3_mk_eq(Z, x, Z3_mk_unsigned_int64(Z, 1, bvs(1)));
        return x;
    }
    case X_CONCAT: return Z3_mk_concat(Z, asBV(n.a), asBV(n.b));
    case X_FADD: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, Z3_mk_fpa_rne(Z), asFP(n.a), asFP(n.b)));
    case X_FSUB: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, Z3_mk_fpa_rne(Z), asFP(n.a), asFP(n.b)));
    case X_FMUL: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, Z3_mk_fpa_rne(Z), asFP(n.a), asFP(n.b)));
    case X_FDIV: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, Z3_mk_fpa_rne(Z), asFP(n.a), asFP(n.b)));
    case X_FSQRT: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sqrt(Z, Z3_mk_fpa_rne(Z), asFP(n.a)));
    case X_FFLOOR: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), asFP(n.a)));
    case X_FCEIL: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), asFP(n.a)));
    case X_FABS: return Z3_mk_bvand(Z, zx(n.a), Z3_mk_unsigned_int64(Z, wmask(n.w) >> 1, bvs(n.w)));
    case X_FEQ: return Z3_mk_fpa_eq(Z, asFP(n.a), asFP(n.b));
    case X_FLT: return Z3_mk_fpa_lt(Z, asFP(n.a), asFP(n.b));
    case X_FLE: return Z3_mk_fpa_leq(Z, asFP(n.a), asFP(n.b));
    case X_FUNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(Z, asFP(n.a)), Z3_mk_fpa_is_nan(Z, asFP(n.b))}; return Z3_mk_or(Z, 2, t); }
    case X_SITOFP: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), asBV(n.a), fps(n.w)));
    case X_UITOFP: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), asBV(n.a), fps(n.w)));
    case X_FPTOSI: return Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), asFP(n.a), n.w);
    case X_FPTOUI: return Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), asFP(n.a), n.w);
    case X_FPEXT: case X_FPTRUNC: return Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), asFP(n.a), fps(n.w)));
    }
    fprintf(stderr, "z3 build: op %d\n", n.op);
    abort();
}
static Z3_ast zx(EX e) {
    if (ZCACHE.size() < NODES.size()) ZCACHE.resize(NODES.size() + 1024, nullptr);
    if (ZCACHE[e]) return ZCACHE[e];
    // iterative pre-build of deep chains to keep recursion bounded
    std::vector<EX> st{e};
    while (!st.empty()) {
        EX x = st.back();
        const Node& n = NODES[x];
        bool ready = true;
        for (EX ch : {n.a, n.b, n.c}) if (ch && !ZCACHE[ch]) { st.push_back(ch); ready = false; }
        if (ready) {
            if (!ZCACHE[x]) {
                Z3_ast r = build(x);
                if (!r) { fprintf(stderr, "z3 build failed: %s\n", xStr(x).c_str()); abort(); }
                if (ZCACHE.size() < NODES.size()) ZCACHE.resize(NODES.size() + 1024, nullptr);
                ZCACHE[x] = r;
            }
            st.pop_back();
        }
    }
    return ZCACHE[e];
}

void xReseed() {
    for (size_t i = 1; i < NODES.size(); ++i) {
        Node& n = NODES[i];
        if (n.op == X_CONST || n.op == X_VAR) continue;
        uint64_t v = evalOp(n.op, n.w, n.a ? NODES[n.a].val : 0, n.b ? NODES[n.b].val : 0, n.c ? NODES[n.c].val : 0, n.k, n.a ? NODES[n.a].w : 0, n.b ? NODES[n.b].w : 0);
        if (v != n.val) n.val = v;   // (writing only changes keeps pages shared between states)
    }
}
void setWitness(const std::vector<uint64_t>& m) {
    for (size_t i = 0; i < m.size() && i < VARS.size(); ++i) NODES[VARS[i].e].val = m[i] & wmask(VARS[i].w);
    xReseed();
}
std::vector<uint64_t> getWitness() {
    std::vector<uint64_t> r;
    for (auto& v : VARS) r.push_back(NODES[v.e].val);
    return r;
}

static uint64_t nowUs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }

static std::unordered_map<uint64_t, std::pair<int, std::vector<uint64_t>>> QCACHE;

bool holdsByPC(EX e) { return PCSET.count(e); }

// Complete decision of a formula whose variables have few values: evaluates it for every value. At most three variables, or
// six where the formula multiplies or divides by large constants (hash codes), which the SMT solver is slow at.
static int finiteSolve(const std::vector<EX>& all, const VarSet& vs, std::vector<uint64_t>& m) {
    int vi[6], nv = 0;
    uint64_t prod = 1;
    for (int w = 0; w < MAXVARW; ++w)
        for (uint64_t b = vs.w[w]; b; b &= b - 1) {
            int i = w * 64 + __builtin_ctzll(b);
            if (nv == 6) return -1;
            uint64_t d = VARS[i].hi - VARS[i].lo;
            if (d >= 2048) return -1;
            prod *= d + 1;
            if (prod > 2048) return -1;
            vi[nv++] = i;
        }
    if (!nv) return -1;
    static std::vector<EX> order;
    static std::vector<uint32_t> mark; static uint32_t epoch;
    static std::vector<uint64_t> val;
    order.clear(); ++epoch;
    if (mark.size() < NODES.size()) { mark.resize(NODES.size() + 1024, 0); val.resize(mark.size()); }
    std::vector<std::pair<EX, int>> st;
    for (EX r : all) {
        st.push_back({r, 0});
        while (!st.empty()) {
            EX x = st.back().first;
            if (st.back().second == 0 && mark[x] == epoch) { st.pop_back(); continue; }
            const Node& n = NODES[x];
            int k = st.back().second++;
            if (k == 0) mark[x] = epoch;
            EX ch = k == 0 ? n.a : k == 1 ? n.b : k == 2 ? n.c : 0;
            if (k >= 3) { order.push_back(x); st.pop_back(); continue; }
            if (ch && mark[ch] != epoch) st.push_back({ch, 0});
        }
        if (order.size() > 150000) return -1;
    }
    bool hard = false;
    for (EX x : order) {
        const Node& n = NODES[x];
        if (n.w == 64 && (n.op == X_UREM || n.op == X_UDIV || n.op == X_SREM || n.op == X_SDIV)) hard = true;
        if (n.op == X_MUL && n.w == 64 && n.b && NODES[n.b].op == X_CONST && NODES[n.b].k > 0xffffffffull) hard = true;
        if (n.op == X_MUL && n.w == 64 && n.a && NODES[n.a].op == X_CONST && NODES[n.a].k > 0xffffffffull) hard = true;
    }
    if (nv > 3 && !hard) return -1;
    if (order.size() * prod > (nv == 1 && prod <= 256 ? 40000000u : hard ? 8000000u : 400000u)) return -1;   // one byte: worth some time
    for (uint64_t t = 0; t < prod; ++t) {
        uint64_t q = t, cur[6];
        for (int j = 0; j < nv; ++j) { uint64_t d = VARS[vi[j]].hi - VARS[vi[j]].lo + 1; cur[j] = VARS[vi[j]].lo + q % d; q /= d; }
        for (EX x : order) {
            const Node& n = NODES[x];
            if (n.op == X_CONST) val[x] = n.k;
            else if (n.op == X_VAR) { for (int j = 0; j < nv; ++j) if (vi[j] == (int)n.k) val[x] = cur[j]; }
            else val[x] = evalOp(n.op, n.w, n.a ? val[n.a] : 0, n.b ? val[n.b] : 0, n.c ? val[n.c] : 0, n.k, n.a ? NODES[n.a].w : 0, n.b ? NODES[n.b].w : 0);
        }
        bool ok = true;
        for (EX r : all) if (!val[r]) { ok = false; break; }
        if (ok) { m = getWitness(); for (int j = 0; j < nv; ++j) m[vi[j]] = cur[j]; return 1; }
    }
    return 0;
}

// ---- solver processes: path processes are copied at every branch, so the SMT solver (large, fast changing memory) lives in
// separate processes that are asked over a socket
struct WireNode { uint8_t op, w; uint16_t pad; uint32_t a, b, c; uint64_t k; };
struct WireReq { uint32_t nodes, roots; uint32_t ms, pad; };
struct WireRep { int32_t res; uint32_t vals; };
static const int MAXSRV = 64;
struct SrvShared { pthread_mutex_t mu[MAXSRV]; volatile int dead[MAXSRV]; };
static SrvShared* SRV;
static int SRVFD[MAXSRV], NSRV, LASTSRV;

static bool putAll(int fd, const void* p, size_t n) {
    const char* c = (const char*)p;
    while (n) { ssize_t r = write(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
    return true;
}
static bool getAll(int fd, void* p, size_t n) {
    char* c = (char*)p;
    while (n) { ssize_t r = read(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
    return true;
}
struct NodeKey { uint8_t op, w; EX a, b, c; uint64_t k; bool operator==(const NodeKey& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct NodeKeyHash { size_t operator()(const NodeKey& n) const { uint64_t h = n.k * 0x9E3779B97F4A7C15ull + n.op * 131 + n.w; h = (h ^ n.a) * 0xff51afd7ed558ccdull; h = (h ^ n.b) * 0xc4ceb9fe1a85ec53ull; h = (h ^ n.c) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); } };

static void serve(int fd) {
    mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 16 << 20);   // keep memory: page faults are slow
    std::unordered_map<NodeKey, EX, NodeKeyHash> intern;
    std::unordered_map<EX, bool> hasFp;
    std::unordered_map<EX, Z3_ast> guard;
    Z3_solver inc = nullptr;
    unsigned uses = 0;
    NODES.clear(); NODES.resize(1); ZCACHE.clear();
    solverInit();
    std::vector<WireNode> wn;
    std::vector<EX> id, all;
    std::vector<uint32_t> roots;
    WireReq q;
    while (getAll(fd, &q, sizeof q)) {
        wn.resize(q.nodes); roots.resize(q.roots);
        if (!getAll(fd, wn.data(), q.nodes * sizeof(WireNode)) || !getAll(fd, roots.data(), q.roots * 4)) break;
        if (NODES.size() > 400000) { // start afresh before the tables get large
            if (inc) Z3_solver_dec_ref(Z, inc);
            inc = nullptr; uses = 0;
            Z3_del_context(Z);
            intern.clear(); hasFp.clear(); guard.clear(); NODES.clear(); NODES.resize(1); ZCACHE.clear();
            solverInit();
        }
        id.assign(q.nodes + 1, 0);
        std::vector<EX> vars;
        for (uint32_t i = 0; i < q.nodes; ++i) {
            const WireNode& w = wn[i];
            NodeKey k{w.op, w.w, id[w.a], id[w.b], id[w.c], w.k};
            auto r = intern.emplace(k, 0);
            if (r.second) { Node n; memset(&n, 0, sizeof n); n.op = k.op; n.w = k.w; n.a = k.a; n.b = k.b; n.c = k.c; n.k = k.k; r.first->second = NODES.size(); NODES.push_back(n); }
            id[i + 1] = r.first->second;
            if (w.op == X_VAR) vars.push_back(id[i + 1]);
        }
        all.clear();
        for (uint32_t r : roots) all.push_back(id[r]);
        // floating point anywhere: use the general solver
        bool fp = false;
        for (EX c : all) {
            auto f = hasFp.find(c);
            if (f == hasFp.end()) {
                bool r = false;
                std::unordered_set<EX> seen; std::vector<EX> st{c};
                while (!st.empty() && !r) {
                    EX x = st.back(); st.pop_back();
                    if (!x || !seen.insert(x).second) continue;
                    const Node& n = NODES[x];
                    if (n.op >= X_FADD && n.op != X_FABS) r = true;
                    st.push_back(n.a); st.push_back(n.b); st.push_back(n.c);
                }
                f = hasFp.emplace(c, r).first;
            }
            fp |= f->second;
        }
        zerr = Z3_OK;
        auto timed = [&](unsigned ms, Z3_solver s, unsigned na, Z3_ast* as) {
            struct itimerval tv;
            memset(&tv, 0, sizeof tv);
            tv.it_value.tv_sec = ms / 1000;
            tv.it_value.tv_usec = (ms % 1000) * 1000;
            tv.it_interval.tv_usec = 200000;
            inQuery = 1;
            setitimer(ITIMER_REAL, &tv, nullptr);
            Z3_lbool r = na ? Z3_solver_check_assumptions(Z, s, na, as) : Z3_solver_check(Z, s);
            memset(&tv, 0, sizeof tv);
            setitimer(ITIMER_REAL, &tv, nullptr);
            inQuery = 0;
            return r;
        };
        Z3_solver s = nullptr;
        Z3_lbool r = Z3_L_UNDEF;
        if (!fp) {
            // incremental solver: every constraint is guarded by an assumption literal
            if (!inc || uses > SRV_USES) {
                if (inc) Z3_solver_dec_ref(Z, inc);
                inc = Z3_mk_simple_solver(Z);
                Z3_solver_inc_ref(Z, inc);
                guard.clear();
                uses = 0;
            }
            ++uses;
            std::vector<Z3_ast> as;
            for (EX c : all) {
                Z3_ast& g = guard[c];
                if (!g) {
                    char nm[32]; snprintf(nm, sizeof nm, "g%u", c);
                    g = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bool_sort(Z));
                    Z3_solver_assert(Z, inc, Z3_mk_implies(Z, g, zx(c)));
                }
                as.push_back(g);
            }
            r = timed(400, inc, as.size(), as.data());
            s = inc;
            Z3_solver_inc_ref(Z, s);
        }
        if (r == Z3_L_UNDEF) {
            if (s) Z3_solver_dec_ref(Z, s);
            zerr = Z3_OK;
            s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV"));
            Z3_solver_inc_ref(Z, s);
            for (EX c : all) Z3_solver_assert(Z, s, zx(c));
            r = timed(q.ms, s, 0, nullptr);
        }
        WireRep rep;
        rep.res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
        std::vector<uint64_t> vals;
        if (rep.res == R_SAT) {
            Z3_model md = Z3_solver_get_model(Z, s);
            if (!md) rep.res = R_UNKNOWN;
            else {
                Z3_model_inc_ref(Z, md);
                for (EX x : vars) {
                    Z3_ast v = nullptr;
                    uint64_t u = 0;
                    if (Z3_model_eval(Z, md, zx(x), true, &v) && v) {
                        if (NODES[x].w == 1) u = Z3_get_bool_value(Z, v) == Z3_L_TRUE;
                        else { uint64_t t = 0; Z3_get_numeral_uint64(Z, v, &t); u = t; }
                    }
                    vals.push_back(u);
                }
                Z3_model_dec_ref(Z, md);
            }
        }
        Z3_solver_dec_ref(Z, s);
        rep.vals = vals.size();
        if (!putAll(fd, &rep, sizeof rep) || !putAll(fd, vals.data(), vals.size() * 8)) break;
    }
    _exit(0);
}
void solverServersStart(int n) {
    if (n > MAXSRV) n = MAXSRV;
    if (!SRV) SRV = (SrvShared*)mmap(nullptr, sizeof(SrvShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    NSRV = 0;
    for (int i = 0; i < n; ++i) {
        pthread_mutexattr_t at;
        pthread_mutexattr_init(&at);
        pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
        pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST);
        pthread_mutex_init(&SRV->mu[i], &at);
        SRV->dead[i] = 0;
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) break;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(sv[0]);
            for (int k = 0; k < i; ++k) close(SRVFD[k]);
            serve(sv[1]);
        }
        close(sv[1]);
        SRVFD[i] = sv[0];
        NSRV = i + 1;
    }
}
void solverServersClose() { for (int i = 0; i < NSRV; ++i) close(SRVFD[i]); NSRV = 0; }
static SatRes askServer(const std::vector<EX>& all, std::vector<uint64_t>& m) {
    static std::vector<WireNode> wn;
    static std::vector<uint32_t> roots, local;
    static std::vector<EX> vars, order;
    wn.clear(); roots.clear(); vars.clear(); order.clear();
    static std::unordered_map<EX, uint32_t> num;
    num.clear();
    std::vector<EX> st;
    for (EX r : all) {
        st.push_back(r);
        while (!st.empty()) {
            EX x = st.back();
            if (num.count(x)) { st.pop_back(); continue; }
            if (NODES[x].op == X_TAB) {
                static std::unordered_map<EX, EX> expanded;
                EX& y = expanded[x];
                if (!y) y = tabExpand(x);
                if (!num.count(y)) { st.push_back(y); continue; }
                num[x] = num[y];
                st.pop_back();
                continue;
            }
            const Node n = NODES[x];
            bool ready = true;
            for (EX ch : {n.a, n.b, n.c}) if (ch && !num.count(ch)) { st.push_back(ch); ready = false; }
            if (!ready) continue;
            WireNode w; memset(&w, 0, sizeof w);
            w.op = n.op; w.w = n.w; w.k = n.k;
            w.a = n.a ? num[n.a] : 0; w.b = n.b ? num[n.b] : 0; w.c = n.c ? num[n.c] : 0;
            wn.push_back(w);
            num[x] = wn.size();
            if (n.op == X_VAR) vars.push_back(x);
            st.pop_back();
        }
        roots.push_back(num[r]);
    }
    for (int tries = 0; tries < 2 * NSRV; ++tries) {
        int s = -1;
        for (int i = 0; i < NSRV && s < 0; ++i) {
            int k = (LASTSRV + i) % NSRV;
            if (SRV->dead[k]) continue;
            int r = pthread_mutex_trylock(&SRV->mu[k]);
            if (r == EOWNERDEAD) { SRV->dead[k] = 1; pthread_mutex_consistent(&SRV->mu[k]); pthread_mutex_unlock(&SRV->mu[k]); }
            else if (r == 0) s = k;
        }
        if (s < 0) {
            int k = -1;
            for (int i = 0; i < NSRV; ++i) if (!SRV->dead[(LASTSRV + i) % NSRV]) { k = (LASTSRV + i) % NSRV; break; }
            if (k < 0) return R_UNKNOWN;
            int r = pthread_mutex_lock(&SRV->mu[k]);
            if (r == EOWNERDEAD) { SRV->dead[k] = 1; pthread_mutex_consistent(&SRV->mu[k]); pthread_mutex_unlock(&SRV->mu[k]); continue; }
            if (r) continue;
            s = k;
        }
        if (SRV->dead[s]) { pthread_mutex_unlock(&SRV->mu[s]); continue; }
        LASTSRV = s;
        WireReq q{(uint32_t)wn.size(), (uint32_t)roots.size(), SOLVER_MS, 0};
        WireRep rep;
        std::vector<uint64_t> vals;
        bool ok = putAll(SRVFD[s], &q, sizeof q) && putAll(SRVFD[s], wn.data(), wn.size() * sizeof(WireNode)) && putAll(SRVFD[s], roots.data(), roots.size() * 4) && getAll(SRVFD[s], &rep, sizeof rep);
        if (ok) { vals.resize(rep.vals); ok = getAll(SRVFD[s], vals.data(), vals.size() * 8); }
        if (!ok) SRV->dead[s] = 1;
        pthread_mutex_unlock(&SRV->mu[s]);
        if (!ok) continue;
        if (rep.res == R_SAT) {
            m = getWitness();
            for (size_t i = 0; i < vars.size() && i < vals.size(); ++i) m[NODES[vars[i]].k] = vals[i];
        }
        return (SatRes)rep.res;
    }
    return R_UNKNOWN;
}

SatRes solve(EX extra, std::vector<uint64_t>* model, bool exact) {
    const Node& X = NODES[extra];
    if (X.op == X_CONST) {
        if (!X.k) return R_UNSAT;
        if (model) *model = getWitness();
        return R_SAT;
    }
    if (holdsByPC(extra)) { if (model) *model = getWitness(); return R_SAT; }
    EX neg = xNot(extra);
    if (holdsByPC(neg)) return R_UNSAT;
    // slice
    VarSet vs = NODES[extra].vs;
    std::vector<char> used(PC.size(), 0);
    bool ch = true;
    std::vector<EX> cs;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < PC.size(); ++i) {
            if (used[i] || !NODES[PC[i]].vs.intersects(vs)) continue;
            used[i] = 1;
            cs.push_back(PC[i]);
            vs.add(NODES[PC[i]].vs);
            ch = true;
        }
    }
    std::sort(cs.begin(), cs.end());
    uint64_t h = 1469598103934665603ull;
    for (EX c : cs) { h = (h ^ c) * 1099511628211ull; h ^= h >> 27; }
    h = (h ^ extra) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    auto it = QCACHE.find(h);
    if (it != QCACHE.end()) {
        __sync_fetch_and_add(&CNT->cachehits, 1);
        if (it->second.first == R_SAT && model) {
            *model = getWitness();
            for (size_t i = 0; i < it->second.second.size(); ++i)
                if (vs.w[i / 64] >> (i % 64) & 1) (*model)[i] = it->second.second[i];
        }
        return (SatRes)it->second.first;
    }
    if (!exact) {
        std::vector<EX> f(cs); f.push_back(extra);
        std::vector<uint64_t> fm;
        int r = finiteSolve(f, vs, fm);
        if (r >= 0) {
            __sync_fetch_and_add(&CNT->finite, 1);
            if (r && model) *model = fm;
            return r ? R_SAT : R_UNSAT;
        }
    }
    uint64_t t0 = nowUs();
    std::vector<EX> all(cs); all.push_back(extra);
    std::vector<uint64_t> m;
    SatRes res = askServer(all, m);
    uint64_t dt = nowUs() - t0;
    __sync_fetch_and_add(&CNT->queries, 1);
    __sync_fetch_and_add(&CNT->solver_us, dt);
    if (dt > CNT->max_query_us) CNT->max_query_us = dt;
    __sync_fetch_and_add(res == R_SAT ? &CNT->sat : res == R_UNSAT ? &CNT->unsat : &CNT->unknown, 1);
    if (res == R_SAT) {
        // validate the model against our own evaluator: guards the encoding
        static std::unordered_map<EX, uint64_t> memo;
        memo.clear();
        auto ev = [&](EX root) {
            std::vector<EX> st{root};
            while (!st.empty()) {
                EX x = st.back();
                if (memo.count(x)) { st.pop_back(); continue; }
                const Node& n = NODES[x];
                if (n.op == X_CONST) { memo[x] = n.k; st.pop_back(); continue; }
                if (n.op == X_VAR) { memo[x] = m[n.k] & wmask(n.w); st.pop_back(); continue; }
                bool ready = true;
                for (EX chd : {n.a, n.b, n.c}) if (chd && !memo.count(chd)) { st.push_back(chd); ready = false; }
                if (!ready) continue;
                memo[x] = evalOp(n.op, n.w, n.a ? memo[n.a] : 0, n.b ? memo[n.b] : 0, n.c ? memo[n.c] : 0, n.k, n.a ? NODES[n.a].w : 0, n.b ? NODES[n.b].w : 0);
                st.pop_back();
            }
            return memo[root];
        };
        bool ok = true;
        for (EX c : all) ok = ok && ev(c);
        if (!ok) {
            if (getenv("SX_DEBUG")) fprintf(stderr, "model does not satisfy encoding : %s\n", xStr(extra).c_str());
            res = R_UNKNOWN;
            __sync_fetch_and_add(&CNT->unknown, 1);
        }
    }
    if (res != R_UNKNOWN) QCACHE[h] = {res, m};
    if (res == R_SAT && model) *model = m;
    return res;
}

void addPC(EX e) {
    const Node& n = NODES[e];
    if (n.op == X_CONST) return;
    if (n.op == X_AND && n.w == 1) { EX a = n.a, b = n.b; addPC(a); addPC(b); return; }
    if (PCSET.insert(e).second) PC.push_back(e);
}
