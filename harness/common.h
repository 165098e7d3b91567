// Shared helpers for all harnesses.
#pragma once
#include "LuceneInc.h"
#include "LuceneHeaders.h"
#include "sx.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace Lucene;
#ifdef SX_THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
// true if evaluating EXPR throws a LuceneException
#define THROWS(EXPR) ([&]() -> bool { try { EXPR; } catch (LuceneException&) { return true; } return false; }())
// harness-level assertion on a concrete condition
static inline void req(bool c, const char* what) { sx_assert(c, what); }
// one point in a run: a symbolic number, compared with the count of the events seen so far
struct SymPoint {
    int64_t at, n;
    SymPoint(const char* name) : at(sx_range(name, 0, 1000000)), n(0) {}
    bool now() { return n++ == at; }
};
static inline String symStr(const char* n, int len, wchar_t lo, wchar_t hi) {
    String s;
    for (int i = 0; i < len; ++i) s += (wchar_t)sx_range(n, lo, hi);
    return s;
}
static inline String pickStr(const char* n, int len, wchar_t lo, wchar_t hi) {
    String s;
    for (int i = 0; i < len; ++i) s += (wchar_t)sx_pick(n, lo, hi);
    return s;
}
