// Guest memory: an arena at a fixed address used both by interpreted code and by native pass-through calls,
// with one state byte and one symbolic-expression id per guest byte.
#pragma once
#include "expr.h"
#include <cstring>
#include <deque>
#include <unordered_map>

static const uint64_t ABASE = 0x100000000000ull;
static const uint64_t ASIZE = 0x300000000ull;  // 12 GB virtual
static const uint64_t STB = 0x200000000000ull, SEB = 0x300000000000ull;
static const uint64_t FBASE = 0x500000000000ull;  // fake function addresses
#define ST(a) ((uint8_t*)(STB + ((a) - ABASE)))
#define SE(a) ((uint32_t*)(SEB + ((a) - ABASE) * 4))
enum { M_V = 1, M_S = 2, M_RO = 4, M_FREED = 0x10, M_DEADSTACK = 0x20 };

static const uint64_t GLOBALS = ABASE + 0x10000, GLOBALS_END = ABASE + 0x10000000ull;      // 256 MB
static const uint64_t STACKS = ABASE + 0x10000000ull, STACK_SZ = 0x2000000ull;              // 32 MB each, 24 threads
static const uint64_t HEAP = ABASE + 0x40000000ull, HEAP_END = ABASE + ASIZE;

// unordered accesses: while several threads run, every aligned 8-byte word has the times of its last write and of the
// last read of each thread; whole words (pointers, sizes, copied content) are judged, smaller flags and counters are not
extern bool RACE_ON;
void raceStart();
void raceAcc(uint64_t a, unsigned n, bool wr, bool ptr);
void raceRange(uint64_t a, uint64_t n, bool wr, int freed);
void raceFresh(uint64_t a, uint64_t n);
void raceAcquire(uint64_t obj);
void raceRelease(uint64_t obj);
void raceSpawn(int child);
void raceJoin(int other);
inline bool inArena(uint64_t a) { return a - ABASE < ASIZE; }
uint64_t gMalloc(uint64_t n, uint64_t align = 16);
bool gFree(uint64_t p);        // false: invalid/double free
uint64_t gAllocSize(uint64_t p);
uint64_t gGlobal(uint64_t n, uint64_t align);
void memInit();
