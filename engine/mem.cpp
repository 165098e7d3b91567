#include "mem.h"
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>

static uint64_t gtop = GLOBALS, htop = HEAP;
struct Hdr { uint64_t size, cls, magic, pad; };
static const uint64_t MAGIC = 0x5ca1ab1e0ddba11ull;
static std::deque<uint64_t> freeq[64];
static uint64_t qbytes[64];

void memInit() {
    auto m = [](uint64_t a, uint64_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { perror("mmap"); exit(2); }
    };
    m(ABASE, ASIZE);
    m(STB, ASIZE);
    m(SEB, ASIZE * 4);
}
static unsigned classOf(uint64_t n, uint64_t& cap) {
    // cap includes payload only; classes: multiples of 16 up to 256, then powers of two
    if (n <= 256) { unsigned c = n ? (n + 15) / 16 : 1; cap = c * 16; return c; }
    unsigned lg = 64 - __builtin_clzll(n - 1);
    cap = 1ull << lg;
    return 8 + lg;
}
uint64_t gMalloc(uint64_t n, uint64_t align) {
    uint64_t cap;
    if (n > (1ull << 31)) return 0;
    unsigned c = classOf(n, cap);
    uint64_t p = 0;
    if (align <= 16 && qbytes[c] > (4u << 20)) {
        p = freeq[c].front();
        freeq[c].pop_front();
        qbytes[c] -= cap;
    }
    if (!p) {
        p = htop + sizeof(Hdr);
        if (align > 16) p = (p + align - 1) & ~(align - 1);
        htop = p + cap + 32;
        if (htop >= HEAP_END) { fprintf(stderr, "guest heap exhausted\n"); return 0; }
    }
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n; h->cls = c; h->magic = MAGIC;
    if (RACE_ON) raceFresh(p, n);
    memset((void*)p, 0xA5, n);
    memset(ST(p), M_V, n);
    return p;
}
bool gFree(uint64_t p) {
    if (!inArena(p) || p < HEAP || (p & 15)) return false;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (h->magic != MAGIC) return false;
    h->magic = 0;
    if (RACE_ON) raceRange(p, h->size, true, 1);
    memset(ST(p), M_FREED, h->size);
    uint64_t cap;
    unsigned c = classOf(h->size, cap);
    freeq[c].push_back(p);
    qbytes[c] += cap;
    return true;
}
uint64_t gAllocSize(uint64_t p) {
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    return h->magic == MAGIC ? h->size : ~0ull;
}
uint64_t gGlobal(uint64_t n, uint64_t align) {
    if (align < 16) align = 16;
    gtop = (gtop + align - 1) & ~(align - 1);
    uint64_t p = gtop;
    gtop += n + 32;
    if (gtop > GLOBALS_END) { fprintf(stderr, "globals exhausted\n"); exit(2); }
    memset(ST(p), M_V, n);
    return p;
}
