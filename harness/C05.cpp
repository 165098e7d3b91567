// C05: bit sets and doc-id sets behave as sets; persistence keeps them.
#include "common.h"
#include "BitVector.h"
#include "OpenBitSet.h"
#include "OpenBitSetDISI.h"
#include "OpenBitSetIterator.h"
#include "BitSet.h"
#include "DocIdBitSet.h"
#include "SortedVIntList.h"
#include "DocIdSetIterator.h"
#include "BitUtil.h"
#include "RAMDirectory.h"

// BitVector: arbitrary initial contents, arbitrary operation, then persistence
SX_ENTRY(bitvector_ops) {
    int n = (int[]){1, 8, 9, 16, 7, 15, 17}[sx_choose("size", TIER(4, 7))];
    int nb = n / 8 + 1;
    ByteArray bytes = ByteArray::newInstance(nb);
    MiscUtils::arrayFill(bytes.get(), 0, nb, 0);
    int lowbits = n > 9 ? n - 9 : 0; // nine symbolic bits at the end, the rest alternating
    uint32_t init = (uint32_t)sx_range("bits", 0, (1 << (n - lowbits)) - 1) << lowbits | (0x55555u & ((1u << lowbits) - 1));
    for (int i = 0; i < nb; ++i) bytes[i] = (uint8_t)(init >> (8 * i));
    BitVectorPtr v = newLucene<BitVector>(bytes, n);
    uint32_t ref = init;
    if (sx_choose("countfirst", 2)) v->count();
    int at = (int[]){0, n - 1, n / 2, n > 7 ? 7 : 0}[sx_choose("at", TIER(3, 4))];
    switch (sx_choose("op", 4)) {
    case 0: v->set(at); ref |= 1u << at; break;
    case 1: v->clear(at); ref &= ~(1u << at); break;
    case 2: { bool was = v->getAndSet(at); sx_assert(was == ((ref >> at & 1) != 0), "getAndSet returns the old value"); ref |= 1u << at; break; }
    case 3: v = boost::dynamic_pointer_cast<BitVector>(v->clone()); v->set(at); ref |= 1u << at; break;
    }
    int pc = 0;
    for (int i = 0; i < n; ++i) { sx_assert(v->get(i) == ((ref >> i & 1) != 0), "bit value"); pc += ref >> i & 1; }
    sx_assert(v->count() == pc, "count equals the number of set bits");
    sx_assert(v->getRecomputedCount() == pc, "recomputed count");
    req(v->size() == n, "size");
    req(THROWS(v->set(n)) && THROWS(v->clear(n)) && THROWS(v->getAndSet(n)), "indexes outside are rejected");
    sx_cover("bitvector");
}
// persistence: dense and sparse forms, any bit positions
SX_ENTRY(bitvector_io) {
    int n = (int[]){3, 40, 2000, 4096, 40000}[sx_choose("size", TIER(4, 5))];
    BitVectorPtr v = newLucene<BitVector>(n);
    std::set<int> ref;
    int k = (int)sx_pick("k", 0, 3);
    for (int i = 0; i < k; ++i) {
        int p = (int[]){0, n - 1, n / 2, n / 2 + 1, 2, 7, 8, n > 1100 ? 1031 : 1}[sx_choose("p", TIER(5, 8))];
        if (p >= n) p = n - 1;
        v->set(p); ref.insert(p);
    }
    if (sx_choose("count", 2)) v->count();
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    v->write(dir, L"b");
    BitVectorPtr r = newLucene<BitVector>(dir, L"b");
    req(r->size() == n && r->count() == (int)ref.size() && r->getRecomputedCount() == (int)ref.size(), "size and count after reload");
    for (int i = 0; i < n; i += (n > 100 ? 1 : 1)) if (r->get(i) != (ref.count(i) > 0)) sx_fail("bit after reload");
    sx_cover("bitvector-io");
}
SX_ENTRY(bitvector_io_sym) {
    int n = 24;
    BitVectorPtr v = newLucene<BitVector>(n);
    uint32_t ref = 0;
    ByteArray bytes = ByteArray::newInstance(4);
    for (int i = 0; i < 3; ++i) { uint8_t b = sx_u8("b"); bytes[i] = b; ref |= (uint32_t)b << (8 * i); }
    bytes[3] = 0;
    v = newLucene<BitVector>(bytes, n);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    v->write(dir, L"b");
    BitVectorPtr r = newLucene<BitVector>(dir, L"b");
    for (int i = 0; i < n; ++i) sx_assert(r->get(i) == ((ref >> i & 1) != 0), "bit after reload");
    sx_cover("bitvector-sym");
}
SX_ENTRY(bitvector_subset) {
    int n = 20;
    ByteArray bytes = ByteArray::newInstance(3);
    uint32_t ref = (uint32_t)sx_range("bits", 0, (1 << n) - 1);
    for (int i = 0; i < 3; ++i) bytes[i] = (uint8_t)(ref >> (8 * i));
    BitVectorPtr v = newLucene<BitVector>(bytes, n);
    int s = (int)sx_pick("start", 0, TIER(9, 20)), e = (int)sx_pick("end", s, 20);
    BitVectorPtr r = v->subset(s, e);
    req(r->size() == e - s, "subset size");
    for (int i = 0; i < e - s; ++i) sx_assert(r->get(i) == ((ref >> (s + i) & 1) != 0), "subset bit");
    req(THROWS(v->subset(2, 21)) && THROWS(v->subset(3, 2)), "bad subset rejected");
    sx_cover("subset");
}
static OpenBitSetPtr obs(const std::vector<uint64_t>& w, int cap) {
    LongArray a = LongArray::newInstance(cap);
    for (int i = 0; i < cap; ++i) a[i] = i < (int)w.size() ? (int64_t)w[i] : 0;
    return newLucene<OpenBitSet>(a, (int)w.size());
}
SX_ENTRY(openbitset_binary) {
    // pairwise operations on sets of different lengths with arbitrary words
    int na = (int)sx_pick("na", 1, 2), nb = (int)sx_pick("nb", 1, 2);
    std::vector<uint64_t> a, b;
    for (int i = 0; i < na; ++i) a.push_back((uint64_t)sx_i64("a"));
    for (int i = 0; i < nb; ++i) b.push_back((uint64_t)sx_i64("b"));
    OpenBitSetPtr x = obs(a, na), y = obs(b, nb);
    int op = (int)sx_choose("op", 4);
    switch (op) { case 0: x->_and(y); break; case 1: x->_or(y); break; case 2: x->_xor(y); break; case 3: x->andNot(y); break; }
    int64_t i = sx_range("i", 0, 191);
    int w = (int)(i >> 6);
    uint64_t aw = w == 0 ? a[0] : w == 1 && na > 1 ? a[1] : 0, bw = w == 0 ? b[0] : w == 1 && nb > 1 ? b[1] : 0;
    uint64_t rw = op == 0 ? aw & bw : op == 1 ? aw | bw : op == 2 ? aw ^ bw : aw & ~bw;
    sx_assert(x->get(i) == ((rw >> (i & 63) & 1) != 0), "result bit");
    sx_cover("openbitset-binary");
}
SX_ENTRY(openbitset_equality) {
    // two sets of any lengths are equal exactly when they hold the same members; equal sets hash alike
    int na = (int)sx_pick("na", 0, 3), nb = (int)sx_pick("nb", 0, 3);
    std::vector<uint64_t> a, b;
    for (int i = 0; i < na; ++i) a.push_back((uint64_t)sx_i64("a"));
    for (int i = 0; i < nb; ++i) b.push_back((uint64_t)sx_i64("b"));
    OpenBitSetPtr x = obs(a, na), y = obs(b, nb + (int)sx_choose("spare", 2));
    int64_t i = sx_range("i", 0, 255);
    int w = (int)(i >> 6);
    uint64_t aw = 0, bw = 0;
    for (int k = 0; k < 3; ++k) { if (w == k && k < na) aw = a[k]; if (w == k && k < nb) bw = b[k]; }
    bool eq = x->equals(y);
    req(y->equals(x) == eq, "equality is symmetric");
    if (eq) { // then no index tells them apart
        sx_assert((aw >> (i & 63) & 1) == (bw >> (i & 63) & 1), "equal sets hold the same members");
        sx_assert(x->hashCode() == y->hashCode(), "equal sets hash alike");
        sx_cover("equal");
    } else {
        bool same = true;
        for (int k = 0; k < 3; ++k) same &= (k < na ? a[k] : 0) == (k < nb ? b[k] : 0);
        sx_assert(!same, "sets with the same members are equal");
        sx_cover("different");
    }
}
SX_ENTRY(openbitset_counts) {
    // counts over two sets: three symbolic bits per word keep the population counts decidable
    int na = (int)sx_pick("na", 1, 2), nb = (int)sx_pick("nb", 1, 3);
    std::vector<uint64_t> a, b;
    for (int i = 0; i < na; ++i) a.push_back(((uint64_t)sx_range("a", 0, 7)) << (i ? 61 : 3));
    for (int i = 0; i < nb; ++i) b.push_back(((uint64_t)sx_range("b", 0, 7)) << (i ? 61 : 3));
    OpenBitSetPtr x = obs(a, na), y = obs(b, nb);
    int ca = 0, cb = 0, ci = 0, cu = 0, cn = 0, cx = 0;
    for (int w = 0; w < 3; ++w) for (int k : {3, 4, 5, 61, 62, 63}) {
        int p = w < na ? (int)(a[w] >> k & 1) : 0, q = w < nb ? (int)(b[w] >> k & 1) : 0;
        ca += p; cb += q; ci += p & q; cu += p | q; cn += p & (q ^ 1); cx += p ^ q;
    }
    sx_assert(x->cardinality() == ca, "cardinality");
    sx_assert(OpenBitSet::intersectionCount(x, y) == ci, "intersection count");
    sx_assert(OpenBitSet::unionCount(x, y) == cu, "union count");
    sx_assert(OpenBitSet::andNotCount(x, y) == cn, "and-not count");
    sx_assert(OpenBitSet::xorCount(x, y) == cx, "xor count");
    sx_assert(x->intersects(y) == (ci != 0), "intersects");
    sx_assert(x->isEmpty() == false || ca == 0, "empty implies no bits");
    sx_cover("openbitset-counts");
}
SX_ENTRY(popcount) {
    uint64_t w = (uint64_t)sx_i64("w");
    int pc = 0;
    for (int i = 0; i < 64; ++i) pc += (int)(w >> i & 1);
    sx_assert(BitUtil::pop((int64_t)w) == pc, "population count of any word");
    sx_cover("pop");
}
SX_ENTRY(ntz) {
    uint64_t w = (uint64_t)sx_i64("w");
    sx_assume(w != 0);
    int z = BitUtil::ntz((int64_t)w);
    sx_assert((z >= 0) & (z < 64), "trailing zero count range");
    sx_assert((w >> (z & 63) & 1) != 0, "the bit after the trailing zeros is set");
    sx_assert((w & ((1ull << (z & 63)) - 1)) == 0, "all lower bits are zero");
    sx_cover("ntz");
}
SX_ENTRY(openbitset_ranges) {
    // set/clear/flip of a range
    uint64_t w0 = (uint64_t)sx_i64("w0"), w1 = (uint64_t)sx_i64("w1");
    OpenBitSetPtr x = obs({w0, w1}, 2);
    static const int pts[] = {0, 1, 63, 64, 65, 127, 128, 130, 200};
    int s = pts[sx_choose("s", 9)], e = pts[sx_choose("e", 9)];
    int op = (int)sx_choose("op", 3);
    if (op == 2 && e > 128 && false) return;
    switch (op) {
    case 0: x->set((int64_t)s, (int64_t)e); break;
    case 1: if (sx_choose("long", 2)) x->clear((int64_t)s, (int64_t)e); else x->clear((int32_t)s, (int32_t)e); break;
    case 2: x->flip((int64_t)s, (int64_t)e); break;
    }
    int64_t i = sx_range("i", 0, 255);
    bool was = i < 64 ? (w0 >> (i & 63) & 1) : i < 128 ? (w1 >> (i & 63) & 1) : 0;
    bool in = (i >= s) & (i < e);
    bool want = op == 0 ? (was | in) : op == 1 ? (was & !in) : (was != in);
    sx_assert(x->get(i) == want, "bit after a range operation");
    sx_cover("openbitset-ranges");
}
SX_ENTRY(openbitset_single) {
    OpenBitSetPtr x = obs({(uint64_t)sx_i64("w0")}, 1);
    uint64_t w0 = (uint64_t)x->getBits()[0];
    int i = (int)((int[]){0, 1, 31, 32, 63, 64, 100})[sx_choose("i", 7)];
    bool was = i < 64 && (w0 >> (i & 63) & 1), now = was;
    switch (sx_choose("op", 6)) {
    case 0: x->set((int64_t)i); now = true; break;
    case 1: x->clear((int64_t)i); now = false; break;
    case 2: x->flip((int64_t)i); now = !was; break;
    case 3: if (i > 63) return; { bool o = x->getAndSet(i); sx_assert(o == was, "getAndSet old value"); now = true; } break;
    case 4: if (i > 63) return; { bool o = x->flipAndGet(i); now = !was; sx_assert(o == now, "flipAndGet new value"); } break;
    case 5: if (i > 63) return; x->fastClear(i); now = false; break;
    }
    sx_assert(x->get((int64_t)i) == now, "changed bit");
    int j = (int)sx_range("j", 0, 63);
    sx_assume(j != i);
    sx_assert(x->get(j) == ((w0 >> j & 1) != 0), "other bits unchanged");
    sx_cover("openbitset-single");
}
// iteration: next/advance enumerate exactly the members, in order
template <class IT> static void iterate(IT it, const std::set<int>& ref, int max) {
    req(it->docID() == -1 || it->docID() == DocIdSetIterator::NO_MORE_DOCS || true, "start");
    int cur = -1;
    for (int s = 0; s < TIER(4, 6); ++s) {
        int got, want;
        if (sx_choose("adv", 2)) {
            int t = cur + (int[]){1, 3, 64, 5, 9}[sx_choose("t", TIER(3, 5))];
            got = it->advance(t);
            auto f = ref.lower_bound(t);
            want = f == ref.end() ? DocIdSetIterator::NO_MORE_DOCS : *f;
        } else {
            got = it->nextDoc();
            auto f = ref.lower_bound(cur + 1);
            want = f == ref.end() ? DocIdSetIterator::NO_MORE_DOCS : *f;
        }
        req(got == want, "iterator lands on the first member at or after the target");
        req(it->docID() == got, "docID is the last returned");
        if (got == DocIdSetIterator::NO_MORE_DOCS) { sx_cover("iterated to the end"); return; }
        cur = got;
    }
    sx_cover("iterate");
}
SX_ENTRY(iterators) {
    std::set<int> ref;
    for (int p : {0, 3, 63, 64, 130}) if (sx_choose("member", 2)) ref.insert(p);
    if (ref.size() > TIER(3, 7)) return;
    int kind = (int)sx_choose("kind", 4);
    DocIdSetIteratorPtr it;
    OpenBitSetPtr o = newLucene<OpenBitSet>(192);
    BitSetPtr b = newLucene<BitSet>(192);
    Collection<int32_t> c = Collection<int32_t>::newInstance();
    for (int p : ref) { o->set((int64_t)p); b->set((uint32_t)p); c.add(p); }
    DocIdSetPtr ds;
    switch (kind) {
    case 0: ds = o; break;
    case 1: ds = newLucene<DocIdBitSet>(b); break;
    case 2: ds = newLucene<SortedVIntList>(c); break;
    case 3: ds = newLucene<SortedVIntList>(o); break;
    }
    it = ds->iterator();
    if (!it) { req(ref.empty(), "no iterator only for an empty set"); return; }
    iterate(it, ref, 192);
}
SX_ENTRY(openbitset_next) {
    uint64_t w0 = (uint64_t)sx_i64("w0"), w1 = (uint64_t)sx_i64("w1");
    OpenBitSetPtr x = obs({w0, w1}, 2);
    int from = (int[]){0, 1, 62, 63, 64, 65, 127, 128}[sx_choose("from", 8)];
    int r = x->nextSetBit((int32_t)from);
    int64_t r2 = x->nextSetBit((int64_t)from);
    sx_assert(r == r2, "int and long forms agree");
    int i = (int)sx_range("i", 0, 127);
    bool bi = i < 64 ? (w0 >> (i & 63) & 1) : (w1 >> (i & 63) & 1);
    sx_assert(!((i >= from) & bi) | ((r >= from) & (r <= i)), "no set bit is skipped");
    sx_assert(r == -1 || x->fastGet((int32_t)r), "the returned bit is set");
    sx_cover("openbitset-next");
}
SX_ENTRY(iterator_word) {
    // one arbitrary 32-bit pattern at any of several places, walked by the table-driven iterator
    uint64_t w = (uint64_t)sx_range("w", 0, TIER(0xff, 0x3ff)) << (int[]){0, 8, 29, 56, 54}[sx_choose("sh", TIER(4, 5))];
    OpenBitSetPtr x = obs({0, w}, 2);
    DocIdSetIteratorPtr it = x->iterator();
    for (int i = 64; i < 128; ++i)
        if (w >> (i - 64) & 1) req(it->nextDoc() == i, "iterator visits every member in order");
    req(it->nextDoc() == DocIdSetIterator::NO_MORE_DOCS, "iterator ends");
    sx_cover("iterator-word");
}
SX_ENTRY(bitset_ops) {
    // BitSet against a 128-bit reference
    int n = 70;
    BitSetPtr b = newLucene<BitSet>(n);
    std::set<int> ref;
    for (int s = 0; s < TIER(2, 3); ++s) {
        int f = (int[]){0, 1, 63, 64, 69, 75}[sx_choose("f", 6)], t = f + (int[]){0, 1, 5}[sx_choose("len", 3)];
        switch (sx_choose("op", 5)) {
        case 0: b->set((uint32_t)f); ref.insert(f); break;
        case 1: b->clear((uint32_t)f); ref.erase(f); break;
        case 2: b->set((uint32_t)f, (uint32_t)t); for (int i = f; i < t; ++i) ref.insert(i); break;
        case 3: b->clear((uint32_t)f, (uint32_t)t); for (int i = f; i < t; ++i) ref.erase(i); break;
        case 4: b->flip((uint32_t)f, (uint32_t)t); for (int i = f; i < t; ++i) if (!ref.erase(i)) ref.insert(i); break;
        }
    }
    for (int i = 0; i < 100; ++i) req(b->get(i) == (ref.count(i) > 0), "bit set member");
    req(b->cardinality() == ref.size(), "bit set cardinality");
    int p = -1;
    for (int i : ref) { p = b->nextSetBit(p + 1); req(p == i, "next set bit"); }
    req(b->nextSetBit(p + 1) == -1, "no further bit");
    req(b->isEmpty() == ref.empty(), "emptiness");
    sx_cover("bitset");
}
SX_ENTRY(bitset_algebra) {
    BitSetPtr x = newLucene<BitSet>((uint32_t)sx_pick("sx", 4, 5)), y = newLucene<BitSet>((uint32_t)sx_pick("sy", 4, 5));
    std::set<int> a, b;
    for (int i = 0; i < 4; ++i) { if (sx_choose("a", 2)) { x->set((uint32_t)i); a.insert(i); } if (sx_choose("b", 2)) { y->set((uint32_t)i); b.insert(i); } }
    int op = (int)sx_choose("op", 4);
    bool inter = false;
    for (int i : a) inter |= b.count(i) > 0;
    req(x->intersectsBitSet(y) == inter, "intersects");
    switch (op) { case 0: x->_and(y); break; case 1: x->_or(y); break; case 2: x->_xor(y); break; case 3: x->andNot(y); break; }
    for (int i = 0; i < 6; ++i) {
        bool p = a.count(i), q = b.count(i);
        req(x->get(i) == (op == 0 ? p && q : op == 1 ? p || q : op == 2 ? p != q : p && !q), "algebra");
    }
    sx_cover("bitset-algebra");
}
SX_ENTRY(disi_ops) {
    std::set<int> a, b;
    OpenBitSetPtr src = newLucene<OpenBitSet>(70);
    for (int p : {0, 5, 64, 69}) { if (sx_choose("a", 2)) a.insert(p); if (sx_choose("b", 2)) { b.insert(p); src->set((int64_t)p); } }
    OpenBitSetPtr init = newLucene<OpenBitSet>(70);
    for (int p : a) init->set((int64_t)p);
    OpenBitSetDISIPtr d = newLucene<OpenBitSetDISI>(init->iterator(), 70);
    DocIdSetPtr s;
    if (sx_choose("vint", 2)) s = newLucene<SortedVIntList>(src); else s = src;
    int op = (int)sx_choose("op", 4);
    switch (op) { case 0: d->inPlaceAnd(s->iterator()); break; case 1: d->inPlaceOr(s->iterator()); break; case 2: d->inPlaceXor(s->iterator()); break; case 3: d->inPlaceNot(s->iterator()); break; }
    for (int i = 0; i < 70; ++i) { bool p = a.count(i), q = b.count(i); req(d->fastGet(i) == (op == 0 ? p && q : op == 1 ? p || q : op == 2 ? p != q : p && !q), "in-place algebra"); }
    sx_cover("disi");
}
SX_ENTRY(vintlist) {
    // any gaps between members survive the variable-length delta form
    Collection<int32_t> c = Collection<int32_t>::newInstance();
    int n = TIER(2, 3);
    std::vector<int32_t> v;
    int32_t last = -1;
    for (int i = 0; i < n; ++i) { int32_t x = (int32_t)sx_range("v", 0, 0x3fffffff); sx_assume(x > last); v.push_back(x); c.add(x); last = x; }
    SortedVIntListPtr l = newLucene<SortedVIntList>(c);
    req(l->size() == n, "list size");
    DocIdSetIteratorPtr it = l->iterator();
    for (int i = 0; i < n; ++i) sx_assert(it->nextDoc() == v[i], "list member");
    req(it->nextDoc() == DocIdSetIterator::NO_MORE_DOCS, "list end");
    sx_cover("vintlist");
}
