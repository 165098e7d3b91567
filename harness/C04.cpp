// C04: numeric range queries and filters, indexed at any precision step or through the field cache, match exactly the values in the range.
#include "stubq.h"
#include <cstring>
#include <climits>
#include <limits>
#include "NumericField.h"
#include "NumericRangeQuery.h"
#include "NumericRangeFilter.h"
#include "FieldCacheRangeFilter.h"
#include "MatchAllDocsQuery.h"
#include "VariantUtils.h"
#include "MultiTermQuery.h"
#include "Filter.h"
static const int IV[] = {0, INT_MIN, -17, 7, INT_MAX, -16, -1, 300, 1, 15, 16, 255, 256, INT_MIN + 1, INT_MAX - 1, -256};
static const int64_t LV[] = {0, LLONG_MIN, -17, 7, LLONG_MAX, -16, -1, 5000000000LL, 1, 15, 16, 4294967295LL, 4294967296LL, LLONG_MIN + 1, LLONG_MAX - 1, -4294967296LL};
static const double DV[] = {0.0, -1e300, -17.5, 7, 1e300, -1, -1e-300, 5e9, 1, 1.5, 16, 255.25, 1e-300, -2.5, 2, -256};
static const int NV = 16, DELETED = 9;
template <class A> static IndexSearcherPtr index(A add) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    w->setMaxBufferedDocs(6);
    w->setMergeFactor(20);
    for (int i = 0; i < NV; ++i) {
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"id", StringUtils::toString(i), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
        add(d, i);
        d->add(newLucene<NumericField>(L"o", 64)->setLongValue(LLONG_MIN + i)); // the terms that follow those of n are below every bound
        w->addDocument(d);
    }
    w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(DELETED)));
    w->close();
    return newLucene<IndexSearcher>(IndexReader::open(dir, true));
}
static void sameIds(const IndexSearcherPtr& se, const QueryPtr& q, const FilterPtr& f, const std::set<int>& want) {
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(false);
    se->search(q, f, c);
    for (int i = 0; i < NV; ++i) {
        if (c->h.count(i) && !want.count(i)) sx_fail("a value outside the range is not matched");
        if (!c->h.count(i) && want.count(i)) sx_fail("a value in the range is matched");
    }
    double s = -1;
    for (auto& x : c->h) { req(s < 0 || near(s, x.second), "all matches score the same"); s = x.second; }
}
template <class T> static std::set<int> inRange(const T* v, int ends, T lo, T hi, bool il, bool iu) {
    std::set<int> r;
    for (int i = 0; i < NV; ++i) if (i != DELETED && (ends == 1 || (il ? v[i] >= lo : v[i] > lo)) && (ends == 2 || (iu ? v[i] <= hi : v[i] < hi))) r.insert(i);
    return r;
}
static RewriteMethodPtr method() {
    switch (sx_choose("rewrite", TIER(2, 3))) {
    case 0: return MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE();
    case 1: return MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE();
    default: return MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT();
    }
}
// runs one range over a numeric field; V wraps a bound, or nothing at an open end
static void run(const IndexSearcherPtr& se, const String& f, int step, NumericValue lo, NumericValue hi, bool il, bool iu, const std::set<int>& want) {
    NumericRangeQueryPtr q = VariantUtils::isNull(lo) || VariantUtils::isNull(hi) ? newLucene<NumericRangeQuery>(f, step, VariantUtils::typeOf<int32_t>(lo) || VariantUtils::typeOf<int32_t>(hi) ? 32 : 64, lo, hi, il, iu) : NumericRangeQuery::newNumericRange(f, step, lo, hi, il, iu);
    req(q->getMin() == lo && q->getMax() == hi && q->includesMin() == il && q->includesMax() == iu && q->getField() == f, "a range query reports its bounds");
    if (sx_choose("filter", 2)) { sameIds(se, newLucene<MatchAllDocsQuery>(), newLucene<NumericRangeFilter>(q), want); return; }
    q->setRewriteMethod(method());
    sameIds(se, q, FilterPtr(), want);
}
static const int STEPS[] = {4, 12, 32, 3};
SX_ENTRY(ints) {
    int step = STEPS[sx_choose("step", TIER(2, 4))];
    IndexSearcherPtr se = index([&](const DocumentPtr& d, int i) { d->add(newLucene<NumericField>(L"n", step)->setIntValue(IV[i])); });
    static const int B[] = {-16, 0, 255, INT_MIN + 1, INT_MAX - 1};
    int ends = (int)sx_choose("ends", 3);
    bool il = sx_choose("incmin", 2), iu = sx_choose("incmax", 2);
    int lo = B[sx_choose("lower", 4)] + (int)sx_range("lo", -1, 1), hi = B[sx_choose("upper", 3) + 2] + (int)TIER(sx_pick("hi", -1, 1), sx_range("hi", -1, 1));
    run(se, L"n", step, ends == 1 ? NumericValue(VariantUtils::null()) : NumericValue(lo), ends == 2 ? NumericValue(VariantUtils::null()) : NumericValue(hi), il, iu, inRange(IV, ends, lo, hi, il, iu));
    sx_cover("ints");
}
SX_ENTRY(longs) {
    int step = STEPS[sx_choose("step", TIER(2, 4))];
    IndexSearcherPtr se = index([&](const DocumentPtr& d, int i) { d->add(newLucene<NumericField>(L"n", step)->setLongValue(LV[i])); });
    static const int64_t B[] = {-16, 0, 4294967295LL, LLONG_MIN + 1, LLONG_MAX - 1};
    int ends = (int)sx_choose("ends", 3);
    bool il = sx_choose("incmin", 2), iu = sx_choose("incmax", 2);
    int64_t lo = B[sx_choose("lower", 4)] + sx_range("lo", -1, 1), hi = B[sx_choose("upper", 3) + 2] + TIER(sx_pick("hi", -1, 1), sx_range("hi", -1, 1));
    run(se, L"n", step, ends == 1 ? NumericValue(VariantUtils::null()) : NumericValue(lo), ends == 2 ? NumericValue(VariantUtils::null()) : NumericValue(hi), il, iu, inRange(LV, ends, lo, hi, il, iu));
    sx_cover("longs");
}
static double bound(const char* n) {
    static const double INF = std::numeric_limits<double>::infinity();
    static const double B[] = {0.0, -17.5, 1e300, -1e300, 255.25, INF, -INF, 1.0, -1e-300};
    double b = B[sx_choose(n, TIER(7, 9))];
    int k = (int)sx_choose(n, 3);
    if (k == 0 || b == INF || b == -INF) { if (k) sx_stop(); return b; }
    if (b == 0) return k == 1 ? -std::numeric_limits<double>::denorm_min() : std::numeric_limits<double>::denorm_min();
    int64_t x; memcpy(&x, &b, 8); // the neighbouring values
    x += (k == 2) == (b > 0) ? 1 : -1;
    memcpy(&b, &x, 8);
    return b;
}
SX_ENTRY(doubles) {
    int step = STEPS[sx_choose("step", 2)];
    IndexSearcherPtr se = index([&](const DocumentPtr& d, int i) { d->add(newLucene<NumericField>(L"n", step)->setDoubleValue(DV[i])); });
    int ends = (int)sx_choose("ends", 3);
    bool il = sx_choose("incmin", 2), iu = sx_choose("incmax", 2);
    double lo = ends == 1 ? 0 : bound("lo"), hi = ends == 2 ? 0 : bound("hi");
    std::set<int> want = inRange(DV, ends, lo, hi, il, iu);
    NumericRangeQueryPtr q = newLucene<NumericRangeQuery>(L"n", step, 64, ends == 1 ? NumericValue(VariantUtils::null()) : NumericValue(lo), ends == 2 ? NumericValue(VariantUtils::null()) : NumericValue(hi), il, iu);
    sameIds(se, q, FilterPtr(), want);
    if (ends == 0) sameIds(se, newLucene<MatchAllDocsQuery>(), FieldCacheRangeFilter::newDoubleRange(L"n", lo, hi, il, iu), want);
    sx_cover("doubles");
}
// ranges over cached values: any symbolic bounds
SX_ENTRY(cached_ints) {
    bool numeric = sx_choose("numeric", 2);
    IndexSearcherPtr se = index([&](const DocumentPtr& d, int i) { if (numeric) d->add(newLucene<NumericField>(L"n", 8)->setIntValue(IV[i])); else d->add(newLucene<Field>(L"n", StringUtils::toString(IV[i]), Field::STORE_NO, Field::INDEX_NOT_ANALYZED)); });
    bool il = sx_choose("incmin", 2), iu = sx_choose("incmax", 2);
    int32_t lo = sx_i32("lo"), hi = sx_i32("hi");
    sameIds(se, newLucene<MatchAllDocsQuery>(), FieldCacheRangeFilter::newIntRange(L"n", lo, hi, il, iu), inRange(IV, 0, lo, hi, il, iu));
    sx_cover("cached");
}
SX_ENTRY(cached_longs) {
    bool numeric = sx_choose("numeric", 2);
    IndexSearcherPtr se = index([&](const DocumentPtr& d, int i) { if (numeric) d->add(newLucene<NumericField>(L"n", 8)->setLongValue(LV[i])); else d->add(newLucene<Field>(L"n", StringUtils::toString(LV[i]), Field::STORE_NO, Field::INDEX_NOT_ANALYZED)); });
    bool il = sx_choose("incmin", 2), iu = sx_choose("incmax", 2);
    int64_t lo = sx_i64("lo"), hi = sx_i64("hi");
    sameIds(se, newLucene<MatchAllDocsQuery>(), FieldCacheRangeFilter::newLongRange(L"n", lo, hi, il, iu), inRange(LV, 0, lo, hi, il, iu));
    sx_cover("cached");
}
SX_ENTRY(cached_bytes) {
    static uint8_t BV[NV];
    for (int i = 0; i < NV; ++i) BV[i] = (uint8_t)(i * 17);
    IndexSearcherPtr se = index([&](const DocumentPtr& d, int i) { d->add(newLucene<Field>(L"n", StringUtils::toString((int32_t)BV[i]), Field::STORE_NO, Field::INDEX_NOT_ANALYZED)); });
    bool il = sx_choose("incmin", 2), iu = sx_choose("incmax", 2);
    uint8_t lo = sx_u8("lo"), hi = sx_u8("hi");
    sameIds(se, newLucene<MatchAllDocsQuery>(), FieldCacheRangeFilter::newByteRange(L"n", lo, hi, il, iu), inRange(BV, 0, lo, hi, il, iu));
    sx_cover("cached");
}
