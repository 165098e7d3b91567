// C03: numeric term encodings preserve order and value; range splitting covers exactly the range.
#include "common.h"
#include "NumericUtils.h"
#include "NumberTools.h"
#include "MiscUtils.h"
static int cmpStr(const String& a, const String& b, bool& lt) {
    // -1/0/1 decided by the solver path by path
    lt = a < b;
    return 0;
}
SX_ENTRY(long_order) {
    int64_t a = sx_i64("a"), b = sx_i64("b");
    String x = NumericUtils::longToPrefixCoded(a), y = NumericUtils::longToPrefixCoded(b);
    req(x.size() == y.size(), "equal length");
    sx_assert(NumericUtils::prefixCodedToLong(x) == a, "long round trip");
    bool lt = x < y;
    sx_assert(lt == (a < b), "term order equals numeric order");
    sx_cover("long-order");
}
SX_ENTRY(int_order) {
    int32_t a = sx_i32("a"), b = sx_i32("b");
    String x = NumericUtils::intToPrefixCoded(a), y = NumericUtils::intToPrefixCoded(b);
    req(x.size() == y.size(), "equal length");
    sx_assert(NumericUtils::prefixCodedToInt(x) == a, "int round trip");
    bool lt = x < y;
    sx_assert(lt == (a < b), "term order equals numeric order");
    sx_cover("int-order");
}
SX_ENTRY(long_shift) {
    int64_t a = sx_i64("a");
    int shift = (int)sx_pick("shift", 0, 63);
    String x = NumericUtils::longToPrefixCoded(a, shift);
    req((int)x.size() == (63 - shift) / 7 + 2, "term length for the precision");
    for (size_t i = 0; i < x.size(); ++i) sx_assert((x[i] >= 0) & (x[i] <= 0x7f), "seven-bit characters");
    sx_assert(NumericUtils::prefixCodedToLong(x) == ((a >> shift) << shift), "decoded prefix drops exactly the low bits");
    sx_cover("long-shift");
}
SX_ENTRY(int_shift) {
    int32_t a = sx_i32("a");
    int shift = (int)sx_pick("shift", 0, 31);
    String x = NumericUtils::intToPrefixCoded(a, shift);
    req((int)x.size() == (31 - shift) / 7 + 2, "term length for the precision");
    sx_assert(NumericUtils::prefixCodedToInt(x) == (int32_t)((uint32_t)(a >> shift) << shift), "decoded prefix drops exactly the low bits");
    for (size_t i = 0; i < x.size(); ++i) sx_assert((x[i] >= 0) & (x[i] <= 0x7f), "seven-bit characters");
    sx_cover("int-shift");
}
SX_ENTRY(shift_order) {
    // at the same precision, order of terms equals order of the shifted values; different precisions never mix
    int64_t a = sx_i64("a"), b = sx_i64("b");
    int shift = (int)sx_pick("shift", 1, TIER(9, 63));
    String x = NumericUtils::longToPrefixCoded(a, shift), y = NumericUtils::longToPrefixCoded(b, shift);
    bool lt = x < y;
    sx_assert(lt == ((a >> shift) < (b >> shift)), "prefix term order");
    req(NumericUtils::longToPrefixCoded(7, shift)[0] != NumericUtils::longToPrefixCoded(7, shift - 1)[0], "precisions have distinct prefixes");
    req(NumericUtils::longToPrefixCoded(7, shift)[0] != NumericUtils::intToPrefixCoded(7, shift & 31)[0] , "long and int terms are distinct");
    sx_cover("shift-order");
}
SX_ENTRY(bad_shift) {
    int32_t s = (int32_t[]){-1, 64, 65, INT32_MIN, INT32_MAX, 32, 40}[sx_choose("shift", 7)];
    if (s < 0 || s > 63) req(THROWS(NumericUtils::longToPrefixCoded(1, s)), "illegal long shift must be rejected");
    req(THROWS(NumericUtils::intToPrefixCoded(1, s)), "illegal int shift must be rejected");
    wchar_t c = (wchar_t[]){0x80, 0xff, 0x100, 0x3fff}[sx_choose("c", 4)];
    String t = NumericUtils::longToPrefixCoded(5);
    t[(int)sx_pick("at", 1, 4)] = c;
    req(THROWS(NumericUtils::prefixCodedToLong(t)), "invalid term character must be rejected");
    req(THROWS(NumericUtils::prefixCodedToInt(NumericUtils::longToPrefixCoded(5))), "a long term is not an int term");
    req(THROWS(NumericUtils::prefixCodedToLong(NumericUtils::intToPrefixCoded(5))), "an int term is not a long term");
    sx_cover("bad-shift");
}
SX_ENTRY(double_order) {
    int64_t a = sx_i64("a"), b = sx_i64("b");
    double x = MiscUtils::longBitsToDouble(a), y = MiscUtils::longBitsToDouble(b);
    sx_assume((x == x) & (y == y));
    int64_t sa = NumericUtils::doubleToSortableLong(x), sb = NumericUtils::doubleToSortableLong(y);
    if (sx_choose("lt", 2)) { sx_assume(x < y); sx_assert(sa < sb, "sortable form preserves order"); }
    else { sx_assume(sa < sb); sx_assert(x <= y, "sortable order implies value order"); }
    double back = NumericUtils::sortableLongToDouble(sa);
    sx_assert(MiscUtils::doubleToRawLongBits(back) == a, "double round trip is exact");
    sx_cover("double-order");
}
SX_ENTRY(double_terms) {
    int64_t a = sx_i64("a");
    double x = MiscUtils::longBitsToDouble(a);
    double back = NumericUtils::prefixCodedToDouble(NumericUtils::doubleToPrefixCoded(x));
    sx_assert(MiscUtils::doubleToRawLongBits(back) == a, "double term round trip is exact");
    sx_cover("double-terms");
}
struct Ranges64 : public LongRangeBuilder {
    std::vector<int64_t> lo, hi; std::vector<int> sh;
    virtual void addRange(int64_t min, int64_t max, int32_t shift) { lo.push_back(min); hi.push_back(max); sh.push_back(shift); }
};
struct Ranges32 : public IntRangeBuilder {
    std::vector<int64_t> lo, hi; std::vector<int> sh;
    virtual void addRange(int32_t min, int32_t max, int32_t shift) { lo.push_back(min); hi.push_back(max); sh.push_back(shift); }
};
// a value is matched by (lo,hi,shift) iff its prefix at that precision lies between the prefixes of the bounds
template <class R> static void cover(R& r, int64_t v, int64_t lo, int64_t hi, int step, int size) {
    int cnt = 0;
    uint64_t in = 0, dup = 0;
    for (size_t i = 0; i < r.lo.size(); ++i) {
        req(r.sh[i] % step == 0 && r.sh[i] < size, "range precision is one that is indexed");
        uint64_t m = (uint64_t)(((v >> r.sh[i]) >= (r.lo[i] >> r.sh[i])) & ((v >> r.sh[i]) <= (r.hi[i] >> r.sh[i])));
        dup |= in & m;
        in |= m;
    }
    sx_assert((in != 0) == ((v >= lo) & (v <= hi)), "a value is covered exactly when it lies in the range");
    sx_assert(dup == 0, "no value is covered twice");
    (void)cnt;
}
SX_ENTRY(split_long) {
    static const int steps[] = {16, 32, 13, 64, 8, 4};
    int step = steps[sx_choose("step", TIER(2, 5))];
    int64_t lo = sx_i64("lo"), hi = sx_i64("hi"), v = sx_i64("v");
    sx_assume(lo <= hi);
    boost::shared_ptr<Ranges64> b = newLucene<Ranges64>();
    NumericUtils::splitLongRange(b, step, lo, hi);
    req(!b->lo.empty(), "a non-empty range yields at least one sub-range");
    cover(*b, v, lo, hi, step, 64);
    sx_cover("split-long");
}
SX_ENTRY(split_int) {
    static const int steps[] = {8, 16, 32, 5, 4};
    int step = steps[sx_choose("step", TIER(3, 5))];
    int32_t lo = sx_i32("lo"), hi = sx_i32("hi"), v = sx_i32("v");
    sx_assume(lo <= hi);
    boost::shared_ptr<Ranges32> b = newLucene<Ranges32>();
    NumericUtils::splitIntRange(b, step, lo, hi);
    req(!b->lo.empty(), "a non-empty range yields at least one sub-range");
    cover(*b, v, lo, hi, step, 32);
    sx_cover("split-int");
}
SX_ENTRY(split_small) {
    // fine precision steps on small ranges anywhere
    static const int steps[] = {1, 2, 3, 4, 6, 7};
    int step = steps[sx_choose("step", TIER(3, 6))];
    int64_t base = sx_choose("base", 3) == 0 ? -4 : sx_choose("top", 2) ? INT64_MAX - 40 : INT64_MIN;
    int64_t lo = base + sx_range("lo", 0, TIER(12, 40)), hi = base + sx_range("hi", 0, TIER(12, 40)), v = sx_i64("v");
    sx_assume(lo <= hi);
    boost::shared_ptr<Ranges64> b = newLucene<Ranges64>();
    NumericUtils::splitLongRange(b, step, lo, hi);
    cover(*b, v, lo, hi, step, 64);
    sx_cover("split-small");
}
SX_ENTRY(split_empty) {
    int64_t lo = sx_i64("lo"), hi = sx_i64("hi");
    sx_assume(lo > hi);
    boost::shared_ptr<Ranges64> b = newLucene<Ranges64>();
    NumericUtils::splitLongRange(b, (int)sx_pick("step", 1, 8), lo, hi);
    req(b->lo.empty(), "an empty range yields nothing");
    req(THROWS(NumericUtils::splitLongRange(b, 0, 0, 1)), "a precision step below one is rejected");
    sx_cover("split-empty");
}
// fixed-width decimal strings (base 36)
SX_ENTRY(number_tools) {
    int64_t base = (int64_t[]){0, INT64_MAX - 40, INT64_MIN, -40, 36 * 36 * 36 - 20}[sx_choose("base", 5)];
    int64_t a = base + sx_range("a", 0, 39), b = base + sx_range("b", 0, 39);
    String x = NumberTools::longToString(a), y = NumberTools::longToString(b);
    req(x.size() == 14 && y.size() == 14, "fixed width");
    sx_assert(NumberTools::stringToLong(x) == a, "number string round trip");
    bool lt = x < y;
    sx_assert(lt == (a < b), "number strings sort numerically");
    sx_cover("number-tools");
}
SX_ENTRY(number_tools_far) {
    int64_t a = ((int64_t[]){0, INT64_MAX - 2, INT64_MIN, -1, -(1LL << 40)})[sx_choose("base", 5)] + sx_range("a", 0, 2);
    int64_t b = ((int64_t[]){0, INT64_MAX - 2, INT64_MIN, -1, -(1LL << 40), 1LL << 50})[sx_choose("base2", 6)] + sx_range("b", 0, 2);
    String x = NumberTools::longToString(a), y = NumberTools::longToString(b);
    bool lt = x < y;
    sx_assert(lt == (a < b), "number strings sort numerically");
    sx_cover("far");
}
SX_ENTRY(number_tools_bad) {
    String s = L"0000000000000z";
    s[0] = (wchar_t)sx_range("c", 0x20, 0x7f);
    sx_assume((s[0] != L'0') & (s[0] != L'-'));
    req(THROWS(NumberTools::stringToLong(s)), "bad prefix must be rejected");
    req(THROWS(NumberTools::stringToLong(L"012")), "bad length must be rejected");
    sx_cover("bad");
}
