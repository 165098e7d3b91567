// C06: lossy norm encoding.
#include "common.h"
#include "SmallDouble.h"
#include "DefaultSimilarity.h"
#include "MiscUtils.h"
static double symDouble(const char* n) { int64_t b = sx_i64(n); return MiscUtils::longBitsToDouble(b); }
static double symFloat(const char* n) { int32_t b = sx_i32(n); return MiscUtils::intBitsToDouble(b); }
SX_ENTRY(exact_bytes) {
    uint8_t b = sx_u8("b");
    double d = SmallDouble::byteToDouble(b);
    sx_assert(d >= 0.0, "decoded norm is not negative");
    sx_assert(SmallDouble::doubleToByte(d) == b, "re-encoding a decoded norm gives the same byte");
    uint8_t c = sx_u8("c");
    sx_assume(b < c);
    sx_assert(d < SmallDouble::byteToDouble(c), "larger bytes decode to larger norms");
    sx_cover("bytes");
}
SX_ENTRY(monotone) {
    double f = symFloat("f"), g = symFloat("g");
    sx_assume((f >= 0) & (f <= g));
    uint8_t bf = SmallDouble::doubleToByte(f), bg = SmallDouble::doubleToByte(g);
    sx_assert(bf <= bg, "encoding is monotone");
    sx_cover("monotone");
}
SX_ENTRY(truncation) {
    double f = symFloat("f");
    sx_assume(f > 0);
    uint8_t b = SmallDouble::doubleToByte(f);
    sx_assert(b != 0, "a positive value never becomes zero");
    double d = SmallDouble::byteToDouble(b);
    if (b > 1) sx_assert(d <= f, "decoded value does not exceed the encoded one");
    if (b < 255) sx_assert(f < SmallDouble::byteToDouble((uint8_t)(b + 1)), "the next code is above the value");
    sx_cover("truncation");
}
SX_ENTRY(negative) {
    double f = symDouble("f");
    sx_assume(f < 0);
    sx_assert(SmallDouble::doubleToByte(f) == 0, "negative values become zero");
    sx_cover("negative");
}
SX_ENTRY(double_input) {
    double f = symDouble("f");
    sx_assume((f > 0) & (f < 1e30));
    uint8_t b = SmallDouble::doubleToByte(f);
    sx_assert(b != 0, "positive double");
    if (b > 1) sx_assert(SmallDouble::byteToDouble(b) <= f * 1.0000001, "decoded value near or below");
    sx_cover("double");
}
SX_ENTRY(similarity_table) {
    // the similarity's norm table is the decoding, for every byte
    uint8_t b = (uint8_t)sx_choose("b", 256);
    double t = Similarity::decodeNorm(b);
    req(t == SmallDouble::byteToDouble(b), "norm table entry");
    req(Similarity::encodeNorm(t) == b, "norm table re-encodes");
    Collection<double> tab = Similarity::getNormDecoder();
    req(tab.size() == 256 && tab[b] == t, "decoder table");
    sx_cover("table");
}
SX_ENTRY(length_norm) {
    // longer fields never get a larger encoded length norm; tf grows with the frequency; idf falls with document frequency
    SimilarityPtr s = newLucene<DefaultSimilarity>();
    int n = (int)sx_pick("n", 1, TIER(64, 2000));
    double a = s->lengthNorm(L"f", n), b = s->lengthNorm(L"f", n + 1);
    req(a >= b && Similarity::encodeNorm(a) >= Similarity::encodeNorm(b) && b > 0, "length norm falls with length");
    req(s->tf((double)n) < s->tf((double)(n + 1)), "tf grows");
    req(s->idf(n, 5000) >= s->idf(n + 1, 5000) && s->idf(n + 1, 5000) > 0, "idf falls");
    req(s->coord(n, 5000) < s->coord(n + 1, 5000), "coord grows");
    sx_cover("length-norm");
}
