// C02: text survives UTF-8 encoding and index strings; malformed bytes are handled safely.
#include "common.h"
#include "UnicodeUtils.h"
#include "StringUtils.h"
#include "UTF8Stream.h"
#include "InputStreamReader.h"
#include "StringReader.h"
#include "BufferedReader.h"
#include "RAMDirectory.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "Base64.h"

static wchar_t symChar(const char* n) {
    uint32_t c = (uint32_t)sx_range(n, 0, 0x10ffff);
    sx_assume((c < 0xd800) | (c > 0xdfff));
    sx_assume(c != 0xfffe); sx_assume(c != 0xffff); sx_assume(c != 0x1ffff);
    return (wchar_t)c;
}
// reference encoder (RFC 3629), bytes as symbolic expressions, length concrete
static std::vector<uint8_t> refEncode(uint32_t c) {
    std::vector<uint8_t> r;
    if (c < 0x80) r = {(uint8_t)c};
    else if (c < 0x800) r = {(uint8_t)(0xc0 + c / 64), (uint8_t)(0x80 + c % 64)};
    else if (c < 0x10000) r = {(uint8_t)(0xe0 + c / 4096), (uint8_t)(0x80 + c / 64 % 64), (uint8_t)(0x80 + c % 64)};
    else r = {(uint8_t)(0xf0 + c / 262144), (uint8_t)(0x80 + c / 4096 % 64), (uint8_t)(0x80 + c / 64 % 64), (uint8_t)(0x80 + c % 64)};
    return r;
}
SX_ENTRY(encode) {
    String s;
    std::vector<uint8_t> ref;
    int n = (int)sx_pick("n", 0, TIER(3, 4));
    for (int i = 0; i < n; ++i) { s += symChar("c"); auto e = refEncode((uint32_t)s[i]); ref.insert(ref.end(), e.begin(), e.end()); }
    SingleString u = StringUtils::toUTF8(s);
    req(u.size() == ref.size(), "encoded length is the shortest form");
    for (size_t i = 0; i < ref.size(); ++i) sx_assert((uint8_t)u[i] == ref[i], "encoded byte");
    String back = StringUtils::toUnicode(u);
    req(back.size() == s.size(), "decoded length");
    for (int i = 0; i < n; ++i) sx_assert(back[i] == s[i], "decoded character");
    // reusable results give the same
    UTF8ResultPtr r = newLucene<UTF8Result>();
    StringUtils::toUTF8(L"a longer string that was here before", 20, r);
    StringUtils::toUTF8(s.c_str(), (int32_t)s.size(), r);
    req(r->length == (int32_t)ref.size(), "reused result length");
    for (size_t i = 0; i < ref.size(); ++i) sx_assert(r->result[i] == ref[i], "reused result byte");
    UnicodeResultPtr ur = newLucene<UnicodeResult>();
    StringUtils::toUnicode((const uint8_t*)"previous", 8, ur);
    StringUtils::toUnicode(r->result.get(), r->length, ur);
    req(ur->length == n, "reused unicode length");
    for (int i = 0; i < n; ++i) sx_assert(ur->result[i] == s[i], "reused unicode character");
    sx_cover("encode");
}
SX_ENTRY(order) {
    wchar_t a = symChar("a"), b = symChar("b");
    SingleString x = StringUtils::toUTF8(String(1, a)), y = StringUtils::toUTF8(String(1, b));
    int cmp = 0;
    for (size_t i = 0; i < x.size() && i < y.size() && cmp == 0; ++i) {
        if ((uint8_t)x[i] < (uint8_t)y[i]) cmp = -1; else if ((uint8_t)x[i] > (uint8_t)y[i]) cmp = 1;
    }
    if (cmp == 0 && x.size() != y.size()) sx_fail("one encoding is a prefix of another");
    sx_assert((cmp < 0) == (a < b), "byte order equals character order");
    sx_assert((cmp == 0) == (a == b), "equal bytes, equal characters");
    sx_cover("order");
}
SX_ENTRY(stream_strings) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexOutputPtr o = dir->createOutput(L"f");
    String a, b;
    int n = (int)sx_pick("n", 0, TIER(3, 4));
    for (int i = 0; i < n; ++i) a += symChar("c");
    b = L"z"; b += symChar("d");
    int pad = (int)sx_choose("pad", 2) * 1020;
    for (int i = 0; i < pad; ++i) o->writeByte(1);
    o->writeString(a); o->writeString(b); o->writeString(L"");
    o->writeInt(1234567);
    int64_t end = o->getFilePointer();
    o->close();
    IndexInputPtr in = dir->openInput(L"f");
    in->seek(pad);
    String x = in->readString();
    req(x.size() == a.size(), "string length"); for (int i = 0; i < n; ++i) sx_assert(x[i] == a[i], "string character");
    x = in->readString();
    req(x.size() == 2, "second string length"); sx_assert(x[1] == b[1], "second string"); req(x[0] == L'z', "second string start");
    req(in->readString().empty(), "empty string");
    req(in->readInt() == 1234567 && in->getFilePointer() == end, "value after strings");
    sx_cover("stream-strings");
}
// decoding arbitrary bytes
SX_ENTRY(malformed) {
    int n = (int)sx_pick("n", 1, TIER(5, 6));
    std::vector<uint8_t> b(n);
    for (int i = 0; i < n; ++i) b[i] = sx_u8("b");
    String s = StringUtils::toUnicode(&b[0], n);
    // reference: all well-formed -> the characters; otherwise nothing
    std::vector<uint32_t> ref;
    int i = 0;
    bool bad = false, unspecified = false;
    while (i < n && !bad) {
        uint32_t c = b[i];
        int len = c < 0x80 ? 1 : (c >= 0xc0 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf8) ? 4 : 0;
        if (!len || i + len > n) { bad = true; break; }
        uint32_t cp = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7;
        for (int k = 1; k < len; ++k) { if ((b[i + k] & 0xc0) != 0x80) { bad = true; break; } cp = cp << 6 | (b[i + k] & 63); }
        if (bad) break;
        if ((len == 2 && cp < 0x80) || (len == 3 && cp < 0x800) || (len == 4 && cp < 0x10000) || cp > 0x10ffff) { bad = true; break; }
        if ((cp >= 0xd800 && cp <= 0xdfff) || cp == 0xfffe || cp == 0xffff) { unspecified = true; break; }
        ref.push_back(cp);
        i += len;
    }
    if (unspecified) { sx_cover("surrogate"); req(s.size() <= (size_t)n, "length"); return; }
    if (bad) { req(s.empty(), "malformed bytes decode to nothing"); sx_cover("malformed"); return; }
    req(s.size() == ref.size(), "decoded length of well-formed bytes");
    for (size_t k = 0; k < ref.size(); ++k) sx_assert((uint32_t)s[k] == ref[k], "decoded well-formed character");
    sx_cover("well-formed");
}
// legacy (modified UTF-8) strings
SX_ENTRY(legacy) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexOutputPtr o = dir->createOutput(L"f");
    String s;
    int n = (int)sx_pick("n", 1, 2);
    for (int i = 0; i < n; ++i) { uint32_t c = (uint32_t)sx_range("c", 0, 0xfffd); sx_assume((c < 0xd800) | (c > 0xdfff)); s += (wchar_t)c; }
    o->writeVInt(n);
    o->writeChars(s, 0, n);
    o->writeByte(99);
    o->close();
    IndexInputPtr in = dir->openInput(L"f");
    in->setModifiedUTF8StringsMode();
    String r = in->readString();
    req((int)r.size() == n, "legacy length");
    for (int i = 0; i < n; ++i) sx_assert(r[i] == s[i], "legacy character");
    sx_assert(in->readByte() == 99, "position after legacy string");
    in->seek(1);
    in->skipChars(n);
    sx_assert(in->readByte() == 99, "position after skipped characters");
    sx_cover("legacy");
}
// bytes served one by one through a reader decode to the same text
struct ByteReader : public Reader {
    std::vector<uint8_t> d; size_t p; int chunk;
    ByteReader(const std::vector<uint8_t>& v) : d(v), p(0) {}
    virtual int32_t read() { return p < d.size() ? (int32_t)d[p++] : (int32_t)READER_EOF; }
    virtual int32_t read(wchar_t* b, int32_t off, int32_t len) { int k = 0; while (k < len && p < d.size()) b[off + k++] = d[p++]; return k ? k : (int32_t)READER_EOF; }
    virtual void close() {}
};
SX_ENTRY(reader) {
    int n = (int)sx_pick("n", 0, TIER(3, 4));
    String s;
    for (int i = 0; i < n; ++i) s += symChar("c");
    SingleString u = StringUtils::toUTF8(s);
    std::vector<uint8_t> b(u.begin(), u.end());
    ReaderPtr r = newLucene<InputStreamReader>(newLucene<ByteReader>(b));
    if (sx_choose("single", 2)) {
        for (int i = 0; i < n; ++i) sx_assert(r->read() == (int32_t)s[i], "character from the stream");
        req(r->read() == Reader::READER_EOF, "end of stream");
    } else {
        wchar_t buf[8];
        int got = 0, step = (int)sx_pick("step", 1, 2), k;
        while (got < 6 && (k = r->read(buf + got, 0, step)) > 0) got += k;
        req(got == n, "number of characters from the stream");
        for (int i = 0; i < n; ++i) sx_assert(buf[i] == s[i], "character of a block");
    }
    sx_cover("reader");
}
SX_ENTRY(buffered_reader) {
    // buffering does not change the text, lines are split at line ends only
    String s;
    int n = 4;
    for (int i = 0; i < n; ++i) { wchar_t c = (wchar_t)sx_range("c", 9, 14); sx_assume(c != 11); s += c; }
    BufferedReaderPtr r = newLucene<BufferedReader>(newLucene<StringReader>(s), (int32_t)sx_pick("buf", 1, 3));
    if (sx_choose("mode", 2)) {
        for (int i = 0; i < n; ++i) sx_assert(r->read() == s[i], "buffered character");
        req(r->read() == Reader::READER_EOF, "end");
    } else {
        wchar_t b[8]; int got = 0, k;
        int step = (int)sx_pick("step", 1, 4);
        while (got < 8 - step && (k = r->read(b + got, 0, step)) > 0) got += k;
        req(got == n, "all characters");
        for (int i = 0; i < n; ++i) sx_assert(b[i] == s[i], "buffered block character");
    }
    sx_cover("buffered-reader");
}
SX_ENTRY(base64) {
    int n = (int)sx_pick("n", 1, TIER(4, 7)), at = (int)sx_pick("at", 0, n - 1);
    ByteArray b = ByteArray::newInstance(n);
    for (int i = 0; i < n; ++i) b[i] = i == at ? sx_u8("b") : (uint8_t)(i * 89 + 7);
    String e = Base64::encode(b);
    req((int)e.size() == (n + 2) / 3 * 4, "encoded length");
    ByteArray d = Base64::decode(e);
    req(d.size() == n, "decoded length");
    for (int i = 0; i < n; ++i) sx_assert(d[i] == b[i], "base64 byte");
    sx_cover("base64");
}
SX_ENTRY(numbers) {
    int64_t v = sx_range("v", 0, TIER(99999, 99999999));
    bool neg = sx_choose("neg", 2);
    String s = StringUtils::toString(v, 10);
    if (neg) s = L"-" + s;
    sx_assert(StringUtils::toLong(s) == (neg ? -v : v), "decimal long");
    sx_assert(StringUtils::toInt(s) == (neg ? -v : v), "decimal int");
    req(THROWS(StringUtils::toInt(L"x" + s)), "not a number"); req(THROWS(StringUtils::toLong(L"")), "empty is not a number");
    sx_cover("numbers");
}
