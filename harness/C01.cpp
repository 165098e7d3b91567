// C01: primitive values, byte blocks and maps written to an index stream are read back unchanged; positions are exact; reads never cross the end.
#include "common.h"
#include "BufferedIndexInput.h"
#include "BufferedIndexOutput.h"
#include "ChecksumIndexInput.h"
#include "ChecksumIndexOutput.h"
#include "CompoundFileReader.h"
#include "CompoundFileWriter.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "RAMDirectory.h"
#include "RAMOutputStream.h"
#include "RAMInputStream.h"
#include "RAMFile.h"

static uint8_t pat(int64_t i) { return (uint8_t)(i * 7 + (i >> 8) * 13 + 3); }

struct MemOut : public BufferedIndexOutput {
    std::vector<uint8_t>* data;
    int64_t fp;
    MemOut(std::vector<uint8_t>* d) : data(d), fp(0) {}
    virtual void flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
        if (length < 0) sx_fail("negative flush length");
        if ((int64_t)data->size() < fp + length) data->resize(fp + length);
        for (int32_t i = 0; i < length; ++i) (*data)[fp + i] = b[offset + i];
        fp += length;
    }
    virtual void seek(int64_t pos) { BufferedIndexOutput::seek(pos); fp = pos; }
    virtual int64_t length() { return data->size(); }
};
struct MemIn : public BufferedIndexInput {
    const std::vector<uint8_t>* data;
    int64_t fp;
    MemIn(const std::vector<uint8_t>* d, int32_t bs) : BufferedIndexInput(bs), data(d), fp(0) {}
    virtual int64_t length() { return data->size(); }
    virtual void readInternal(uint8_t* b, int32_t offset, int32_t length) {
        fp = getFilePointer();
        if (fp + length > (int64_t)data->size()) boost::throw_exception(IOException(L"Read past EOF"));
        for (int32_t i = 0; i < length; ++i) b[offset + i] = (*data)[fp + i];
        fp += length;
    }
    virtual void seekInternal(int64_t pos) { fp = pos; }
    virtual void close() {}
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr()) {
        LuceneObjectPtr c = BufferedIndexInput::clone(other ? other : newLucene<MemIn>(data, bufferSize));
        boost::dynamic_pointer_cast<MemIn>(c)->fp = fp;
        return c;
    }
};

// symbolic values at every alignment to a stream buffer boundary
static void values(IndexOutputPtr out, std::function<IndexInputPtr()> open, int pad) {
    int32_t v = sx_i32("vint"), i = sx_i32("int");
    int64_t l = sx_i64("long"), vl = sx_i64("vlong");
    sx_assume(vl >= 0);
    uint8_t b = sx_u8("byte");
    std::vector<uint8_t> p(pad + 1);
    for (int k = 0; k < pad; ++k) p[k] = pat(k);
    if (pad) out->writeBytes(&p[0], pad);
    req(out->getFilePointer() == pad, "file pointer after padding");
    out->writeVInt(v);
    int64_t p1 = out->getFilePointer();
    out->writeInt(i);
    int64_t p2 = out->getFilePointer();
    req(p2 == p1 + 4, "int occupies four bytes");
    out->writeVLong(vl);
    int64_t p3 = out->getFilePointer();
    out->writeLong(l);
    out->writeByte(b);
    int64_t p4 = out->getFilePointer();
    req(p4 == p3 + 9, "long occupies eight bytes");
    out->close();
    IndexInputPtr in = open();
    req(in->length() == p4, "file length equals bytes written");
    if (pad) {
        std::vector<uint8_t> q(pad);
        in->readBytes(&q[0], 0, pad);
        for (int k = 0; k < pad; ++k) if (q[k] != pat(k)) sx_fail("padding bytes changed");
    }
    sx_assert(in->readVInt() == v, "vint round trip");
    req(in->getFilePointer() == p1, "position after vint");
    sx_assert(in->readInt() == i, "int round trip");
    sx_assert(in->readVLong() == vl, "vlong round trip");
    req(in->getFilePointer() == p3, "position after vlong");
    sx_assert(in->readLong() == l, "long round trip");
    sx_assert(in->readByte() == b, "byte round trip");
    req(in->getFilePointer() == p4, "position at end");
    req(THROWS(in->readByte()), "read past the end must fail");
    in->seek(p2);
    sx_assert(in->readVLong() == vl, "vlong after seek");
    in->seek(p1);
    sx_assert(in->readInt() == i, "int after seek back");
    in->close();
    sx_cover("values");
}
SX_ENTRY(ram_values) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    int64_t pad = sx_choose("align", 2) == 0 ? sx_pick("pad", 0, 1) : sx_pick("pad2", 1024 - TIER(8, 27), 1025);
    values(dir->createOutput(L"f"), [&] { return dir->openInput(L"f"); }, pad);
}
SX_ENTRY(buffered_values) {
    std::vector<uint8_t> data;
    int64_t pad = sx_pick("pad", 16384 - TIER(6, 27), 16385);
    int bs = (int)sx_pick("bufsize", 5, TIER(7, 12));
    values(newLucene<MemOut>(&data), [&]() -> IndexInputPtr { return newLucene<MemIn>(&data, bs); }, pad);
}
// block writes around the output buffer size
static void blocks(IndexOutputPtr out, std::function<IndexInputPtr()> open, const std::vector<int>& lens) {
    std::vector<uint8_t> ref, src;
    for (int i = 0; i < 40000; ++i) src.push_back(pat(i));
    int n = TIER(2, 3);
    for (int k = 0; k < n; ++k) {
        int len = lens[sx_choose("len", lens.size())];
        int off = (int)sx_pick("off", 0, 1);
        out->writeBytes(&src[0], off, len);
        ref.insert(ref.end(), src.begin() + off, src.begin() + off + len);
        req(out->getFilePointer() == (int64_t)ref.size(), "file pointer after block");
        if (sx_choose("byte", 2)) { uint8_t b = sx_u8("b"); out->writeByte(b); ref.push_back(b); }
        req(out->getFilePointer() == (int64_t)ref.size(), "file pointer after byte");
    }
    out->close();
    IndexInputPtr in = open();
    req(in->length() == (int64_t)ref.size(), "length");
    std::vector<uint8_t> got(ref.size() + 1);
    in->readBytes(&got[0], 0, (int)ref.size());
    for (size_t i = 0; i < ref.size(); ++i) if (sx_is_symbolic(got[i]) || sx_is_symbolic(ref[i])) sx_assert(got[i] == ref[i], "byte"); else if (got[i] != ref[i]) sx_fail("block content");
    req(THROWS(in->readBytes(&got[0], 0, 1)), "block read past the end must fail");
    sx_cover("blocks");
}
SX_ENTRY(ram_blocks) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    blocks(dir->createOutput(L"f"), [&] { return dir->openInput(L"f"); }, {0, 1, 1023, 1024, 1025, 2047, 2048, 2050});
}
SX_ENTRY(buffered_blocks) {
    std::vector<uint8_t> data;
    blocks(newLucene<MemOut>(&data), [&]() -> IndexInputPtr { return newLucene<MemIn>(&data, 100); }, {0, 1, 16382, 16383, 16384, 16385, 20000, 32768});
}
// arbitrary sequences of reads, seeks and clones against a flat model of the file
static void readOps(IndexInputPtr in, const std::vector<uint8_t>& ref, int steps, std::function<void(IndexInputPtr)> resize, int maxLen, const std::vector<int64_t>& seeks) {
    int64_t pos = 0, n = ref.size();
    std::vector<uint8_t> buf(maxLen + 8);
    for (int s = 0; s < steps; ++s) {
        switch (sx_choose("op", resize ? 5 : 4)) {
        case 0: {
            if (pos < n) { sx_assert(in->readByte() == ref[pos], "byte read at position"); ++pos; }
            else { req(THROWS(in->readByte()), "byte read past end must fail"); return; }
            break;
        }
        case 1: {
            int len = (int)sx_pick("rlen", 0, maxLen);
            if (pos + len > n) { req(THROWS(in->readBytes(&buf[0], 1, len)), "block read past end must fail"); return; }
            for (auto& x : buf) x = 0xEE;
            in->readBytes(&buf[0], 1, len);
            req(buf[0] == 0xEE && buf[len + 1] == 0xEE, "block read wrote outside its range");
            for (int i = 0; i < len; ++i) sx_assert(buf[1 + i] == ref[pos + i], "block read at position");
            pos += len;
            break;
        }
        case 2: {
            pos = seeks[sx_choose("seek", seeks.size())];
            in->seek(pos);
            break;
        }
        case 3: {
            IndexInputPtr c = boost::dynamic_pointer_cast<IndexInput>(in->clone());
            req(c->getFilePointer() == pos, "clone starts at the same position");
            if (sx_choose("cloneuse", 2)) { c->seek(n / 2); if (n / 2 < n) sx_assert(c->readByte() == ref[n / 2], "clone read"); }
            else in = c;
            break;
        }
        case 4: resize(in); break;
        }
        req(in->getFilePointer() == pos, "file pointer tracks the position");
        req(in->length() == n, "length stays");
    }
    // finally read everything up to the end
    for (; pos < n && n < 200; ++pos) sx_assert(in->readByte() == ref[pos], "tail byte");
    sx_cover("read-ops");
}
SX_ENTRY(buffered_reads) {
    std::vector<uint8_t> data;
    int n = (int)sx_pick("filelen", 6, 8);
    for (int i = 0; i < n; ++i) data.push_back(sx_u8("d"));
    std::vector<int64_t> seeks;
    for (int i = 0; i <= n; ++i) seeks.push_back(i);
    int bs = (int)sx_pick("bs", 3, 4);
    readOps(newLucene<MemIn>(&data, bs), data, TIER(2, 4), [](IndexInputPtr in) {
        boost::dynamic_pointer_cast<BufferedIndexInput>(in)->setBufferSize((int32_t)sx_pick("newbs", 1, 6));
    }, 6, seeks);
}
SX_ENTRY(buffered_vint) {
    // varints decoded through the buffered fast path and the byte-wise path agree with what was written
    std::vector<uint8_t> data;
    int n = 3;
    std::vector<int32_t> vs;
    {
        boost::shared_ptr<MemOut> o = newLucene<MemOut>(&data);
        for (int i = 0; i < n; ++i) { int32_t v = sx_i32("v"); vs.push_back(v); o->writeVInt(v); }
        o->close();
    }
    IndexInputPtr in = newLucene<MemIn>(&data, (int32_t)sx_pick("bs", 1, TIER(9, 16)));
    for (int i = 0; i < n; ++i) sx_assert(in->readVInt() == vs[i], "vint through buffer");
    req(in->getFilePointer() == (int64_t)data.size(), "position at end");
    sx_cover("vint");
}
static RAMDirectoryPtr ramFile(int n, std::vector<uint8_t>& ref) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    for (int i = 0; i < n; ++i) ref.push_back(pat(i));
    IndexOutputPtr o = dir->createOutput(L"f");
    o->writeBytes(&ref[0], n);
    o->close();
    return dir;
}
SX_ENTRY(ram_reads) {
    std::vector<uint8_t> ref;
    static const int64_t lens[] = {1024, 2048, 2600, 1, 1023, 1025};
    int64_t n = lens[sx_choose("filelen", TIER(3, 6))];
    RAMDirectoryPtr dir = ramFile((int)n, ref);
    IndexInputPtr in = dir->openInput(L"f");
    std::vector<int64_t> seeks;
    for (int64_t s : {(int64_t)0, (int64_t)1, n / 2, (int64_t)1022, (int64_t)1023, (int64_t)1024, (int64_t)1025, (int64_t)2047, n - 1, n}) if (s <= n) seeks.push_back(s);
    readOps(in, ref, TIER(3, 4), std::function<void(IndexInputPtr)>(), 3, seeks);
}
// overwriting earlier bytes and continuing (RAM and buffered outputs)
static void overwrite(IndexOutputPtr out, std::function<IndexInputPtr()> open, int64_t n) {
    std::vector<uint8_t> ref;
    for (int i = 0; i < n; ++i) ref.push_back(pat(i));
    out->writeBytes(&ref[0], (int)n);
    int64_t at = sx_choose("at", 2) ? sx_pick("atlow", 0, 2) : n - sx_pick("back", 0, 9);
    if (at < 0) at = 0;
    out->seek(at);
    req(out->getFilePointer() == at, "pointer after seek");
    int64_t v = sx_i64("v");
    out->writeLong(v);
    for (int i = 0; i < 8; ++i) {
        uint8_t b = (uint8_t)(v >> (56 - 8 * i));
        if (at + i < (int64_t)ref.size()) ref[at + i] = b; else ref.push_back(b);
    }
    req(out->getFilePointer() == at + 8, "pointer after overwrite");
    int64_t end = (int64_t)ref.size();
    if (sx_choose("resume", 2)) {
        out->seek(end);
        out->writeByte(77);
        ref.push_back(77);
    }
    out->close();
    IndexInputPtr in = open();
    req(in->length() == (int64_t)ref.size(), "length after overwrite");
    for (size_t i = 0; i < ref.size(); ++i) {
        uint8_t b = in->readByte();
        if (sx_is_symbolic(b) || sx_is_symbolic(ref[i])) sx_assert(b == ref[i], "overwritten byte"); else if (b != ref[i]) sx_fail("byte beside the overwrite changed");
    }
    sx_cover("overwrite");
}
SX_ENTRY(ram_overwrite) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    static const int64_t lens[] = {9, 1020, 1024, 1030, 2048, 2052};
    int64_t n = lens[sx_choose("n", 6)];
    overwrite(dir->createOutput(L"f"), [&] { return dir->openInput(L"f"); }, n);
}
SX_ENTRY(buffered_overwrite) {
    std::vector<uint8_t> data;
    int64_t n = sx_choose("big", 2) ? 16384 : 12;
    overwrite(newLucene<MemOut>(&data), [&]() -> IndexInputPtr { return newLucene<MemIn>(&data, 64); }, n);
}
// compound files: every packed file reads back exactly, independent of its neighbours and of other streams
SX_ENTRY(compound) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    static const int lens[] = {0, 1, 5, 2049};
    std::vector<std::vector<uint8_t> > ref(3);
    const wchar_t* names[] = {L"_0.a", L"_0.b", L"_0.c"};
    CompoundFileWriterPtr w = newLucene<CompoundFileWriter>(dir, L"_0.cfs");
    for (int f = 0; f < 3; ++f) {
        int n = lens[f == 1 ? sx_choose("len", 4) : f == 0 ? 2 : 1 + sx_choose("len2", 2)];
        IndexOutputPtr o = dir->createOutput(names[f]);
        for (int i = 0; i < n; ++i) { uint8_t b = n <= 5 ? sx_u8("b") : pat(i + f); ref[f].push_back(b); o->writeByte(b); }
        o->close();
        w->addFile(names[f]);
    }
    w->close();
    CompoundFileReaderPtr r = newLucene<CompoundFileReader>(dir, L"_0.cfs", (int32_t)sx_pick("bs", 3, 4));
    req(r->listAll().size() == 3, "all packed files are listed");
    IndexInputPtr in[3];
    for (int f = 0; f < 3; ++f) {
        req(r->fileExists(names[f]) && r->fileLength(names[f]) == (int64_t)ref[f].size(), "packed file length");
        in[f] = r->openInput(names[f]);
        req(in[f]->length() == (int64_t)ref[f].size(), "stream length");
    }
    req(THROWS(r->openInput(L"_0.d")), "unknown packed file must fail");
    int64_t pos[3] = {0, 0, 0};
    for (int s = 0; s < 3; ++s) {   // interleaved use of the streams
        int f = (int)sx_choose("which", 3);
        int64_t n = ref[f].size();
        if (sx_choose("seek", 2)) { pos[f] = n > 2 ? n - 2 : 0; in[f]->seek(pos[f]); }
        if (sx_choose("clone", 2)) in[f] = boost::dynamic_pointer_cast<IndexInput>(in[f]->clone());
        for (int k = 0; k < 2; ++k) {
            if (pos[f] < n) { sx_assert(in[f]->readByte() == ref[f][pos[f]], "packed byte"); ++pos[f]; req(in[f]->getFilePointer() == pos[f], "packed pointer"); }
            else { uint8_t t[4]; req(THROWS(in[f]->readByte()) && THROWS(in[f]->readBytes(t, 0, 3)), "read past a packed file's end must fail"); sx_cover("packed-eof"); return; }
        }
    }
    sx_cover("compound");
}
SX_ENTRY(compound_block) {
    // a block read that would run over a packed file's end fails and leaks nothing, buffered or not
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    CompoundFileWriterPtr w = newLucene<CompoundFileWriter>(dir, L"_0.cfs");
    for (const wchar_t* nm : {L"a", L"b"}) {
        IndexOutputPtr o = dir->createOutput(nm);
        for (int i = 0; i < 20; ++i) o->writeByte(pat(i));
        o->close();
        w->addFile(nm);
    }
    w->close();
    CompoundFileReaderPtr r = newLucene<CompoundFileReader>(dir, L"_0.cfs", (int32_t)sx_pick("bs", 2, 5));
    IndexInputPtr in = r->openInput(L"a");
    int64_t p = sx_pick("pos", 0, 20), len = sx_pick("len", 0, 22);
    in->seek(p);
    std::vector<uint8_t> t(32, 0);
    if (p + len > 20) { req(THROWS(in->readBytes(&t[0], 0, (int32_t)len, sx_choose("buf", 2) != 0)), "over-long packed read must fail"); sx_cover("overlong"); }
    else { in->readBytes(&t[0], 0, (int32_t)len); for (int i = 0; i < len; ++i) req(t[i] == pat(p + i), "packed block content"); sx_cover("inside"); }
}
SX_ENTRY(checksum) {
    // the checksum stream writes through, and a reader of the same bytes computes the same checksum
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    boost::shared_ptr<ChecksumIndexOutput> o = newLucene<ChecksumIndexOutput>(dir->createOutput(L"f"));
    uint8_t a = 0x5d, b = sx_u8("b");
    uint8_t blk[5] = {9, 7, 1, b, 3};
    o->writeByte(a);
    o->writeBytes(blk, 1, 3);
    o->prepareCommit();
    o->finishCommit();
    int64_t sum = o->getChecksum();
    o->close();
    boost::shared_ptr<ChecksumIndexInput> in = newLucene<ChecksumIndexInput>(dir->openInput(L"f"));
    sx_assert(in->readByte() == a, "byte under checksum");
    uint8_t got[3];
    in->readBytes(got, 0, 3);
    sx_assert((got[2] == b) & (got[0] == 7) & (got[1] == 1), "block under checksum");
    int64_t s2 = in->getChecksum();
    sx_assert(s2 == sum, "checksum of reader equals checksum of writer");
    req(in->length() == 12 && in->getFilePointer() == 4, "length");
    IndexInputPtr plain = dir->openInput(L"f");
    plain->seek(4);
    sx_assert(plain->readLong() == sum, "stored checksum");
    sx_cover("checksum");
}
SX_ENTRY(checksum_detects) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    uint8_t d[4], e[4];
    bool same = true;
    for (int i = 0; i < 4; ++i) { d[i] = i == 1 ? 5 : i; e[i] = d[i]; }
    int at = (int)sx_pick("at", TIER(3, 2), 3);
    e[at] = sx_u8("changed");
    same = e[at] == d[at];
    int64_t sums[2];
    for (int k = 0; k < 2; ++k) {
        boost::shared_ptr<ChecksumIndexOutput> o = newLucene<ChecksumIndexOutput>(dir->createOutput(k ? L"f" : L"g"));
        o->writeBytes(k ? d : e, 0, 4);
        sums[k] = o->getChecksum();
    }
    sx_assert((sums[0] == sums[1]) == same, "a changed byte changes the checksum");
    sx_cover("detect");
}
SX_ENTRY(map_and_copy) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    MapStringString m = MapStringString::newInstance();
    int n = (int)sx_pick("n", 0, 2);
    String ks[2] = {L"k", L"key2"}, vs[2];
    IndexOutputPtr o = dir->createOutput(L"f");
    for (int i = 0; i < n; ++i) { vs[i] = symStr("c", i, 0x20, 0x7fff); m.put(ks[i], vs[i]); }
    if (n == 0 && sx_choose("null", 2)) o->writeStringStringMap(MapStringString()); else o->writeStringStringMap(m);
    int64_t end = o->getFilePointer();
    o->close();
    // copyBytes moves exactly the requested bytes
    IndexOutputPtr o2 = dir->createOutput(L"g");
    o2->writeByte(42);
    o2->copyBytes(dir->openInput(L"f"), end);
    req(o2->getFilePointer() == end + 1, "copied byte count");
    o2->close();
    IndexInputPtr in = dir->openInput(L"g");
    req(in->readByte() == 42, "prefix byte");
    MapStringString r = in->readStringStringMap();
    req(r.size() == n, "map size");
    for (int i = 0; i < n; ++i) { req(r.contains(ks[i]), "map key"); sx_assert(r.get(ks[i]) == vs[i], "map value"); }
    req(in->getFilePointer() == in->length(), "map length");
    sx_cover("map");
}
SX_ENTRY(directory) {
    // RAMDirectory name space: create/exists/rename/delete/list/length/re-create truncates
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    std::map<String, int> ref;
    const wchar_t* nm[] = {L"a", L"b"};
    for (int s = 0; s < TIER(3, 5); ++s) {
        String x = nm[sx_choose("name", 2)];
        switch (sx_choose("op", 3)) {
        case 0: { int len = (int)sx_pick("len", 0, 1) * 1500; IndexOutputPtr o = dir->createOutput(x); for (int i = 0; i < len; ++i) o->writeByte(s); o->close(); ref[x] = len; break; }
        case 1: if (ref.count(x)) { dir->deleteFile(x); ref.erase(x); } else req(THROWS(dir->deleteFile(x)), "deleting a missing file must fail"); break;
        case 2: if (ref.count(x)) { IndexInputPtr in = dir->openInput(x); req(in->length() == ref[x], "opened length"); } else req(THROWS(dir->openInput(x)), "opening a missing file must fail"); break;
        }
        for (auto n : nm) { req(dir->fileExists(n) == (ref.count(n) > 0), "existence"); if (ref.count(n)) req(dir->fileLength(n) == ref[n], "directory length"); }
        req(dir->listAll().size() == (int)ref.size(), "listing");
    }
    sx_cover("directory");
}
