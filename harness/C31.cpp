// C31: a damaged commit file is never read as other content: it is refused, or an older commit is used; segments.gen is only a hint.
#include "faultdir.h"
#include "IndexCommit.h"
#include "IndexDeletionPolicy.h"
#include "IndexFileNames.h"
#include "SegmentInfos.h"
#include "SegmentInfo.h"
// numbers reach texts only inside log messages here: a symbolic one is not spelled out (engine only)
SX_STUB String sx_stub__ZN6Lucene11StringUtils8toStringIlEENSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEEERKT_(const int64_t& v) {
    if (sx_is_symbolic((uint64_t)v)) return L"?";
    String s;
    uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
    do { s.insert(s.begin(), (wchar_t)(L'0' + u % 10)); u /= 10; } while (u);
    return v < 0 ? L"-" + s : s;
}
SX_STUB String sx_stub__ZN6Lucene11StringUtils8toStringIiEENSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEEERKT_(const int32_t& v) {
    if (sx_is_symbolic((uint32_t)v)) return L"?";
    String s;
    uint32_t u = v < 0 ? 0 - (uint32_t)v : (uint32_t)v;
    do { s.insert(s.begin(), (wchar_t)(L'0' + u % 10)); u /= 10; } while (u);
    return v < 0 ? L"-" + s : s;
}
struct KeepAll : public IndexDeletionPolicy {
    virtual void onInit(Collection<IndexCommitPtr>) {}
    virtual void onCommit(Collection<IndexCommitPtr>) {}
};
typedef std::map<String, std::vector<uint8_t> > Files;
struct Built {
    Files files;
    std::vector<MDoc> prev, last;
    String prevName, lastName;
};
static void build(Built& b, int shape) {
    FaultDirPtr dir = newLucene<FaultDir>();
    IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), true, newLucene<KeepAll>(), IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    w->setUseCompoundFile(shape & 1);
    MapStringString data = MapStringString::newInstance();
    if (shape & 2) data.put(String(L"k"), String(L"v"));
    auto add = [&](std::vector<MDoc>& v, const wchar_t* id, const wchar_t* body) { MDoc d(id); d.add(L"b", body, F_TEXT); w->addDocument(d.make()); v.push_back(d); };
    add(b.last, L"0", L"a b"); add(b.last, L"1", L"c");
    w->commit(data);
    b.prev = b.last;
    add(b.last, L"2", L"b");
    w->deleteDocuments(newLucene<Term>(L"id", L"1")); removeIds(b.last, L"id", L"1");
    w->commit(data);
    if (shape & 4) {                                            // norms changed by a reader: generations are listed per field
        w->close();
        IndexReaderPtr r = IndexReader::open(dir, newLucene<KeepAll>(), false);
        r->setNorm(0, L"b", (uint8_t)80);
        r->close();
        b.prev = b.last;
    } else w->close();
    for (auto& x : dir->files) b.files[x.first] = x.second->data;
    b.lastName = SegmentInfos::getCurrentSegmentFileName(dir);
    b.prevName = IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", SegmentInfos::generationFromSegmentsFileName(b.lastName) - 1);
    req(b.files.count(b.lastName) && b.files.count(b.prevName), "both commits exist");
}
static RAMDirectoryPtr imageOf(const Files& f, const String& without = String()) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>();
    for (auto& x : f) if (x.first != without) FaultDir::put(d, x.first, x.second, x.second.size());
    return d;
}
// opening shows the last commit (if it may), the one before (if it is there), or fails with an error of the library
static void outcome(const Built& b, const RAMDirectoryPtr& d, bool mayLast, bool havePrev) {
    IndexReaderPtr r;
    try { r = IndexReader::open(d, true); }
    catch (LuceneException&) { req(!havePrev, "an older commit is used when the newest is damaged"); sx_cover("refused"); return; }
    SegmentReaderPtr sr;
    bool isLast = r->getIndexCommit()->getSegmentsFileName() == b.lastName;
    req(isLast ? mayLast : havePrev, "damaged content is not accepted");
    verifyReader(r, isLast ? b.last : b.prev);
    r->close();
    sx_cover(isLast ? "last" : "fallback");
}
// any byte of the newest commit file replaced by any other value
SX_ENTRY(changed_byte) {
    Built b;
    build(b, (int)sx_choose("shape", TIER(4, 8)) * TIER(2, 1) + TIER(1, 0));
    bool older = sx_choose("older_commit", 2);
    std::vector<uint8_t>& f = b.files[b.lastName];
    int k = (int)sx_choose("position", f.size());
    uint8_t v = sx_u8("value");
    sx_assume(v != f[k]);
    f[k] = v;
    outcome(b, imageOf(b.files, older ? String() : b.prevName), false, older);
}
SX_ENTRY(truncated) {
    Built b;
    build(b, (int)sx_choose("shape", 8));
    bool older = sx_choose("older_commit", 2);
    std::vector<uint8_t>& f = b.files[b.lastName];
    f.resize(sx_choose("length", f.size()));
    outcome(b, imageOf(b.files, older ? String() : b.prevName), false, older);
}
SX_ENTRY(gen_file) {
    Built b;
    build(b, (int)sx_choose("shape", 2));
    const String G = IndexFileNames::SEGMENTS_GEN();
    std::vector<uint8_t>& f = b.files[G];
    switch ((int)sx_choose("damage", 4)) {
    case 0: b.files.erase(G); break;
    case 1: f.resize(sx_choose("length", f.size())); break;
    case 2: f[sx_choose("position", f.size())] = sx_u8("value"); break;
    case 3: { // stale: names the older commit
        f[11] = f[19] = (uint8_t)sx_range("generation", 0, SegmentInfos::generationFromSegmentsFileName(b.lastName)); break; }
    }
    RAMDirectoryPtr d = imageOf(b.files);
    outcome(b, d, true, false);
    req(IndexReader::indexExists(d), "the index exists");
    IndexWriterPtr w = openWriter(d, false);
    MDoc x(L"9"); w->addDocument(x.make()); b.last.push_back(x);
    w->close();
    verifyDir(d, b.last);
    sx_cover("gen_file");
}
