// C11: stored fields come back as they were stored, through every selector, segmentation and merge; failures are reported.
#include "faultdir.h"
#include "rich.h"
#include "Fieldable.h"
#include "FieldSelector.h"
#include "SetBasedFieldSelector.h"
#include "LoadFirstFieldSelector.h"
#include "MapFieldSelector.h"
#include "LogByteSizeMergePolicy.h"
#include "SerialMergeScheduler.h"
static ByteArray bytes(const std::vector<int>& v) { ByteArray b = ByteArray::newInstance((int)v.size()); for (size_t i = 0; i < v.size(); ++i) b[(int)i] = (uint8_t)v[i]; return b; }
struct SF { String name; bool bin; String s; std::vector<int> b; bool stored, tok, idx; };
static DocumentPtr make(const std::vector<SF>& v) {
    DocumentPtr d = newLucene<Document>();
    for (auto& f : v) {
        if (f.bin) d->add(newLucene<Field>(f.name, bytes(f.b), Field::STORE_YES));
        else d->add(newLucene<Field>(f.name, f.s, f.stored ? Field::STORE_YES : Field::STORE_NO, f.idx ? (f.tok ? Field::INDEX_ANALYZED : Field::INDEX_NOT_ANALYZED) : Field::INDEX_NO));
    }
    return d;
}
static void sameField(const FieldablePtr& f, const SF& w) {
    req(f->name() == w.name, "field name");
    req(f->isStored(), "a retrieved field is stored");
    req(f->isBinary() == w.bin, "binary fields stay binary");
    if (w.bin) {
        ByteArray b = f->getBinaryValue(ByteArray());
        req(b && f->getBinaryLength() == (int)w.b.size() && b.size() >= f->getBinaryOffset() + (int)w.b.size(), "binary length");
        for (size_t i = 0; i < w.b.size(); ++i) sx_assert(b[f->getBinaryOffset() + (int)i] == (uint8_t)w.b[i], "binary content");
    } else {
        String s = f->stringValue();
        req(s.size() == w.s.size(), "text length");
        for (size_t i = 0; i < s.size(); ++i) sx_assert(s[i] == w.s[i], "text content");
        if (w.idx) req(f->isIndexed() && f->isTokenized() == w.tok, "index flags");
    }
}
static void sameDoc(const DocumentPtr& d, const std::vector<SF>& v) {
    Collection<FieldablePtr> fs = d->getFields();
    int k = 0;
    for (auto& f : v) {
        if (!f.stored) continue;
        req(k < fs.size(), "every stored field is retrieved");
        sameField(fs[k++], f);
    }
    req(k == fs.size(), "nothing else is retrieved");
}
static SF text(const String& n, const String& s, int how) { SF f; f.name = n; f.bin = false; f.s = s; f.stored = how != 3; f.idx = how != 0; f.tok = how == 1 || how == 3; return f; }
static SF bin(const String& n, const std::vector<int>& b) { SF f; f.name = n; f.bin = true; f.b = b; f.stored = true; f.idx = f.tok = false; return f; }
static IndexWriterPtr wr(const DirectoryPtr& dir, bool cfs) {
    IndexWriterPtr w = openWriter(dir, true);
    w->setUseCompoundFile(cfs);
    return w;
}
// any content: symbolic characters and bytes
SX_ENTRY(contents) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = wr(dir, sx_choose("cfs", 2));
    std::vector<SF> v;
    int shape = (int)sx_choose("shape", 3);
    String s = L"q";
    int n = (int)sx_pick("len", 0, TIER(2, 3));
    for (int i = 0; i < n; ++i) { wchar_t c = (wchar_t)sx_i32("c"); sx_assume(c >= 1 && c < 0xd800 && c != L' '); s += c; }
    v.push_back(text(L"t", s, shape == 1 ? 2 : 0));
    std::vector<int> b;
    int m = (int)sx_pick("bytes", 0, TIER(2, 4));
    for (int i = 0; i < m; ++i) b.push_back(sx_u8("b"));
    v.push_back(bin(L"b", b));
    v.push_back(text(L"t", shape == 2 ? s : String(L""), 0));
    w->addDocument(make(v));
    if (sx_choose("second", 2)) { std::vector<SF> u; u.push_back(text(L"z", L"zz", 1)); w->addDocument(make(u)); }
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    sameDoc(r->document(0), v);
    r->close();
    sx_cover("contents");
}
struct Sel : public FieldSelector {
    std::map<String, FieldSelectorResult> m; FieldSelectorResult other;
    virtual FieldSelectorResult accept(const String& n) { auto i = m.find(n); return i == m.end() ? other : i->second; }
};
// any selector choice per field, in documents that repeat fields
SX_ENTRY(selectors) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = wr(dir, true);
    std::vector<SF> v;
    std::vector<int> bb; bb.push_back(7); bb.push_back(sx_u8("b")); bb.push_back(250);
    v.push_back(text(L"a", L"alpha \x00e9\x4e2d", 1)); v.push_back(bin(L"b", bb)); v.push_back(text(L"c", L"", 0)); v.push_back(text(L"a", L"again", 1)); v.push_back(text(L"d", L"dd", 3)); v.push_back(text(L"e", L"last", 2));
    w->addDocument(make(std::vector<SF>(1, text(L"e", L"first document", 0))));
    w->addDocument(make(v));
    w->addDocument(make(std::vector<SF>(1, text(L"a", L"third document", 0))));
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    static const FieldSelector::FieldSelectorResult R[] = {FieldSelector::SELECTOR_LOAD, FieldSelector::SELECTOR_LAZY_LOAD, FieldSelector::SELECTOR_NO_LOAD, FieldSelector::SELECTOR_LOAD_AND_BREAK, FieldSelector::SELECTOR_SIZE, FieldSelector::SELECTOR_SIZE_AND_BREAK};
    boost::shared_ptr<Sel> sel = newLucene<Sel>();
    static const wchar_t* N[] = {L"a", L"b", L"c", L"e"};
    for (int i = 0; i < 4; ++i) sel->m[N[i]] = R[sx_choose(i == 0 ? "a" : i == 1 ? "b" : i == 2 ? "c" : "e", i == 2 ? 3 : 6)];
    sel->other = FieldSelector::SELECTOR_LOAD;
    DocumentPtr d = r->document(1, sel);
    Collection<FieldablePtr> fs = d->getFields();
    int k = 0;
    std::vector<std::pair<FieldablePtr, SF>> lazy;
    for (auto& f : v) {
        if (!f.stored) continue;
        FieldSelector::FieldSelectorResult x = sel->accept(f.name);
        if (x == FieldSelector::SELECTOR_NO_LOAD) continue;
        req(k < fs.size(), "every selected field is retrieved");
        FieldablePtr g = fs[k++];
        if (x == FieldSelector::SELECTOR_SIZE || x == FieldSelector::SELECTOR_SIZE_AND_BREAK) {
            req(g->name() == f.name && g->isBinary() && g->getBinaryLength() == 4, "a size is four bytes");
            ByteArray b = g->getBinaryValue();
            int sz = (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
            int u = 0;
            for (size_t i = 0; i < f.s.size(); ++i) u += f.s[i] < 0x80 ? 1 : f.s[i] < 0x800 ? 2 : 3;
            req(sz == (f.bin ? (int)f.b.size() : 2 * u), "size of the value");
        } else if (x == FieldSelector::SELECTOR_LAZY_LOAD) { req(g->isLazy(), "lazy field"); lazy.push_back(std::make_pair(g, f)); }
        else sameField(g, f);
        if (x == FieldSelector::SELECTOR_LOAD_AND_BREAK || x == FieldSelector::SELECTOR_SIZE_AND_BREAK) break;
    }
    req(k == fs.size(), "nothing else is retrieved");
    if (sx_choose("between", 2)) r->document(2); // other documents are read before the lazy values
    for (size_t i = lazy.size(); i-- > 0;) { sameField(lazy[i].first, lazy[i].second); sameField(lazy[i].first, lazy[i].second); }
    r->close();
    sx_cover("selectors");
}
// bulk and field-by-field copying on merge, shared document stores, deletions
SX_ENTRY(merging) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = wr(dir, sx_choose("cfs", 2));
    w->setMaxBufferedDocs(2 + (int)sx_choose("buffered", 2));
    w->setMergeFactor(20);
    std::vector<std::vector<SF>> docs;
    int mix = (int)sx_choose("fieldorder", 3); // whether field numbers agree between segments
    for (int i = 0; i < 7; ++i) {
        std::vector<SF> v;
        v.push_back(text(L"id", StringUtils::toString(i), 2));
        if (i != 3 && !(mix == 1 && i < 4)) v.push_back(text(L"f", String(i, L'x') + StringUtils::toString(i), (i & 1) ? 1 : 0));
        if (mix == 2 && i > 2) v.push_back(text(L"g" + StringUtils::toString(i), L"extra", 0));
        std::vector<int> b; for (int j = 0; j < i % 4; ++j) b.push_back(i * 16 + j);
        v.push_back(bin(L"bin", b));
        if (mix == 1 && i < 4) v.push_back(text(L"f", L"late" + StringUtils::toString(i), 0));
        docs.push_back(v);
        w->addDocument(make(v));
        if (i == 2 && sx_choose("commit", 2)) w->commit();
    }
    std::vector<std::vector<SF>> live;
    int del = (int)sx_choose("deleted", 6);
    for (int i = 0; i < 7; ++i) {
        bool gone = del == 1 ? i == 0 : del == 2 ? i == 6 : del == 3 ? (i == 2 || i == 3) : del == 4 ? i != 4 : del == 5 ? i % 2 == 1 : false;
        if (gone) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(i))); else live.push_back(docs[i]);
    }
    switch (sx_choose("end", 3)) { case 0: break; case 1: w->optimize(); break; case 2: w->expungeDeletes(); break; }
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    req(r->numDocs() == (int)live.size(), "number of documents");
    for (int pass = 0; pass < 2; ++pass) {
        size_t k = pass ? live.size() : 0;
        if (pass) { for (int i = r->maxDoc(); i-- > 0;) if (!r->isDeleted(i)) sameDoc(r->document(i), live[--k]); }
        else for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) sameDoc(r->document(i), live[k++]);
    }
    r->close();
    sx_cover("merging");
}
// a read that fails is reported: a document never comes back with a field missing or emptied
struct FailRead : public DirEvents {
    bool armed, failed;
    FailRead() : armed(false), failed(false) {}
    virtual void op(int kind, const String& name) { if (armed && !failed && kind == OP_READ && sx_choose("fail", 2)) { failed = true; boost::throw_exception(IOException(L"disk failed")); } }
};
SX_ENTRY(failing_reads) {
    FaultDirPtr dir = newLucene<FaultDir>();
    FailRead ev;
    dir->ev = &ev;
    IndexWriterPtr w = wr(dir, sx_choose("cfs", 2));
    std::vector<SF> v;
    int big = (int)sx_choose("long", 3);
    v.push_back(text(L"a", big == 1 ? String(9000, L'y') : String(L"alpha"), 0));
    std::vector<int> bb; for (int i = 0; i < (big == 2 ? 9000 : 3); ++i) bb.push_back(i & 255);
    v.push_back(bin(L"b", bb));
    v.push_back(text(L"c", L"end", 0));
    w->addDocument(make(v));
    w->addDocument(make(v));
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    boost::shared_ptr<Sel> sel;
    bool lazy = sx_choose("lazy", 2);
    if (lazy) { sel = newLucene<Sel>(); sel->other = FieldSelector::SELECTOR_LAZY_LOAD; }
    ev.armed = true;
    bool threw = false;
    try {
        DocumentPtr d = r->document((int)sx_choose("doc", 2), sel);
        sameDoc(d, v);
    } catch (LuceneException&) { threw = true; }
    ev.armed = false;
    req(threw == ev.failed, "a failed read is reported, and nothing else is");
    sameDoc(r->document(1), v); // and the reader goes on working
    r->close();
    sx_cover(threw ? "reported" : "read");
}
// the same while merging: either the merge fails, or the merged index holds everything
SX_ENTRY(failing_merge_reads) {
    FaultDirPtr dir = newLucene<FaultDir>();
    FailRead ev;
    dir->ev = &ev;
    IndexWriterPtr w = wr(dir, sx_choose("cfs", 2));
    w->setMaxBufferedDocs(2);
    w->setMergeFactor(20);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    std::vector<std::vector<SF>> docs;
    bool reorder = sx_choose("reorder", 2); // field numbers that differ: the documents are copied field by field
    int longest = (int)sx_choose("long", 2);
    for (int i = 0; i < 4; ++i) {
        std::vector<SF> v;
        if (reorder && i > 1) v.push_back(text(L"z", L"zz", 0));
        std::vector<int> bb; for (int j = 0; j < (longest ? 5000 : 4); ++j) bb.push_back((i + j) & 255);
        v.push_back(bin(L"b", bb));
        v.push_back(text(L"a", longest ? String(5000, (wchar_t)(L'p' + i)) : String(L"alpha"), 0));
        docs.push_back(v);
        w->addDocument(make(v));
        if (i == 1) w->commit();
    }
    w->commit();
    ev.armed = true;
    bool threw = false;
    try { w->optimize(); w->commit(); } catch (LuceneException&) { threw = true; }
    ev.armed = false;
    if (threw) req(ev.failed, "a merge fails only when a read failed");
    try { w->close(); } catch (LuceneException&) { w->rollback(); }
    IndexReaderPtr r = IndexReader::open(dir, true);
    req(r->numDocs() == 4, "all documents are there");
    for (int i = 0; i < 4; ++i) sameDoc(r->document(i), docs[i]);
    r->close();
    sx_cover(threw ? "reported" : "read");
}
// any documents deleted, every way of merging
SX_ENTRY(merged_documents) { richMerging(RICH_STORED); }
// documents with and without stored fields, several segments sharing one file of stored fields, any of them deleted, merged later
SX_ENTRY(shared_stores) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = wr(dir, false);
    w->setMaxBufferedDocs(2 + (int)sx_choose("buffered", 2));
    w->setMergeFactor(20);
    static const int N = 6;
    bool stored[N];
    auto content = [&](int i) { std::vector<SF> v; v.push_back(text(L"t", L"text" + String(i * 3, L'.') + StringUtils::toString(i), 0)); v.push_back(bin(L"b", std::vector<int>(i + 1, i))); return v; };
    for (int i = 0; i < N; ++i) {
        stored[i] = sx_choose("stored", 2);
        DocumentPtr d = stored[i] ? make(content(i)) : newLucene<Document>();
        d->add(newLucene<Field>(L"id", StringUtils::toString(i), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
        w->addDocument(d);
    }
    w->commit();
    int how = (int)sx_choose("then", 3);
    int gone = how == 0 ? -1 : (int)sx_pick("deleted", 0, 5);
    if (how > 0) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(gone)));
    if (how == 2) w->optimize();
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    for (int i = 0; i < N; ++i) {
        TermDocsPtr td = r->termDocs(newLucene<Term>(L"id", StringUtils::toString(i)));
        bool there = td->next();
        req(there == (i != gone), "the documents that were not deleted are there");
        if (there) sameDoc(r->document(td->doc()), stored[i] ? content(i) : std::vector<SF>());
    }
    r->close();
    sx_cover("shared");
}
// parts of byte arrays, and values around the sizes at which their encoded length changes
SX_ENTRY(sizes) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = wr(dir, false);
    static const int L[] = {0, 1, 127, 128, 255, 256, 16383, 16384, 32768, 40000, 65535, 65536, 131073};
    int n = L[sx_choose("length", sizeof L / sizeof *L)], off = (int)sx_pick("offset", 0, 2);
    ByteArray b = ByteArray::newInstance(n + off + 1);
    for (int i = 0; i < b.size(); ++i) b[i] = (uint8_t)(i * 7 + (i >> 8));
    if (n > 0) { b[off] = sx_u8("first"); b[off + n - 1] = sx_u8("last"); }
    DocumentPtr d = newLucene<Document>();
    d->add(newLucene<Field>(L"b", b, off, n, Field::STORE_YES));
    d->add(newLucene<Field>(L"s", String(n, L'k'), Field::STORE_YES, Field::INDEX_NO));
    d->add(newLucene<Field>(L"z", L"end", Field::STORE_YES, Field::INDEX_NO));
    w->addDocument(d);
    w->close();
    IndexReaderPtr r = IndexReader::open(dir, true);
    d = r->document(0);
    FieldablePtr f = d->getFieldable(L"b");
    ByteArray g = f->getBinaryValue();
    req(f->getBinaryLength() == n && g.size() >= f->getBinaryOffset() + n, "binary length");
    for (int i = 0; i < n; i += i < n - 300 && i > 300 ? 97 : 1) sx_assert(g[f->getBinaryOffset() + i] == b[off + i], "binary content");
    req((int)d->get(L"s").size() == n && d->get(L"z") == L"end", "text length");
    boost::shared_ptr<Sel> sel = newLucene<Sel>();
    sel->other = FieldSelector::SELECTOR_SIZE;
    d = r->document(0, sel);
    Collection<FieldablePtr> fs = d->getFields();
    req(fs.size() == 3, "every field has a size");
    for (int k = 0; k < 3; ++k) {
        ByteArray s = fs[k]->getBinaryValue();
        req(((s[0] << 24) | (s[1] << 16) | (s[2] << 8) | s[3]) == (k == 0 ? n : k == 1 ? 2 * n : 6), "size of the value");
    }
    r->close();
    sx_cover("sizes");
}
