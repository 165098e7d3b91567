// C13: the index content equals the net effect of the operations applied.
#include "ix.h"
#include "rich.h"
#include "TermQuery.h"
#include "MatchAllDocsQuery.h"
#include "LogMergePolicy.h"
#include <functional>

static MDoc mk(int serial, const String& id, const String& body) { MDoc d(id); d.add(L"b", body, F_BODY); d.add(L"s", L"s" + StringUtils::toString(serial), F_STORE); return d; }
struct H {
    RAMDirectoryPtr dir;
    IndexWriterPtr w;
    std::vector<MDoc> live, committed;
    int serial;
    H() : serial(0) { dir = newLucene<RAMDirectory>(); }
    void open(bool create) {
        w = openWriter(dir, create);
    }
    void conf(int maxb, int mf, bool cfs) { w->setMaxBufferedDocs(maxb); w->setMergeFactor(mf); w->setUseCompoundFile(cfs); }
    void add(const String& id, const String& body) { MDoc d = mk(serial++, id, body); w->addDocument(d.make()); live.push_back(d); }
    void upd(const String& id, const String& body) { MDoc d = mk(serial++, id, body); w->updateDocument(newLucene<Term>(L"id", id), d.make()); removeIds(live, L"id", id); live.push_back(d); }
    void del(const String& f, const String& t) { w->deleteDocuments(newLucene<Term>(f, t)); removeIds(live, f, t); }
    void delq(const String& f, const String& t) { w->deleteDocuments(newLucene<TermQuery>(newLucene<Term>(f, t))); removeIds(live, f, t); }
};
static const wchar_t* BODY[] = {L"x y x", L"y", L"z x", L""};
static void step(H& h, int op) {
    switch (op) {
    case 0: h.add(L"a", BODY[1]); break;
    case 1: h.add(L"d", BODY[0]); break;
    case 2: h.upd(L"b", BODY[0]); break;
    case 3: h.upd(L"e", BODY[3]); break;
    case 4: h.del(L"id", L"a"); break;
    case 5: h.del(L"b", L"x"); break;
    case 6: h.delq(L"b", L"y"); break;
    case 7: h.w->commit(); verifyDir(h.dir, h.live); break;
    case 8: h.w->optimize(); break;
    case 9: h.w->expungeDeletes(); break;
    case 10: h.w->close(); verifyDir(h.dir, h.live); h.open(false); break;
    case 11: { IndexReaderPtr r = h.w->getReader(); verifyReader(r, h.live); r->close(); } break;
    case 12: h.w->deleteAll(); h.live.clear(); break;
    case 13: h.w->deleteDocuments(newLucene<MatchAllDocsQuery>()); h.live.clear(); break;
    case 14: h.del(L"id", L"e"); break;
    case 15: { // another index is added
        RAMDirectoryPtr o = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(o, true);
        MDoc d1 = mk(90, L"a", L"y z"), d2 = mk(91, L"f", L"x"), d3 = mk(92, L"e", L"x y");
        w->addDocument(d1.make()); w->addDocument(d2.make()); w->addDocument(d3.make()); w->deleteDocuments(newLucene<Term>(L"id", L"f")); w->close();
        h.w->addIndexesNoOptimize(newCollection<DirectoryPtr>(o)); h.live.push_back(d1); h.live.push_back(d3);
        break; }
    case 16: { RAMDirectoryPtr o = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(o, true);
        MDoc d1 = mk(90, L"a", L"y z"), d2 = mk(91, L"f", L"x");
        w->addDocument(d1.make()); w->addDocument(d2.make()); w->close();
        IndexReaderPtr r = IndexReader::open(o, true);
        h.w->addIndexes(newCollection<IndexReaderPtr>(r)); h.live.push_back(d1); h.live.push_back(d2);
        r->close();
        break; }
    }
}
static void finish(H& h) {
    if (sx_choose("last", 2)) h.w->optimize();
    h.w->close();
    verifyDir(h.dir, h.live);
}
static void run(std::initializer_list<int> ops, int steps, int configs) {
    H h;
    h.open(true);
    int cfg = (int)sx_choose("config", configs);
    h.conf((int[]){2, 3, 2, 10}[cfg], (int[]){2, 2, 3, 2}[cfg], cfg & 1);
    h.add(L"a", BODY[0]); h.add(L"b", BODY[1]); h.add(L"c", BODY[2]);
    for (int s = 0; s < steps; ++s) step(h, ops.begin()[sx_choose("op", ops.size())]);
    finish(h);
}
// every operation, short histories
SX_ENTRY(all_operations) {
    run({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, TIER(2, 4), TIER(2, 4));
    sx_cover("all");
}
// buffered adds, updates and deletes against flush points
SX_ENTRY(buffered_deletes) {
    run({1, 2, 4, 3, 14}, TIER(4, 6), TIER(2, 4));
    sx_cover("buffered");
}
// deletions against commits, merges and near-real-time readers
SX_ENTRY(merged_deletes) {
    run({1, 2, 5, 7, 8, 11}, TIER(4, 5), TIER(1, 3));
    sx_cover("merged");
}
SX_ENTRY(reopened_deletes) {
    run({1, 6, 9, 10, 3}, TIER(4, 6), TIER(1, 3));
    sx_cover("reopened");
}
// deletes by query, repeated, against automatic flushes that do not apply them
SX_ENTRY(query_deletes) {
    H h;
    h.open(true);
    h.conf(TIER(2, (int)sx_pick("buffered", 2, 3)), 10, false);
    for (int s = 0; s < TIER(6, 7); ++s)
        switch (sx_choose("op", 4)) {
        case 0: h.add(L"a", BODY[0]); break;
        case 1: h.delq(L"b", L"x"); break;
        case 2: h.add(L"b", BODY[1]); break;
        case 3: h.upd(L"b", BODY[0]); break;
        }
    h.w->close();
    verifyDir(h.dir, h.live);
    sx_cover("query-deletes");
}
SX_ENTRY(symbolic_ids) {
    // deletes and updates hit exactly the documents whose term equals the given one, for any characters
    H h;
    h.open(true);
    h.conf((int)sx_pick("buffered", 2, 3), 2, false);
    String id[3], t;
    for (int i = 0; i < 3; ++i) { id[i] = L"k"; id[i] += (wchar_t)sx_range("c", L'a', L'b'); h.add(id[i], BODY[i]); }
    t = L"k"; t += (wchar_t)sx_range("t", L'a', L'c');
    if (sx_choose("commit", 2)) h.w->commit();
    if (sx_choose("upd", 2)) h.upd(t, BODY[2]); else h.del(L"id", t);
    h.add(id[0], BODY[3]);
    if (sx_choose("opt", 2)) h.w->optimize();
    h.w->close();
    verifyDir(h.dir, h.live);
    sx_cover("symbolic-ids");
}
// everything known about the documents (stored fields, norms, postings with payloads, term vectors), any of them deleted, every way of merging
SX_ENTRY(merged_documents) { richMerging(RICH_STORED | RICH_NORMS | RICH_POSTINGS | RICH_VECTORS); }
// what happens while a merge runs: deletions, updates and additions, made from inside the directory at the time the merge creates one of its files
struct HookDir : public RAMDirectory {
    std::function<void()> f; int at;
    HookDir() : at(0) {}
    virtual IndexOutputPtr createOutput(const String& name) { if (f && --at == 0) { std::function<void()> g = f; f = nullptr; g(); } return RAMDirectory::createOutput(name); }
};
struct FailingTokens : public TokenStream { // x, then a failure
    int n; TermAttributePtr t;
    FailingTokens() : n(0) {}
    virtual void initialize() { TokenStream::initialize(); t = addAttribute<TermAttribute>(); }
    virtual bool incrementToken() { clearAttributes(); t->setTermBuffer(L"x"); if (++n > 1) boost::throw_exception(IOException(L"no more tokens")); return true; }
    virtual void reset() { n = 0; }
};
// a document that cannot be indexed: adding it fails, no trace of it is found
static void addFailing(const IndexWriterPtr& w, const String& id) {
    DocumentPtr d = newLucene<Document>();
    d->add(newLucene<Field>(L"id", id, Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
    d->add(newLucene<Field>(L"b", newLucene<FailingTokens>()));
    bool failed = false;
    try { w->addDocument(d); } catch (IOException&) { failed = true; }
    req(failed, "the failure of a token stream is reported");
}
SX_ENTRY(during_merge) {
    H h;
    boost::shared_ptr<HookDir> dir = newLucene<HookDir>();
    h.dir = dir;
    h.open(true);
    h.conf(100, 2, false);
    boost::dynamic_pointer_cast<LogMergePolicy>(h.w->getMergePolicy())->setMergeFactor(20);
    static const wchar_t* ID[] = {L"a", L"b", L"c", L"d", L"e", L"f", L"g"};
    for (int i = 0; i < 7; ++i) { h.add(ID[i], BODY[i % 3]); if (i == 2 || i == 4 || i == 6) h.w->commit(); }
    int before = (int)sx_choose("deleted before", 3); // before the merge: one or two documents of the first segment, or one of the last
    if (before == 1) h.del(L"id", L"a");
    if (before == 2) { h.del(L"id", L"b"); h.del(L"id", L"f"); }
    h.w->commit();
    int n = (int)sx_choose("operations", 2) + 1;
    int op[2], arg[2];
    for (int i = 0; i < n; ++i) { op[i] = (int)sx_choose("op", TIER(6, 7)); arg[i] = op[i] < 3 ? (int)sx_choose("arg", i == 0 ? 3 : TIER(1, 3)) : 0; }
    dir->at = (int)sx_pick("file", 1, TIER(2, 5));
    bool ran = false;
    dir->f = [&] {
        static const wchar_t* W[] = {L"c", L"e", L"g"};
        for (int i = 0; i < n; ++i) switch (op[i]) {
            case 0: h.del(L"id", W[arg[i]]); break;
            case 1: h.delq(L"id", W[arg[i]]); break;
            case 2: h.upd(W[arg[i]], BODY[0]); break;
            case 3: h.add(L"e", BODY[1]); break;
            case 4: addFailing(h.w, L"bad"); break;
            case 5: h.delq(L"b", L"y"); break;
            case 6: { IndexReaderPtr r = h.w->getReader(); verifyReader(r, h.live); r->close(); } break;
        }
        ran = true;
    };
    h.w->optimize(2);
    dir->f = nullptr;
    if (!ran) sx_stop();
    if (sx_choose("more", 2)) h.add(L"z", BODY[0]);
    h.w->close();
    std::vector<MDoc>& l = h.live;
    verifyDir(h.dir, l);
    sx_cover("during-merge");
}
// documents whose tokens fail half way, between other operations
SX_ENTRY(failing_documents) {
    H h;
    h.open(true);
    h.conf((int)sx_pick("buffered", 2, 3), 2, false);
    for (int s = 0; s < TIER(4, 6); ++s)
        switch (sx_choose("op", 5)) {
        case 0: h.add(s % 2 ? L"a" : L"b", BODY[s % 3]); break;
        case 1: addFailing(h.w, s % 2 ? L"a" : L"b"); break;
        case 2: h.upd(L"b", BODY[0]); break;
        case 3: h.delq(L"b", L"x"); break;
        case 4: h.w->commit(); break;
        }
    finish(h);
    sx_cover("failing");
}
