// Reference model of an index: an ordered list of documents, each a list of (field, text, flags), tokens split at blanks.
#pragma once
#include "common.h"
#include "IndexWriter.h"
#include "IndexReader.h"
#include "TermEnum.h"
#include "TermDocs.h"
#include "TermPositions.h"
#include "WhitespaceAnalyzer.h"
#include "SerialMergeScheduler.h"
#include "LogDocMergePolicy.h"
#include "KeepOnlyLastCommitDeletionPolicy.h"
#include "KeywordAnalyzer.h"
#include "_IndexWriter.h"
#include "LockFactory.h"
#include "SingleInstanceLockFactory.h"
#include "RAMDirectory.h"
#include "Document.h"
#include "Field.h"
#include "Term.h"

enum { F_STORE = 1, F_INDEX = 2, F_ANALYZED = 4, F_NONORMS = 8, F_TV = 16, F_TVPOS = 32, F_TVOFF = 64, F_TEXT = F_STORE | F_INDEX | F_ANALYZED, F_ID = F_STORE | F_INDEX, F_BODY = F_INDEX | F_ANALYZED };
struct MFld { String name, value; int flags; };
struct MDoc {
    std::vector<MFld> f;
    MDoc() {}
    MDoc(const String& id) { add(L"id", id, F_ID); }
    MDoc& add(const String& n, const String& v, int fl = F_TEXT) { f.push_back(MFld{n, v, fl}); return *this; }
    DocumentPtr make() const {
        DocumentPtr d = newLucene<Document>();
        for (auto& x : f) {
            Field::Index ix = !(x.flags & F_INDEX) ? Field::INDEX_NO : (x.flags & F_ANALYZED) ? ((x.flags & F_NONORMS) ? Field::INDEX_ANALYZED_NO_NORMS : Field::INDEX_ANALYZED) : ((x.flags & F_NONORMS) ? Field::INDEX_NOT_ANALYZED_NO_NORMS : Field::INDEX_NOT_ANALYZED);
            Field::TermVector tv = (x.flags & F_TVPOS) && (x.flags & F_TVOFF) ? Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS : (x.flags & F_TVPOS) ? Field::TERM_VECTOR_WITH_POSITIONS : (x.flags & F_TVOFF) ? Field::TERM_VECTOR_WITH_OFFSETS : (x.flags & F_TV) ? Field::TERM_VECTOR_YES : Field::TERM_VECTOR_NO;
            d->add(newLucene<Field>(x.name, x.value, (x.flags & F_STORE) ? Field::STORE_YES : Field::STORE_NO, ix, tv));
        }
        return d;
    }
};
static inline std::vector<String> splitBlank(const String& s) {
    std::vector<String> r;
    String cur;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == L' ') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += s[i]; }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
typedef std::pair<String, String> MTerm;                                  // field, text
typedef std::map<MTerm, std::map<int, std::vector<int>>> MPost;           // term -> document rank -> positions
static inline MPost expectedPostings(const std::vector<MDoc>& docs) {
    MPost r;
    for (size_t i = 0; i < docs.size(); ++i) {
        std::map<String, int> pos;
        for (auto& x : docs[i].f) {
            if (!(x.flags & F_INDEX)) continue;
            int& p = pos[x.name];
            if (x.flags & F_ANALYZED) { for (auto& t : splitBlank(x.value)) r[MTerm(x.name, t)][(int)i].push_back(p++); }
            else r[MTerm(x.name, x.value)][(int)i].push_back(p++);
        }
    }
    return r;
}
static inline std::map<int, int> liveRanks(const IndexReaderPtr& r) {
    std::map<int, int> m;
    int k = 0;
    for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) m[i] = k++;
    return m;
}
// everything a reader shows, restricted to live documents, in rank terms
static inline MPost readPostings(const IndexReaderPtr& r, bool strictOrder = true) {
    MPost out;
    std::map<int, int> rank = liveRanks(r);
    TermEnumPtr te = r->terms();
    TermPositionsPtr tp = r->termPositions();
    bool first = true;
    MTerm prev;
    while (te->next()) {
        TermPtr t = te->term();
        MTerm mt(t->field(), t->text());
        if (!first && strictOrder) req(prev < mt, "terms are enumerated in strictly increasing order");
        first = false;
        prev = mt;
        tp->seek(te);
        int n = 0, last = -1;
        while (tp->next()) {
            int d = tp->doc();
            req(d > last, "postings are in increasing document order");
            last = d;
            req(rank.count(d) > 0, "postings contain no deleted document");
            std::vector<int>& v = out[mt][rank[d]];
            int f = tp->freq();
            req(f >= 1, "frequency is positive");
            for (int k = 0; k < f; ++k) v.push_back(tp->nextPosition());
            ++n;
        }
        int df = te->docFreq();
        req(df >= n && (r->hasDeletions() || df == n), "document frequency covers the postings");
    }
    te->close();
    tp->close();
    return out;
}
static inline void samePostings(const MPost& a, const MPost& b) {
    req(a.size() == b.size(), "index holds exactly the expected terms");
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end(); ++i, ++j) {
        req(i->first == j->first, "index holds exactly the expected terms");
        req(i->second == j->second, "term has exactly the expected documents, frequencies and positions");
    }
}
static inline void sameStored(const IndexReaderPtr& r, const std::vector<MDoc>& docs) {
    int k = 0;
    for (int i = 0; i < r->maxDoc(); ++i) {
        if (r->isDeleted(i)) continue;
        DocumentPtr d = r->document(i);
        const MDoc& m = docs[k++];
        Collection<FieldablePtr> fs = d->getFields();
        size_t q = 0;
        for (auto& x : m.f) {
            if (!(x.flags & F_STORE)) continue;
            req(q < (size_t)fs.size(), "stored field is present");
            req(fs[(int)q]->name() == x.name, "stored field name, in order");
            req(fs[(int)q]->stringValue() == x.value, "stored field value");
            ++q;
        }
        req((size_t)fs.size() == q, "no stored field beyond those added");
    }
}
// the reader shows exactly these documents, in this order
static inline void verifyReader(const IndexReaderPtr& r, const std::vector<MDoc>& docs, bool stored = true) {
    req(r->numDocs() == (int)docs.size(), "number of live documents");
    req(r->maxDoc() >= r->numDocs(), "maximum document number");
    req(r->hasDeletions() == (r->maxDoc() != r->numDocs()), "deletion flag");
    req((int)liveRanks(r).size() == (int)docs.size(), "live documents counted by deletion marks");
    if (stored) sameStored(r, docs);
    samePostings(readPostings(r), expectedPostings(docs));
}
static inline void verifyDir(const DirectoryPtr& dir, const std::vector<MDoc>& docs, bool stored = true) {
    IndexReaderPtr r = IndexReader::open(dir, true);
    verifyReader(r, docs, stored);
    r->close();
}
static inline IndexWriterPtr openWriter(const DirectoryPtr& dir, bool create, const AnalyzerPtr& a = AnalyzerPtr(), const IndexDeletionPolicyPtr& p = IndexDeletionPolicyPtr()) {
    IndexWriterPtr w = newLucene<IndexWriter>(dir, a ? a : newLucene<WhitespaceAnalyzer>(), create, p, IndexWriter::MaxFieldLengthUNLIMITED);
    w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    return w;
}
static inline void removeIds(std::vector<MDoc>& docs, const String& field, const String& text) {
    std::vector<MDoc> o;
    for (auto& d : docs) {
        bool hit = false;
        for (auto& x : d.f) {
            if (x.name != field || !(x.flags & F_INDEX)) continue;
            if (x.flags & F_ANALYZED) { for (auto& t : splitBlank(x.value)) hit |= t == text; } else hit |= x.value == text;
        }
        if (!hit) o.push_back(d);
    }
    docs = o;
}
