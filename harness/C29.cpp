// C29: merging is chosen by size levels and limits, and reaches what optimize and expungeDeletes promise.
#include "ix.h"
#include "LogByteSizeMergePolicy.h"
#include "MergePolicy.h"
#include "SegmentInfo.h"
#include "SegmentInfos.h"
#include "SegmentReader.h"
#include "IndexOutput.h"
#include <cmath>
typedef std::vector<std::pair<int, int>> Ranges; // first, one past last
// the documented rule: a level reaches down from its largest segment by 3/4 of a power of the merge factor, or to the minimum size; whatever is below the minimum is one level; a level is merged mergeFactor adjacent segments at a time
static Ranges rule(const std::vector<double>& size, const std::vector<bool>& tooLarge, int factor, double least) {
    Ranges r;
    int n = (int)size.size(), start = 0;
    auto level = [&](double s) { return std::log(std::max(s, 1.0)) / std::log((double)factor); };
    double floor = least <= 0 ? 0 : level(least);
    while (start < n) {
        double top = 0;
        for (int i = start; i < n; ++i) top = std::max(top, level(size[i]));
        double bottom = top < floor ? -1 : top - 0.75 < floor ? floor : top - 0.75;
        int end = n;
        while (end > start && level(size[end - 1]) < bottom) --end;
        for (; start + factor <= end; start += factor) {
            bool large = false;
            for (int i = start; i < start + factor; ++i) large = large || tooLarge[i];
            if (!large) r.push_back(std::make_pair(start, start + factor));
        }
        start = end;
    }
    return r;
}
struct Policy {
    RAMDirectoryPtr dir; IndexWriterPtr w; SegmentInfosPtr infos; std::vector<SegmentInfoPtr> at;
    Policy() { dir = newLucene<RAMDirectory>(); w = openWriter(dir, true); infos = newLucene<SegmentInfos>(); }
    SegmentInfoPtr seg(int docs, int bytes = -1) {
        String name = L"_s" + StringUtils::toString((int)at.size());
        if (bytes >= 0) { IndexOutputPtr o = dir->createOutput(name + L".cfs"); ByteArray b = ByteArray::newInstance(bytes + 1); o->writeBytes(b.get(), bytes); o->close(); }
        SegmentInfoPtr s = newLucene<SegmentInfo>(name, docs, dir, true, true);
        s->setDelCount(0);
        at.push_back(s);
        infos->add(s);
        return s;
    }
    int find(const SegmentInfoPtr& s) { for (int i = 0; i < infos->size(); ++i) if (infos->info(i).get() == s.get()) return i; return -1; }
    // the ranges a specification merges: adjacent segments of the index in order, none twice
    Ranges ranges(const MergeSpecificationPtr& spec) {
        Ranges r;
        if (!spec) return r;
        std::set<int> used;
        for (int k = 0; k < spec->merges.size(); ++k) {
            SegmentInfosPtr m = spec->merges[k]->segments;
            req(m->size() > 0, "a merge has segments");
            int first = find(m->info(0));
            req(first >= 0, "a merge takes segments of the index");
            for (int i = 0; i < m->size(); ++i) { req(find(m->info(i)) == first + i, "a merge takes adjacent segments in order"); req(used.insert(first + i).second, "a segment is in one merge only"); }
            r.push_back(std::make_pair(first, first + m->size()));
        }
        std::sort(r.begin(), r.end());
        return r;
    }
    ~Policy() { w->close(); }
};
static const int SIZES[] = {1, 2, 3, 5, 9, 20};
// natural merges by number of documents; the limit on documents and the number of deleted ones are symbolic
SX_ENTRY(by_documents) {
    Policy p;
    boost::shared_ptr<LogDocMergePolicy> mp = newLucene<LogDocMergePolicy>(p.w);
    int f = (int)sx_pick("factor", 2, 3), least = (int)sx_pick("least", 0, 2) * 2, n = TIER(4, 5);
    mp->setMergeFactor(f);
    mp->setMinMergeDocs(least);
    int limit = sx_i32("limit"); sx_assume(limit >= 1);
    mp->setMaxMergeDocs(limit);
    std::vector<double> size; std::vector<bool> large;
    for (int i = 0; i < n; ++i) { int d = SIZES[sx_choose("size", i < 3 ? 5 : 3)]; p.seg(d); size.push_back(d); large.push_back(d >= limit); }
    Ranges r = p.ranges(mp->findMerges(p.infos));
    req(r == rule(size, large, f, least), "the merges the rule asks for");
    sx_cover(r.empty() ? "none" : "merges");
}
// natural merges by size in bytes, shrunk by deletions where asked for; limits in bytes and documents
SX_ENTRY(by_bytes) {
    Policy p;
    boost::shared_ptr<LogByteSizeMergePolicy> mp = newLucene<LogByteSizeMergePolicy>(p.w);
    static const int BYTES[] = {10, 100, 1000, 300};
    mp->setMergeFactor(2);
    int least = (int)sx_choose("least", 2) * 150;
    mp->setMinMergeMB(least / 1048576.0);
    int most = (int)sx_choose("most", 2) ? 700 : 1 << 30;
    mp->setMaxMergeMB(most / 1048576.0);
    int limit = sx_i32("limit"); sx_assume(limit >= 1);
    mp->setMaxMergeDocs(limit);
    bool cal = sx_choose("calibrate", 2);
    mp->setCalibrateSizeByDeletes(cal);
    std::vector<double> size; std::vector<bool> large;
    for (int i = 0; i < 3; ++i) {
        int b = BYTES[sx_choose("size", i < 2 ? 4 : 2)], d = (int)sx_choose("deleted", i < 2 ? 3 : 1);
        SegmentInfoPtr s = p.seg(10, b);
        s->setDelCount(d * 4);
        double sz = cal ? (double)(int64_t)(b * (1.0 - d * 4 / 10.0)) : b;
        int docs = cal ? 10 - d * 4 : 10;
        size.push_back(sz); large.push_back(sz >= most || docs >= limit);
    }
    Ranges r = p.ranges(mp->findMerges(p.infos));
    req(r == rule(size, large, 2, least), "the merges the rule asks for");
    sx_cover(r.empty() ? "none" : "merges");
}
// merges for expungeDeletes: every segment with deletions once, none without
SX_ENTRY(expunging) {
    Policy p;
    boost::shared_ptr<LogDocMergePolicy> mp = newLucene<LogDocMergePolicy>(p.w);
    int f = (int)sx_pick("factor", 2, 3), n = TIER(7, 9);
    mp->setMergeFactor(f);
    std::vector<bool> has;
    for (int i = 0; i < n; ++i) { int d = sx_i32("deleted"); sx_assume(d >= 0 && d <= 10); p.seg(10)->setDelCount(d); has.push_back(d > 0); }
    Ranges r = p.ranges(mp->findMergesToExpungeDeletes(p.infos));
    std::vector<int> in(n, 0);
    for (auto& x : r) { req(x.second - x.first <= f, "no merge of more than mergeFactor segments"); for (int i = x.first; i < x.second; ++i) ++in[i]; }
    for (int i = 0; i < n; ++i) req(in[i] == (has[i] ? 1 : 0), "exactly the segments with deletions are merged");
    // runs of segments with deletions are merged mergeFactor at a time from their start
    for (auto& x : r) req(x.second - x.first == f || x.second == n || !has[x.second], "a run is split only when the merge is full");
    sx_cover("expunging");
}
// merges for optimize, carried out until none is left: at most the segments asked for remain, later ones are left alone
SX_ENTRY(optimizing) {
    Policy p;
    boost::shared_ptr<LogDocMergePolicy> mp = newLucene<LogDocMergePolicy>(p.w);
    int f = (int)sx_pick("factor", 2, 3), most = (int)sx_pick("segments", 1, 3), n = (int)sx_pick("existing", 0, TIER(5, 6));
    mp->setMergeFactor(f);
    int later = (int)sx_pick("later", 0, 2);
    SetSegmentInfo set = SetSegmentInfo::newInstance();
    int docs = 0;
    std::vector<int> d;
    for (int i = 0; i < n + later; ++i) {
        d.push_back(i < 4 ? 1 + 7 * (int)sx_choose("size", 2) + i : 2);
        SegmentInfoPtr s = p.seg(d.back());
        if (i < n) set.add(s);
        docs += d.back();
    }
    bool del = n > 0 && sx_choose("deletions", 2);
    if (del) p.infos->info(0)->setDelCount(1);
    for (int round = 0;; ++round) {
        req(round <= n + 1, "optimizing comes to an end");
        MergeSpecificationPtr spec = mp->findMergesForOptimize(p.infos, most, set);
        Ranges r = p.ranges(spec);
        if (r.empty()) { req(!spec || spec->merges.empty(), "no merge left"); break; }
        int live = 0;
        for (int i = 0; i < p.infos->size(); ++i) live += set.contains(p.infos->info(i));
        for (auto& x : r) for (int i = x.first; i < x.second; ++i) req(set.contains(p.infos->info(i)), "segments flushed later are left alone");
        if (live > most || most > 1) for (auto& x : r) req(x.second - x.first > 1, "a merge makes progress");
        for (auto& x : r) req(x.second - x.first <= f, "no merge of more than mergeFactor segments");
        bool partial = r.size() == 1 && r[0].second - r[0].first < f && most > 1;
        if (partial) {
            // the cheapest choice, but not one that follows a segment half its size or less
            int w = live - most + 1;
            req(r[0].second - r[0].first == w, "just enough segments are merged");
            int64_t best = -1; int start = 0;
            for (int i = 0; i + w <= live; ++i) {
                int64_t sum = 0;
                for (int j = i; j < i + w; ++j) sum += p.infos->info(j)->docCount;
                if (i == 0 || (sum < 2 * (int64_t)p.infos->info(i - 1)->docCount && sum < best)) { best = sum; start = i; }
            }
            req(r[0].first == start, "the cheapest merge that does not make the index lopsided");
        }
        // carry the last of them out first, so that the other ranges stay where they are
        for (size_t k = r.size(); k-- > 0;) {
            int sum = 0;
            for (int i = r[k].first; i < r[k].second; ++i) { sum += p.infos->info(i)->docCount; set.remove(p.infos->info(i)); }
            String name = L"_m" + StringUtils::toString(round) + StringUtils::toString((int)k);
            SegmentInfoPtr s = newLucene<SegmentInfo>(name, sum, p.dir, true, true);
            s->setDelCount(0);
            SegmentInfosPtr next = newLucene<SegmentInfos>();
            for (int i = 0; i < p.infos->size(); ++i) { if (i == r[k].first) next->add(s); if (i < r[k].first || i >= r[k].second) next->add(p.infos->info(i)); }
            p.infos = next;
            set.add(s);
        }
    }
    int left = 0, total = 0, dels = 0;
    for (int i = 0; i < p.infos->size(); ++i) { total += p.infos->info(i)->docCount; if (set.contains(p.infos->info(i))) { ++left; dels += p.infos->info(i)->getDelCount(); } }
    req(left <= most && total == docs, "at most the segments asked for remain");
    req(most != 1 || !dels, "a single segment left has no deletions");
    req(p.infos->size() == left + later, "segments flushed later remain");
    sx_cover("optimized");
}
static std::vector<int> shape(const DirectoryPtr& dir, int& deleted) {
    std::vector<int> v;
    IndexReaderPtr r = IndexReader::open(dir, true);
    deleted = r->maxDoc() - r->numDocs();
    Collection<IndexReaderPtr> s = r->getSequentialSubReaders();
    for (int i = 0; i < s.size(); ++i) v.push_back(s[i]->maxDoc());
    r->close();
    return v;
}
static void inOrder(const DirectoryPtr& dir, int n, int gone) {
    IndexReaderPtr r = IndexReader::open(dir, true);
    int k = 0;
    for (int i = 0; i < r->maxDoc(); ++i) {
        if (r->isDeleted(i)) continue;
        if (k == gone) ++k;
        req(r->document(i)->get(L"id") == StringUtils::toString(k), "documents stay in order");
        ++k;
    }
    if (k == gone) ++k;
    req(k == n, "every document is there");
    r->close();
}
// a writer fed with documents: the segments it leaves, then optimize(n) or expungeDeletes
SX_ENTRY(writer) {
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(dir, true);
    boost::shared_ptr<LogDocMergePolicy> mp = newLucene<LogDocMergePolicy>(w);
    int f = (int)sx_pick("factor", 2, 3), b = 2, n = (int)sx_pick("flushes", 1, TIER(9, 13)), limit = (int)sx_choose("limit", 2) ? 4 : 0;
    bool cfs = sx_choose("compound", 2);
    mp->setMergeFactor(f); mp->setMinMergeDocs(b);
    mp->setUseCompoundFile(cfs); mp->setUseCompoundDocStore(cfs); mp->setNoCFSRatio(1.0);
    if (limit) mp->setMaxMergeDocs(limit);
    w->setMergePolicy(mp);
    w->setMaxBufferedDocs(b);
    for (int i = 0; i < n * b; ++i) w->addDocument(MDoc(StringUtils::toString(i)).make());
    w->commit();
    int deleted = 0;
    std::vector<int> want, got = shape(dir, deleted);
    // equal flushes: the sizes are the digits of the number of flushes to the base of the merge factor, larger ones first; with a limit, segments that reached it stay
    if (!limit) {
        int size = b, k = n;
        while (k) { for (int i = 0; i < k % f; ++i) want.insert(want.begin(), size); k /= f; size *= f; }
    } else {
        int full = b;
        while (full < limit) full *= f;
        for (int i = 0; i < n * b / full; ++i) want.push_back(full);
        int rest = n - n * b / full * (full / b), size = full / f;
        for (; size >= b; size /= f) { for (int i = 0; i < rest * b / size; ++i) want.push_back(size); rest -= rest * b / size * size / b; }
    }
    req(got == want, "the segments the merge policy leaves");
    inOrder(dir, n * b, -1);
    int then = (int)sx_choose("then", 5), gone = -1;
    if (then < 3) { w->optimize(then + 1); w->commit(); got = shape(dir, deleted); req((int)got.size() <= then + 1, "optimize leaves at most the segments asked for"); if (want.size() <= (size_t)then + 1 && (then > 0 || want.size() > 1)) req(got == want, "optimize does nothing needless"); }
    else {
        gone = (n * b) / 2;
        w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(gone)));
        if (then == 3) { w->commit(); w->expungeDeletes(); } else w->optimize();
        w->commit();
        got = shape(dir, deleted);
        req(deleted == 0, "no deletions remain");
        req(then == 3 ? got.size() <= want.size() : got.size() == 1, "number of segments");
    }
    inOrder(dir, n * b, gone);
    w->close();
    HashSet<String> files = dir->listAll();
    for (HashSet<String>::iterator i = files.begin(); i != files.end(); ++i) req(i->find(L"segments") == 0 || (i->find(L".cf") != String::npos) == cfs, "compound files as set");
    sx_cover(limit ? "limited" : "unlimited");
}
