// C34: scores computed from field values and from payloads.
#include "stubq.h"
#include "DefaultSimilarity.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "PayloadAttribute.h"
#include "Payload.h"
#include "CustomScoreQuery.h"
#include "CustomScoreProvider.h"
#include "FieldScoreQuery.h"
#include "OrdFieldSource.h"
#include "ReverseOrdFieldSource.h"
#include "IntFieldSource.h"
#include "MatchAllDocsQuery.h"
#include "ConstantScoreQuery.h"
#include "QueryWrapperFilter.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "PayloadTermQuery.h"
#include "PayloadNearQuery.h"
#include "AveragePayloadFunction.h"
#include "MaxPayloadFunction.h"
#include "MinPayloadFunction.h"
#include "TopDocs.h"
#include "ScoreDoc.h"
#include <cmath>
static const wchar_t* VAL[] = {L"3", L"0", L"7", L"120"};
static const double NUM[] = {3, 0, 7, 120};
static const double BOOST[] = {1, 2.5, 0.25};
struct Docs {
    RAMDirectoryPtr dir; IndexSearcherPtr s; std::vector<int> val, base; std::vector<bool> live, hit;
    Docs(int n) {
        dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, true);
        w->setMergeFactor(50);
        int cut = (int)sx_pick("segment after", 1, n), del = (int)sx_choose("deleted", n + 1) - 1;
        for (int i = 0; i < n; ++i) {
            val.push_back(i == 0 ? (int)sx_choose("value", 4) : (int)sx_choose("value", 2) * 2); hit.push_back(i != 1); live.push_back(i != del); base.push_back(i < cut ? 0 : cut);
            DocumentPtr d = newLucene<Document>();
            d->add(newLucene<Field>(L"id", StringUtils::toString(i), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
            d->add(newLucene<Field>(L"v", VAL[val[i]], Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
            if (hit[i]) d->add(newLucene<Field>(L"f", L"a", Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
            w->addDocument(d);
            if (i + 1 == cut) w->commit();
        }
        if (del >= 0) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(del)));
        w->close();
        s = newLucene<IndexSearcher>(dir, true);
    }
    // the value of a document as one of the sources sees it; ordinals count the different values of its segment in order of their texts
    double value(int src, int i) {
        if (src < 3) return NUM[val[i]];
        std::set<String> texts;
        for (size_t k = 0; k < val.size(); ++k) if (base[k] == base[i]) texts.insert(VAL[val[k]]);
        int ord = 1, n = (int)texts.size() + 1;
        for (auto& t : texts) { if (t == VAL[val[i]]) break; ++ord; }
        return src == 3 ? ord : n - ord;
    }
    static ValueSourceQueryPtr query(int src) {
        if (src < 3) return newLucene<FieldScoreQuery>(L"v", src == 0 ? FieldScoreQuery::BYTE : src == 1 ? FieldScoreQuery::INT : FieldScoreQuery::DOUBLE);
        return newLucene<ValueSourceQuery>(src == 3 ? ValueSourcePtr(newLucene<OrdFieldSource>(L"v")) : ValueSourcePtr(newLucene<ReverseOrdFieldSource>(L"v")));
    }
};
static void scoresAre(const IndexSearcherPtr& s, const QueryPtr& q, const Hits& want) {
    boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(false);
    s->search(q, c);
    req(c->h.size() == want.size(), "exactly the documents of the query");
    for (auto& x : want) { req(c->h.count(x.first) > 0, "a document of the query"); req(near(c->h[x.first], x.second), "the score is what the function says"); }
}
// each segment's scorer, sent forward to any document
static void advanced(const IndexSearcherPtr& s, const QueryPtr& q, const Hits& want) {
    Collection<IndexReaderPtr> subs = s->getIndexReader()->getSequentialSubReaders();
    WeightPtr w = q->weight(s);
    for (int k = 0, base = 0; k < subs.size(); base += subs[k]->maxDoc(), ++k)
        for (int t = 0; t < subs[k]->maxDoc(); ++t) {
            Hits::const_iterator x = want.lower_bound(base + t);
            ScorerPtr sc = w->scorer(subs[k], true, false);
            int at = sc ? sc->advance(t) : (int)Scorer::NO_MORE_DOCS;
            if (x == want.end() || x->first >= base + subs[k]->maxDoc()) { req(at == Scorer::NO_MORE_DOCS, "no document from there on"); continue; }
            req(at == x->first - base && sc->docID() == at, "the next document of the query");
            req(near(sc->score(), x->second), "the score after going forward");
        }
}
static void explained(const IndexSearcherPtr& s, const QueryPtr& q, int n, const Hits& want, const char* what = "the explanation has the value of the score") {
    for (int i = 0; i < n; ++i) {
        Hits::const_iterator x = want.find(i);
        if (x != want.end()) req(near(s->explain(q, i)->getValue(), x->second), what);
    }
}
// the value of a field as the score, for every kind of source
SX_ENTRY(field_values) {
    Docs d(3);
    int src = (int)sx_choose("source", 5);
    double b = BOOST[sx_choose("boost", 3)];
    ValueSourceQueryPtr q = Docs::query(src);
    q->setBoost(b);
    Hits want;
    for (int i = 0; i < 3; ++i) if (d.live[i]) want[i] = d.value(src, i) * b * (1 / std::sqrt(b * b));
    scoresAre(d.s, q, want);
    advanced(d.s, q, want);
    explained(d.s, q, 3, want);
    QueryPtr copy = boost::dynamic_pointer_cast<Query>(q->clone());
    req(copy->equals(q) && copy->hashCode() == q->hashCode(), "a copy equals the query");
    scoresAre(d.s, copy, want);
    // as a clause with another one: every document is a match of the function
    BooleanQueryPtr bq = newLucene<BooleanQuery>(true);
    bq->add(newLucene<ConstantScoreQuery>(newLucene<QueryWrapperFilter>(newLucene<TermQuery>(newLucene<Term>(L"f", L"a")))), BooleanClause::MUST);
    bq->add(q, BooleanClause::MUST);
    double norm = 1 / std::sqrt(1 + b * b);
    Hits both;
    for (int i = 0; i < 3; ++i) if (d.live[i] && d.hit[i]) both[i] = norm + d.value(src, i) * b * norm;
    scoresAre(d.s, bq, both);
    sx_cover("field values");
}
struct Own : public CustomScoreQuery {
    Own(const QueryPtr& q, Collection<ValueSourceQueryPtr> v) : CustomScoreQuery(q, v) {}
    virtual double customScore(int32_t doc, double sub, Collection<double> v) { double r = 1000 * doc + sub; for (int i = 0; i < v.size(); ++i) r += (i + 2) * v[i]; return r; }
    virtual double customScore(int32_t doc, double sub, double v) { return 1000 * doc + sub + 2 * v; }
};
// a query whose score is multiplied with up to two field values, or combined in the user's own way
SX_ENTRY(custom_scores) {
    int n = 3;
    Docs d(n);
    bool own = sx_choose("own", 2), strict = sx_choose("strict", 2);
    double b = BOOST[sx_choose("boost", 2)], sb = 1.5, vb = 2.0;
    int vs = (int)sx_pick("sources", 0, 2);
    Collection<ValueSourceQueryPtr> v = Collection<ValueSourceQueryPtr>::newInstance();
    for (int i = 0; i < vs; ++i) { v.add(Docs::query(i == 0 ? 1 : 3)); v[i]->setBoost(i == 0 ? vb : 1.0); }
    QueryPtr sub = newLucene<ConstantScoreQuery>(newLucene<QueryWrapperFilter>(newLucene<TermQuery>(newLucene<Term>(L"f", L"a"))));
    sub->setBoost(sb);
    CustomScoreQueryPtr q = own ? CustomScoreQueryPtr(newLucene<Own>(sub, v)) : newLucene<CustomScoreQuery>(sub, v);
    q->setBoost(b);
    q->setStrict(strict);
    req(q->isStrict() == strict, "strict as set");
    double sum = sb * sb;
    if (!strict) for (int i = 0; i < vs; ++i) sum += i == 0 ? vb * vb : 1.0;
    double norm = 1 / std::sqrt(sum * b * b) * b, vnorm = strict ? 1.0 : norm;
    Hits want;
    for (int i = 0; i < n; ++i) {
        if (!d.live[i] || !d.hit[i]) continue;
        double s = sb * norm, x[2] = {1, 1};
        for (int k = 0; k < vs; ++k) x[k] = d.value(k == 0 ? 1 : 3, i) * (k == 0 ? vb : 1.0) * vnorm;
        double r = own ? 1000 * (i - d.base[i]) + s + (vs == 0 ? 2 : 0) + (vs > 0 ? 2 * x[0] : 0) + (vs > 1 ? 3 * x[1] : 0) : s * x[0] * x[1];
        if (own && vs == 0) r = 1000 * (i - d.base[i]) + s;      // no value at all
        want[i] = b * r;
    }
    scoresAre(d.s, q, want);
    advanced(d.s, q, want);
    if (!own) {
        explained(d.s, q, n, want);
        QueryPtr copy = boost::dynamic_pointer_cast<Query>(q->clone());
        req(copy->equals(q) && copy->hashCode() == q->hashCode(), "a copy equals the query");
        scoresAre(d.s, copy, want);
    }
    TopDocsPtr t = d.s->search(q, FilterPtr(), 10);
    req(t->totalHits == (int)want.size(), "number of hits");
    for (int i = 0; i < t->scoreDocs.size(); ++i) { req(near(t->scoreDocs[i]->score, want[t->scoreDocs[i]->doc]), "score of the hit"); if (i) req(t->scoreDocs[i - 1]->score >= t->scoreDocs[i]->score, "hits by decreasing score"); }
    sx_cover(own ? "own" : "product");
}
struct PTok { int t, inc; int pay; };                    // pay < 0: none
struct PStream : public TokenStream {
    std::vector<PTok> v; size_t k; TermAttributePtr t; PositionIncrementAttributePtr p; PayloadAttributePtr y;
    PStream(const std::vector<PTok>& x) : v(x), k(0) {}
    virtual void initialize() { TokenStream::initialize(); t = addAttribute<TermAttribute>(); p = addAttribute<PositionIncrementAttribute>(); y = addAttribute<PayloadAttribute>(); }
    virtual bool incrementToken() {
        if (k == v.size()) return false;
        clearAttributes();
        t->setTermBuffer(String(1, (wchar_t)(L'a' + v[k].t)));
        p->setPositionIncrement(v[k].inc);
        if (v[k].pay >= 0) { ByteArray b = ByteArray::newInstance(2); b[0] = 9; b[1] = (uint8_t)v[k].pay; y->setPayload(newLucene<Payload>(b)); }
        ++k;
        return true;
    }
    virtual void reset() { k = 0; }
};
struct PaySim : public DefaultSimilarity {
    virtual double scorePayload(int32_t, const String& f, int32_t, int32_t, ByteArray p, int32_t off, int32_t len) {
        req(f == L"f" && off == 0 && len == 2 && p.size() >= 2, "the payload of the occurrence is given");
        req(p[0] == 9, "content of the payload");
        return (double)p[1];
    }
};
static PayloadFunctionPtr function(int k) { return k == 0 ? PayloadFunctionPtr(newLucene<AveragePayloadFunction>()) : k == 1 ? PayloadFunctionPtr(newLucene<MaxPayloadFunction>()) : PayloadFunctionPtr(newLucene<MinPayloadFunction>()); }
static double fold(int k, const std::vector<int>& p) {
    if (p.empty()) return 1;
    double r = p[0];
    for (size_t i = 1; i < p.size(); ++i) r = k == 0 ? r + p[i] : k == 1 ? std::max(r, (double)p[i]) : std::min(r, (double)p[i]);
    return k == 0 ? r / (double)p.size() : r;
}
struct Pays {
    RAMDirectoryPtr dir; IndexSearcherPtr s; std::vector<std::vector<PTok>> docs; std::vector<bool> live;
    void build(int del, int cut) {
        dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = openWriter(dir, true);
        w->setMergeFactor(50);
        for (size_t i = 0; i < docs.size(); ++i) {
            DocumentPtr d = newLucene<Document>();
            d->add(newLucene<Field>(L"id", StringUtils::toString((int)i), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
            d->add(newLucene<Field>(L"f", newLucene<PStream>(docs[i])));
            w->addDocument(d);
            live.push_back((int)i != del);
            if ((int)i == cut) w->commit();
        }
        if (del >= 0) w->deleteDocuments(newLucene<Term>(L"id", StringUtils::toString(del)));
        w->close();
        s = newLucene<IndexSearcher>(dir, true);
        s->setSimilarity(newLucene<PaySim>());
    }
    Hits plain(const QueryPtr& q) { boost::shared_ptr<HitCollector> c = newLucene<HitCollector>(false); s->search(q, c); return c->h; }
};
// occurrences with symbolic payloads or none: the score of a term is the span score, or 1, times the function of its payloads in the document
SX_ENTRY(payload_terms) {
    Pays p;
    int n = 3, fn = (int)sx_choose("function", 3);
    bool span = sx_choose("span score", 2), free = fn > 0 && !span;  // sums and products of symbolic numbers are left out
    for (int i = 0; i < n; ++i) {
        std::vector<PTok> v;
        int len = i == 1 || (i == 2 && free) ? 1 : 1 + (int)sx_choose("tokens", i == 0 ? 3 : 2);
        for (int k = 0; k < len; ++k) { PTok t = {i == 1 || (k == 1 && i == 0 && sx_choose("other term", 2)) ? 1 : 0, 1, sx_choose("payload", 2) ? (i == 0 && k == 0 && free ? (int)sx_u8("byte") : 40 + 10 * i - 30 * k) : -1}; v.push_back(t); }
        p.docs.push_back(v);
    }
    p.build(-1, (int)sx_choose("segment", 2));
    TermPtr t = newLucene<Term>(L"f", L"a");
    SpanQueryPtr base = newLucene<SpanTermQuery>(t), q = newLucene<PayloadTermQuery>(t, function(fn), span);
    base->setBoost(2.0); q->setBoost(2.0);
    Hits sp = p.plain(base), got = p.plain(q);
    req(sp.size() == got.size(), "exactly the documents of the term");
    Hits want;
    for (auto& x : sp) {
        std::vector<int> pays;
        for (auto& k : p.docs[x.first]) if (k.t == 0 && k.pay >= 0) pays.push_back(k.pay);
        double f = fold(fn, pays), w = span ? x.second * f : f;
        want[x.first] = w;
        req(got.count(x.first) > 0, "exactly the documents of the term");
        sx_assert(got[x.first] == w, "the score is what the payload function says");
    }
    QueryPtr copy = boost::dynamic_pointer_cast<Query>(q->clone());
    req(copy->equals(q) && copy->hashCode() == q->hashCode(), "a copy equals the query");
    Hits again = p.plain(copy);
    for (auto& x : want) sx_assert(again[x.first] == x.second, "a copy gives the same scores");
    if (span) for (auto& x : want) { double e = p.s->explain(q, x.first)->getValue(); sx_assert(e - x.second < 1e-6 * (x.second + 1) && x.second - e < 1e-6 * (x.second + 1), "the explanation has the value of the score"); }
    sx_cover(span ? "with span score" : "alone");
}
// two terms near each other, in order or not, with payloads: the span score times the function of all payloads of the match
SX_ENTRY(payload_near) {
    Pays p;
    for (int i = 0; i < 3; ++i) {
        std::vector<PTok> v;
        int first = i == 2 ? 0 : (int)sx_choose("first term", 2), gap = i == 2 ? 1 : 1 + (int)sx_choose("gap", 3);
        for (int k = 0; k < 2; ++k) { PTok t = {k == 0 ? first : 1 - first, k == 0 ? 1 : gap, i == 0 ? sx_choose("payload", 2) ? 60 - 33 * k : -1 : 5 * i + 20 * k}; v.push_back(t); }
        p.docs.push_back(v);
    }
    int del = (int)sx_choose("deleted", 2) - 1;
    p.build(del, 1);
    int fn = (int)sx_choose("function", 3), slop = (int)sx_choose("slop", 2);
    bool order = sx_choose("in order", 2);
    auto clauses = [] { Collection<SpanQueryPtr> c = Collection<SpanQueryPtr>::newInstance(); c.add(newLucene<SpanTermQuery>(newLucene<Term>(L"f", L"a"))); c.add(newLucene<SpanTermQuery>(newLucene<Term>(L"f", L"b"))); return c; };
    SpanQueryPtr base = newLucene<SpanNearQuery>(clauses(), slop, order), q = newLucene<PayloadNearQuery>(clauses(), slop, order, function(fn));
    base->setBoost(1.5); q->setBoost(1.5);
    QueryPtr qs[2] = {q, boost::dynamic_pointer_cast<Query>(q->clone())};
    req(qs[1]->equals(q) && qs[1]->hashCode() == q->hashCode(), "a copy equals the query");
    Hits sp = p.plain(base);
    for (int c = 0; c < 2; ++c) {
        Hits got = p.plain(qs[c]);
        req(sp.size() == got.size(), "exactly the documents with a match");
        for (auto& x : sp) {
            std::vector<int> pays;
            for (auto& k : p.docs[x.first]) if (k.pay >= 0) pays.push_back(k.pay);
            double w = x.second * fold(fn, pays);
            double g = got[x.first];
            sx_assert(g - w < 1e-6 * (w + 1) && w - g < 1e-6 * (w + 1), "the score is what the payload function says");
            double e = p.s->explain(qs[c], x.first)->getValue();
            sx_assert(e - w < 1e-6 * (w + 1) && w - e < 1e-6 * (w + 1), "the explanation has the value of the score");
        }
    }
    sx_cover(sp.empty() ? "no match" : "matches");
}
