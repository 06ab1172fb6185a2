// C12: the archive.
#include "rngstub.h"

typedef std::vector<std::vector<int>> Content;
struct Rec {
    const Program::Program* p;
    size_t hash;
    Content data;
    double result;
};
// Two real data sources, a few contents, two programs.
struct ArchWorld {
    Data::PrimitiveTypeArray<int> a{2};
    Data::PrimitiveTypeArray<int> b{1};
    Instructions::Set set;
    Instructions::LambdaInstruction<int> in{[](int x) { return (double)x; }};
    Instructions::LambdaInstruction<int> in2{[](int x) { return -(double)x; }};
    Sources src;
    std::unique_ptr<Environment> env;
    std::unique_ptr<Program::Program> prog[3];
    ArchWorld()
    {
        set.add(in);
        set.add(in2);
        src.push_back(a);
        src.push_back(b);
        env = std::make_unique<Environment>(set, src, 2);
        for (auto& p : prog) p = std::make_unique<Program::Program>(*env);
    }
    Content content(size_t k) const
    {
        static const Content c[] = {{{0, 0}, {0}}, {{1, -1}, {7}}, {{1, -1}, {0}}, {{0, 0}, {7}}};
        return c[k];
    }
    void set_(const Content& c)
    {
        for (size_t i = 0; i < 2; i++) a.setDataAt(typeid(int), i, c[0][i]);
        b.setDataAt(typeid(int), 0, c[1][0]);
    }
    static bool holds(const Data::DataHandler& d, const std::vector<int>& v)
    {
        if (d.getAddressSpace(typeid(int)) != v.size()) return false;
        for (size_t i = 0; i < v.size(); i++)
            if (*d.getDataAt(typeid(int), i).getSharedPointer<const int>() != v[i]) return false;
        return true;
    }
    void check(const Archive& ar, const std::deque<Rec>& m)
    {
        vp_assert(ar.getNbRecordings() == m.size(), "number of recordings");
        std::set<size_t> hashes;
        for (size_t i = 0; i < m.size(); i++) {
            const auto& r = ar.at(i);
            vp_assert(r.prog == m[i].p, "a recording keeps its program, in order");
            vp_assert(same(r.result, m[i].result), "a recording keeps its result, in order");
            vp_assert(r.dataHash == m[i].hash, "a recording keeps the hash of its data");
            vp_assert(ar.hasDataHandlers(m[i].hash), "the data of a recording is kept");
            const auto& dh = ar.getDataHandlers().at(m[i].hash);
            vp_assert(dh.size() == 2, "all data sources are copied");
            vp_assert(&dh[0].get() != &a && &dh[1].get() != &b, "data sources are copied");
            vp_assert(dh[0].get().getId() == a.getId() && dh[1].get().getId() == b.getId(), "copies keep the identifiers");
            vp_assert(holds(dh[0].get(), m[i].data[0]) && holds(dh[1].get(), m[i].data[1]), "the archived data is the data at the moment of the recording");
            hashes.insert(m[i].hash);
        }
        vp_assert(ar.getNbDataHandlers() == hashes.size(), "data copies are kept exactly as long as a recording refers to them");
        bool thrown = false;
        try {
            ar.at(m.size());
        }
        catch (std::out_of_range&) {
            thrown = true;
        }
        vp_assert(thrown, "no recording beyond the last one");
    }
};

HARNESS(window)
{
    ArchWorld w;
    size_t maxSize = vp_pick("max", vp_param("minSize", 0), vp_param("maxSize", 3));
    size_t n = vp_param("records", 4);
    Archive ar(maxSize);
    std::deque<Rec> m;
    std::map<size_t, Content> seen;
    for (size_t i = 0; i < n; i++) {
        if (i && vp_param("clear", 0) && vp_pick("clear", 0, 1)) {
            ar.clear();
            m.clear();
            w.check(ar, m);
        }
        Rec r;
        r.p = w.prog[vp_pick("prog", 0, 1)].get();
        r.data = w.content(vp_pick("data", 0, vp_param("contents", 1)));
        r.result = vp_double("result");
        w.set_(r.data);
        r.hash = Archive::getCombinedHash(w.src);
        ar.addRecording(r.p, w.src, r.result);
        if (vp_param("modify", 1)) w.set_({{5, 6}, {(int)i}}); // the archived copy must not follow
        m.push_back(r);
        if (m.size() > maxSize) {
            m.pop_front();
            vp_reach("oldest dropped");
        }
        w.check(ar, m);
        // two contents of the same sources have different hashes here
        seen[r.hash] = r.data;
        for (auto& s : seen) vp_assert(s.second == seen[s.first], "hash of the content");
        vp_assert(seen.at(r.hash) == r.data, "hash of the content");
    }
    vp_assert(drawCount == 0, "an archive that always records draws nothing");
    vp_reach("end");
}
// recording with a probability
static double uniformDraw;
static bool drawUniform(double lo, double hi, double& v)
{
    vp_assert(lo == 0.0 && hi == 1.0, "the draw is uniform in [0,1]");
    v = vp_double("uniform");
    vp_assume(v >= 0.0 && v <= 1.0);
    uniformDraw = v;
    return true;
}
HARNESS(probability)
{
    ArchWorld w;
    double p = vp_double("probability");
    vp_assume(p >= 0.0 && p <= 1.0);
    dblDrawHook = drawUniform;
    Archive ar(2, p);
    std::deque<Rec> m;
    for (size_t i = 0; i < (size_t)vp_param("records", 3); i++) {
        Rec r;
        r.p = w.prog[i % 2].get();
        r.data = w.content(i % 3);
        r.result = (double)i;
        w.set_(r.data);
        r.hash = Archive::getCombinedHash(w.src);
        bool forced = vp_pick("forced", 0, 1);
        long before = drawCount;
        ar.addRecording(r.p, w.src, r.result, forced);
        bool rec = forced || p == 1.0;
        if (!rec) {
            vp_assert(drawCount == before + 1, "one draw decides");
            vp_assume(uniformDraw != p);
            rec = uniformDraw < p;
            vp_reach(rec ? "drawn" : "not drawn");
        }
        if (rec) {
            m.push_back(r);
            if (m.size() > 2) m.pop_front();
        }
        w.check(ar, m);
    }
}
// areProgramResultsUnique against its definition
HARNESS(unique)
{
    ArchWorld w;
    size_t n = vp_param("records", 3), maxSize = vp_param("maxSize", 3);
    Archive ar(maxSize);
    std::deque<Rec> m;
    size_t hs[3];
    for (size_t k = 0; k < 3; k++) {
        w.set_(w.content(k));
        hs[k] = Archive::getCombinedHash(w.src);
    }
    for (size_t i = 0; i < n; i++) {
        Rec r;
        r.p = w.prog[vp_pick("prog", 0, i || !vp_param("sym", 0))].get();
        size_t k = vp_pick("data", 0, i || !vp_param("sym", 0));
        r.result = vp_param("fixed", 0) ? 0.25 + i * 7e-5 : vp_double("result");
        w.set_(w.content(k));
        r.hash = hs[k];
        r.data = w.content(k);
        ar.addRecording(r.p, w.src, r.result);
        m.push_back(r);
        if (m.size() > maxSize) {
            m.pop_front();
            vp_reach("oldest dropped");
        }
        if (!i && vp_param("clear", 0) && vp_pick("clear", 0, 1)) {
            ar.clear();
            m.clear();
        }
    }
    std::map<size_t, double> q;
    size_t sub = vp_pick("compared", 0, 3 + 4 * vp_param("third", 1));
    for (size_t k = 0; k < 3; k++)
        if (sub >> k & 1) q[hs[k]] = vp_double("expected");
    bool dflt = vp_pick("tolerance", 0, vp_param("tol", 1)) == 0;
    double tau = 1e-4;
    if (!dflt) {
        tau = vp_double("tau");
        vp_assume(tau >= 0);
    }
    bool got = dflt ? ar.areProgramResultsUnique(q) : ar.areProgramResultsUnique(q, tau);
    bool present = false;
    for (size_t k = 0; k < 2; k++) {
        size_t compared = 0;
        bool all = true;
        for (auto& r : m)
            if (r.p == w.prog[k].get() && q.count(r.hash)) {
                compared++;
                double d = q[r.hash] - r.result;
                all &= d <= tau && -d <= tau;
            }
        present |= compared && all;
    }
    vp_assert(got == !present, "results are already present exactly when one program matches them all");
    vp_reach(got ? "unique" : "present");
    w.check(ar, m);
}
