// C01: team evaluation and root execution.  C02: instrumented execution.
#include "hx.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgGraph.h"

using namespace TPG;

struct Bids {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> id{idFn};
    Instructions::LambdaInstruction<double> other{uf1};
    Data::PrimitiveTypeArray<double> data;
    std::unique_ptr<Environment> env;
    std::vector<double> v;
    explicit Bids(size_t n) : data(n), v(n)
    {
        set.add(id);
        set.add(other);
        env = std::make_unique<Environment>(set, Sources{data}, 2);
    }
    void symbolic()
    {
        for (size_t i = 0; i < v.size(); i++) {
            v[i] = vp_double("bid");
            data.setDataAt(typeid(double), i, v[i]);
        }
    }
    std::shared_ptr<Program::Program> prog(size_t i) { return bidProgram(*env, 1, i); }
};
static double filtered(double b) { return b != b ? -INFINITY : b; }

// the edge a team must select: highest bid, NaN = -inf, last among equals
static const TPGEdge* expectedEdge(const TPGTeam& t, const std::map<const Program::Program*, size_t>& cell, const std::vector<double>& v)
{
    const TPGEdge* best = nullptr;
    double bb = 0;
    for (const TPGEdge* e : t.getOutgoingEdges()) {
        double b = filtered(v[cell.at(&e->getProgram())]);
        if (best == nullptr || !(b < bb)) {
            best = e;
            bb = b;
        }
    }
    return best;
}

// One team, n edges: every assignment of bids.
HARNESS(team)
{
    size_t n = vp_pick("nbEdges", 1, vp_param("maxEdges", 4));
    Bids B(n);
    TPGGraph g(*B.env);
    auto& t = g.addNewTeam();
    std::map<const Program::Program*, size_t> cell;
    for (size_t i = 0; i < n; i++) {
        auto p = B.prog(i);
        cell[p.get()] = i;
        g.addNewEdge(t, g.addNewAction(i), p);
    }
    B.symbolic();
    TPGExecutionEngine tee(*B.env);
    const TPGEdge& w = tee.evaluateTeam(t);
    const TPGEdge* winner = &w;
    double wb = filtered(B.v[cell.at(&winner->getProgram())]);
    bool after = false;
    for (const TPGEdge* e : t.getOutgoingEdges()) {
        double b = filtered(B.v[cell.at(&e->getProgram())]);
        vp_assert(b <= wb, "the selected edge has the highest bid");
        if (after) vp_assert(b < wb, "a tie goes to the last of the tied edges");
        if (e == winner) after = true;
    }
    vp_assert(after, "the selected edge belongs to the team");
    if (n > 1 && winner == t.getOutgoingEdges().front()) vp_reach("first edge wins");
    if (n > 1 && winner == t.getOutgoingEdges().back()) vp_reach("last edge wins");
    // the bid of a single edge, as reported by the engine
    double b0 = tee.evaluateEdge(*t.getOutgoingEdges().front());
    vp_assert(same(b0, filtered(B.v[0])), "the bid of an edge is its program's result, NaN replaced by -inf");
    vp_reach("end");
}

struct G {
    Bids& B;
    TPGGraph g;
    std::vector<const TPGVertex*> v; // teams first, then actions
    std::map<const Program::Program*, size_t> cell;
    size_t nT;
    G(Bids& b, std::unique_ptr<TPGFactory> f) : B(b), g(*b.env, std::move(f)) {}
};
// acyclic graph: nT teams, nA actions; every edge leads to any later vertex
static void build(G& x, size_t nT, size_t nA, const std::vector<size_t>& edges, bool share)
{
    x.nT = nT;
    for (size_t i = 0; i < nT; i++) x.v.push_back(&x.g.addNewTeam());
    for (size_t i = 0; i < nA; i++) x.v.push_back(&x.g.addNewAction(i));
    size_t c = 0;
    std::shared_ptr<Program::Program> first;
    for (size_t t = 0; t < nT; t++)
        for (size_t k = 0; k < edges[t]; k++) {
            size_t d = vp_pick("dest", t + 1, nT + nA - 1);
            auto p = x.B.prog(c);
            if (share && first && vp_pick("share", 0, 1)) p = first;
            else x.cell[p.get()] = c++;
            if (!first) first = p;
            x.g.addNewEdge(*x.v[t], *x.v[d], p);
        }
}
static std::vector<const TPGVertex*> expectedPath(G& x, const TPGVertex* root, std::map<const TPGEdge*, uint64_t>* vis = nullptr, std::map<const TPGEdge*, uint64_t>* trav = nullptr)
{
    std::vector<const TPGVertex*> r{root};
    while (auto* t = dynamic_cast<const TPGTeam*>(r.back())) {
        auto* e = expectedEdge(*t, x.cell, x.B.v);
        if (vis)
            for (auto* o : t->getOutgoingEdges()) (*vis)[o]++;
        if (trav) (*trav)[e]++;
        r.push_back(e->getDestination());
    }
    return r;
}
static std::vector<size_t> shape(size_t nT)
{
    std::vector<size_t> e;
    for (size_t i = 0; i < nT; i++) e.push_back(i == 0 ? vp_param("rootEdges", 3) : 2);
    return e;
}
HARNESS(path)
{
    size_t nT = vp_param("teams", 2), nA = 2;
    auto e = shape(nT);
    size_t n = 0;
    for (auto k : e) n += k;
    Bids B(n);
    G x(B, std::make_unique<TPGFactory>());
    build(x, nT, nA, e, true);
    B.symbolic();
    TPGExecutionEngine tee(*B.env);
    auto p = tee.executeFromRoot(*x.v[0]);
    auto q = expectedPath(x, x.v[0]);
    vp_assert(p.size() == q.size(), "length of the path");
    for (size_t i = 0; i < q.size(); i++) vp_assert(p[i] == q[i], "path follows the winning edges");
    vp_assert(dynamic_cast<const TPGAction*>(p.back()) != nullptr, "path ends with an action");
    vp_assert(p.front() == x.v[0], "path starts with the root");
    // executing from an action
    auto a = tee.executeFromRoot(*x.v[nT]);
    vp_assert(a.size() == 1 && a[0] == x.v[nT], "executing an action returns the action");
    if (p.size() == 2) vp_reach("short path");
    if (p.size() == nT + 1) vp_reach("long path");
}

// C02: several executions with changing data, plain and instrumented engines side by side
HARNESS(instrumented)
{
    size_t nT = vp_param("teams", 2), nA = 2, runs = vp_param("runs", 2);
    auto e = shape(nT);
    size_t n = 0;
    for (auto k : e) n += k;
    Bids B(n);
    TPGInstrumentedFactory fac;
    G x(B, std::make_unique<TPGInstrumentedFactory>());
    build(x, nT, nA, e, false);
    auto ti = fac.createTPGExecutionEngine(*B.env);
    auto* tii = dynamic_cast<TPGExecutionEngineInstrumented*>(ti.get());
    vp_assert(tii != nullptr, "factory makes an instrumented engine");
    TPGExecutionEngine plain(*B.env);
    std::map<const TPGEdge*, uint64_t> vis, trav;
    std::map<const TPGVertex*, uint64_t> vv;
    auto check = [&](const char* when) {
        for (auto* v : x.g.getVertices()) {
            auto* vi = dynamic_cast<const TPGVertexInstrumentation*>(v);
            vp_assert(vi != nullptr, "vertices of an instrumented graph are instrumented");
            vp_assert(vi->getNbVisits() == vv[v], when);
        }
        for (auto& ed : x.g.getEdges()) {
            auto* ei = dynamic_cast<const TPGEdgeInstrumented*>(ed.get());
            vp_assert(ei != nullptr, "edges of an instrumented graph are instrumented");
            vp_assert(ei->getNbVisits() == vis[ed.get()], "edge visit count");
            vp_assert(ei->getNbTraversal() == trav[ed.get()], "edge traversal count");
        }
    };
    check("counters start at zero");
    size_t hist = 0;
    for (size_t r = 0; r < runs; r++) {
        B.symbolic();
        size_t root = vp_pick("root", 0, nT); // a team or an action
        auto p = ti->executeFromRoot(*x.v[root]);
        auto q = plain.TPGExecutionEngine::executeFromRoot(*x.v[root]);
        vp_assert(p == q, "instrumented and plain engine visit the same vertices");
        auto ref = expectedPath(x, x.v[root], &vis, &trav);
        vp_assert(p == ref, "instrumented engine follows the winning edges");
        for (auto* v : ref) vv[v]++;
        hist++;
        vp_assert(tii->getTraceHistory().size() == hist && tii->getTraceHistory().back() == p, "trace history records the execution");
        check("vertex visit count");
    }
    // reset or clean
    if (vp_pick("what", 0, 1) == 0) {
        fac.resetTPGGraphCounters(x.g);
        vis.clear();
        trav.clear();
        vv.clear();
        check("reset sets counters to zero");
        tii->clearTraceHistory();
        vp_assert(tii->getTraceHistory().empty(), "history cleared");
        vp_reach("reset");
    }
    else {
        std::set<const TPGVertex*> keepV;
        std::set<const TPGEdge*> keepE;
        for (auto* v : x.g.getVertices())
            if (vv[v]) keepV.insert(v);
        for (auto& ed : x.g.getEdges())
            if (trav[ed.get()]) keepE.insert(ed.get());
        if (keepV.size() < x.v.size()) vp_reach("some vertex unused");
        fac.clearUnusedTPGGraphElements(x.g);
        auto vs = x.g.getVertices();
        vp_assert(std::set<const TPGVertex*>(vs.begin(), vs.end()) == keepV && vs.size() == keepV.size(), "exactly the visited vertices remain");
        std::set<const TPGEdge*> es;
        for (auto& ed : x.g.getEdges()) es.insert(ed.get());
        vp_assert(es == keepE, "exactly the traversed edges remain");
        vp_reach("cleaned");
    }
}
