// C10: initialisation, population and mutation of a TPG.  C11: edge mutation.
#include "world.h"
#include "rngstub.h"
#include "mutator/mutationParameters.h"
#include "mutator/programMutator.h"
#include "mutator/tpgMutator.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
#include <algorithm>

// The content of programs is the subject of C08: here they are only counted.
static std::map<const Program::Program*, int> initialised, mutated;
namespace Mutator {
    void ProgramMutator::initRandomProgram(Program::Program& p, const MutationParameters&, RNG&) { initialised[&p]++; }
    bool ProgramMutator::mutateProgram(Program::Program& p, const MutationParameters&, RNG&)
    {
        mutated[&p]++;
        return true;
    }
} // namespace Mutator

static long dblDraws, dblMax;
static bool countDraws(double, double, double&)
{
    if (++dblDraws > dblMax) vp_cut("number of draws");
    return false;
}
typedef std::shared_ptr<Program::Program> Prog;
struct Snap {
    std::vector<const TPG::TPGVertex*> dst;
    std::vector<const Program::Program*> prog;
    bool operator==(const Snap& o) const { return dst == o.dst && prog == o.prog; }
};
static Snap snap(const TPG::TPGVertex* v)
{
    Snap s;
    for (auto e : v->getOutgoingEdges()) s.dst.push_back(e->getDestination()), s.prog.push_back(&e->getProgram());
    return s;
}
// structural consistency, and no cycle
static void checkGraph(TPG::TPGGraph& g)
{
    auto vs = g.getVertices();
    size_t out = 0, in = 0;
    for (auto v : vs) {
        out += v->getOutgoingEdges().size();
        in += v->getIncomingEdges().size();
        for (auto e : v->getOutgoingEdges()) vp_assert(e->getSource() == v && g.hasVertex(*e->getDestination()), "edges lead from their source to a vertex of the graph");
        for (auto e : v->getIncomingEdges()) vp_assert(e->getDestination() == v, "incoming edges lead to their vertex");
    }
    vp_assert(out == g.getEdges().size() && in == out, "edges are listed by their ends");
    // repeatedly remove vertices without successor
    std::set<const TPG::TPGVertex*> left(vs.begin(), vs.end());
    bool more = true;
    while (more) {
        more = false;
        for (auto v : vs) {
            if (!left.count(v)) continue;
            bool leaf = true;
            for (auto e : v->getOutgoingEdges()) leaf &= !left.count(e->getDestination());
            if (leaf) left.erase(v), more = true;
        }
    }
    vp_assert(left.empty(), "the graph has no cycle");
}
static const TPG::TPGAction* act(const TPG::TPGVertex* v) { return dynamic_cast<const TPG::TPGAction*>(v); }
static const TPG::TPGTeam* team(const TPG::TPGVertex* v) { return dynamic_cast<const TPG::TPGTeam*>(v); }

struct TW {
    std::unique_ptr<World> w;
    std::unique_ptr<TPG::TPGGraph> g;
    std::vector<const TPG::TPGTeam*> t;
    std::vector<const TPG::TPGAction*> a;
    std::vector<Prog> progs;
    Mutator::RNG rng;
    Mutator::MutationParameters mp;
    Archive arch;
    TW(size_t nt, size_t na)
    {
        initialised.clear();
        mutated.clear();
        dblDrawHook = countDraws;
        dblDraws = 0;
        dblMax = vp_param("draws", 12);
        Shape sh;
        sh.ins = {I1, I2};
        w = std::make_unique<World>(sh);
        g = std::make_unique<TPG::TPGGraph>(*w->env);
        for (size_t i = 0; i < na; i++) a.push_back(&g->addNewAction(i));
        for (size_t i = 0; i < nt; i++) t.push_back(&g->addNewTeam());
        mp.tpg.nbActions = na;
    }
    Prog prog()
    {
        progs.push_back(std::make_shared<Program::Program>(*w->env));
        progs.back()->addNewLine().setDestinationIndex(0);
        return progs.back();
    }
};

HARNESS(inittpg)
{
    bool small = vp_param("actions", 2) < 3;
    TW x(small ? vp_pick("teamsBefore", 0, 1) : 0, small ? vp_pick("actionsBefore", 0, 1) : 0);
    auto& mp = x.mp;
    mp.tpg.nbActions = vp_pick("nbActions", 1, vp_param("actions", 2));
    mp.tpg.maxInitOutgoingEdges = vp_pick("maxInitOutgoingEdges", 2, vp_param("actions", 2) + 1);
    bool bad = mp.tpg.nbActions < 2 || mp.tpg.maxInitOutgoingEdges > mp.tpg.nbActions, thrown = false;
    try {
        Mutator::TPGMutator::initRandomTPG(*x.g, mp, x.rng);
    }
    catch (const std::runtime_error&) {
        thrown = true;
    }
    vp_assert(thrown == bad, "impossible parameters are rejected and only them");
    if (bad) {
        vp_reach("rejected");
        return;
    }
    size_t n = mp.tpg.nbActions, nt = 0;
    std::set<uint64_t> ids;
    std::map<const Program::Program*, const TPG::TPGVertex*> leads;
    for (auto v : x.g->getVertices()) {
        if (act(v)) ids.insert(act(v)->getActionID());
        if (!team(v)) continue;
        nt++;
        auto s = snap(v);
        vp_assert(s.dst.size() >= 2 && s.dst.size() <= mp.tpg.maxInitOutgoingEdges, "a team has between two and the configured number of edges");
        if (s.dst.size() > 2) vp_reach("additional edge");
        vp_assert(std::set<const Program::Program*>(s.prog.begin(), s.prog.end()).size() == s.prog.size(), "a program is used once per team");
        vp_assert(std::set<const TPG::TPGVertex*>(s.dst.begin(), s.dst.end()).size() >= 2, "a team leads to at least two actions");
        for (size_t i = 0; i < s.dst.size(); i++) {
            vp_assert(act(s.dst[i]) != nullptr, "edges lead to actions");
            auto r = leads.insert({s.prog[i], s.dst[i]});
            vp_assert(r.first->second == s.dst[i], "a program always leads to the same action");
            vp_assert(initialised[s.prog[i]] == 1, "each program is initialised once");
        }
    }
    vp_assert(nt == n && x.g->getNbVertices() == 2 * n && ids.size() == n && *ids.rbegin() == n - 1, "there are as many teams as actions, and actions are numbered");
    vp_assert(leads.size() == 2 * n, "there are two programs per team");
    checkGraph(*x.g);
    vp_reach("end");
}

// A graph with a shared team: populate it with one more root.
static void populate(bool two)
{
    TW x(2, 2);
    auto& mp = x.mp;
    // root team, inner team
    size_t ne = vp_pick("rootEdges", 1, vp_param("rootEdges", 2));
    for (size_t i = 0; i < 2; i++) x.g->addNewEdge(*x.t[1], *x.a[i], x.prog());
    for (size_t i = 0; i < ne; i++) {
        size_t d = i == 0 ? vp_pick("dst", 0, 1) : 0;
        const TPG::TPGVertex* v = d ? (const TPG::TPGVertex*)x.t[1] : x.a[0];
        x.g->addNewEdge(*x.t[0], *v, i == 1 && vp_bool("shared program") ? x.progs[0] : x.prog());
    }
    // an action that nothing leads to is a root too
    if (vp_param("rootAction", 0)) x.g->addNewAction(7);
    mp.tpg.maxOutgoingEdges = vp_pick("maxOutgoingEdges", std::max<size_t>(ne, 2), 3);
    mp.tpg.pEdgeDeletion = mp.tpg.pEdgeAddition = mp.tpg.pProgramMutation = mp.tpg.pEdgeDestinationChange = 0.5;
    mp.tpg.pEdgeDestinationIsAction = vp_param("toActions", 0) ? 0.5 : 0.0;
    size_t before = x.g->getNbRootVertices();
    mp.tpg.nbRoots = two ? before + vp_pick("newRoots", 0, 2) : before + 1;
    std::map<const TPG::TPGVertex*, Snap> old;
    for (auto v : x.g->getVertices()) old[v] = snap(v);
    std::set<const Program::Program*> oldProgs;
    for (auto& p : x.progs) oldProgs.insert(p.get());
    Mutator::TPGMutator::populateTPG(*x.g, x.arch, mp, x.rng, 1);
    checkGraph(*x.g);
    vp_assert(x.g->getNbRootVertices() == mp.tpg.nbRoots, "the number of roots is reached");
    for (auto& o : old) {
        vp_assert(x.g->hasVertex(*o.first), "vertices are kept");
        vp_assert(snap(o.first) == o.second, "the edges of the teams that existed are unchanged");
    }
    for (auto& m : mutated) vp_assert(!oldProgs.count(m.first), "the programs that existed are not mutated");
    size_t fresh = 0;
    for (auto v : x.g->getVertices()) {
        if (act(v)) {
            vp_assert(old.count(v), "no action is added");
            continue;
        }
        size_t n = v->getOutgoingEdges().size();
        vp_assert(n >= 1 && n <= mp.tpg.maxOutgoingEdges, "a team has between one and the maximum number of edges");
        if (old.count(v)) continue;
        fresh++;
        bool any = false;
        for (auto e : v->getOutgoingEdges()) {
            auto p = &e->getProgram();
            bool nw = !oldProgs.count(p);
            any |= nw;
            if (nw) vp_assert(mutated[p] == 1, "each new program is mutated once");
            vp_assert(old.count(e->getDestination()), "the edges of a new team lead to vertices that existed before");
            if (nw && e->getDestination() == x.t[1]) vp_reach("new edge to a team");
        }
        vp_assert(any, "a new team has a mutated program");
        if (n > ne) vp_reach("more edges");
    }
    if (mp.tpg.nbRoots > before) vp_assert(fresh >= 1, "a new root is added"), vp_reach("added");
    else vp_assert(fresh == 0, "nothing is added when there are enough roots");
}
HARNESS(populate) { populate(false); }
HARNESS(populatetwo) { populate(true); }

// No root team: the graph is initialised anew.
HARNESS(populateempty)
{
    TW x(0, vp_pick("actionsBefore", 0, 1));
    auto& mp = x.mp;
    mp.tpg.nbActions = 2;
    mp.tpg.maxInitOutgoingEdges = 2;
    mp.tpg.nbRoots = 2;
    Mutator::TPGMutator::populateTPG(*x.g, x.arch, mp, x.rng, 1);
    checkGraph(*x.g);
    vp_assert(x.g->getNbRootVertices() == 2 && x.g->getNbVertices() == 4, "an empty graph is initialised");
    vp_reach("end");
}

// Mutation of a new team: edges are removed, added and mutated.
HARNESS(mutateteam)
{
    TW x(3, 2);
    auto& mp = x.mp;
    size_t ne = vp_pick("edges", 1, vp_param("edges", 3));
    for (size_t i = 0; i < 2; i++) x.g->addNewEdge(*x.t[1], *x.a[i], x.prog());
    std::list<const TPG::TPGEdge*> pre;
    for (auto& e : x.g->getEdges()) pre.push_back(e.get());
    Snap pool = snap(x.t[1]);
    std::vector<const TPG::TPGEdge*> own;
    for (size_t i = 0; i < ne; i++) own.push_back(&x.g->addNewEdge(*x.t[2], *x.a[i % 2], x.prog()));
    mp.tpg.maxOutgoingEdges = vp_pick("maxOutgoingEdges", std::max<size_t>(ne, 2), 3);
    mp.tpg.pEdgeDeletion = mp.tpg.pEdgeAddition = mp.tpg.pProgramMutation = mp.tpg.pEdgeDestinationChange = 0.5;
    mp.tpg.pEdgeDestinationIsAction = 0.0;
    Snap t0 = snap(x.t[0]), t1 = snap(x.t[1]);
    std::list<Prog> np;
    std::set<const Program::Program*> oldProgs;
    for (auto& p : x.progs) oldProgs.insert(p.get());
    std::vector<const TPG::TPGTeam*> preT = {x.t[0], x.t[1]};
    Mutator::TPGMutator::mutateTPGTeam(*x.g, x.arch, *x.t[2], preT, x.a, pre, np, mp, x.rng);
    checkGraph(*x.g);
    vp_assert(snap(x.t[0]) == t0 && snap(x.t[1]) == t1, "other teams are unchanged");
    auto s = snap(x.t[2]);
    vp_assert(s.dst.size() >= std::min<size_t>(ne, 2) && s.dst.size() <= mp.tpg.maxOutgoingEdges, "the number of edges stays within bounds");
    std::set<const Program::Program*> fresh;
    for (auto& p : np) fresh.insert(p.get());
    vp_assert(!np.empty() && fresh.size() == np.size(), "a program is to be mutated");
    size_t used = 0;
    for (size_t i = 0; i < s.dst.size(); i++) {
        if (fresh.count(s.prog[i])) {
            used++;
            continue;
        }
        // an untouched edge of the team, or the duplicate of an existing edge
        bool ok = false;
        for (size_t k = 0; k < ne; k++) ok |= s.prog[i] == x.progs[2 + k].get() && s.dst[i] == x.a[k % 2];
        for (size_t k = 0; k < pool.dst.size(); k++) ok |= s.prog[i] == pool.prog[k] && s.dst[i] == pool.dst[k];
        vp_assert(ok, "an edge that is not mutated is an edge of the team or duplicates an existing one");
    }
    for (auto& p : np) vp_assert(!oldProgs.count(p.get()), "the programs to mutate are copies");
    vp_assert(used >= 1 && used <= np.size(), "the programs to mutate belong to the team");
    vp_reach(s.dst.size() > ne ? "grown" : s.dst.size() < ne ? "shrunk" : "same");
}

// The destination of one edge is mutated.
HARNESS(mutatedest)
{
    size_t na = vp_pick("actions", 1, vp_param("actions", 3)), nt = vp_pick("teams", 1, vp_param("teams", 3));
    TW x(nt + 1, na);
    x.mp.tpg.pEdgeDestinationIsAction = vp_double("p");
    vp_assume(x.mp.tpg.pEdgeDestinationIsAction >= 0.0 && x.mp.tpg.pEdgeDestinationIsAction <= 1.0);
    auto& e = x.g->addNewEdge(*x.t[nt], *x.a[0], x.prog());
    auto prog = &e.getProgram();
    static double lastDraw;
    dblDrawHook = [](double lo, double hi, double& v) {
        v = vp_double("is action");
        vp_assume(v >= lo && v <= hi);
        lastDraw = v;
        return true;
    };
    std::vector<const TPG::TPGTeam*> pre(x.t.begin(), x.t.begin() + nt);
    bool ok = true;
    try {
        Mutator::TPGMutator::mutateEdgeDestination(*x.g, &e, pre, x.a, x.mp, x.rng);
    }
    catch (const std::exception&) {
        ok = false;
    }
    bool toAction = lastDraw < x.mp.tpg.pEdgeDestinationIsAction;
    vp_known("C11-action-target", toAction && (!ok || team(e.getDestination()) != nullptr));
    vp_assert(ok, "no draw raises an error");
    auto d = e.getDestination();
    vp_assert(e.getSource() == x.t[nt] && &e.getProgram() == prog, "the source and the program are kept");
    checkGraph(*x.g);
    if (toAction) vp_assert(std::count(x.a.begin(), x.a.end(), d) == 1, "the new destination is an existing action");
    else {
        vp_assert(std::count(pre.begin(), pre.end(), d) == 1, "the new destination is an existing team");
        for (size_t i = 0; i < nt; i++)
            if (pre[i] == d) vp_reach(i == 0 ? "first team" : i == 1 ? "second team" : "third team");
    }
}
HARNESS(mutateoutgoing)
{
    TW x(2, 2);
    auto& e = x.g->addNewEdge(*x.t[1], *x.a[0], x.prog());
    auto& e2 = x.g->addNewEdge(*x.t[0], *x.a[1], x.progs[0]);
    x.mp.tpg.pEdgeDestinationChange = vp_bool("change") ? 1.0 : 0.5;
    x.mp.tpg.pEdgeDestinationIsAction = 0;
    std::vector<const TPG::TPGTeam*> pre = {x.t[0]};
    std::list<Prog> np = {x.prog()};
    Mutator::TPGMutator::mutateOutgoingEdge(*x.g, &e, pre, x.a, np, x.mp, x.rng);
    vp_assert(np.size() == 2 && np.front() == x.progs[1], "one program is to be mutated");
    vp_assert(&e.getProgram() == np.back().get() && np.back() != x.progs[0], "the edge has a new program");
    vp_assert(np.back()->getNbLines() == 1 && np.back()->getLine(0) == x.progs[0]->getLine(0), "which is a copy");
    vp_assert(&e2.getProgram() == x.progs[0].get() && e2.getDestination() == x.a[1], "other edges keep their program");
    vp_assert(e.getDestination() == x.a[0] || e.getDestination() == x.t[0], "the destination is kept or is an existing one");
    vp_reach(e.getDestination() == x.a[0] ? "kept" : "changed");
    checkGraph(*x.g);
}
HARNESS(addremove)
{
    size_t no = vp_pick("own", 1, 2), np = vp_pick("others", 1, 3);
    TW x(3, 2);
    for (size_t i = 0; i < no; i++) x.g->addNewEdge(*x.t[0], *x.a[i], x.prog());
    struct E { const TPG::TPGVertex* d; const Program::Program* p; bool ok; };
    std::vector<E> ex;
    for (size_t i = 0; i < np; i++) {
        // the destination may be the team itself: such an edge must not be duplicated
        size_t k = i == 0 ? 0 : vp_pick("dst", 0, 2);
        const TPG::TPGVertex* d = k == 2 ? (const TPG::TPGVertex*)x.t[0] : x.a[k];
        auto& e = x.g->addNewEdge(*x.t[1], *d, x.prog());
        ex.push_back({d, &e.getProgram(), k != 2});
    }
    std::list<const TPG::TPGEdge*> pre;
    for (auto& e : x.g->getEdges()) pre.push_back(e.get());
    Snap s0 = snap(x.t[0]), s1 = snap(x.t[1]);
    if (vp_bool("add")) {
        Mutator::TPGMutator::addRandomEdge(*x.g, *x.t[0], pre, x.rng);
        Snap s = snap(x.t[0]);
        vp_assert(s.dst.size() == no + 1, "one edge is added");
        for (size_t i = 0; i < no; i++) vp_assert(s.dst[i] == s0.dst[i] && s.prog[i] == s0.prog[i], "the other edges are kept");
        bool found = false;
        for (size_t i = 0; i < np; i++)
            if (ex[i].ok && ex[i].d == s.dst[no] && ex[i].p == s.prog[no]) {
                found = true;
                vp_reach(i == 0 ? "first" : i == 1 ? "second" : "third");
            }
        vp_assert(found, "the new edge duplicates an existing edge of another team");
        checkGraph(*x.g);
    }
    else {
        Mutator::TPGMutator::removeRandomEdge(*x.g, *x.t[0], x.rng);
        Snap s = snap(x.t[0]);
        vp_assert(s.dst.size() == no - 1, "one edge is removed");
        bool found = false;
        for (size_t k = 0; k < no; k++) {
            Snap c = s0;
            c.dst.erase(c.dst.begin() + k);
            c.prog.erase(c.prog.begin() + k);
            if (c == s) found = true, vp_reach(k == 0 ? "first removed" : "second removed");
        }
        vp_assert(found, "the removed edge is one of the team's own");
        if (no == 1) vp_assert(x.g->getEdges().size() == np, "the graph has one edge less");
    }
    vp_assert(snap(x.t[1]) == s1, "other teams are unchanged");
}
