// C09: graph operations.  C06: copies of graph elements.
#include "world.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
#include <algorithm>

typedef std::shared_ptr<Program::Program> Prog;
struct MEdge {
    const TPG::TPGEdge* id;
    const TPG::TPGVertex *src, *dst;
    const Program::Program* prog;
};
// what the graph must contain
struct Model {
    std::vector<const TPG::TPGVertex*> v;
    std::vector<MEdge> e;
    void check(TPG::TPGGraph& g) const
    {
        auto vs = g.getVertices();
        vp_assert(vs.size() == v.size() && g.getNbVertices() == v.size(), "number of vertices");
        for (auto x : v) {
            vp_assert(std::count(vs.begin(), vs.end(), x) == 1, "each vertex is in the graph once");
            vp_assert(g.hasVertex(*x), "the graph has its vertices");
        }
        vp_assert(g.getEdges().size() == e.size(), "number of edges");
        for (auto& m : e) {
            size_t n = 0;
            for (auto& p : g.getEdges())
                if (p.get() == m.id) {
                    n++;
                    vp_assert(p->getSource() == m.src, "source of an edge");
                    vp_assert(p->getDestination() == m.dst, "destination of an edge");
                    vp_assert(&p->getProgram() == m.prog, "program of an edge");
                }
            vp_assert(n == 1, "each edge is in the graph once");
        }
        size_t roots = 0;
        auto rs = g.getRootVertices();
        for (auto x : v) {
            size_t out = 0, in = 0;
            for (auto& m : e) {
                auto& o = x->getOutgoingEdges();
                auto& i = x->getIncomingEdges();
                size_t no = std::count(o.begin(), o.end(), m.id), ni = std::count(i.begin(), i.end(), m.id);
                vp_assert(no == (m.src == x ? 1u : 0u), "an edge is listed once by its source as outgoing");
                vp_assert(ni == (m.dst == x ? 1u : 0u), "an edge is listed once by its destination as incoming");
                out += no;
                in += ni;
            }
            vp_assert(x->getOutgoingEdges().size() == out, "no outgoing edge that the graph does not own");
            vp_assert(x->getIncomingEdges().size() == in, "no incoming edge that the graph does not own");
            bool root = in == 0;
            roots += root;
            vp_assert(std::count(rs.begin(), rs.end(), x) == (root ? 1 : 0), "the roots are the vertices without incoming edge");
        }
        vp_assert(rs.size() == roots && g.getNbRootVertices() == roots, "number of roots");
    }
    void removeEdge(const TPG::TPGEdge* id)
    {
        e.erase(std::remove_if(e.begin(), e.end(), [&](const MEdge& m) { return m.id == id; }), e.end());
    }
    void removeVertex(const TPG::TPGVertex* x)
    {
        e.erase(std::remove_if(e.begin(), e.end(), [&](const MEdge& m) { return m.src == x || m.dst == x; }), e.end());
        v.erase(std::remove(v.begin(), v.end(), x), v.end());
    }
};
struct GW {
    Shape sh;
    std::unique_ptr<World> w;
    std::unique_ptr<TPG::TPGGraph> g, other;
    std::vector<Prog> progs;
    const TPG::TPGTeam* foreignTeam;
    const TPG::TPGEdge* foreignEdge;
    const TPG::TPGAction* foreignAction;
    Model m;
    size_t teams, actions;
    GW()
    {
        sh.ins = {I1, I2};
        w = std::make_unique<World>(sh);
        g = std::make_unique<TPG::TPGGraph>(*w->env);
        other = std::make_unique<TPG::TPGGraph>(*w->env);
        for (int i = 0; i < 2; i++) {
            progs.push_back(std::make_shared<Program::Program>(*w->env));
            progs.back()->addNewLine().setDestinationIndex(0);
        }
        teams = vp_param("teams", 2);
        actions = vp_param("actions", 1);
        for (size_t i = 0; i < teams; i++) m.v.push_back(&g->addNewTeam());
        for (size_t i = 0; i < actions; i++) m.v.push_back(&g->addNewAction(i));
        size_t n = vp_pick("edges", vp_param("minEdges", 0), vp_param("maxEdges", 2));
        for (size_t i = 0; i < n; i++) add(m.v[vp_pick("src", 0, teams - 1)], m.v[vp_pick("dst", 0, m.v.size() - 1)], vp_pick("prog", 0, 1));
        foreignTeam = &other->addNewTeam();
        foreignAction = &other->addNewAction(7);
        foreignEdge = &other->addNewEdge(*foreignTeam, *foreignAction, progs[0]);
    }
    void add(const TPG::TPGVertex* s, const TPG::TPGVertex* d, size_t p)
    {
        auto& e = g->addNewEdge(*s, *d, progs[p]);
        m.e.push_back({&e, s, d, progs[p].get()});
    }
    bool inGraph(const TPG::TPGVertex* v) const { return std::find(m.v.begin(), m.v.end(), v) != m.v.end(); }
    bool isAction(const TPG::TPGVertex* v) const { return dynamic_cast<const TPG::TPGAction*>(v) != nullptr; }
    const TPG::TPGVertex* anyVertex(const char* n)
    {
        size_t i = vp_pick(n, 0, m.v.size());
        return i < m.v.size() ? m.v[i] : (const TPG::TPGVertex*)foreignTeam;
    }
    const TPG::TPGEdge* anyEdge(const char* n)
    {
        size_t i = vp_pick(n, 0, m.e.size());
        return i < m.e.size() ? m.e[i].id : foreignEdge;
    }
    MEdge* find(const TPG::TPGEdge* e)
    {
        for (auto& x : m.e)
            if (x.id == e) return &x;
        return nullptr;
    }
    void step()
    {
        switch (vp_pick("op", 0, 8)) {
        case 0: {
            auto& t = g->addNewTeam();
            m.v.push_back(&t);
            vp_assert(!isAction(&t), "a team is added");
            break;
        }
        case 1: {
            auto& a = g->addNewAction(41);
            m.v.push_back(&a);
            vp_assert(isAction(&a) && a.getActionID() == 41, "an action is added with its number");
            break;
        }
        case 2: {
            auto s = anyVertex("from"), d = anyVertex("to");
            bool ok = inGraph(s) && inGraph(d) && !isAction(s), done = true;
            try {
                auto& e = g->addNewEdge(*s, *d, progs[0]);
                m.e.push_back({&e, s, d, progs[0].get()});
            }
            catch (const std::exception&) {
                done = false;
            }
            vp_assert(ok == done, "an edge is added between a team and a vertex of the graph, and rejected otherwise");
            vp_reach(done ? "edge added" : "edge rejected");
            break;
        }
        case 3: {
            auto v = anyVertex("vertex");
            bool in = inGraph(v);
            g->removeVertex(*v);
            if (in) m.removeVertex(v), vp_reach("vertex removed");
            break;
        }
        case 4: {
            auto v = anyVertex("vertex");
            bool in = inGraph(v), done = true;
            const TPG::TPGVertex* c = nullptr;
            try {
                c = &g->cloneVertex(*v);
            }
            catch (const std::exception&) {
                done = false;
            }
            vp_assert(in == done, "a vertex of the graph is cloned, another one is rejected");
            if (!done) break;
            vp_assert(!inGraph(c) && isAction(c) == isAction(v), "the clone is a new vertex of the same kind");
            if (isAction(v)) vp_assert(((const TPG::TPGAction*)c)->getActionID() == ((const TPG::TPGAction*)v)->getActionID(), "the clone has the action number");
            m.v.push_back(c);
            vp_assert(c->getIncomingEdges().empty(), "a clone has no incoming edge");
            vp_assert(c->getOutgoingEdges().size() == v->getOutgoingEdges().size(), "a clone has as many edges");
            auto i = v->getOutgoingEdges().begin();
            for (auto e : c->getOutgoingEdges()) {
                auto src = find(*i++);
                vp_assert(src != nullptr && find(e) == nullptr, "a clone has new edges");
                // same programs, and destinations, in the same order
                m.e.push_back({e, c, src->dst, src->prog});
            }
            if (!c->getOutgoingEdges().empty()) vp_reach("team cloned");
            break;
        }
        case 5: {
            auto e = anyEdge("edge");
            bool in = find(e) != nullptr, done = true;
            try {
                g->removeEdge(*e);
            }
            catch (const std::exception&) {
                done = false;
            }
            vp_assert(in == done, "an edge of the graph is removed, another one is rejected");
            if (done) m.removeEdge(e);
            break;
        }
        case 6: {
            auto e = anyEdge("edge");
            bool in = find(e) != nullptr, done = true;
            const TPG::TPGEdge* c = nullptr;
            try {
                c = &g->cloneEdge(*e);
            }
            catch (const std::exception&) {
                done = false;
            }
            vp_assert(in == done, "an edge of the graph is cloned, another one is rejected");
            if (done) {
                auto x = *find(e);
                vp_assert(find(c) == nullptr, "the clone is a new edge");
                m.e.push_back({c, x.src, x.dst, x.prog});
                if (vp_bool("modify the clone")) {
                    c->setProgram(progs[1]);
                    m.e.back().prog = progs[1].get();
                }
            }
            break;
        }
        case 7: {
            auto e = anyEdge("edge");
            auto d = anyVertex("to");
            bool ok = find(e) && inGraph(d);
            bool r = g->setEdgeDestination(*e, *d);
            vp_assert(ok == r, "a destination is changed within the graph only");
            if (r) find(e)->dst = d, vp_reach("destination changed");
            break;
        }
        case 8: {
            auto e = anyEdge("edge");
            auto s = anyVertex("from");
            bool ok = find(e) && inGraph(s) && !isAction(s);
            bool r;
            try {
                r = g->setEdgeSource(*e, *s);
            }
            catch (const std::exception&) {
                r = false;
            }
            vp_assert(ok == r, "a source is changed to a team of the graph only");
            if (r) find(e)->src = s, vp_reach("source changed");
            break;
        }
        }
        m.check(*g);
        // the other graph is never touched
        vp_assert(foreignTeam->getOutgoingEdges().size() == 1 && foreignAction->getIncomingEdges().size() == 1 && foreignTeam->getIncomingEdges().empty()
                      && foreignEdge->getSource() == foreignTeam && foreignEdge->getDestination() == foreignAction,
                  "elements of another graph are untouched");
    }
};
HARNESS(graphstep)
{
    GW w;
    w.m.check(*w.g);
    size_t n = vp_param("steps", 1);
    for (size_t i = 0; i < n; i++) w.step();
    if (vp_param("clear", 1)) {
        w.g->clear();
        vp_assert(w.g->getNbVertices() == 0 && w.g->getEdges().empty() && w.g->getNbRootVertices() == 0, "a cleared graph is empty");
    }
}
// C31: moving a graph moves its edges, vertices and way of making new ones
static bool instrumented(const TPG::TPGVertex& v) { return dynamic_cast<const TPG::TPGVertexInstrumentation*>(&v) != nullptr; }
static std::unique_ptr<TPG::TPGFactory> factory(bool instr)
{
    if (instr) return std::make_unique<TPG::TPGInstrumentedFactory>();
    return std::make_unique<TPG::TPGFactory>();
}
struct Filled {
    Model m;
    bool instr;
    std::vector<std::pair<size_t, size_t>> lines; // edges, as numbers of vertices
    void fill(TPG::TPGGraph& g, const std::vector<Prog>& progs, size_t maxEdges)
    {
        m.v.push_back(&g.addNewTeam());
        m.v.push_back(&g.addNewTeam());
        m.v.push_back(&g.addNewAction(3));
        size_t n = vp_pick("edges", 0, maxEdges);
        for (size_t i = 0; i < n; i++) {
            auto s = m.v[vp_pick("src", 0, 1)], d = m.v[vp_pick("dst", 0, 2)];
            auto& p = progs[vp_pick("prog", 0, 1)];
            auto& e = g.addNewEdge(*s, *d, p);
            m.e.push_back({&e, s, d, p.get()});
        }
    }
    // the graph grows as any other
    void grow(TPG::TPGGraph& g, const std::vector<Prog>& progs)
    {
        auto& t = g.addNewTeam();
        m.v.push_back(&t);
        auto& a = g.addNewAction(5);
        m.v.push_back(&a);
        auto& e = g.addNewEdge(t, a, progs[0]);
        m.e.push_back({&e, &t, &a, progs[0].get()});
        vp_assert(a.getActionID() == 5, "number of a new action");
        vp_assert(instrumented(t) == instr && instrumented(a) == instr && (dynamic_cast<const TPG::TPGEdgeInstrumented*>(&e) != nullptr) == instr, "new elements are of the kind of the graph that was moved");
        m.check(g);
        if (!m.v[0]->getOutgoingEdges().empty()) {
            auto old = m.v[0];
            auto& c = g.cloneVertex(*old);
            m.v.push_back(&c);
            auto i = old->getOutgoingEdges().begin();
            for (auto x : c.getOutgoingEdges()) {
                for (auto& o : std::vector<MEdge>(m.e))
                    if (o.id == *i) m.e.push_back({x, &c, o.dst, o.prog});
                i++;
            }
            m.check(g);
            vp_reach("cloned after the move");
        }
        auto v = m.v[vp_pick("removed", 0, 2)];
        g.removeVertex(*v);
        m.removeVertex(v);
        m.check(g);
    }
};
HARNESS(graphmove)
{
    Shape sh;
    sh.ins = {I1, I2};
    World w(sh);
    std::vector<Prog> progs;
    for (int i = 0; i < 2; i++) progs.push_back(std::make_shared<Program::Program>(*w.env));
    Filled a, b;
    a.instr = vp_bool("instrumented source");
    b.instr = vp_bool("instrumented destination");
    auto src = std::make_unique<TPG::TPGGraph>(*w.env, factory(a.instr));
    a.fill(*src, progs, vp_param("maxEdges", 2));
    std::unique_ptr<TPG::TPGGraph> dst;
    size_t kind = vp_pick("kind of move", 0, 2);
    if (kind == 0) {
        dst = std::make_unique<TPG::TPGGraph>(std::move(*src));
    }
    else {
        dst = std::make_unique<TPG::TPGGraph>(*w.env, factory(b.instr));
        b.fill(*dst, progs, 1);
        if (kind == 1) *dst = std::move(*src);
        else swap(*dst, *src);
    }
    a.m.check(*dst);
    vp_assert(&dst->getEnvironment() == &*w.env, "environment of the destination");
    if (kind == 2) {
        b.m.check(*src);
        b.grow(*src, progs);
        vp_reach("swapped");
    }
    else {
        vp_assert(src->getNbVertices() == 0 && src->getEdges().empty() && src->getNbRootVertices() == 0, "nothing is left in the source");
        vp_reach(kind == 0 ? "constructed" : "assigned");
    }
    if (vp_bool("source is used or destroyed first")) {
        if (kind != 2) {
            auto& t = src->addNewTeam();
            vp_assert(src->getNbVertices() == 1 && src->hasVertex(t) && !dst->hasVertex(t), "the source is still a graph, and another one");
        }
        src.reset();
    }
    a.grow(*dst, progs);
    dst->clear();
    vp_assert(dst->getNbVertices() == 0, "a cleared graph is empty");
}
