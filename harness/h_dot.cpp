// C22: a graph written to a DOT file and read back.
#include "hx.h"
#include "file/tpgGraphDotExporter.h"
#include "file/tpgGraphDotImporter.h"
#include "tpg/tpgGraph.h"
#include <algorithm>
#include <unistd.h>
namespace vpt {
    struct Num {
        bool sign;
        uint64_t v;
    };
    static std::vector<std::pair<std::string, Num>>* table = new std::vector<std::pair<std::string, Num>>;
    std::string token(bool sign, uint64_t v)
    {
        std::string s = std::to_string(70000 + table->size());
        if (sign && (int64_t)v < 0) s = "-" + s;
        table->push_back({s, Num{sign, v}});
        return s;
    }
    bool find(const std::string& s, Num& n)
    {
        for (auto& t : *table)
            if (t.first == s) return n = t.second, true;
        return false;
    }
    void write(FILE* f, const std::string& s) { fwrite(s.data(), 1, s.size(), f); }
} // namespace vpt
struct Dot {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i1{uf1};
    Instructions::LambdaInstruction<double, double> i2{uf2};
    Instructions::LambdaInstruction<double, double> i3{uf3};
    Data::PrimitiveTypeArray<double> d1{7}, d2{3};
    std::unique_ptr<Environment> env;
    size_t consts, regs = 3, maxLines;
    std::vector<std::shared_ptr<Program::Program>> progs;
    Dot()
    {
        maxLines = vp_param("lines", 1);
        consts = vp_param("consts", 2);
        set.add(i1), set.add(i2), set.add(i3);
        env = std::make_unique<Environment>(set, Sources{d1, d2}, regs, consts);
    }
    std::shared_ptr<Program::Program> program()
    {
        auto p = std::make_shared<Program::Program>(*env);
        for (size_t c = 0; c < consts; c++) p->getConstantHandler().setDataAt(typeid(Data::Constant), c, Data::Constant{vp_i32("constant", INT32_MIN, INT32_MAX)});
        // the first program has any number of lines and symbolic content, the others are different
        bool first = progs.empty();
        size_t n = first ? vp_pick("lines", 0, maxLines) : progs.size() % 2;
        for (size_t l = 0; l < n; l++) {
            auto& x = p->addNewLine();
            if (first) {
                x.setInstructionIndex(vp_u64("instruction", 0, 2));
                x.setDestinationIndex(vp_u64("destination", 0, regs - 1));
                for (size_t o = 0; o < 2; o++) x.setOperand(o, vp_u64("source", 0, env->getNbDataSources() - 1), vp_u64("location", 0, env->getLargestAddressSpace() - 1));
            }
            else
                x.setInstructionIndex(1), x.setOperand(0, progs.size() % 3, 1), x.setOperand(1, 0, progs.size());
        }
        p->identifyIntrons();
        progs.push_back(p);
        return p;
    }
};
typedef std::vector<const TPG::TPGTeam*> Teams;
static Teams teams(TPG::TPGGraph& g)
{
    Teams t;
    for (auto v : g.getVertices())
        if (auto x = dynamic_cast<const TPG::TPGTeam*>(v)) t.push_back(x);
    return t;
}
static std::vector<uint64_t> actions(TPG::TPGGraph& g)
{
    std::vector<uint64_t> a;
    for (auto v : g.getVertices())
        if (auto x = dynamic_cast<const TPG::TPGAction*>(v)) a.push_back(x->getActionID());
    return a;
}
static bool sameProgram(const Program::Program& p, const Program::Program& q, size_t consts)
{
    if (p.getNbLines() != q.getNbLines()) return false;
    bool ok = true;
    for (size_t l = 0; l < p.getNbLines(); l++) {
        auto &x = p.getLine(l), &y = q.getLine(l);
        ok &= (x.getInstructionIndex() == y.getInstructionIndex()) & (x.getDestinationIndex() == y.getDestinationIndex());
        for (size_t o = 0; o < 2; o++) ok &= (x.getOperand(o).first == y.getOperand(o).first) & (x.getOperand(o).second == y.getOperand(o).second);
        ok &= p.isIntron(l) == q.isIntron(l);
    }
    for (size_t c = 0; c < consts; c++) ok &= p.getConstantAt(c).value == q.getConstantAt(c).value;
    return ok;
}
// same graph when team i of the first is team perm[i] of the second
static bool sameGraph(const Teams& a, const Teams& b, const std::vector<size_t>& perm, size_t consts)
{
    bool ok = true;
    std::map<const Program::Program*, const Program::Program*> to, from;
    for (size_t t = 0; t < a.size(); t++) {
        auto &x = a[t]->getOutgoingEdges(), &y = b[perm[t]]->getOutgoingEdges();
        if (x.size() != y.size()) return false;
        auto j = y.begin();
        for (auto e : x) {
            auto f = *j++;
            auto d = e->getDestination(), c = f->getDestination();
            if (auto da = dynamic_cast<const TPG::TPGAction*>(d)) {
                auto ca = dynamic_cast<const TPG::TPGAction*>(c);
                if (!ca) return false;
                ok &= da->getActionID() == ca->getActionID();
            }
            else if (std::find(a.begin(), a.end(), d) - a.begin() >= (long)a.size() || c != b[perm[std::find(a.begin(), a.end(), d) - a.begin()]]) return false;
            auto p = &e->getProgram(), q = &f->getProgram();
            if (to.count(p) != from.count(q) || (to.count(p) && to[p] != q)) return false;
            if (!to.count(p)) ok &= sameProgram(*p, *q, consts);
            to[p] = q, from[q] = p;
        }
    }
    return ok;
}
// everything written, or what can be reached from a team
static void compare(TPG::TPGGraph& g, TPG::TPGGraph& h, size_t consts, const TPG::TPGTeam* root)
{
    Teams a = teams(g), b = teams(h);
    auto x = actions(g), y = actions(h);
    size_t edges = g.getEdges().size();
    if (root) {
        a = {root};
        x.clear();
        edges = 0;
        for (size_t i = 0; i < a.size(); i++)
            for (auto e : a[i]->getOutgoingEdges()) {
                edges++;
                if (auto t = dynamic_cast<const TPG::TPGTeam*>(e->getDestination())) {
                    if (std::find(a.begin(), a.end(), t) == a.end()) a.push_back(t);
                }
                else x.push_back(dynamic_cast<const TPG::TPGAction*>(e->getDestination())->getActionID());
            }
    }
    vp_assert(a.size() == b.size(), "as many teams are read as were written");
    vp_assert(edges == h.getEdges().size(), "as many edges are read as were written");
    std::vector<size_t> perm(a.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    bool any = false;
    do any |= sameGraph(a, b, perm, consts);
    while (std::next_permutation(perm.begin(), perm.end()));
    vp_assert(any, "the graph read is the graph written");
    // actions with the same identifier may become one
    for (auto i : x) {
        bool in = false;
        for (auto j : y) in |= i == j;
        vp_assert(in, "every action is read back");
    }
    for (auto j : y) {
        size_t n = 0, m = 0;
        for (auto i : x) n += i == j;
        for (auto i : y) m += i == j;
        vp_assert(n >= 1 && m >= 1 && m <= n, "no action is invented");
    }
}
static void build(Dot& w, TPG::TPGGraph& g)
{
    size_t nt = vp_pick("teams", 1, vp_param("teams", 2)), na = vp_pick("actions", 1, vp_param("actions", 2));
    std::vector<const TPG::TPGVertex*> v;
    bool first = vp_param("actionsFirst", 0) && vp_pick("actions first", 0, 1);
    auto acts = [&] { for (size_t i = 0; i < na; i++) v.push_back(&g.addNewAction(vp_u64("action", 0, UINT64_MAX))); };
    if (first) acts();
    for (size_t i = 0; i < nt; i++) v.push_back(&g.addNewTeam());
    if (!first) acts();
    size_t base = first ? na : 0;
    size_t n = vp_pick("edges", 1, vp_param("edges", 3));
    for (size_t e = 0; e < n; e++) {
        uint64_t s = vp_pick("source", 0, e || vp_param("sub", 0) ? nt - 1 : 0), d = vp_pick("destination", 0, nt + na - 1);
        uint64_t p = vp_pick("program", 0, w.progs.size());
        g.addNewEdge(*v[base + s], *v[d], p == w.progs.size() ? w.program() : w.progs[p]);
        if (p != w.progs.size()) vp_reach("shared program");
    }
}
static std::string name(const char* n) { return "dot." + std::to_string(getpid()) + n; }
HARNESS(dot)
{
    Dot w;
    TPG::TPGGraph g(*w.env), h(*w.env);
    build(w, g);
    std::string f = name("");
    const TPG::TPGTeam* root = nullptr;
    {
        File::TPGGraphDotExporter e(f.c_str(), g);
        if (vp_param("again", 0)) {
            // an exporter used before, on a graph that was different
            auto& t = g.addNewTeam();
            g.addNewEdge(t, *g.getVertices().front(), w.progs[0]);
            e.print();
            g.removeVertex(t);
            g.addNewEdge(g.addNewTeam(), *g.getVertices().front(), w.program());
            e.setNewFilePath(f.c_str());
        }
        if (vp_param("sub", 0)) root = teams(g).at(vp_pick("root", 0, teams(g).size() - 1)), e.printSubGraph(root);
        else e.print();
    }
    // the graph read replaces what was there
    if (vp_param("full", 0)) h.addNewEdge(h.addNewTeam(), h.addNewAction(5), w.progs[0]);
    // an importer may be used for several files, the last of which counts
    std::string before = name(".before");
    if (vp_param("reuse", 0)) {
        TPG::TPGGraph o(*w.env);
        auto& t = o.addNewTeam();
        for (uint64_t a = 0; a < 3; a++) o.addNewEdge(t, o.addNewAction(7 + a), a ? w.progs[0] : w.program());
        o.addNewEdge(o.addNewTeam(), t, w.progs[0]);
        File::TPGGraphDotExporter(before.c_str(), o).print();
    }
    try {
        if (vp_param("reuse", 0)) {
            File::TPGGraphDotImporter i(before.c_str(), *w.env, h);
            i.setNewFilePath(f.c_str());
            i.importGraph();
            unlink(before.c_str());
        }
        else File::TPGGraphDotImporter i(f.c_str(), *w.env, h);
    }
    catch (std::exception&) {
        vp_assert(false, "a file that was written can be read");
    }
    unlink(f.c_str());
    compare(g, h, w.consts, root);
    vp_reach("end");
}
