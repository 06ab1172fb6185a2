// C28: environments.  C25: policy statistics.  C30: cycle detection.
#include "rngstub.h"
#include "world.h"
#include "learn/learningAgent.h"
#include "log/cycleDetectionLALogger.h"
#include "tpg/policyStats.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
#include <algorithm>

// ---- C28
static const std::type_info* const TYPES[] = {&typeid(double), &typeid(int), &typeid(Data::Constant), &typeid(double[2]), &typeid(double[3]), &typeid(Data::Constant[2]), &typeid(char)};
static const size_t NT = 7;
static size_t typeIdx(const std::type_info& t)
{
    for (size_t i = 0; i < NT; i++)
        if (*TYPES[i] == t) return i;
    return NT;
}
// A data source able to provide an arbitrary set of types.
struct AnyHandler : Data::DataHandler {
    bool can[NT];
    size_t largest;
    AnyHandler(const char* n, size_t l) : largest(l)
    {
        for (auto& b : can) b = vp_bool(n);
    }
    size_t updateHash() const override { return 0; }
    DataHandler* clone() const override { return new AnyHandler(*this); }
    bool canHandle(const std::type_info& t) const override
    {
        size_t i = typeIdx(t);
        return i < NT && can[i];
    }
    size_t getAddressSpace(const std::type_info& t) const override { return canHandle(t) ? largest : 0; }
    size_t getLargestAddressSpace() const override { return largest; }
    void resetData() override {}
    Data::UntypedSharedPtr getDataAt(const std::type_info&, const size_t) const override { throw std::runtime_error("no data"); }
    std::vector<size_t> getAddressesAccessed(const std::type_info&, const size_t) const override { return {}; }
    const std::type_info& getNativeType() const override { return typeid(double); }
    std::vector<size_t> getDimensionsSize() const override { return {largest}; }
};
struct AnyInstruction : Instructions::Instruction {
    explicit AnyInstruction(const std::vector<size_t>& t) : Instruction("")
    {
        for (auto i : t) operandTypes.push_back(*TYPES[i]);
    }
    bool checkOperandTypes(const std::vector<Data::UntypedSharedPtr>&) const override { return true; }
    double execute(const std::vector<Data::UntypedSharedPtr>&) const override { return 0; }
};
struct PeekEngine : Program::ProgramExecutionEngine {
    explicit PeekEngine(const Program::Program& p) : ProgramExecutionEngine(p) {}
    const Sources& all() const { return dataScsConstsAndRegs; }
};
HARNESS(environ)
{
    size_t regs = vp_pick("registers", 0, 3), consts = vp_pick("constants", 0, 2);
    // two explorations: operand types, or address spaces
    bool anyTypes = vp_param("types", 1);
    size_t nh = vp_pick("sources", 0, vp_param("sources", 1)), n = vp_param("instructions", 3);
    static const size_t sizes[] = {1, 4, 1ull << 33, 0};
    std::vector<std::unique_ptr<AnyHandler>> h;
    Sources src;
    size_t largest = std::max(regs, consts);
    for (size_t i = 0; i < nh; i++) {
        size_t s = sizes[anyTypes ? 1 : vp_pick("size", 0, 3)];
        h.push_back(std::make_unique<AnyHandler>("provides", s));
        src.push_back(*h.back());
        largest = std::max(largest, s);
    }
    std::vector<std::unique_ptr<AnyInstruction>> in;
    std::vector<std::vector<size_t>> types;
    Instructions::Set set;
    for (size_t i = 0; i < n; i++) {
        std::vector<size_t> t;
        if (i == 0)
            for (size_t k = vp_pick("operands", 0, vp_param("operands", 2)); k > 0; k--) t.push_back(anyTypes ? vp_pick("type", 0, NT - 1) : 0);
        else if (i == 1) t.push_back(vp_param("second", 0) ? vp_pick("type", 0, NT - 1) : 5);
        else t.push_back(0);
        types.push_back(t);
        in.push_back(std::make_unique<AnyInstruction>(t));
        set.add(*in.back());
    }
    // what a source offers
    auto provided = [&](size_t t) {
        if (t == 0 && regs >= 1) return true; // no register, no double
        if (t == 3 && regs >= 2) return true;
        if (t == 4 && regs >= 3) return true;
        if (t == 2 && consts >= 1) return true;
        if (t == 5 && consts >= 2) return true;
        for (auto& x : h)
            if (x->can[t]) return true;
        return false;
    };
    std::unique_ptr<Environment> env;
    bool rejected = false;
    try {
        env = std::make_unique<Environment>(set, src, regs, consts);
    }
    catch (std::domain_error&) {
        rejected = true;
    }
    std::vector<const Instructions::Instruction*> kept;
    size_t maxOps = 0;
    for (size_t i = 0; i < n; i++) {
        bool all = true;
        for (auto t : types[i])
            if (!provided(t)) all = false;
        if (!all) continue;
        kept.push_back(in[i].get());
        maxOps = std::max(maxOps, types[i].size());
    }
    size_t nbSrc = 1 + (consts > 0) + nh;
    bool usable = regs > 0 && kept.size() >= 2 && maxOps > 0 && nbSrc > 1 && largest > 0;
    if (regs > 0 || !rejected) vp_assert(rejected == !usable, "only an environment no program can be built for is rejected");
    if (rejected) {
        vp_reach("rejected");
        return;
    }
    vp_assert(env->getNbRegisters() == regs && env->getNbConstant() == consts, "registers and constants");
    vp_assert(env->getNbInstructions() == kept.size() && env->getInstructionSet().getNbInstructions() == kept.size(), "exactly the instructions whose operands can all be provided are kept");
    for (size_t i = 0; i < kept.size(); i++) vp_assert(&env->getInstructionSet().getInstruction(i) == kept[i], "kept instructions stay in order");
    vp_assert(env->getMaxNbOperands() == maxOps, "maximum number of operands");
    vp_assert(env->getNbDataSources() == nbSrc, "number of data sources");
    vp_assert(env->getLargestAddressSpace() == largest, "largest address space");
    vp_assert(env->getDataSources().size() == nh, "the given data sources");
    for (size_t i = 0; i < nh; i++) vp_assert(&env->getDataSources()[i].get() == h[i].get(), "the given data sources, in order");
    // stand-ins are what programs read from
    Program::Program p(*env);
    PeekEngine e(p);
    auto& fake = env->getFakeDataSources();
    vp_assert(fake.size() == nbSrc && e.all().size() == nbSrc, "as many stand-ins as data sources");
    for (size_t i = 0; i < nbSrc; i++) {
        const Data::DataHandler &f = fake[i].get(), &r = e.all()[i].get();
        if (i >= nbSrc - nh) vp_assert(f.getId() == r.getId() && f.getId() == h[i - (nbSrc - nh)]->getId(), "identifiers of the stand-ins");
        vp_assert(f.getLargestAddressSpace() == r.getLargestAddressSpace(), "largest address space of the stand-ins");
        for (size_t t = 0; t < 6; t++) {
            if (i >= nbSrc - nh) continue; // the same object
            vp_assert(f.canHandle(*TYPES[t]) == r.canHandle(*TYPES[t]), "types of the stand-ins");
            vp_assert(f.getAddressSpace(*TYPES[t]) == r.getAddressSpace(*TYPES[t]), "address spaces of the stand-ins");
        }
    }
    if (kept.size() < n) vp_reach("instruction left out");
    else vp_reach("all kept");
}

// ---- graphs of up to 3 teams
typedef std::shared_ptr<Program::Program> Prog;
struct MiniGraph {
    TPG::TPGGraph& g;
    std::vector<const TPG::TPGVertex*> v;
    struct E { size_t s, d, p; };
    std::vector<E> e;
    size_t teams;
    MiniGraph(TPG::TPGGraph& gr, size_t t, size_t actions) : g(gr), teams(t)
    {
        for (size_t i = 0; i < t; i++) v.push_back(&g.addNewTeam());
        for (size_t i = 0; i < actions; i++) v.push_back(&g.addNewAction(i * 2));
    }
    void edge(size_t s, size_t d, const std::vector<Prog>& progs, size_t p)
    {
        g.addNewEdge(*v[s], *v[d], progs[p]);
        e.push_back({s, d, p});
    }
};

// ---- C25
HARNESS(policystats)
{
    Shape sh;
    sh.ins = {I1, I2, IW, IC};
    sh.consts = 1;
    sh.d2 = true;
    World w(sh);
    TPG::TPGGraph g(*w.env);
    size_t teams = vp_param("teams", 2), actions = 2, ne = vp_param("edges", 3);
    MiniGraph m(g, teams, actions);
    std::vector<Prog> progs;
    for (int i = 0; i < 2; i++) progs.push_back(std::make_shared<Program::Program>(*w.env));
    bool fixed = vp_param("lines", 0) != 0; // any lines in a fixed graph, or any graph of fixed programs
    size_t lines = fixed ? vp_pick("lines", 1, vp_param("lines", 0)) : 0;
    for (size_t i = 0; i < lines; i++) w.symLine(progs[0]->addNewLine(), lines > 1, true);
    auto& l = progs[1]->addNewLine();
    l.setInstructionIndex(1);
    l.setOperand(0, 2, 1);
    l.setOperand(1, 0, 1);
    auto& l2 = progs[1]->addNewLine();
    l2.setDestinationIndex(1);
    if (vp_pick("introns", 0, 1))
        for (auto& p : progs) p->identifyIntrons();
    // any edges
    for (size_t i = 0; i < ne; i++) {
        size_t s = i == 0 ? 0 : vp_pick("from", 0, teams - 1), d = fixed ? teams : vp_pick("to", 0, m.v.size() - 1);
        m.edge(s, d, progs, i < 2 && !fixed ? vp_pick("program", 0, 1) : 0);
    }
    size_t root = vp_param("anyRoot", 0) ? vp_pick("root", 0, m.v.size() - 1) : 0;
    TPG::PolicyStats st;
    if (!fixed && vp_pick("used before", 0, 1)) {
        st.setEnvironment(*w.env);
        st.analyzePolicy(m.v[0]);
        st.clear();
    }
    st.setEnvironment(*w.env);
    st.analyzePolicy(m.v[root]);
    // direct computation: distance of each vertex from the root
    const size_t far = 100;
    std::vector<size_t> dist(m.v.size(), far);
    dist[root] = 0;
    for (size_t k = 0; k < m.v.size(); k++)
        for (auto& e : m.e)
            if (dist[e.s] < far) dist[e.d] = std::min(dist[e.d], dist[e.s] + 1);
    std::map<const TPG::TPGTeam*, size_t> useT;
    std::map<const TPG::TPGAction*, size_t> useA;
    std::map<size_t, size_t> useId, useI;
    std::map<const Program::Program*, size_t> useP;
    std::map<std::pair<size_t, size_t>, size_t> useD;
    std::vector<size_t> edgesT, linesP, intronsP;
    size_t depth = 0, distinct = 0;
    auto met = [&](size_t i) {
        if (i < teams) useT[(const TPG::TPGTeam*)m.v[i]]++;
        else useA[(const TPG::TPGAction*)m.v[i]]++, useId[((const TPG::TPGAction*)m.v[i])->getActionID()]++;
    };
    met(root);
    for (auto& e : m.e)
        if (dist[e.s] < far) {
            met(e.d);
            useP[progs[e.p].get()]++;
            depth = std::max(depth, dist[e.s] + 1);
        }
    for (size_t i = 0; i < teams; i++)
        if (dist[i] < far) {
            distinct++;
            edgesT.push_back(std::count_if(m.e.begin(), m.e.end(), [&](const MiniGraph::E& e) { return e.s == i; }));
        }
    for (auto& up : useP) {
        auto& p = *up.first;
        size_t useful = 0;
        for (size_t i = 0; i < p.getNbLines(); i++) {
            if (p.isIntron(i)) continue;
            useful++;
            auto& ln = p.getLine(i);
            Ins ins = sh.ins[ln.getInstructionIndex()];
            useI[ln.getInstructionIndex()]++;
            const char* o = World::ops(ins);
            for (size_t k = 0; o[k]; k++) {
                size_t s = ln.getOperand(k).first;
                char kind = w.src[s];
                uint64_t a = ln.getOperand(k).second % w.space(kind, o[k]);
                if (o[k] == 'w') {
                    uint64_t c = kind == '2' ? (a / 2) * 3 + a % 2 : a;
                    useD[{s, c}]++;
                    useD[{s, c + 1}]++;
                }
                else useD[{s, a}]++;
            }
        }
        linesP.push_back(p.getNbLines());
        intronsP.push_back(p.getNbLines() - useful);
    }
    vp_assert(st.nbUsePerTPGTeam == useT, "uses of each team of the policy");
    vp_assert(st.nbUsePerTPGAction == useA, "uses of each action of the policy");
    vp_assert(st.nbUsagePerActionID == useId, "uses of each action identifier");
    vp_assert(st.nbUsePerProgram == useP, "uses of each program of the policy");
    vp_assert(st.nbDistinctTeams == distinct, "number of teams");
    vp_assert(st.maxPolicyDepth == depth, "depth of the policy");
    auto sorted = [](std::vector<size_t> x) {
        std::sort(x.begin(), x.end());
        return x;
    };
    vp_assert(sorted(st.nbOutgoingEdgesPerTeam) == sorted(edgesT), "number of edges of each team");
    vp_assert(sorted(st.nbLinesPerProgram) == sorted(linesP), "number of lines of each program");
    vp_assert(sorted(st.nbIntronPerProgram) == sorted(intronsP), "number of introns of each program");
    vp_assert(st.nbUsagePerInstruction == useI, "uses of each instruction");
    vp_assert(st.nbUsagePerDataLocation == useD, "uses of each data location");
    if (depth > 1) vp_reach("deep");
    if (distinct > 1) vp_reach("several teams");
    st.clear();
    vp_assert(st.nbUsePerTPGTeam.empty() && st.nbUsePerTPGAction.empty() && st.nbUsagePerActionID.empty() && st.nbUsePerProgram.empty() && st.nbDistinctTeams == 0 && st.maxPolicyDepth == 0 && st.nbOutgoingEdgesPerTeam.empty() && st.nbLinesPerProgram.empty() && st.nbIntronPerProgram.empty() && st.nbUsagePerInstruction.empty() && st.nbUsagePerDataLocation.empty() && st.nbTPGVertexPerDepthLevel.empty(), "clear forgets everything");
}

// ---- C30
struct NoEnv : Learn::LearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    NoEnv() : LearningEnvironment(2) {}
    void reset(size_t, Learn::LearningMode, uint16_t, uint64_t) override {}
    void doAction(uint64_t) override {}
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    double getScore() const override { return 0; }
    bool isTerminal() const override { return true; }
};
HARNESS(cycles)
{
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    Instructions::LambdaInstruction<double, double> i1{uf2};
    set.add(i0);
    set.add(i1);
    NoEnv le;
    Learn::LearningParameters p;
    p.nbRegisters = 1;
    Learn::LearningAgent la(le, set, p);
    size_t teams = vp_param("teams", 3), actions = vp_param("actions", 1), n = vp_pick("edges", vp_param("minEdges", 0), vp_param("edges", 3));
    MiniGraph m(*la.getTPGGraph(), teams, actions);
    std::vector<Prog> progs{std::make_shared<Program::Program>(la.getEnvironment())};
    for (size_t i = 0; i < n; i++) {
        size_t s = vp_pick("from", 0, teams - 1);
        m.edge(s, vp_pick("to", 0, m.v.size() - 1), progs, 0);
    }
    bool success = vp_param("quiet", 0) ? false : vp_pick("log success", 0, 1);
    std::ostringstream out;
    Log::CycleDetectionLALogger log(la, out, success);
    bool again = vp_param("again", 0);
    if (again) {
        log.logAfterPopulateTPG();
        out.str("");
    }
    log.logAfterPopulateTPG();
    // reachability
    std::vector<std::vector<bool>> r(m.v.size(), std::vector<bool>(m.v.size(), false));
    for (auto& e : m.e) r[e.s][e.d] = true;
    for (size_t k = 0; k < m.v.size(); k++)
        for (size_t i = 0; i < m.v.size(); i++)
            for (size_t j = 0; j < m.v.size(); j++)
                if (r[i][k] && r[k][j]) r[i][j] = true;
    bool cycle = false;
    for (size_t i = 0; i < m.v.size(); i++) cycle = cycle || r[i][i];
    std::string s = out.str();
    bool yes = s.find("A cycle was detected") != std::string::npos, no = s.find("No cycle detected") != std::string::npos;
    vp_assert(yes == cycle, "a cycle is reported exactly when there is one");
    vp_assert(no == (success && !cycle), "the absence of cycles is reported exactly when there is none");
    if (cycle) vp_reach("cycle");
    else vp_reach("no cycle");
}
