// C17, C18: parallel training, under a scheduler of threads (engine/sched.cpp).
#include <atomic>
#include <memory>
#include <random>
#include <string>
#define protected public
#include "mutator/rng.h"
#undef protected
#include "hx.h"
#include "learn/adversarialLearningAgent.h"
#include "learn/classificationLearningAgent.h"
#include "learn/classificationLearningEnvironment.h"
#include "learn/parallelLearningAgent.h"
#include "mutator/tpgMutator.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
#include <algorithm>
using namespace Learn;
typedef const TPG::TPGVertex* V;
typedef std::shared_ptr<EvaluationResult> Res;
typedef std::multimap<Res, V> Results;

static uint64_t mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
    a *= 0xbf58476d1ce4e5b9ULL;
    return a ^ (a >> 29);
}
// Draws are a function of the seed of the generator and of the number of earlier draws. The state
// is kept in the engine object: no sharing between generators.
static double sum(double a, double b) { return a + b; }
static double addConstant(double a, Data::Constant c) { return a + c.value; }
static double sumOf(const double a[2]) { return a[0] + a[1]; }
static bool anyProbability = false;
struct Draws {
    uint64_t seed, count;
};
static Draws& drawsOf(Mutator::RNG& r) { return *(Draws*)&*r.engine; }
namespace Mutator {
    void RNG::setSeed(uint64_t s) { engine->seed(s); } // as the constructor does
    uint64_t RNG::getUnsignedInt64(uint64_t min, uint64_t max)
    {
        auto& d = drawsOf(*this);
        uint64_t v = mix(mix(d.seed, d.count++), 17);
        return max - min == UINT64_MAX ? v : min + v % (max - min + 1);
    }
    int32_t RNG::getInt32(int32_t min, int32_t max)
    {
        auto& d = drawsOf(*this);
        return min + (int32_t)(mix(mix(d.seed, d.count++), 19) % ((uint64_t)((int64_t)max - min) + 1));
    }
    double RNG::getDouble(double min, double max)
    {
        auto& d = drawsOf(*this);
        uint64_t k = mix(mix(d.seed, d.count++), 23);
        if (anyProbability) return min + (max - min) * (double)vp_conc(vp_memo("drawd", k, 0, 1));
        return min + (max - min) * (double)(k % 1024) / 1024.0;
    }
} // namespace Mutator

// An environment whose data and scores are a function of the seed and of the actions.
static int symData = 0;
static bool copyable = true; // else training is sequential
static std::atomic<long> resets{0}, actions{0}; // by any copy of an environment
static void counted(std::atomic<long>& c) { c.fetch_add(1, std::memory_order_relaxed); }
struct PEnv : LearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    uint64_t state = 0, steps = 0, limit = 1;
    explicit PEnv(uint64_t n) : LearningEnvironment(n) {}
    LearningEnvironment* clone() const override { return new PEnv(*this); }
    bool isCopyable() const override { return copyable; }
    void observe()
    {
        int w = symData ? vp_conc(vp_memo("winner", mix(state, 1), 0, 1)) : mix(state, 1) & 1;
        data.setDataAt(typeid(double), 0, w ? 0.0 : 1.0);
        data.setDataAt(typeid(double), 1, w ? 1.0 : 0.0);
    }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        counted(resets);
        state = mix(mix(mix(seed, (int)mode), it), gen);
        steps = 0;
        observe();
    }
    void doAction(uint64_t a) override
    {
        counted(actions);
        state = mix(state, a);
        steps++;
        observe();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    double getScore() const override { return (double)((int)vp_memo("score", mix(state, 2), 0, 15) - 8); }
    bool isTerminal() const override { return steps >= limit; }
};
struct PClassEnv : ClassificationLearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    uint64_t state = 0, steps = 0, limit = 1;
    explicit PClassEnv(uint64_t n) : ClassificationLearningEnvironment(n) {}
    LearningEnvironment* clone() const override { return new PClassEnv(*this); }
    bool isCopyable() const override { return copyable; }
    void observe()
    {
        int w = symData ? vp_conc(vp_memo("winner", mix(state, 1), 0, 1)) : mix(state, 1) & 1;
        currentClass = vp_conc(vp_memo("class", mix(state, 3), 0, 1));
        data.setDataAt(typeid(double), 0, w ? 0.0 : 1.0);
        data.setDataAt(typeid(double), 1, w ? 1.0 : 0.0);
    }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        for (auto& v : classificationTable) std::fill(v.begin(), v.end(), 0);
        counted(resets);
        state = mix(mix(mix(seed, (int)mode), it), gen);
        steps = 0;
        observe();
    }
    void doAction(uint64_t a) override
    {
        ClassificationLearningEnvironment::doAction(a);
        counted(actions);
        state = mix(state, a);
        steps++;
        observe();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    bool isTerminal() const override { return steps >= limit; }
};
struct PAdvEnv : AdversarialLearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    uint64_t state = 0, steps = 0, limit = 2;
    explicit PAdvEnv(uint64_t n) : AdversarialLearningEnvironment(n) {}
    LearningEnvironment* clone() const override { return new PAdvEnv(*this); }
    bool isCopyable() const override { return copyable; }
    void observe()
    {
        int w = symData ? vp_conc(vp_memo("winner", mix(state, 1), 0, 1)) : mix(state, 1) & 1;
        data.setDataAt(typeid(double), 0, w ? 0.0 : 1.0);
        data.setDataAt(typeid(double), 1, w ? 1.0 : 0.0);
    }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        counted(resets);
        state = mix(mix(mix(seed, (int)mode), it), gen);
        steps = 0;
        observe();
    }
    void doAction(uint64_t a) override
    {
        counted(actions);
        state = mix(state, a);
        steps++;
        observe();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    std::shared_ptr<AdversarialEvaluationResult> getScores() const override
    {
        double a = (double)((int)vp_memo("score", mix(state, 2), 0, 15) - 8), b = (double)((int)vp_memo("score", mix(state, 3), 0, 15) - 8);
        return std::shared_ptr<AdversarialEvaluationResult>(new AdversarialEvaluationResult({a, b}));
    }
    bool isTerminal() const override { return steps >= limit; }
};
template <class A> struct AgentT : A {
    using A::A;
    std::map<V, Res>& records() { return this->resultsPerRoot; }
    std::pair<V, Res>& best() { return this->bestRoot; }
    Archive& arch() { return this->archive; }
    Mutator::RNG& random() { return this->rng; }
    uint64_t& threads() { return this->maxNbThreads; }
    // vertices in an order that does not depend on addresses
    std::vector<V> order;
    long at(V v) const { return std::find(order.begin(), order.end(), v) - order.begin(); }
    std::map<const Program::Program*, long> programs;
    long prog(const Program::Program* p)
    {
        auto it = programs.find(p);
        return it == programs.end() ? -1 : it->second;
    }
    void number()
    {
        order.clear();
        programs.clear();
        for (auto v : this->tpg->getVertices()) order.push_back(v);
        for (auto& e : this->tpg->getEdges()) programs.insert({&e->getProgram(), (long)programs.size()});
    }
};
template <class A, class E> struct Side {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    Instructions::LambdaInstruction<double, double> i1{sum};
    Instructions::LambdaInstruction<double, Data::Constant> i2{addConstant};
    Instructions::LambdaInstruction<const double[2]> i3{sumOf};
    E le{2};
    std::unique_ptr<AgentT<A>> la;
    std::vector<V> root;
    void agent(const LearningParameters& p, uint64_t threads)
    {
        set.add(i0);
        set.add(i1);
        if (p.nbProgramConstant) set.add(i2);
        set.add(i3);
        auto q = p;
        q.nbThreads = threads;
        if constexpr (std::is_constructible_v<A, E&, Instructions::Set&, LearningParameters&, TPG::TPGInstrumentedFactory>)
            if (vp_param("instrumented", 0)) {
                la = std::make_unique<AgentT<A>>(le, set, q, TPG::TPGInstrumentedFactory());
                return;
            }
        la = std::make_unique<AgentT<A>>(le, set, q);
    }
    void graph(size_t roots, const std::vector<int>& kinds)
    {
        auto& g = *la->getTPGGraph();
        std::vector<const TPG::TPGAction*> act{&g.addNewAction(0), &g.addNewAction(1)};
        auto& env = la->getEnvironment();
        bool consts = env.getNbConstant() > 0;
        size_t src = consts ? 2 : 1;
        auto shared = bidProgram(env, src, 0);
        if (vp_param("operands", 1)) { // a line reading an array or a constant
            auto& l = shared->addNewLine();
            l.setInstructionIndex(2);
            l.setDestinationIndex(0);
            l.setOperand(0, consts ? 0 : src, 0);
            if (consts) l.setOperand(1, 1, 0);
            shared->identifyIntrons();
        }
        const TPG::TPGTeam* inner = nullptr;
        if (vp_param("inner", 0)) { // a team that all roots lead to
            inner = &g.addNewTeam();
            g.addNewEdge(*inner, *act[0], bidProgram(env, src, 1));
            g.addNewEdge(*inner, *act[1], shared);
        }
        for (size_t i = 0; i < roots; i++) {
            auto& t = g.addNewTeam();
            int k = kinds[i];
            if (inner) g.addNewEdge(t, *inner, shared);
            g.addNewEdge(t, *act[k & 1], shared); // programs are shared by teams
            g.addNewEdge(t, *act[(k >> 1) & 1], bidProgram(env, src, 1));
            if (inner) g.addNewEdge(t, *inner, shared); // of equal bids the first or the last one wins
            root.push_back(&t);
        }
        la->number();
    }
};
static bool near(double a, double b) { return dbits(a) == dbits(b); }
template <class B, class A, class E> static void compareArchives(Side<B, E>& s, Side<A, E>& p)
{
    auto &a = s.la->arch(), &b = p.la->arch();
    vp_assert(a.getNbRecordings() == b.getNbRecordings(), "the archive has as many recordings as in sequential training");
    auto &da = a.getDataHandlers(), &db = b.getDataHandlers();
    vp_assert(da.size() == db.size(), "the archive has the data of sequential training");
    for (size_t i = 0; i < a.getNbRecordings(); i++) {
        auto &x = a.at(i), &y = b.at(i);
        vp_assert(s.la->prog(x.prog) == p.la->prog(y.prog), "the archive has the recordings of sequential training, in the same order");
        vp_assert(near(x.result, y.result), "archived results are those of sequential training");
        auto u = da.find(x.dataHash), v = db.find(y.dataHash);
        vp_assert(u != da.end() && v != db.end() && u->second.size() == v->second.size(), "the data of recordings is archived");
        for (size_t k = 0; k < u->second.size(); k++)
            for (size_t c = 0; c < 2; c++) {
                double du = *u->second[k].get().getDataAt(typeid(double), c).template getSharedPointer<const double>();
                double dv = *v->second[k].get().getDataAt(typeid(double), c).template getSharedPointer<const double>();
                vp_assert(near(du, dv), "archived data is that of sequential training");
            }
    }
}
template <class B, class A, class E> static void compareVisits(Side<B, E>& s, Side<A, E>& p)
{
    if (!vp_param("instrumented", 0)) return;
    auto &x = *s.la->getTPGGraph(), &y = *p.la->getTPGGraph();
    auto vertices = y.getVertices();
    auto v = vertices.begin();
    for (auto a : x.getVertices()) {
        auto i = dynamic_cast<const TPG::TPGVertexInstrumentation*>(a), j = dynamic_cast<const TPG::TPGVertexInstrumentation*>(*v++);
        vp_assert(i && j && i->getNbVisits() == j->getNbVisits(), "vertices are visited as often as in sequential training");
        if (i && i->getNbVisits()) vp_reach("visited");
    }
    auto e = y.getEdges().begin();
    for (auto& a : x.getEdges()) {
        auto i = dynamic_cast<const TPG::TPGEdgeInstrumented*>(a.get()), j = dynamic_cast<const TPG::TPGEdgeInstrumented*>((*e++).get());
        vp_assert(i && j && i->getNbVisits() == j->getNbVisits() && i->getNbTraversal() == j->getNbTraversal(), "edges are visited as often as in sequential training");
    }
}
static LearningParameters parameters(int kind)
{
    LearningParameters p;
    p.nbRegisters = 2;
    p.nbProgramConstant = vp_param("constants", 0);
    static const double probabilities[] = {1.0, 0.5, 0.0};
    p.archivingProbability = probabilities[vp_pick("archiving", 0, vp_param("archiving", 0))];
    p.archiveSize = vp_pick("archive size", vp_param("archiveMin", 50), vp_param("archive", 50));
    p.maxNbActionsPerEval = 5;
    p.nbIterationsPerPolicyEvaluation = vp_pick("iterations", 1, vp_param("iterations", 1));
    p.nbIterationsPerJob = 1;
    p.maxNbEvaluationPerPolicy = 1000;
    p.mutation.tpg.nbRoots = 3;
    p.mutation.tpg.nbActions = 2;
    p.ratioDeletedRoots = 0.5;
    p.mutation.tpg.maxOutgoingEdges = 3;
    p.mutation.tpg.pProgramMutation = 0.5;
    p.mutation.tpg.forceProgramBehaviorChangeOnMutation = vp_param("forced", 0) ? vp_pick("forced", 0, 1) : 0;
    p.mutation.prog.maxProgramSize = 4;
    return p;
}
// One evaluation of all roots, by threads scheduled in any way, against sequential evaluation.
template <class A, class E, class B = A> static void evaluateBoth(int kind)
{
    anyProbability = true;
    symData = vp_param("symData", 0);
    if (vp_param("noCopy", 0)) copyable = vp_pick("copyable", 0, 1);
    Side<B, E> s; // the sequential agent
    Side<A, E> p;
    auto par = parameters(kind);
    size_t roots = vp_pick("roots", vp_param("minRoots", 1), vp_param("roots", 2));
    s.agent(par, 1);
    p.agent(par, vp_pick("threads", vp_param("minThreads", 2), vp_param("threads", 2)));
    uint64_t limit = vp_param("steps", 1);
    s.le.limit = p.le.limit = limit;
    std::vector<int> kinds;
    for (size_t i = 0; i < roots; i++) kinds.push_back(1 + i % 2);
    s.graph(roots, kinds);
    p.graph(roots, kinds);
    auto mode = (LearningMode)vp_pick("mode", 0, vp_param("modes", 1));
    uint64_t gen = 3;
    if (vp_param("records", 0))
        for (size_t i = 0; i < roots; i++)
            if (vp_pick("enough evaluations", 0, 1)) {
                auto r = std::make_shared<EvaluationResult>(2.0, 1000);
                s.la->records()[s.root[i]] = r;
                p.la->records()[p.root[i]] = r;
            }
    resets = actions = 0;
    auto a = s.la->evaluateAllRoots(gen, mode);
    long r = resets, t = actions;
    resets = actions = 0;
    vp_sched_enable(vp_param("preemptions", 2));
    if (vp_param("races", 0)) vp_race_watch();
    auto b = p.la->evaluateAllRoots(gen, mode);
    if (vp_param("races", 0)) vp_race_check();
    vp_sched_disable();
    vp_assert(a.size() == b.size(), "as many roots are evaluated as in sequential training");
    auto x = a.begin();
    for (auto y = b.begin(); y != b.end(); ++x, ++y) {
        vp_assert(s.la->at(x->second) == p.la->at(y->second), "roots are ranked as in sequential training");
        vp_assert(near(x->first->getResult(), y->first->getResult()), "roots get the scores of sequential training");
        vp_assert(x->first->getNbEvaluation() == y->first->getNbEvaluation(), "roots are evaluated as often as in sequential training");
    }
    vp_assert(resets == r && actions == t, "every job is evaluated once");
    compareArchives(s, p);
    compareVisits(s, p);
    vp_assert(drawsOf(s.la->random()).seed == drawsOf(p.la->random()).seed && drawsOf(s.la->random()).count == drawsOf(p.la->random()).count, "as many draws as in sequential training");
    vp_reach(roots > 1 ? "several roots" : "one root");
    if (mode == LearningMode::TRAINING && s.la->arch().getNbRecordings()) vp_reach("archived");
}
HARNESS(parevaluate) { evaluateBoth<ParallelLearningAgent, PEnv>(0); }
// the sequential agent is a plain LearningAgent
HARNESS(parplain) { evaluateBoth<ParallelLearningAgent, PEnv, LearningAgent>(0); }
HARNESS(parplainclass) { evaluateBoth<ClassificationLearningAgent<ParallelLearningAgent>, PClassEnv, ClassificationLearningAgent<LearningAgent>>(1); }
HARNESS(parclass) { evaluateBoth<ClassificationLearningAgent<ParallelLearningAgent>, PClassEnv>(1); }
HARNESS(paradversarial) { evaluateBoth<AdversarialLearningAgent, PAdvEnv>(2); }

template <class X, class Y> static void comparePrograms(const X& a, const Y& b)
{
    vp_assert(a.getNbLines() == b.getNbLines(), "programs have the lines of sequential training");
    for (size_t l = 0; l < a.getNbLines(); l++) {
        auto &x = a.getLine(l), &y = b.getLine(l);
        vp_assert(x.getInstructionIndex() == y.getInstructionIndex() && x.getDestinationIndex() == y.getDestinationIndex(), "lines are those of sequential training");
        for (size_t o = 0; o < a.getEnvironment().getMaxNbOperands(); o++) vp_assert(x.getOperand(o) == y.getOperand(o), "operands are those of sequential training");
        vp_assert(a.isIntron(l) == b.isIntron(l), "introns are those of sequential training");
    }
    for (size_t c = 0; c < a.getEnvironment().getNbConstant(); c++) vp_assert(a.getConstantAt(c) == b.getConstantAt(c), "constants are those of sequential training");
}
template <class B, class A, class E> static void compareAll(Side<B, E>& s, Side<A, E>& p)
{
    s.la->number();
    p.la->number();
    auto& x = *s.la;
    auto& y = *p.la;
    vp_assert(x.order.size() == y.order.size(), "the graph has the vertices of sequential training");
    auto &ex = x.getTPGGraph()->getEdges(), &ey = y.getTPGGraph()->getEdges();
    vp_assert(ex.size() == ey.size(), "the graph has the edges of sequential training");
    for (size_t i = 0; i < x.order.size(); i++) {
        auto a = dynamic_cast<const TPG::TPGAction*>(x.order[i]), b = dynamic_cast<const TPG::TPGAction*>(y.order[i]);
        vp_assert(!a == !b && (!a || a->getActionID() == b->getActionID()), "vertices are those of sequential training");
        auto r = x.records().find(x.order[i]), q = y.records().find(y.order[i]);
        vp_assert((r == x.records().end()) == (q == y.records().end()), "roots have the records of sequential training");
        if (r != x.records().end() && q != y.records().end()) vp_assert(near(r->second->getResult(), q->second->getResult()) && r->second->getNbEvaluation() == q->second->getNbEvaluation(), "records are those of sequential training");
    }
    auto j = ey.begin();
    for (auto i = ex.begin(); i != ex.end(); ++i, ++j) {
        vp_assert(x.at((*i)->getSource()) == y.at((*j)->getSource()) && x.at((*i)->getDestination()) == y.at((*j)->getDestination()), "edges connect the vertices of sequential training");
        vp_assert(x.prog(&(*i)->getProgram()) == y.prog(&(*j)->getProgram()), "edges share programs as in sequential training");
        comparePrograms((*i)->getProgram(), (*j)->getProgram());
    }
    vp_assert(x.best().first == nullptr ? y.best().first == nullptr : x.at(x.best().first) == y.at(y.best().first), "the best root is that of sequential training");
    compareArchives(s, p);
    vp_assert(drawsOf(x.random()).seed == drawsOf(y.random()).seed && drawsOf(x.random()).count == drawsOf(y.random()).count, "as many draws as in sequential training");
}
// Generations of training, by threads scheduled in any way, against sequential training.
template <class A, class E, class B = A> static void trainBoth(int kind)
{
    anyProbability = false;
    symData = vp_param("symData", 0);
    Side<B, E> s; // the sequential agent
    Side<A, E> p;
    auto par = parameters(kind);
    par.mutation.tpg.nbRoots = vp_param("nbRoots", 2);
    par.mutation.tpg.maxInitOutgoingEdges = 2;
    par.doValidation = vp_param("validation", 0) ? vp_pick("validation", 0, 1) : 0;
    s.agent(par, 1);
    p.agent(par, vp_pick("threads", vp_param("minThreads", 2), vp_param("threads", 2)));
    s.le.limit = p.le.limit = vp_param("steps", 1);
    uint64_t seed = vp_pick("seed", 0, vp_param("seeds", 1));
    s.la->init(seed);
    p.la->init(seed);
    uint64_t n = vp_param("generations", 1);
    for (uint64_t g = 0; g < n; g++) {
        resets = actions = 0;
        s.la->trainOneGeneration(g);
        long r = resets, t = actions;
        resets = actions = 0;
        vp_sched_enable(vp_param("preemptions", 2));
        if (vp_param("races", 0)) vp_race_watch();
        p.la->trainOneGeneration(g);
        if (vp_param("races", 0)) vp_race_check();
        vp_sched_disable();
        vp_assert(resets == r && actions == t, "every job is evaluated once");
        compareAll(s, p);
        compareVisits(s, p);
    }
    if (s.la->arch().getNbRecordings()) vp_reach("archived");
    vp_reach("trained");
}
HARNESS(partrain) { trainBoth<ParallelLearningAgent, PEnv>(0); }
HARNESS(partrainplain) { trainBoth<ParallelLearningAgent, PEnv, LearningAgent>(0); }
HARNESS(partrainclass) { trainBoth<ClassificationLearningAgent<ParallelLearningAgent>, PClassEnv>(1); }
HARNESS(partrainadv) { trainBoth<AdversarialLearningAgent, PAdvEnv>(2); }
// The mutations of new programs alone: more threads, shared archived data.
HARNESS(parmutate)
{
    anyProbability = false;
    typedef Side<ParallelLearningAgent, PEnv> S;
    S s, p;
    auto par = parameters(0);
    s.agent(par, 1);
    p.agent(par, 2);
    s.graph(1, {1});
    p.graph(1, {1});
    uint64_t seed = vp_pick("seed", 0, vp_param("seeds", 3));
    size_t n = vp_pick("programs", 0, vp_param("programs", 2)), records = vp_pick("recordings", 0, vp_param("recordings", 2));
    uint64_t threads = vp_pick("threads", 2, vp_param("threads", 2));
    std::list<std::shared_ptr<Program::Program>> a, b;
    for (S* x : {&s, &p}) {
        auto& g = *x->la->getTPGGraph();
        std::vector<const Program::Program*> from;
        for (auto& e : g.getEdges()) from.push_back(&e->getProgram());
        auto& l = x == &s ? a : b;
        for (size_t i = 0; i < n; i++) l.push_back(std::make_shared<Program::Program>(*from[i % 2]));
        x->la->arch().setRandomSeed(seed);
        for (size_t i = 0; i < records; i++) {
            x->le.reset(seed + i, LearningMode::TRAINING, 0, 0);
            x->la->arch().addRecording(from[i % 2], x->le.getDataSources(), (double)i, true);
        }
        x->la->random().setSeed(seed);
    }
    Mutator::TPGMutator::mutateNewProgramBehaviors(1, a, s.la->random(), par.mutation, s.la->arch());
    vp_sched_enable(vp_param("preemptions", 2));
    if (vp_param("races", 0)) vp_race_watch();
    Mutator::TPGMutator::mutateNewProgramBehaviors(threads, b, p.la->random(), par.mutation, p.la->arch());
    if (vp_param("races", 0)) vp_race_check();
    vp_sched_disable();
    vp_assert(a.size() == b.size() && a.size() == n, "the list of programs is kept");
    auto y = b.begin();
    for (auto x = a.begin(); x != a.end(); ++x, ++y) comparePrograms(**x, **y);
    vp_assert(drawsOf(s.la->random()).seed == drawsOf(p.la->random()).seed && drawsOf(s.la->random()).count == drawsOf(p.la->random()).count, "as many draws as in sequential mutation");
    if (n > 1) vp_reach("several programs");
    if (records) vp_reach("archive");
}
