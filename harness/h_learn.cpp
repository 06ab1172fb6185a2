// Learning agents: C14 decimation, C15 records and best root, C16 evaluation, C29 classification.
#include "rngstub.h"
#include "learn/classificationEvaluationResult.h"
#include "learn/classificationLearningAgent.h"
#include "learn/classificationLearningEnvironment.h"
#include "learn/learningAgent.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
using namespace Learn;
typedef const TPG::TPGVertex* V;
typedef std::shared_ptr<EvaluationResult> Res;
typedef std::multimap<Res, V> Results;

// a score of small magnitude, and any number
static double small(const char* n) { return (double)((int)vp_u64(n, 0, 15) - 8); }
static double any(const char* n)
{
    double d = vp_double(n);
    vp_assume(d == d);
    return d;
}
struct Call {
    char kind; // r reset, a action, s score
    uint64_t seed, gen, action;
    unsigned it;
    LearningMode mode;
    double x;
};
// An environment whose data, end and score are symbolic, and which records its use.
struct Env : LearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    double cell[2];
    std::vector<Call> log;
    std::vector<int> expected; // actions the policies of this harness must choose
    bool symData = false, symEnd = false, symScore = true;
    unsigned steps = 0, fixedSteps = 1;
    double known = 0;
    bool ended = false;
    explicit Env(uint64_t n) : LearningEnvironment(n) {}
    void observe()
    {
        for (int i = 0; i < 2; i++) {
            cell[i] = symData ? vp_double("bid") : (double)((steps + i) % 2);
            if (symData) vp_assume(cell[i] == cell[i]);
            data.setDataAt(typeid(double), i, cell[i]);
        }
        ended = symEnd ? vp_bool("terminal") : steps >= fixedSteps;
    }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        log.push_back({'r', seed, gen, 0, it, mode, 0});
        steps = 0;
        observe();
    }
    void doAction(uint64_t a) override
    {
        vp_assert(!ended, "no action is performed once the environment is terminal");
        vp_assert(a < nbActions, "the action exists");
        log.push_back({'a', 0, 0, a, 0, LearningMode::TRAINING, cell[1] >= cell[0] ? 1.0 : 0.0});
        steps++;
        observe();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    double getScore() const override
    {
        double s = symScore ? small("score") : known;
        const_cast<Env*>(this)->log.push_back({'s', 0, 0, 0, 0, LearningMode::TRAINING, s});
        return s;
    }
    bool isTerminal() const override { return ended; }
};
template <class A = LearningAgent> struct AgentT : A {
    using A::A;
    std::map<V, Res>& records() { return this->resultsPerRoot; }
    std::pair<V, Res>& best() { return this->bestRoot; }
    LearningParameters& p() { return this->params; }
    Archive& arch() { return this->archive; }
};
typedef AgentT<LearningAgent> Agent;
struct Setup {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    Instructions::LambdaInstruction<double, double> i1{uf2};
    Env le{4};
    LearningParameters p;
    std::unique_ptr<Agent> la;
    std::vector<const TPG::TPGAction*> act;
    std::vector<V> root;
    Setup()
    {
        set.add(i0);
        set.add(i1);
        p.nbRegisters = 1;
        p.archivingProbability = 1.0;
        p.archiveSize = 50;
        p.maxNbActionsPerEval = 2;
        p.nbIterationsPerPolicyEvaluation = 1;
        p.maxNbEvaluationPerPolicy = 1000;
        p.mutation.tpg.nbRoots = 4;
        p.ratioDeletedRoots = 0.5;
    }
    void agent()
    {
        la = std::make_unique<Agent>(le, set, p);
        for (int i = 0; i < 4; i++) act.push_back(&la->getTPGGraph()->addNewAction(i));
    }
    // a root team choosing act[a] if cell 0 is larger than cell 1, act[b] otherwise
    const TPG::TPGTeam& team(int a, int b)
    {
        auto& g = *la->getTPGGraph();
        auto& t = g.addNewTeam();
        g.addNewEdge(t, *act[a], bidProgram(la->getEnvironment(), 1, 0));
        g.addNewEdge(t, *act[b], bidProgram(la->getEnvironment(), 1, 1));
        root.push_back(&t);
        return t;
    }
};
static void checkRuns(const std::vector<Call>& log, size_t& at, const LearningParameters& p, int a0, int a1, LearningMode mode, uint64_t gen, std::vector<uint64_t>& seeds, double& sum, bool symEnd, unsigned fixedSteps)
{
    sum = 0.0;
    for (unsigned it = 0; it < p.nbIterationsPerPolicyEvaluation; it++) {
        vp_assert(at < log.size() && log[at].kind == 'r', "the environment is reset before each iteration");
        vp_assert(log[at].mode == mode && log[at].it == it && log[at].gen == gen, "the reset tells mode, iteration and generation");
        if (seeds.size() <= it) seeds.push_back(log[at].seed);
        vp_assert(seeds[it] == log[at].seed, "every root is evaluated with the same seeds");
        at++;
        unsigned n = 0;
        while (at < log.size() && log[at].kind == 'a') {
            vp_assert((int)log[at].action == (log[at].x != 0.0 ? a1 : a0), "actions are those of the evaluated root");
            n++, at++;
        }
        vp_assert(n <= p.maxNbActionsPerEval, "the maximum number of actions is respected");
        if (!symEnd) vp_assert(n == std::min<uint64_t>(fixedSteps, p.maxNbActionsPerEval), "actions are performed until the environment is terminal");
        vp_assert(at < log.size() && log[at].kind == 's', "the score is read after each iteration");
        sum += log[at++].x;
    }
}
// One job.
HARNESS(job)
{
    Setup s;
    s.le.symData = s.le.symEnd = true;
    s.p.nbIterationsPerPolicyEvaluation = vp_pick("iterations", 1, vp_param("iterations", 2));
    s.p.maxNbActionsPerEval = vp_pick("max actions", 0, 2);
    s.p.archivingProbability = 0;
    dblDrawHook = [](double, double, double& v) { v = 0.5; return true; };
    s.p.maxNbEvaluationPerPolicy = 5;
    s.agent();
    auto& t = s.team(2, 3);
    s.team(0, 1);
    auto mode = (LearningMode)vp_pick("mode", 0, 2);
    size_t n = s.p.nbIterationsPerPolicyEvaluation, prev = vp_pick("previous", 0, 2);
    // previous evaluations: none, some, or as many as allowed
    size_t n0 = prev == 0 ? 0 : prev == 1 ? 4 - n : 5 + vp_pick("more", 0, 1);
    Res old;
    double r0 = 0;
    if (prev) {
        r0 = small("previous result");
        old = std::make_shared<EvaluationResult>(r0, n0);
        s.la->records()[&t] = old;
    }
    TPG::TPGExecutionEngine tee(s.la->getEnvironment(), nullptr);
    uint64_t gen = vp_pick("generation", 0, 1) * 7;
    Res r = s.la->evaluateJob(tee, Job(&t, 3, 0), gen, mode, s.le);
    if (prev == 2 && mode == LearningMode::TRAINING) {
        vp_assert(s.le.log.empty() && r == old, "a root evaluated often enough is not evaluated again");
        vp_reach("skipped");
        return;
    }
    size_t at = 0;
    std::vector<uint64_t> seeds;
    double sum;
    checkRuns(s.le.log, at, s.p, 2, 3, mode, gen, seeds, sum, true, 0);
    vp_assert(at == s.le.log.size(), "nothing else is done");
    if (n > 1) vp_assert(seeds[0] != seeds[1], "iterations have different seeds");
    double e = sum / (double)n;
    size_t en = n;
    if (mode == LearningMode::TRAINING && prev == 1) {
        e = e * (double)n + r0 * (double)n0;
        e /= (double)n + (double)n0;
        en += n0;
        vp_reach("combined");
    }
    vp_assert(r != old && typeid(*r) == typeid(EvaluationResult), "a new result");
    vp_assert(r->getNbEvaluation() == en, "the number of evaluations");
    vp_assert(r->getResult() == e, "the result is the weighted mean of the scores");
    if (old) vp_assert(old->getNbEvaluation() == n0 && old->getResult() == r0, "the earlier record is not modified");
    vp_reach("end");
}
// The environment is not left early: a run ends only when terminal or after the maximum of actions.
HARNESS(jobend)
{
    Setup s;
    s.le.fixedSteps = vp_pick("steps", 0, 4);
    s.p.maxNbActionsPerEval = vp_pick("max actions", 0, 4);
    s.p.nbIterationsPerPolicyEvaluation = vp_pick("iterations", 1, 3);
    s.agent();
    auto& t = s.team(2, 3);
    TPG::TPGExecutionEngine tee(s.la->getEnvironment(), nullptr);
    Res r = s.la->evaluateJob(tee, Job(&t, 3, 0), 4, LearningMode::TESTING, s.le);
    size_t at = 0;
    std::vector<uint64_t> seeds;
    double sum;
    checkRuns(s.le.log, at, s.p, 2, 3, LearningMode::TESTING, 4, seeds, sum, false, s.le.fixedSteps);
    vp_assert(at == s.le.log.size() && r->getNbEvaluation() == s.p.nbIterationsPerPolicyEvaluation, "as many evaluations as iterations");
    std::set<uint64_t> d(seeds.begin(), seeds.end());
    vp_assert(d.size() == seeds.size(), "iterations have different seeds");
    s.le.log.clear();
    s.la->evaluateJob(tee, Job(&t, 3, 0), 5, LearningMode::TESTING, s.le);
    vp_assert(s.le.log[0].seed != seeds[0], "generations have different seeds");
    vp_reach("end");
}
// All roots: teams and root actions, with or without earlier records.
HARNESS(allroots)
{
    Setup s;
    s.le.fixedSteps = 1;
    s.p.maxNbEvaluationPerPolicy = 3;
    s.agent();
    auto& g = *s.la->getTPGGraph();
    auto& t0 = s.team(0, 1);
    auto& t1 = s.team(1, 2);
    auto& u = g.addNewTeam(); // not a root
    g.addNewEdge(u, *s.act[0], bidProgram(s.la->getEnvironment(), 1, 0));
    g.addNewEdge(t1, u, bidProgram(s.la->getEnvironment(), 1, 0));
    auto mode = (LearningMode)vp_pick("mode", 0, 2);
    Res old;
    if (vp_bool("record")) s.la->records()[&t1] = old = std::make_shared<EvaluationResult>(small("previous"), 3);
    bool skip = old && mode == LearningMode::TRAINING;
    // the fourth action is a root: no team leads to it
    Results r = s.la->evaluateAllRoots(2, mode);
    vp_assert(r.size() == 3, "one result per root");
    std::map<V, Res> of;
    double last = 0;
    bool first = true;
    for (auto& e : r) {
        vp_assert(of.emplace(e.second, e.first).second, "one result per root");
        if (!first) vp_assert(last <= e.first->getResult(), "results are ordered by score");
        last = e.first->getResult();
        first = false;
    }
    vp_assert(of.count(&t0) && of.count(&t1) && of.count(s.act[3]), "every root is evaluated");
    // uses of the environment, in the order of the roots
    size_t at = 0;
    std::vector<uint64_t> seeds;
    for (V v : g.getRootVertices()) {
        if (v == &t1 && skip) {
            vp_assert(of[v] == old, "a root evaluated often enough is not evaluated again");
            continue;
        }
        double sum;
        // the environment starts with cells 0 and 1: the second edge wins, after one step it ends
        int a = v == &t0 ? 1 : v == &t1 ? 2 : 3;
        checkRuns(s.le.log, at, s.p, a, a, mode, 2, seeds, sum, false, 1);
        vp_assert(of[v]->getResult() == sum && of[v]->getNbEvaluation() == 1, "the result of a root is the one of its evaluation");
    }
    vp_assert(at == s.le.log.size(), "each root is evaluated once");
    size_t bids = 0; // t0: two programs, t1: three
    if (mode == LearningMode::TRAINING) bids = 2 + (skip ? 0 : 3);
    vp_assert(s.la->getArchive().getNbRecordings() == bids, "bids are archived in training mode only");
    // one root only
    s.le.log.clear();
    V v = vp_pick("root", 0, 1) ? (V)&t0 : (V)s.act[3];
    Res one = s.la->evaluateOneRoot(9, mode, v);
    at = 0;
    seeds.clear();
    double sum;
    checkRuns(s.le.log, at, s.p, v == &t0 ? 1 : 3, v == &t0 ? 1 : 3, mode, 9, seeds, sum, false, 1);
    vp_assert(at == s.le.log.size() && one->getResult() == sum, "evaluating one root");
    bool thrown = false;
    try {
        TPG::TPGGraph other(s.la->getEnvironment());
        s.la->evaluateOneRoot(9, mode, &other.addNewTeam());
    }
    catch (std::runtime_error&) {
        thrown = true;
    }
    vp_assert(thrown, "a vertex of another graph is rejected");
    vp_reach("end");
}
// Base decimation.
// few or many different scores
static double score(const char* n) { return vp_param("anyScore", 0) ? any(n) : small(n); }
HARNESS(decimate)
{
    static const double ratios[] = {0.0, 0.25, 0.5, 0.6, 0.75, 0.99, 1.0};
    Setup s;
    s.p.mutation.tpg.nbRoots = vp_pick("nbRoots", 1, 4);
    s.p.ratioDeletedRoots = ratios[vp_pick("ratio", 0, 6)];
    s.agent();
    auto& g = *s.la->getTPGGraph();
    size_t teams = vp_pick("teams", vp_param("minTeams", 1), vp_param("teams", 3));
    for (size_t i = 0; i < teams; i++) s.team(i % 2, 2);
    auto& u = g.addNewTeam(); // a team that is not a root
    g.addNewEdge(u, *s.act[0], bidProgram(s.la->getEnvironment(), 1, 0));
    g.addNewEdge(*s.root[0], u, bidProgram(s.la->getEnvironment(), 1, 0));
    Results r;
    std::map<V, Res> of;
    auto add = [&](V v) {
        Res x = std::make_shared<EvaluationResult>(score("score"), 1);
        of[v] = x;
        r.emplace(x, v);
    };
    for (V v : s.root) add(v);
    size_t actions = vp_param("actions", 1) ? vp_pick("root action", 0, 1) : 0;
    if (actions) add(s.act[3]);
    for (auto& e : of)
        if (vp_param("records", 0) == 0 || vp_bool("record")) s.la->records()[e.first] = e.second;
    auto rec = s.la->records();
    size_t want = (size_t)std::floor(s.p.ratioDeletedRoots * (double)s.p.mutation.tpg.nbRoots);
    size_t nb = g.getNbVertices();
    s.la->decimateWorstRoots(r);
    size_t removed = std::min(want, teams);
    vp_assert(g.getNbVertices() == nb - removed, "the configured share of the roots is removed");
    auto left = g.getVertices();
    auto in = [&](V v) { return std::find(left.begin(), left.end(), v) != left.end(); };
    for (auto a : s.act) vp_assert(in(a), "actions are not removed");
    vp_assert(in(&u) && u.getOutgoingEdges().size() == 1, "teams that are not roots are left untouched");
    vp_assert(u.getIncomingEdges().size() == (in(s.root[0]) ? 1 : 0), "edges of removed teams only are removed");
    size_t gone = 0;
    for (V x : s.root) {
        if (in(x)) {
            vp_assert(x->getOutgoingEdges().size() == (x == s.root[0] ? 3 : 2), "surviving roots are left untouched");
            for (V y : s.root)
                if (!in(y)) vp_assert(of[y]->getResult() <= of[x]->getResult(), "no removed root is better than a surviving one");
        }
        else
            gone++;
        vp_assert(s.la->records().count(x) == (in(x) && rec.count(x) ? 1 : 0), "the records of removed roots are forgotten");
    }
    vp_assert(gone == removed, "only roots are removed");
    if (actions) vp_assert(s.la->records().count(s.act[3]) == rec.count(s.act[3]), "the record of a root action is kept");
    vp_assert(r.size() == teams - removed + actions, "the results of removed roots are removed");
    double last = 0;
    bool first = true;
    for (auto& e : r) {
        vp_assert(in(e.second) && of[e.second] == e.first, "the results are those of the surviving roots");
        if (!first) vp_assert(last <= e.first->getResult(), "the results are ordered");
        last = e.first->getResult();
        first = false;
    }
    if (removed) vp_reach("removed");
    else vp_reach("nothing removed");
}
// Records and best root.
HARNESS(records)
{
    Setup s;
    s.agent();
    auto& g = *s.la->getTPGGraph();
    size_t n = vp_pick("roots", 1, vp_param("roots", 3));
    for (size_t i = 0; i < n; i++) s.team(0, 1);
    Results r;
    std::map<V, Res> of;
    auto& rec = s.la->records();
    for (V v : s.root) {
        int k = vp_pick("record", 0, 2); // unknown, combined with an earlier one, skipped
        Res x = std::make_shared<EvaluationResult>(score("score"), 1);
        if (k == 1) rec[v] = std::make_shared<EvaluationResult>(score("earlier"), 1);
        if (k == 2) rec[v] = x;
        of[v] = x;
        r.emplace(x, v);
    }
    // the best root so far: none, a removed one, one of the roots, one that is not evaluated now
    int b = vp_pick("best", 0, 3);
    auto& old = g.addNewTeam();
    V bv = nullptr;
    Res br;
    if (b == 1 || b == 3) {
        bv = &old;
        br = std::make_shared<EvaluationResult>(score("best"), 1);
        rec[bv] = br;
    }
    if (b == 2) {
        bv = s.root[0];
        if (!rec.count(bv)) rec[bv] = std::make_shared<EvaluationResult>(score("earlier"), 1);
        br = rec[bv];
    }
    s.la->best() = {bv, br};
    auto before = rec;
    if (b != 3) g.removeVertex(old);
    s.la->updateEvaluationRecords(r);
    for (V v : s.root) vp_assert(rec.count(v) && rec[v] == of[v], "the records hold the given results");
    if (b == 3) vp_assert(rec[bv] == br, "other records are kept");
    auto now = s.la->getBestRoot();
    double top = of[s.root[0]]->getResult();
    for (auto& e : of) top = std::max(top, e.second->getResult());
    // the value of the former best root, after this generation
    double ref = b == 2 ? of[bv]->getResult() : br ? br->getResult() : 0;
    if (b < 2 || ref < top) {
        vp_assert(of.count(now.first) && now.second == of[now.first], "the best root is one of this generation, with its result");
        vp_assert(now.second->getResult() == top, "the best root has the best result of the generation");
        vp_reach("new best");
    }
    else {
        vp_assert(now.first == bv, "the best root is kept unless it is beaten");
        vp_assert(now.second == (b == 2 ? of[bv] : br), "the result of the best root is its last one");
        vp_reach("kept");
    }
    s.la->updateBestScoreLastGen(r);
    vp_assert(s.la->getBestScoreLastGen() == top, "the best score of the generation");
    // skipping
    Res prev;
    s.la->p().maxNbEvaluationPerPolicy = vp_u64("maximum", 0, 3);
    bool skip = s.la->isRootEvalSkipped(*s.root[0], prev);
    vp_assert(prev == of[s.root[0]] && skip == (1 >= s.la->p().maxNbEvaluationPerPolicy), "a root is skipped once evaluated often enough");
    vp_assert(!s.la->isRootEvalSkipped(*s.act[0], prev) && !prev, "an unknown root is not skipped");
    s.la->forgetPreviousResults();
    vp_assert(rec.empty() && !s.la->getBestRoot().first && !s.la->getBestRoot().second, "nothing is left after forgetting the results");
}
// Keeping only the best policy, in any small graph.
HARNESS(keepbest)
{
    Setup s;
    s.agent();
    auto& g = *s.la->getTPGGraph();
    std::vector<const TPG::TPGTeam*> t;
    for (int i = 0; i < 4; i++) t.push_back(&g.addNewTeam());
    auto p = bidProgram(s.la->getEnvironment(), 1, 0);
    // edges go from a team to an earlier one, or to an action
    std::map<V, std::set<V>> out;
    for (int i = 0; i < 4; i++) {
        for (int j = 0; j < i; j++)
            if (vp_bool("edge")) g.addNewEdge(*t[i], *t[j], p), out[t[i]].insert(t[j]);
        g.addNewEdge(*t[i], *s.act[i], p);
        out[t[i]].insert(s.act[i]);
    }
    int b = vp_pick("best", 0, 4);
    if (b == 4) {
        // the best root left the graph
        TPG::TPGGraph other(s.la->getEnvironment());
        s.la->best() = {&other.addNewTeam(), std::make_shared<EvaluationResult>(1.0, 1)};
        size_t n = g.getNbVertices();
        s.la->keepBestPolicy();
        vp_assert(g.getNbVertices() == n, "nothing is removed without a best root");
        return;
    }
    s.la->best() = {t[b], std::make_shared<EvaluationResult>(1.0, 1)};
    // vertices of the policy
    std::set<V> keep;
    std::vector<V> todo{t[b]};
    while (!todo.empty()) {
        V v = todo.back();
        todo.pop_back();
        if (!keep.insert(v).second) continue;
        for (V w : out[v]) todo.push_back(w);
    }
    std::set<V> recorded;
    for (V v : t)
        if (v == t[b] || vp_param("records", 0) == 0 || vp_bool("record"))
            recorded.insert(v), s.la->records()[v] = v == t[b] ? s.la->best().second : Res(new EvaluationResult(0.5, 1));
    s.la->keepBestPolicy();
    auto roots = g.getRootVertices();
    vp_assert(roots.size() == 1 && roots[0] == t[b], "the best root is the only root left");
    auto left = g.getVertices();
    vp_assert(std::set<V>(left.begin(), left.end()) == keep, "the graph holds the vertices of the best policy");
    for (V v : left) {
        std::multiset<V> d;
        for (auto e : v->getOutgoingEdges()) d.insert(e->getDestination());
        vp_assert(d == std::multiset<V>(out[v].begin(), out[v].end()), "the best policy is left untouched");
    }
    for (V v : t) vp_assert(s.la->records().count(v) == (keep.count(v) && recorded.count(v) ? 1 : 0), "the records are those of the vertices left");
    vp_assert(s.la->getBestRoot().first == t[b] && s.la->records()[t[b]] == s.la->getBestRoot().second, "the best root is still known");
    vp_reach("end");
}
// Starting over.
static uint64_t nextDraw;
HARNESS(startover)
{
    Setup s;
    s.le.symScore = false;
    intDrawHook = [](uint64_t lo, uint64_t hi, uint64_t& v) {
        v = hi - lo == UINT64_MAX ? nextDraw++ : lo + nextDraw++ % (hi - lo + 1);
        return true;
    };
    dblDrawHook = [](double, double, double& v) { v = 0.7; return true; };
    s.p.mutation.tpg.nbRoots = 2;
    s.p.mutation.tpg.nbActions = 2;
    s.p.mutation.tpg.maxInitOutgoingEdges = 2;
    s.p.mutation.prog.maxProgramSize = 1;
    s.p.mutation.prog.pAdd = 0.9;
    s.agent();
    auto& g = *s.la->getTPGGraph();
    for (int i = 0; i < 2; i++) s.team(i, 1 - i);
    // any earlier state
    for (V v : s.root)
        if (vp_bool("record")) s.la->records()[v] = std::make_shared<EvaluationResult>(1.0, 1000);
    int b = vp_pick("best", 0, 2);
    if (b < 2) s.la->best() = {s.root[b], Res(new EvaluationResult(1.0, 1))};
    if (vp_bool("archived")) s.la->evaluateAllRoots(0, LearningMode::TRAINING);
    uint64_t seed = vp_u64("seed", 0, UINT64_MAX);
    seedLog.clear();
    s.la->init(seed);
    vp_assert(seedLog.size() == 1 && seedLog[0] == seed, "the generator is seeded");
    vp_assert(s.la->getArchive().getNbRecordings() == 0, "the archive is empty");
    vp_assert(!s.la->getBestRoot().first && !s.la->getBestRoot().second, "there is no best root");
    vp_assert(s.la->records().empty(), "there is no record");
    for (V v : s.root) vp_assert(!g.hasVertex(*v), "the former graph is gone");
    s.le.log.clear();
    Results r = s.la->evaluateAllRoots(0, LearningMode::TRAINING);
    size_t resets = 0;
    for (auto& c : s.le.log) resets += c.kind == 'r';
    vp_assert(r.size() == g.getNbRootVertices() && resets == r.size(), "every new root is evaluated");
    vp_reach("end");
}
// One generation: evaluate, decimate, update, validate.
HARNESS(generation)
{
    Setup s;
    s.p.mutation.tpg.nbRoots = 3;
    s.p.ratioDeletedRoots = vp_pick("ratio", 0, 2) / 3.0 + 0.01;
    s.p.doValidation = vp_bool("validation");
    s.p.nbGenerations = 1;
    s.agent();
    auto& g = *s.la->getTPGGraph();
    for (int i = 0; i < 3; i++) s.team(i, 3 - i);
    bool stop = vp_bool("stop");
    volatile bool alt = stop;
    uint64_t gens = s.la->train(alt, false);
    vp_assert(gens == (stop ? 0 : 1), "the number of generations trained");
    if (stop) {
        vp_assert(s.le.log.empty() && g.getRootVertices().size() == 3, "nothing is done when stopped");
        return;
    }
    size_t removed = (size_t)std::floor(s.p.ratioDeletedRoots * 3);
    vp_assert(g.getNbRootVertices() >= 3 - removed, "roots left");
    std::vector<double> sc;
    size_t at = 0;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < 3; i++) {
        double sum;
        checkRuns(s.le.log, at, s.p, i, 3 - i, LearningMode::TRAINING, 0, seeds, sum, false, 1);
        sc.push_back(sum);
    }
    double top = *std::max_element(sc.begin(), sc.end());
    vp_assert(s.la->getBestScoreLastGen() == top && s.la->getBestRoot().second->getResult() == top, "the best root has the best score");
    size_t left = 0;
    for (int i = 0; i < 3; i++)
        if (g.hasVertex(*s.root[i])) {
            left++;
            vp_assert(s.la->records().count(s.root[i]) && s.la->records()[s.root[i]]->getResult() == sc[i], "the records hold the results of the surviving roots");
        }
        else
            vp_assert(!s.la->records().count(s.root[i]) && (removed == 3 || sc[i] <= top), "removed roots are forgotten");
    vp_assert(left == 3 - removed, "the configured share is removed");
    if (left) vp_assert(g.hasVertex(*s.la->getBestRoot().first), "the best root is in the graph");
    if (s.p.doValidation) {
        seeds.clear();
        for (V v : g.getRootVertices()) {
            double sum;
            size_t i = std::find(s.root.begin(), s.root.end(), v) - s.root.begin();
            int a0 = i, a1 = 3 - (int)i;
            if (i == 3) // a root action
                for (int k = 0; k < 4; k++)
                    if (s.act[k] == v) a0 = a1 = k;
            checkRuns(s.le.log, at, s.p, a0, a1, LearningMode::VALIDATION, 0, seeds, sum, false, 1);
        }
        vp_reach("validated");
    }
    vp_assert(at == s.le.log.size(), "no other evaluation");
    vp_reach("end");
}

// ---- classification
struct CEnv : ClassificationLearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    std::vector<std::pair<int, int>> guesses; // class, guess
    std::vector<int> resets;
    explicit CEnv(uint64_t n) : ClassificationLearningEnvironment(n) {}
    void sample()
    {
        currentClass = vp_pick("class", 0, nbActions - 1);
        int w = vp_pick("winner", 0, 1);
        data.setDataAt(typeid(double), 0, w ? 0.0 : 1.0);
        data.setDataAt(typeid(double), 1, w ? 1.0 : 0.0);
    }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        for (auto& v : classificationTable) std::fill(v.begin(), v.end(), 0);
        resets.push_back(guesses.size());
        sample();
    }
    void doAction(uint64_t a) override
    {
        guesses.push_back({(int)currentClass, (int)a});
        ClassificationLearningEnvironment::doAction(a);
        sample();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    bool isTerminal() const override { return false; }
};
typedef AgentT<ClassificationLearningAgent<LearningAgent>> CAgent;
struct CSetup {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    Instructions::LambdaInstruction<double, double> i1{uf2};
    CEnv le;
    LearningParameters p;
    std::unique_ptr<CAgent> la;
    std::vector<const TPG::TPGAction*> act;
    explicit CSetup(int n) : le(n)
    {
        set.add(i0);
        set.add(i1);
        p.nbRegisters = 1;
        p.archiveSize = 10;
        p.archivingProbability = 0;
    }
    void agent()
    {
        la = std::make_unique<CAgent>(le, set, p);
        for (uint64_t i = 0; i < le.getNbActions(); i++) act.push_back(&la->getTPGGraph()->addNewAction(i));
    }
    const TPG::TPGTeam& team(int a, int b)
    {
        auto& g = *la->getTPGGraph();
        auto& t = g.addNewTeam();
        g.addNewEdge(t, *act[a], bidProgram(la->getEnvironment(), 1, 0));
        g.addNewEdge(t, *act[b], bidProgram(la->getEnvironment(), 1, 1));
        return t;
    }
};
HARNESS(classjob)
{
    int N = vp_param("classes", 2);
    CSetup s(N);
    s.p.nbIterationsPerPolicyEvaluation = vp_pick("iterations", 1, 2);
    s.p.maxNbActionsPerEval = vp_param("guesses", 2);
    s.p.maxNbEvaluationPerPolicy = 100;
    s.agent();
    auto& t = s.team(0, N - 1);
    TPG::TPGExecutionEngine tee(s.la->getEnvironment(), nullptr);
    auto mode = (LearningMode)vp_pick("mode", 0, 1);
    bool prev = vp_bool("record");
    std::vector<double> ps(N);
    std::vector<size_t> pn(N);
    Res old;
    if (prev) {
        for (int c = 0; c < N; c++) ps[c] = 0.25 * vp_pick("earlier", 0, 2), pn[c] = c + 1;
        old = std::make_shared<ClassificationEvaluationResult>(ps, pn);
        s.la->records()[&t] = old;
    }
    Res r = s.la->evaluateJob(tee, Job(&t, 0, 0), 0, mode, s.le);
    vp_assert(typeid(*r) == typeid(ClassificationEvaluationResult) && r != old, "a result per class");
    auto& cr = (ClassificationEvaluationResult&)*r;
    size_t it = s.p.nbIterationsPerPolicyEvaluation, per = s.p.maxNbActionsPerEval;
    vp_assert(s.le.resets.size() == it && s.le.guesses.size() == it * per, "the configured number of iterations and guesses");
    bool comb = prev && mode == LearningMode::TRAINING;
    double total = 0;
    for (int c = 0; c < N; c++) {
        double f = 0;
        size_t n = 0;
        for (size_t i = 0; i < it; i++) {
            double tp = 0, fn = 0, fp = 0;
            for (size_t k = i * per; k < (i + 1) * per; k++) {
                auto g = s.le.guesses[k];
                if (g.first == c) n++;
                if (g.first == c && g.second == c) tp++;
                else if (g.first == c) fn++;
                else if (g.second == c) fp++;
            }
            if (tp > 0) f += 2 * tp / (2 * tp + fp + fn);
        }
        f /= it;
        if (comb) {
            f = (f * n + ps[c] * pn[c]) / (n + pn[c]);
            n += pn[c];
        }
        vp_assert(std::abs(cr.getScorePerClass().at(c) - f) < 1e-9, "the score of a class is its mean F1 score");
        vp_assert(cr.getNbEvaluationPerClass().at(c) == n, "a class is weighted by its number of samples");
        total += f;
    }
    vp_assert(std::abs(cr.getResult() - total / N) < 1e-9, "the global score is the mean of the classes");
    vp_reach("end");
}
HARNESS(classdecimate)
{
    static const double ratios[] = {0.0, 0.34, 0.5, 0.67, 1.0};
    int N = 2;
    CSetup s(N);
    s.p.ratioDeletedRoots = ratios[vp_pick("ratio", vp_param("minRatio", 0), vp_param("maxRatio", 4))];
    s.agent();
    auto& g = *s.la->getTPGGraph();
    size_t n = vp_param("teams", 3), levels = vp_param("levels", 0);
    std::vector<V> roots;
    for (size_t i = 0; i < n; i++) roots.push_back(&s.team(0, 0));
    bool rootAct = vp_param("action", 0); // otherwise every action is used
    if (!rootAct) g.addNewEdge(*roots[0], *s.act[1], bidProgram(s.la->getEnvironment(), 1, 0));
    else roots.push_back(s.act[1]);
    Results r;
    std::map<V, std::vector<double>> sc;
    std::map<V, Res> of;
    for (V v : roots) {
        auto& x = sc[v];
        for (int c = 0; c < N; c++) x.push_back(levels ? (double)vp_pick("score", 0, levels - 1) : (double)vp_u64("score", 0, 7));
        of[v] = std::make_shared<ClassificationEvaluationResult>(x, std::vector<size_t>(N, 1));
        r.emplace(of[v], v);
        s.la->records()[v] = of[v];
    }
    size_t total = roots.size(), del = (size_t)std::floor(s.p.ratioDeletedRoots * (double)total), keep = total - del, k = keep / N / 2;
    s.la->decimateWorstRoots(r);
    auto left = g.getVertices();
    auto in = [&](V v) { return std::find(left.begin(), left.end(), v) != left.end(); };
    size_t gone = 0;
    for (V v : roots) gone += !in(v);
    vp_assert(in(s.act[0]) && in(s.act[1]), "actions are not removed");
    vp_assert(gone <= del && gone + rootAct >= del, "the configured share of the roots is removed");
    vp_assert(r.size() == total - gone, "the results of removed roots are removed");
    for (auto& e : r) vp_assert(in(e.second) && of[e.second] == e.first, "the results are those of the surviving roots");
    for (V v : roots) vp_assert(s.la->records().count(v) == (in(v) ? 1 : 0), "the records of removed roots are forgotten");
    auto better = [&](V v, int c, bool strict) {
        size_t b = 0;
        for (V w : roots)
            if (w != v && (strict ? sc[w][c] > sc[v][c] : sc[w][c] >= sc[v][c])) b++;
        return b;
    };
    for (V v : roots) {
        if (in(v)) continue;
        for (int c = 0; c < N; c++) vp_assert(better(v, c, false) >= k, "the best roots of each class are kept");
        for (V w : roots) {
            if (w == v || !in(w) || w == s.act[1]) continue;
            if (!(of[v]->getResult() > of[w]->getResult())) continue;
            bool special = false;
            for (int c = 0; c < N; c++) special |= better(w, c, true) < k;
            vp_assert(special, "no removed root is better than a root kept for its global score");
        }
        vp_reach("removed");
    }
    if (k) vp_reach("kept per class");
}
