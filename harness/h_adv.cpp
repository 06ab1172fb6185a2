// C26: adversarial evaluation.
#include "rngstub.h"
#include "learn/adversarialLearningAgent.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
#include <algorithm>
using namespace Learn;
typedef const TPG::TPGVertex* V;
typedef std::shared_ptr<EvaluationResult> Res;
typedef std::multimap<Res, V> Results;

struct Game {
    std::vector<uint64_t> actions; // in order
    std::vector<double> scores;
};
struct AdvEnv : AdversarialLearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    size_t agents, endAfter = 0;
    bool symScore = false, symEnd = false, over = false;
    std::vector<Game> games;
    std::vector<uint64_t> seeds;
    LearningMode mode = LearningMode::TRAINING;
    explicit AdvEnv(uint64_t n, size_t a) : AdversarialLearningEnvironment(n), agents(a) {}
    void reset(size_t s, LearningMode m, uint16_t, uint64_t) override
    {
        vp_assert(m == mode, "the games are played in the mode of the evaluation");
        seeds.push_back(s);
        games.emplace_back();
        end();
    }
    void end() { over = symEnd ? vp_bool("over") : games.back().actions.size() >= endAfter; }
    void doAction(uint64_t a) override
    {
        vp_assert(!over, "no action once the game is over");
        games.back().actions.push_back(a);
        end();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    bool isTerminal() const override { return over; }
    std::shared_ptr<AdversarialEvaluationResult> getScores() const override
    {
        auto* me = const_cast<AdvEnv*>(this);
        std::vector<double> s;
        for (size_t i = 0; i < agents; i++) s.push_back(symScore ? (double)((int)vp_u64("score", 0, 15) - 8) : (double)((games.size() * 5 + i * 3) % 7));
        me->games.back().scores = s;
        if (agents == 1) return std::shared_ptr<AdversarialEvaluationResult>(new AdversarialEvaluationResult(std::initializer_list<double>{s[0]}));
        if (agents == 2) return std::shared_ptr<AdversarialEvaluationResult>(new AdversarialEvaluationResult({s[0], s[1]}));
        return std::shared_ptr<AdversarialEvaluationResult>(new AdversarialEvaluationResult({s[0], s[1], s[2]}));
    }
};
struct Agent : AdversarialLearningAgent {
    using AdversarialLearningAgent::AdversarialLearningAgent;
    std::vector<V>& champ() { return champions; }
    LearningParameters& p() { return params; }
};
struct Setup {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    Instructions::LambdaInstruction<double, double> i1{uf2};
    LearningParameters p;
    size_t agents;
    AdvEnv le;
    std::unique_ptr<Agent> la;
    std::vector<V> root;
    explicit Setup(size_t ag) : agents(ag), le(8, ag)
    {
        set.add(i0);
        set.add(i1);
        p.nbRegisters = 1;
        p.archivingProbability = 1.0;
        p.archiveSize = 5;
        p.maxNbActionsPerEval = 2;
        p.nbThreads = 1;
        p.nbIterationsPerPolicyEvaluation = vp_pick("iterations", 1, vp_param("iterations", 4));
        p.nbIterationsPerJob = vp_pick("per job", 1, vp_param("perJob", 2));
        static const double ratios[] = {0.5, 0.0, 0.25, 0.9, 1.0};
        p.ratioDeletedRoots = ratios[vp_pick("ratio", 0, vp_param("ratios", 4))];
        p.mutation.tpg.nbRoots = 4;
        la = std::make_unique<Agent>(le, set, p, agents);
    }
    // a root playing a single action
    void addRoot(bool action)
    {
        auto& g = *la->getTPGGraph();
        auto& a = g.addNewAction(root.size());
        if (action) {
            root.push_back(&a);
            return;
        }
        auto& t = g.addNewTeam();
        g.addNewEdge(t, a, bidProgram(la->getEnvironment(), 1, 0));
        root.push_back(&t);
    }
    size_t teams() const
    {
        size_t d = agents * p.nbIterationsPerJob;
        return (p.nbIterationsPerPolicyEvaluation + d - 1) / d;
    }
    size_t playedAction(V v) const { return std::find(root.begin(), root.end(), v) - root.begin(); }
};

HARNESS(advjobs)
{
    Setup s(vp_pick("agents", 1, vp_param("agents", 3)));
    size_t n = vp_pick("roots", 1, vp_param("roots", 3));
    for (size_t i = 0; i < n; i++) s.addRoot(i == 0 && vp_param("action", 0));
    std::vector<V> before;
    if (vp_pick("champions", 0, 1)) {
        for (size_t i = 0; i < n; i++)
            if (i == n - 1 || vp_pick("champion", 0, 1)) before.push_back(s.root[i]);
        s.la->champ() = before;
    }
    static std::vector<uint64_t> drawn;
    drawn.clear();
    intDrawHook = [](uint64_t lo, uint64_t hi, uint64_t& v) {
        if (hi == UINT64_MAX) {
            v = 1000 + drawn.size();
            drawn.push_back(v);
        }
        else v = vp_pick("opponent", lo, hi);
        return true;
    };
    auto q = s.la->makeJobs(LearningMode::TRAINING);
    intDrawHook = nullptr;
    auto& ch = s.la->champ();
    vp_assert(!ch.empty(), "there are opponents");
    for (auto c : ch) vp_assert(std::find(s.root.begin(), s.root.end(), c) != s.root.end(), "opponents are roots of the graph");
    if (!before.empty()) vp_assert(ch == before, "the champions are the opponents");
    vp_assert(q.size() == n * s.teams() * s.agents, "number of jobs");
    vp_assert(drawn.size() == q.size(), "one archive seed for each job");
    std::vector<std::vector<V>> team(s.teams());
    size_t idx = 0;
    for (size_t r = 0; r < n; r++)
        for (size_t t = 0; t < s.teams(); t++)
            for (size_t pos = 0; pos < s.agents; pos++, idx++, q.pop()) {
                auto j = std::dynamic_pointer_cast<AdversarialJob>(q.front());
                vp_assert(j != nullptr && j->getSize() == s.agents && j->getRoots().size() == s.agents, "a job holds exactly the number of agents of the environment");
                vp_assert(j->getPosOfStudiedRoot() == (int)pos && (*j)[pos] == s.root[r], "every root plays in each position");
                vp_assert(j->getIdx() == idx && j->getArchiveSeed() == drawn[idx], "jobs are numbered and seeded in order");
                std::vector<V> opp = j->getRoots();
                opp.erase(opp.begin() + pos);
                if (r == 0 && pos == 0) team[t] = opp;
                vp_assert(opp == team[t], "every root plays each position against the same teams of opponents");
                for (auto o : opp) vp_assert(std::find(ch.begin(), ch.end(), o) != ch.end(), "opponents are champions");
            }
    vp_reach(s.teams() > 1 ? "several teams" : "one team");
}

HARNESS(advevaluate)
{
    size_t agents = vp_param("agents", 2);
    Setup s(agents);
    size_t n = vp_param("roots", 2);
    for (size_t i = 0; i < n; i++) s.addRoot(i == 1 && vp_param("action", 0));
    s.le.symScore = vp_param("symScore", 1);
    s.le.symEnd = vp_param("symEnd", 0);
    s.le.endAfter = s.le.symEnd ? 0 : vp_pick("length", 0, vp_param("length", 0) ? 6 : 0);
    if (!vp_param("length", 0)) s.le.endAfter = 3;
    uint64_t gen = vp_pick("generation", 0, 1);
    auto mode = vp_param("validation", 0) ? LearningMode::VALIDATION : LearningMode::TRAINING;
    s.le.mode = mode;
    // the same opponents again, to know who plays
    static size_t k;
    k = 0;
    intDrawHook = [](uint64_t lo, uint64_t hi, uint64_t& v) {
        if (hi == UINT64_MAX) v = 0;
        else v = lo + k++ % (hi - lo + 1);
        return true;
    };
    auto q = s.la->makeJobs(mode);
    k = 0;
    Results res = s.la->evaluateAllRoots(gen, mode);
    intDrawHook = nullptr;
    std::vector<double> sum(n, 0.0);
    std::vector<size_t> count(n, 0);
    size_t g = 0;
    for (; !q.empty(); q.pop()) {
        auto& j = dynamic_cast<AdversarialJob&>(*q.front());
        size_t pos = j.getPosOfStudiedRoot(), r = s.playedAction(j[pos]);
        for (size_t it = 0; it < s.p.nbIterationsPerJob; it++, g++) {
            vp_assert(g < s.le.games.size(), "every job is played");
            auto& gm = s.le.games[g];
            Data::Hash<uint64_t> h;
            vp_assert(s.le.seeds[g] == (h(gen) ^ h((uint64_t)it)), "each iteration has its seed");
            for (size_t a = 0; a < gm.actions.size(); a++) vp_assert(gm.actions[a] == s.playedAction(j[a % agents]), "the agents act in turn, each through its own root");
            vp_assert(gm.actions.size() <= agents * s.p.maxNbActionsPerEval, "the maximum number of turns is respected");
            if (!s.le.symEnd) vp_assert(gm.actions.size() == std::min<size_t>(s.le.endAfter, agents * s.p.maxNbActionsPerEval), "a game is played until it ends");
            sum[r] += gm.scores[pos];
            count[r]++;
        }
    }
    vp_assert(g == s.le.games.size(), "no other game is played");
    vp_assert(res.size() == n, "one result for each root");
    std::set<V> seen;
    std::vector<double> ranked;
    std::map<V, double> of;
    for (auto& x : res) {
        size_t r = s.playedAction(x.second);
        vp_assert(r < n && seen.insert(x.second).second, "each root has one result");
        vp_assert(x.first->getNbEvaluation() == count[r], "number of evaluations of a root");
        double d = x.first->getResult() * (double)count[r] - sum[r];
        vp_assert(s.le.symScore ? d == 0.0 : d <= 1e-9 && -d <= 1e-9, "the result of a root is the mean of its scores at the positions it played");
        ranked.push_back(x.first->getResult());
        of[x.second] = x.first->getResult();
    }
    auto& ch = s.la->champ();
    for (auto c : ch) {
        vp_assert(of.count(c) == 1, "champions are evaluated roots");
        for (auto& x : of)
            if (std::find(ch.begin(), ch.end(), x.first) == ch.end()) vp_assert(of[c] >= x.second, "champions are the best roots");
    }
    vp_reach("end");
}
// Training again after a restart, or after only the best policy was kept
HARNESS(advagain)
{
    Setup s(2);
    for (size_t i = 0; i < 2; i++) s.addRoot(false);
    s.le.endAfter = 2;
    intDrawHook = [](uint64_t lo, uint64_t hi, uint64_t& v) {
        v = hi == UINT64_MAX ? 0 : lo;
        return true;
    };
    auto res = s.la->evaluateAllRoots(0, LearningMode::TRAINING);
    auto& g = *s.la->getTPGGraph();
    std::vector<V> gone = s.root;
    bool all = vp_pick("all", 0, 1);
    std::vector<V> left;
    for (size_t i = 0; i < 2; i++) {
        if (all || vp_pick("removed", 0, 1)) g.removeVertex(*s.root[i]);
        else left.push_back(s.root[i]);
    }
    if (left.empty()) {
        s.root.clear();
        s.addRoot(false);
    }
    auto q = s.la->makeJobs(LearningMode::TRAINING);
    vp_assert(!q.empty(), "jobs");
    for (; !q.empty(); q.pop())
        for (auto v : dynamic_cast<AdversarialJob&>(*q.front()).getRoots()) vp_assert(g.hasVertex(*v), "only vertices of the graph play");
    intDrawHook = nullptr;
    vp_reach("end");
}
