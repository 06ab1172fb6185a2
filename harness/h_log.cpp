// C33: loggers of a training.
#include "rngstub.h"
#include "learn/learningAgent.h"
#include "log/laBasicLogger.h"
#include "log/laPolicyStatsLogger.h"
#include "mutator/tpgMutator.h"
#include "tpg/policyStats.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgGraph.h"
#include "tpg/tpgTeam.h"
#include <iomanip>
using namespace Learn;
typedef const TPG::TPGVertex* V;
typedef std::shared_ptr<EvaluationResult> Res;
typedef std::multimap<Res, V> Results;

// A number of the text that depends on symbolic inputs is written as # and an index.
static std::vector<double> numbers;
extern "C" std::ostream& __real__ZNSo9_M_insertIdEERSoT_(std::ostream*, double);
extern "C" std::ostream& __wrap__ZNSo9_M_insertIdEERSoT_(std::ostream* o, double d)
{
    if (!vp_is_symbolic(dbits(d))) return __real__ZNSo9_M_insertIdEERSoT_(o, d);
    numbers.push_back(d);
    return *o << "#" + std::to_string(numbers.size() - 1);
}
static double number(const std::string& s)
{
    if (s[0] == '#') return numbers.at(std::stoul(s.substr(1)));
    size_t n = 0;
    double d = 0;
    try {
        d = std::stod(s, &n);
    }
    catch (const std::exception&) {
    }
    vp_assert(n == s.size() && n > 0, "a number is logged");
    return d;
}
static bool near(double a, double b) { return a - b <= 1e-4 && b - a <= 1e-4; }
static std::vector<std::string> words(const std::string& s)
{
    std::istringstream in(s);
    std::vector<std::string> r;
    for (std::string w; in >> w;) r.push_back(w);
    return r;
}

// The mutation of the population is the subject of C10: new roots are teams of one edge here.
static std::vector<std::string> events;
static std::function<void(TPG::TPGGraph&)> population;
namespace Mutator {
    void TPGMutator::populateTPG(TPG::TPGGraph& g, const Archive&, const MutationParameters&, RNG&, uint64_t)
    {
        events.push_back("populate");
        population(g);
    }
} // namespace Mutator

struct LEnv : LearningEnvironment {
    Data::PrimitiveTypeArray<double> data{2};
    LEnv() : LearningEnvironment(8) {}
    void reset(size_t, LearningMode, uint16_t, uint64_t) override {}
    void doAction(uint64_t) override {}
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    double getScore() const override { return (double)((int)vp_u64("score", 0, vp_param("scores", 7)) - 3); }
    bool isTerminal() const override { return true; }
};
struct LAgent : LearningAgent {
    using LearningAgent::LearningAgent;
    std::map<LearningMode, Results> last;
    Results evaluateAllRoots(uint64_t gen, LearningMode mode) override
    {
        events.push_back(mode == LearningMode::TRAINING ? "evaluate" : "validate");
        return last[mode] = LearningAgent::evaluateAllRoots(gen, mode);
    }
    void decimateWorstRoots(Results& r) override
    {
        events.push_back("decimate");
        LearningAgent::decimateWorstRoots(r);
    }
};
static LAgent* agent;
static uint64_t gen;
static void sameResults(const Results& a, const Results& b)
{
    vp_assert(a.size() == b.size(), "a logger gets all the results");
    auto i = b.begin();
    for (auto& p : a) {
        vp_assert(p.first == i->first && p.second == i->second, "a logger gets the results of the evaluation");
        i++;
    }
}
struct Recorder : Log::LALogger {
    std::string name;
    size_t rootsEvaluated = 0;
    std::stringstream text;
    Recorder(LearningAgent& la, const char* n) : Log::LALogger(la, sink), name(n) {}
    static std::stringstream sink;
    void event(const char* e) { events.push_back(name + e); }
    void logHeader() override { event("header"); }
    void logNewGeneration(uint64_t& g) override
    {
        event("new");
        vp_assert(g == gen, "the number of the generation is logged");
    }
    void logAfterPopulateTPG() override
    {
        event("populated");
        rootsEvaluated = agent->getTPGGraph()->getNbRootVertices();
    }
    void logAfterEvaluate(Results& r) override
    {
        event("evaluated");
        sameResults(r, agent->last[LearningMode::TRAINING]);
        vp_assert(r.size() == rootsEvaluated && agent->getTPGGraph()->getNbRootVertices() == rootsEvaluated, "results of all roots, not decimated yet");
    }
    void logAfterDecimate() override
    {
        event("decimated");
        // decimated, and records updated
        auto best = agent->getBestRoot();
        vp_assert(best.first && best.second, "the best root is known");
        for (auto& p : agent->last[LearningMode::TRAINING])
            if (agent->getTPGGraph()->hasVertex(*p.second)) vp_assert(p.first->getResult() <= best.second->getResult(), "the best root is up to date");
    }
    void logAfterValidate(Results& r) override
    {
        event("validated");
        sameResults(r, agent->last[LearningMode::VALIDATION]);
    }
    void logEndOfTraining() override { event("end"); }
};
std::stringstream Recorder::sink;

// the row logged for a generation
static void checkScores(const std::vector<std::string>& w, size_t& at, const Results& r)
{
    double min = number(w[at++]), avg = number(w[at++]), max = number(w[at++]), sum = 0;
    bool isMin = false, isMax = false;
    for (auto& p : r) {
        double x = p.first->getResult();
        vp_assert((min <= x + 1e-4) & (x <= max + 1e-4), "no score is outside of the logged range");
        isMin |= near(x, min);
        isMax |= near(x, max);
        sum += x;
    }
    vp_assert(isMin, "the logged minimum is a score");
    vp_assert(isMax, "the logged maximum is a score");
    vp_assert(near(avg * (double)r.size(), sum) | near(avg, sum / (double)r.size()), "the logged average is that of the scores");
}
HARNESS(logged)
{
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    set.add(i0);
    Instructions::LambdaInstruction<double, double> i1{uf2};
    set.add(i1);
    LEnv le;
    LearningParameters p;
    p.nbRegisters = 1;
    p.archivingProbability = 0.0;
    p.archiveSize = 1;
    p.maxNbActionsPerEval = 1;
    p.nbIterationsPerPolicyEvaluation = 1;
    p.maxNbEvaluationPerPolicy = 1000;
    p.mutation.tpg.nbRoots = vp_param("roots", 2);
    p.mutation.tpg.nbActions = 8;
    p.nbGenerations = vp_param("generations", 2);
    p.ratioDeletedRoots = vp_pick("deleted", 0, 1) / (double)p.mutation.tpg.nbRoots + 0.01;
    p.doValidation = vp_bool("validation");
    LAgent la(le, set, p);
    agent = &la;
    int nextAction = 0;
    population = [&](TPG::TPGGraph& g) {
        while (g.getNbRootVertices() < p.mutation.tpg.nbRoots) g.addNewEdge(g.addNewTeam(), g.addNewAction(nextAction++), bidProgram(g.getEnvironment(), 1, 0));
    };
    std::stringstream basicText, statsText;
    Recorder a(la, "a:");
    events.clear();
    Log::LABasicLogger basic(la, basicText);
    Recorder b(la, "b:");
    Log::LAPolicyStatsLogger stats(la, statsText);
    vp_assert(events.empty() || (events.size() == 1 && events[0] == "b:header"), "only the new logger writes its header");
    vp_assert(statsText.str().empty() || statsText.str().find("Generation") == std::string::npos, "no policy is logged before the training");
    auto header = basicText.str();
    size_t columns = 0;
    {
        auto lines = std::istringstream(header);
        std::string l;
        while (std::getline(lines, l))
            if (!words(l).empty()) columns = words(l).size();
    }
    V lastBest = nullptr;
    for (gen = 0; gen < p.nbGenerations; gen++) {
        events.clear();
        basicText.str("");
        statsText.str("");
        size_t vertices = 0;
        la.trainOneGeneration(gen);
        vp_assert(!la.getTPGGraph()->getVertices().empty(), "a population is left");
        std::vector<std::string> want = {"a:new", "b:new", "populate", "a:populated", "b:populated", "evaluate", "a:evaluated", "b:evaluated", "decimate", "a:decimated", "b:decimated"};
        if (p.doValidation) want.insert(want.end(), {"validate", "a:validated", "b:validated"});
        want.insert(want.end(), {"a:end", "b:end"});
        vp_assert(events == want, "loggers are told the steps of a generation, in their order");
        // basic logger
        auto w = words(basicText.str());
        vp_assert(w.size() == columns, "one value for each column of the header");
        size_t at = 0;
        vp_assert(w[at++] == std::to_string(gen), "number of the generation in the log");
        (void)vertices;
        vp_assert(std::stoul(w[at++]) >= la.last[LearningMode::TRAINING].size(), "number of vertices in the log");
        checkScores(w, at, la.last[LearningMode::TRAINING]);
        if (p.doValidation) checkScores(w, at, la.last[LearningMode::VALIDATION]), vp_reach("validated");
        while (at < w.size()) number(w[at++]);
        auto t = basicText.str();
        vp_assert(!t.empty() && t.back() == '\n' && std::count(t.begin(), t.end(), '\n') == 1, "one line for each generation");
        // policy of a new best root
        auto best = la.getBestRoot();
        auto s = statsText.str();
        if (best.first == lastBest) {
            vp_assert(s.find("Generation") == std::string::npos && s.find("PolicyStats") == std::string::npos, "nothing is logged while the best root is the same");
            vp_reach("same best root");
        }
        else {
            lastBest = best.first;
            auto sw = words(s);
            vp_assert(sw.size() > 5 && sw[0] == "Generation" && sw[1] == std::to_string(gen) && sw[3] == "Score", "generation of a new best root");
            vp_assert(near(number(sw[4]), best.second->getResult()), "score of a new best root");
            std::stringstream ref;
            TPG::PolicyStats ps;
            ps.setEnvironment(la.getTPGGraph()->getEnvironment());
            ps.analyzePolicy(best.first);
            ref << ps;
            vp_assert(s.find(ref.str()) != std::string::npos, "statistics of a new best root");
            vp_reach(gen ? "new best root" : "first best root");
        }
    }
    vp_reach("end");
}
