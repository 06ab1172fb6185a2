// C32: statistics of instrumented executions.
#include "hx.h"
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
#include "tpg/tpgGraph.h"
#include <fstream>
#include <json.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace TPG;
typedef std::map<uint64_t, uint64_t> Count;

// what is executed: the engine counts the teams, the programs, and the lines of these programs
// (all of them: an intron is a line of the program, though its execution is skipped)
struct Counting : TPGExecutionEngineInstrumented {
    using TPGExecutionEngineInstrumented::TPGExecutionEngineInstrumented;
    uint64_t teams = 0, programs = 0, lines = 0;
    Count instr;
    double evaluateEdge(const TPGEdge& e) override
    {
        programs++;
        auto& p = e.getProgram();
        for (size_t i = 0; i < p.getNbLines(); i++) instr[p.getLine(i).getInstructionIndex()]++, lines++;
        return TPGExecutionEngineInstrumented::evaluateEdge(e);
    }
    const TPGEdge& evaluateTeam(const TPGTeam& t) override
    {
        teams++;
        return TPGExecutionEngineInstrumented::evaluateTeam(t);
    }
};
struct Inference {
    std::vector<const TPGVertex*> trace;
    uint64_t teams, programs, lines;
    Count instr;
};
struct SW {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> first, second;
    Data::PrimitiveTypeArray<double> data;
    std::unique_ptr<Environment> env;
    std::vector<std::shared_ptr<Program::Program>> progs;
    std::unique_ptr<TPGGraph> g;
    std::unique_ptr<Counting> tee;
    std::vector<const TPGVertex*> roots;
    std::vector<Inference> done;
    SW() : first(idFn), second([](double a) { return -a; }), data(2)
    {
        set.add(first);
        set.add(second);
        env = std::make_unique<Environment>(set, Sources{data}, 2);
        for (size_t i = 0; i < 2; i++) {
            progs.push_back(std::make_shared<Program::Program>(*env));
            size_t kind = vp_pick("kind of program", 0, i == 0 ? 3 : vp_param("kinds", 1));
            if (kind == 1) line(i, 1, 1, 1, i);       // without effect
            if (kind == 2) line(i, 1, 1, 1, i), line(i, 1, 0, 0, 1); // two needed lines, on r1
            if (kind != 2) line(i, 0, 0, 1, i);
            if (kind == 3) line(i, 1, 0, 0, 0), line(i, 0, 1, 1, i);
            if (i == 0 && kind == 3) line(i, 0, 1, 0, 1);
        }
        bool marked = vp_bool("introns are identified");
        if (marked)
            for (auto& p : progs) p->identifyIntrons();
        g = std::make_unique<TPGGraph>(*env, std::make_unique<TPGInstrumentedFactory>());
        tee = std::make_unique<Counting>(*env);
        size_t teams = vp_param("teams", 2);
        std::vector<const TPGVertex*> v;
        for (size_t i = 0; i < teams; i++) v.push_back(&g->addNewTeam());
        for (size_t i = 0; i < 2; i++) v.push_back(&g->addNewAction(i));
        for (size_t t = 0; t < teams; t++) {
            bool last = t + 1 == teams;
            for (size_t k = 0; k < 2; k++) g->addNewEdge(*v[t], *v[last ? t + 1 + k : vp_pick("dest", t + 1, teams + 1)], progs[k == 0 ? 0 : last ? 1 : vp_pick("prog", 0, 1)]);
        }
        if (vp_param("loneAction", 0)) g->addNewAction(9);
        for (auto r : g->getRootVertices()) roots.push_back(r);
    }
    void line(size_t p, uint64_t instr, uint64_t dest, uint64_t src, uint64_t loc)
    {
        auto& l = progs[p]->addNewLine();
        l.setInstructionIndex(instr);
        l.setDestinationIndex(dest);
        l.setOperand(0, src, loc);
    }
    void infer()
    {
        for (size_t i = 0; i < 2; i++) data.setDataAt(typeid(double), i, vp_double("input"));
        auto root = roots[vp_pick("root", 0, roots.size() - 1)];
        tee->instr.clear();
        tee->teams = tee->programs = tee->lines = 0;
        Inference x;
        x.trace = tee->executeFromRoot(*root);
        x.teams = tee->teams;
        x.programs = tee->programs;
        x.instr = tee->instr;
        x.lines = tee->lines;
        done.push_back(x);
        if (x.trace.size() > 2) vp_reach("several teams");
        if (x.trace.size() == 1) vp_reach("action alone");
    }
};
template <class M> static M positive(const M& m)
{
    M r;
    for (auto& p : m)
        if (p.second) r[p.first] = p.second;
    return r;
}
static bool average(double a, uint64_t total, size_t n)
{
    double d = a * (double)n - (double)total;
    return d <= 1e-6 && d >= -1e-6;
}
static void check(SW& w, const ExecutionStats& s, size_t firstTrace, const std::vector<Inference>& counted)
{
    uint64_t teams = 0, programs = 0, lines = 0;
    Count instr;
    for (auto& x : counted) {
        teams += x.teams, programs += x.programs, lines += x.lines;
        for (auto& p : x.instr) instr[p.first] += p.second;
    }
    size_t n = counted.size();
    vp_assert(average(s.getAvgEvaluatedTeams(), teams, n), "average number of teams");
    vp_assert(average(s.getAvgEvaluatedPrograms(), programs, n), "average number of programs");
    vp_assert(average(s.getAvgExecutedLines(), lines, n), "average number of lines");
    for (uint64_t i = 0; i < 2; i++) {
        auto it = s.getAvgNbExecutionPerInstruction().find(i);
        vp_assert(average(it == s.getAvgNbExecutionPerInstruction().end() ? 0 : it->second, instr[i], n), "average number of executions of an instruction");
    }
    vp_assert(positive(s.getAvgNbExecutionPerInstruction()).size() <= 2, "averages of existing instructions");
    auto& ts = s.getInferenceTracesStats();
    vp_assert(ts.size() == w.done.size() - firstTrace, "one record for each inference");
    std::map<size_t, size_t> dt, dp, dl;
    std::map<size_t, std::map<size_t, size_t>> di;
    std::map<const TPGVertex*, size_t> dv;
    for (size_t k = firstTrace; k < w.done.size(); k++) {
        auto& x = w.done[k];
        auto& t = ts[k - firstTrace];
        vp_assert(t.trace == x.trace, "trace of an inference");
        vp_assert(t.nbEvaluatedTeams == x.teams, "teams of an inference");
        vp_assert(t.nbEvaluatedPrograms == x.programs, "programs of an inference");
        vp_assert(t.nbExecutedLines == x.lines, "lines of an inference");
        vp_assert(positive(t.nbExecutionPerInstruction) == positive(x.instr), "instructions of an inference");
        dt[x.teams]++, dp[x.programs]++, dl[x.lines]++;
        for (auto& p : positive(x.instr)) di[p.first][p.second]++;
        for (auto v : x.trace) dv[v]++;
    }
    vp_assert(positive(s.getDistribEvaluatedTeams()) == dt, "distribution of the number of teams");
    vp_assert(positive(s.getDistribEvaluatedPrograms()) == dp, "distribution of the number of programs");
    vp_assert(positive(s.getDistribExecutedLines()) == dl, "distribution of the number of lines");
    std::map<size_t, std::map<size_t, size_t>> got;
    for (auto& p : s.getDistribNbExecutionPerInstruction())
        for (auto& q : positive(p.second))
            if (q.first) got[p.first][q.first] = q.second;
    vp_assert(got == di, "distribution of the number of executions of an instruction");
    vp_assert(positive(s.getDistribUsedVertices()) == dv, "distribution of the vertices");
}
static Json::Value written(const ExecutionStats& s, bool noIndent)
{
    int fd = memfd_create("stats", 0);
    std::string path = "/proc/self/fd/" + std::to_string(fd);
    s.writeStatsToJson(path.c_str(), noIndent);
    Json::Value r;
    std::ifstream in(path);
    bool ok = true;
    try {
        in >> r;
    }
    catch (const std::exception&) {
        ok = false;
    }
    vp_assert(ok, "the statistics are written as JSON");
    close(fd);
    return r;
}
static bool near(const Json::Value& v, double d) { return v.isNumeric() && std::fabs(v.asDouble() - d) <= 1e-4; }
template <class M> static void table(const Json::Value& v, const M& m, const char* what)
{
    size_t n = 0;
    for (auto& p : positive(m)) {
        n++;
        auto k = std::to_string(p.first);
        vp_assert(v.isMember(k) && near(v[k], p.second), what);
    }
    if (v.isObject())
        for (auto& k : v.getMemberNames())
            if (v[k].asDouble() != 0) vp_assert(n-- > 0, what);
}
static void checkJson(SW& w, const ExecutionStats& s, size_t firstTrace)
{
    Json::Value r = written(s, vp_bool("no indentation"));
    auto& e = r["ExecutionStats"];
    vp_assert(near(e["avgEvaluatedTeams"], s.getAvgEvaluatedTeams()), "teams in the file");
    vp_assert(near(e["avgEvaluatedPrograms"], s.getAvgEvaluatedPrograms()), "programs in the file");
    vp_assert(near(e["avgExecutedLines"], s.getAvgExecutedLines()), "lines in the file");
    table(e["avgNbExecutionPerInstruction"], s.getAvgNbExecutionPerInstruction(), "instructions in the file");
    table(e["distributionEvaluatedTeams"], s.getDistribEvaluatedTeams(), "distribution of the teams in the file");
    table(e["distributionEvaluatedPrograms"], s.getDistribEvaluatedPrograms(), "distribution of the programs in the file");
    table(e["distributionExecutedLines"], s.getDistribExecutedLines(), "distribution of the lines in the file");
    for (auto& p : s.getDistribNbExecutionPerInstruction())
        table(e["distributionNbExecutionPerInstruction"][std::to_string(p.first)], p.second, "distribution of an instruction in the file");
    std::map<const TPGVertex*, size_t> index;
    for (auto v : w.g->getVertices()) {
        size_t i = index.size();
        index[v] = i;
    }
    std::map<size_t, size_t> used;
    for (auto& p : s.getDistribUsedVertices()) used[index.at(p.first)] = p.second;
    table(e["distributionUsedVertices"], used, "distribution of the vertices in the file");
    auto& t = r["TracesStats"];
    vp_assert(t.size() == w.done.size() - firstTrace, "inferences in the file");
    for (size_t k = firstTrace; k < w.done.size(); k++) {
        auto& x = w.done[k];
        auto& j = t[std::to_string(k - firstTrace)];
        vp_assert(j["trace"].size() == x.trace.size(), "length of a trace in the file");
        for (size_t i = 0; i < x.trace.size(); i++) vp_assert(j["trace"][(int)i].asUInt64() == index.at(x.trace[i]), "trace in the file");
        vp_assert(near(j["nbEvaluatedTeams"], x.teams) && near(j["nbEvaluatedPrograms"], x.programs) && near(j["nbExecutedLines"], x.lines), "inference in the file");
        table(j["nbExecutionPerInstruction"], x.instr, "instructions of an inference in the file");
    }
    vp_reach("written");
}
HARNESS(execstats)
{
    SW w;
    size_t runs = vp_param("runs", 2);
    ExecutionStats s;
    for (size_t i = 0; i < runs; i++) w.infer();
    // statistics of an earlier analysis are forgotten
    if (vp_param("again", 0)) {
        s.analyzeExecution(*w.tee, w.g.get());
        check(w, s, 0, w.done);
        bool reset = vp_bool("counters are reset"), clear = reset && vp_bool("other inferences after the reset");
        if (reset) {
            TPGInstrumentedFactory().resetTPGGraphCounters(*w.g);
            w.tee->clearTraceHistory();
            w.done.clear();
            w.infer();
            if (clear) w.infer();
        }
        vp_reach("again");
    }
    s.analyzeExecution(*w.tee, w.g.get());
    check(w, s, 0, w.done);
    if (vp_param("json", 0)) checkJson(w, s, 0);
    vp_reach("end");
}
