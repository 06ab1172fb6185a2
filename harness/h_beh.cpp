// C27: mutation of program behaviours.
#include <memory>
#include <random>
#include <string>
#define protected public
#include "mutator/rng.h"
#undef protected
#include "rngstub.h"
#include "mutator/mutationParameters.h"
#include "mutator/programMutator.h"
#include "mutator/tpgMutator.h"
#include <algorithm>

typedef std::shared_ptr<Program::Program> Prog;
// What a mutation of a program does is the subject of C08: here its outcome is arbitrary.
static long mutations, maxMutations, trueReturns;
static Mutator::RNG* current;
static bool mayFail = true;
static void (*onMutation)(Program::Program&);
namespace Mutator {
    bool ProgramMutator::mutateProgram(Program::Program& p, const MutationParameters&, RNG& rng)
    {
        current = &rng;
        if (++mutations > maxMutations) vp_cut("number of mutations");
        bool did = mayFail ? vp_pick("mutated", 0, 1) : true;
        if (did) {
            onMutation(p);
            trueReturns++;
        }
        return did;
    }
} // namespace Mutator
static double negate(double a) { return -a; }
struct BW {
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i0{idFn};
    Instructions::LambdaInstruction<double> i1{negate};
    Data::PrimitiveTypeArray<double> data{2};
    Data::PrimitiveTypeArray<int> tag{1};
    std::unique_ptr<Environment> env;
    BW()
    {
        set.add(i0);
        set.add(i1);
        env = std::make_unique<Environment>(set, Sources{data, tag}, 2);
    }
    // reference interpreter
    static double run(const Program::Program& p, const std::vector<double>& d)
    {
        double r[2] = {0, 0};
        for (size_t i = 0; i < p.getNbLines(); i++) {
            auto& l = p.getLine(i);
            auto o = l.getOperand(0);
            double x = o.first == 0 ? r[o.second] : d[o.second];
            r[l.getDestinationIndex()] = l.getInstructionIndex() ? -x : x;
        }
        return r[0];
    }
};
// the useful lines of a program
struct Useful {
    std::vector<uint64_t> v;
    explicit Useful(const Program::Program& p)
    {
        std::vector<bool> useful(p.getNbLines());
        bool need[2] = {true, false};
        for (size_t i = p.getNbLines(); i-- > 0;) {
            auto& l = p.getLine(i);
            bool& n = need[l.getDestinationIndex()];
            if (!n) continue;
            n = false;
            useful[i] = true;
            if (l.getOperand(0).first == 0) need[l.getOperand(0).second] = true;
        }
        for (size_t i = 0; i < p.getNbLines(); i++) {
            if (!useful[i]) continue;
            auto& l = p.getLine(i);
            for (uint64_t x : {l.getInstructionIndex(), l.getDestinationIndex(), l.getOperand(0).first, l.getOperand(0).second}) v.push_back(x);
        }
    }
};
static void anyLines(Program::Program& p)
{
    while (p.getNbLines()) p.removeLine(0);
    size_t n = vp_pick("lines", 1, vp_param("lines", 2));
    for (size_t i = 0; i < n; i++) {
        auto& l = p.addNewLine();
        l.setInstructionIndex(vp_pick("instruction", 0, vp_param("instructions", 1)));
        l.setDestinationIndex(i + 1 == n ? 0 : vp_pick("dest", 0, 1));
        l.setOperand(0, i ? vp_pick("source", 0, 1) : 1, i == 0 ? vp_pick("loc", 0, 1) : 1);
    }
    p.identifyIntrons();
}
HARNESS(behaviour)
{
    BW w;
    onMutation = anyLines;
    maxMutations = vp_param("mutations", 3);
    Archive arch(4);
    // an archive of up to two contents, results of one or two programs
    Program::Program q0(*w.env), q1(*w.env);
    size_t records = vp_pick("records", 0, vp_param("records", 2));
    struct R {
        const Program::Program* p;
        double x;
        std::vector<double> d;
    };
    std::vector<R> rec;
    for (size_t i = 0; i < records; i++) {
        R r;
        for (size_t k = 0; k < 2; k++) {
            r.d.push_back(i ? -3.0 + 5 * k : 1.0 + k);
            w.data.setDataAt(typeid(double), k, r.d[k]);
        }
        w.tag.setDataAt(typeid(int), 0, (int)i); // contents that differ
        r.x = vp_param("anyResult", 0) ? vp_double("result") : (double)((int)vp_u64("result", 0, 15) - 8);
        r.p = i && vp_pick("other program", 0, 1) ? &q1 : &q0;
        rec.push_back(r);
        arch.addRecording(r.p, w.env->getDataSources(), r.x, true);
    }
    Prog p = std::make_shared<Program::Program>(*w.env);
    anyLines(*p);
    Useful before(*p);
    Mutator::MutationParameters mp;
    mp.tpg.forceProgramBehaviorChangeOnMutation = vp_pick("forced", 0, 1);
    Mutator::RNG rng;
    const Program::Program* own = p.get();
    Mutator::TPGMutator::mutateProgramBehaviorAgainstArchive(p, mp, arch, rng);
    vp_assert(p.get() == own, "the program given is mutated");
    vp_assert(trueReturns >= 1, "the program is mutated at least once");
    if (mp.tpg.forceProgramBehaviorChangeOnMutation) {
        Useful after(*p);
        vp_assert(after.v != before.v, "the useful lines change");
        vp_reach("forced");
    }
    // results of the program on the data of the archive
    for (auto* q : {&q0, &q1}) {
        bool any = false, all = true;
        for (auto& r : rec)
            if (r.p == q) {
                any = true;
                double d = BW::run(*p, r.d) - r.x;
                all = all & (std::fabs(d) <= 1e-4);
            }
        vp_assert(!(any & all), "the results are not those of an archived program");
    }
    vp_reach(mutations > 1 ? "mutated again" : "mutated once");
}
// every program is processed once, with its own seed
static std::vector<std::pair<const Program::Program*, uint64_t>> processed;
HARNESS(newbehaviours)
{
    BW w;
    maxMutations = 100;
    mayFail = false;
    size_t n = vp_pick("programs", 0, vp_param("programs", 3));
    std::list<Prog> list;
    std::vector<const Program::Program*> in;
    for (size_t i = 0; i < n; i++) {
        list.push_back(std::make_shared<Program::Program>(*w.env));
        list.back()->addNewLine();
        in.push_back(list.back().get());
    }
    onMutation = [](Program::Program& p) { auto e = *current->engine;
        uint64_t x = e(), seed = 0;
        for (uint64_t k = 100; k < 110; k++)
            if (std::mt19937_64(k)() == x) seed = k;
        if (!seedLog.empty()) seed = seedLog.back(); // seeded later
        processed.push_back({&p, seed}); };
    static uint64_t nextSeed;
    nextSeed = 0;
    intDrawHook = [](uint64_t lo, uint64_t hi, uint64_t& v) {
        vp_assert(lo == 0 && hi == UINT64_MAX, "any seed can be drawn");
        v = 100 + nextSeed++;
        return true;
    };
    Mutator::MutationParameters mp;
    Mutator::RNG rng;
    Archive arch(4);
    seedLog.clear();
    Mutator::TPGMutator::mutateNewProgramBehaviors(vp_pick("threads", 0, 1), list, rng, mp, arch);
    vp_assert(nextSeed == n, "one seed is drawn for each program");
    vp_assert(list.size() == n, "the programs given are kept");
    vp_assert(processed.size() == n, "every program is processed once");
    for (size_t i = 0; i < n; i++) vp_assert(processed[i].first == in[i] && processed[i].second == 100 + i, "each program is processed with its own seed, in order");
    vp_reach("end");
}
