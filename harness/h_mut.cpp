// C07: line mutation.  C08: program mutation.
#include "world.h"
#include "rngstub.h"
#include "mutator/lineMutator.h"
#include "mutator/mutationParameters.h"
#include "mutator/programMutator.h"
#include "program/programExecutionEngine.h"

static Shape fullShape()
{
    Shape s;
    s.regs = vp_param("regs", 2);
    s.consts = vp_param("consts", 2);
    s.d2 = s.di = true;
    s.ins = {I2, IW2, II};
    if (vp_param("all", 1)) s.ins = {I1, I2, IW, IW2, II};
    if (s.consts) s.ins.push_back(IC);
    if (s.consts >= 2 && vp_param("all", 1)) s.ins.push_back(ICW);
    return s;
}
struct Fields {
    uint64_t ins, dest;
    std::vector<std::pair<uint64_t, uint64_t>> op;
    bool operator==(const Fields& o) const { return ins == o.ins && dest == o.dest && op == o.op; }
};
static Fields fields(const Program::Line& l)
{
    Fields f;
    f.ins = l.getInstructionIndex();
    f.dest = l.getDestinationIndex();
    for (size_t k = 0; k < l.getEnvironment().getMaxNbOperands(); k++) f.op.push_back(l.getOperand(k));
    return f;
}
static void checkValid(const World& w, const Program::Line& l)
{
    uint64_t ins = vp_conc(l.getInstructionIndex());
    vp_assert(ins < w.sh.ins.size(), "the instruction index is valid");
    vp_assert(l.getDestinationIndex() < w.sh.regs, "the destination index is valid");
    const char* o = World::ops(w.sh.ins[ins]);
    for (size_t k = 0; k < strlen(o); k++) {
        uint64_t s = vp_conc(l.getOperand(k).first);
        vp_assert(s < w.src.size(), "the data source of an operand exists");
        vp_assert(w.space(w.src[s], o[k]) > 0, "the data source of an operand can provide its type");
        vp_assert(l.getOperand(k).second <= w.lastLoc(), "the location of an operand is below the largest address space");
    }
    for (size_t k = strlen(o); k < w.env->getMaxNbOperands(); k++) {
        vp_assert(l.getOperand(k).first < w.src.size(), "the data source of an unused operand exists");
        vp_assert(l.getOperand(k).second <= w.lastLoc(), "the location of an unused operand is below the largest address space");
    }
}
static void checkRuns(World& w, Program::Program& p)
{
    if (!vp_param("run", 0)) return;
    Program::ProgramExecutionEngine e(p);
    double r;
    bool ok = true;
    try {
        r = e.executeProgram();
    }
    catch (const std::exception&) {
        ok = false;
    }
    vp_assert(ok, "a mutated line executes without error");
    (void)w;
}
// an arbitrary valid line, unused operands included
static void anyLine(const World& w, Program::Line& l)
{
    const_cast<World&>(w).symLine(l, true, false);
    const char* o = World::ops(w.sh.ins[l.getInstructionIndex()]);
    for (size_t k = strlen(o); k < w.env->getMaxNbOperands(); k++) {
        uint64_t s = vp_u64("unused src", 0, w.src.size() - 1), c = vp_u64("unused loc", 0, w.lastLoc());
        l.setOperand(k, s, c);
    }
}

HARNESS(initline)
{
    World w(fullShape());
    Program::Program p(*w.env);
    auto& l = p.addNewLine();
    Mutator::RNG rng;
    Mutator::LineMutator::initRandomCorrectLine(l, rng);
    checkValid(w, l);
    vp_reach(strlen(World::ops(w.sh.ins[l.getInstructionIndex()])) == 2 ? "two operands" : "one operand");
    checkRuns(w, p);
}

HARNESS(alterline)
{
    World w(fullShape());
    Program::Program p(*w.env);
    auto& l = p.addNewLine();
    anyLine(w, l);
    Fields a = fields(l);
    Mutator::RNG rng;
    bool ok = true;
    try {
        Mutator::LineMutator::alterCorrectLine(l, rng);
    }
    catch (const std::exception&) {
        ok = false;
    }
    vp_assert(ok, "altering a valid line does not fail");
    Fields b = fields(l);
    checkValid(w, l);
    if (a.ins != b.ins) {
        vp_reach("instruction");
        vp_assert(a.dest == b.dest, "the destination is kept when the instruction changes");
        const char* o = World::ops(w.sh.ins[vp_conc(b.ins)]);
        for (size_t k = 0; k < a.op.size(); k++) {
            vp_assert(a.op[k].second == b.op[k].second, "locations are kept when the instruction changes");
            if (a.op[k].first != b.op[k].first) {
                vp_reach("operand redrawn");
                vp_assert(k < strlen(o) && !w.space(w.src[vp_conc(a.op[k].first)], o[k]), "only operands the new instruction cannot use are redrawn");
            }
        }
    }
    else if (a.dest != b.dest) {
        vp_reach("destination");
        vp_assert(a.op == b.op, "operands are kept when the destination changes");
    }
    else {
        int n = 0;
        for (size_t k = 0; k < a.op.size(); k++) {
            if (a.op[k].first != b.op[k].first) n++, vp_reach("data source");
            if (a.op[k].second != b.op[k].second) n++, vp_reach("location");
        }
        vp_assert(n <= 1, "one field is altered");
        if (n == 0) {
            // only when a data source was to be changed and there is no other one for the operand
            const char* o = World::ops(w.sh.ins[a.ins]);
            bool single = false;
            for (size_t k = 0; k < strlen(o); k++) {
                int c = 0;
                for (char s : w.src) c += w.space(s, o[k]) > 0;
                single |= c == 1;
            }
            vp_known("C07-single-register", !single && w.sh.regs == 1);
            vp_assert(single, "an alteration changes the line unless no other data source can provide an operand");
            vp_reach("no alternative");
        }
    }
    checkRuns(w, p);
}

// ---- programs
static Shape smallShape()
{
    Shape s;
    s.regs = 2;
    s.consts = 2;
    if (vp_param("wide", 0)) s.ins = {I2, IC};
    else s.ins = {I1, IW};
    return s;
}
static std::vector<Fields> linesOf(const Program::Program& p)
{
    std::vector<Fields> r;
    for (size_t i = 0; i < p.getNbLines(); i++) r.push_back(fields(p.getLine(i)));
    return r;
}
static std::vector<int32_t> constsOf(const Program::Program& p, size_t n)
{
    std::vector<int32_t> r;
    for (size_t i = 0; i < n; i++) r.push_back(p.getConstantAt(i).value);
    return r;
}
static bool sameLine(const Fields& a, const Fields& b) { return a == b; }
static void checkProgram(World& w, Program::Program& p, size_t maxLines)
{
    vp_assert(p.getNbLines() >= 1, "a program has a line");
    vp_assert(p.getNbLines() <= maxLines, "a program does not exceed the maximum size");
    for (size_t i = 0; i < p.getNbLines(); i++) checkValid(w, p.getLine(i));
}
static void checkMarks(Program::Program& p)
{
    std::vector<bool> m;
    for (size_t i = 0; i < p.getNbLines(); i++) m.push_back(p.isIntron(i));
    p.identifyIntrons();
    for (size_t i = 0; i < m.size(); i++) vp_assert(m[i] == p.isIntron(i), "the intron marks are up to date");
}
static void constantRange(Mutator::MutationParameters& mp)
{
    mp.prog.minConstValue = vp_i32("min", INT32_MIN, INT32_MAX);
    mp.prog.maxConstValue = vp_i32("max", INT32_MIN, INT32_MAX);
    vp_assume(mp.prog.minConstValue <= mp.prog.maxConstValue);
}
HARNESS(initprog)
{
    World w(smallShape());
    Program::Program p(*w.env);
    size_t before = vp_pick("linesBefore", 0, 1);
    for (size_t i = 0; i < before; i++) p.addNewLine();
    Mutator::MutationParameters mp;
    mp.prog.maxProgramSize = vp_pick("maxProgramSize", 1, vp_param("lines", 2));
    constantRange(mp);
    Mutator::RNG rng;
    Mutator::ProgramMutator::initRandomProgram(p, mp, rng);
    checkProgram(w, p, mp.prog.maxProgramSize);
    for (int32_t c : constsOf(p, 2)) vp_assert(c >= mp.prog.minConstValue && c <= mp.prog.maxConstValue, "constants are in the configured range");
    checkMarks(p);
    vp_reach(p.getNbLines() == mp.prog.maxProgramSize ? "full" : "not full");
}
// concrete distinct lines, so that each one can be recognised
static void distinctLines(World& w, Program::Program& p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        auto& l = p.addNewLine();
        l.setInstructionIndex(i % 2);
        l.setDestinationIndex(i % 2);
        l.setOperand(0, 0, i % 2);
        if (w.sh.ins[0] == I2) l.setOperand(1, i % 2, i % 3);
        else l.setOperand(0, i % 2 ? 0 : 2, i % 3);
        p.getConstantHandler().setDataAt(typeid(Data::Constant), i % 2, {(int32_t)(7 + i)});
    }
    p.identifyIntrons();
    (void)w;
}
static void applied(World& w, const std::vector<Fields>& a, Program::Program& p, char op, bool reported)
{
    auto b = linesOf(p);
    if (!reported) {
        vp_assert(b.size() == a.size(), "no line added or removed by a step that reports nothing");
        for (size_t i = 0; i < a.size(); i++) vp_assert(sameLine(a[i], b[i]), "lines are unchanged by a step that reports nothing");
        vp_reach("nothing");
        return;
    }
    vp_reach("something");
    bool found = false;
    if (op == 'd') {
        vp_assert(b.size() + 1 == a.size(), "one line is deleted");
        for (size_t d = 0; d < a.size(); d++) {
            auto c = a;
            c.erase(c.begin() + d);
            found |= c == b;
        }
        vp_assert(found, "the other lines are kept in order");
        vp_assert(b.size() >= 1, "the last line is never removed");
    }
    if (op == 'a') {
        vp_assert(b.size() == a.size() + 1, "one line is added");
        for (size_t d = 0; d < b.size(); d++) {
            auto c = b;
            c.erase(c.begin() + d);
            found |= c == a;
        }
        vp_assert(found, "the existing lines are kept in order");
        for (size_t i = 0; i < b.size(); i++) checkValid(w, p.getLine(i));
    }
    if (op == 'm') {
        vp_assert(b.size() == a.size(), "no line added or removed by an alteration");
        int n = 0;
        for (size_t i = 0; i < a.size(); i++) n += !sameLine(a[i], b[i]);
        vp_assert(n <= 1, "at most one line is altered");
        for (size_t i = 0; i < b.size(); i++) checkValid(w, p.getLine(i));
        if (n) vp_reach("altered");
    }
    if (op == 's') {
        vp_assert(b.size() == a.size(), "no line added or removed by a swap");
        for (size_t i = 0; i < a.size(); i++)
            for (size_t j = i + 1; j < a.size(); j++) {
                auto c = a;
                std::swap(c[i], c[j]);
                found |= c == b;
            }
        vp_assert(found, "two distinct lines are swapped");
    }
    if (op == 'c') vp_assert(b == a, "lines are kept by a mutation of a constant");
}
HARNESS(progstep)
{
    World w(smallShape());
    Program::Program p(*w.env);
    size_t n = vp_pick("lines", 1, vp_param("lines", 3));
    distinctLines(w, p, n);
    auto a = linesOf(p);
    auto ca = constsOf(p, 2);
    Mutator::MutationParameters mp;
    constantRange(mp);
    Mutator::RNG rng;
    char op = "damsc"[vp_pick("step", 0, 4)];
    bool r = true;
    if (op == 'd') r = Mutator::ProgramMutator::deleteRandomLine(p, rng);
    if (op == 'a') Mutator::ProgramMutator::insertRandomLine(p, rng);
    if (op == 'm') r = Mutator::ProgramMutator::alterRandomLine(p, rng);
    if (op == 's') r = Mutator::ProgramMutator::swapRandomLines(p, rng);
    if (op == 'c') r = Mutator::ProgramMutator::alterRandomConstant(p, mp, rng);
    if (op == 'd') vp_assert(r == (n > 1), "a line is deleted if there are several");
    if (op == 's') vp_assert(r == (n > 1), "lines are swapped if there are several");
    if (op == 'm' || op == 'c') vp_assert(r, "an alteration is reported");
    applied(w, a, p, op, r);
    auto cb = constsOf(p, 2);
    int diff = 0;
    for (size_t i = 0; i < 2; i++)
        if (ca[i] != cb[i]) {
            diff++;
            vp_assert(op == 'c' && cb[i] >= mp.prog.minConstValue && cb[i] <= mp.prog.maxConstValue, "a mutated constant is in range");
        }
    vp_assert(diff <= 1, "at most one constant is mutated");
    if (diff) vp_reach("constant");
}
// mutateProgram with a single kind of mutation enabled, then with all of them
HARNESS(mutateone)
{
    World w(smallShape());
    Program::Program p(*w.env);
    size_t n = vp_pick("lines", 1, vp_param("lines", 2));
    distinctLines(w, p, n);
    auto a = linesOf(p);
    Mutator::MutationParameters mp;
    mp.prog.maxProgramSize = 2;
    constantRange(mp);
    char op = "damsc"[vp_pick("kind", 0, 4)];
    double pr = vp_bool("certain") ? 1.0 : 0.5;
    mp.prog.pDelete = op == 'd' ? pr : 0;
    mp.prog.pAdd = op == 'a' ? pr : 0;
    mp.prog.pMutate = op == 'm' ? pr : 0;
    mp.prog.pSwap = op == 's' ? pr : 0;
    mp.prog.pConstantMutation = op == 'c' ? pr : 0;
    Mutator::RNG rng;
    bool r = Mutator::ProgramMutator::mutateProgram(p, mp, rng);
    checkProgram(w, p, 2);
    applied(w, a, p, op, r);
    checkMarks(p);
}
HARNESS(mutateall)
{
    World w(smallShape());
    Program::Program p(*w.env);
    size_t n = vp_pick("lines", 1, vp_param("lines", 2));
    distinctLines(w, p, n);
    auto a = linesOf(p);
    auto ca = constsOf(p, 2);
    Mutator::MutationParameters mp;
    mp.prog.maxProgramSize = vp_pick("maxProgramSize", n, 2);
    constantRange(mp);
    mp.prog.pDelete = mp.prog.pAdd = mp.prog.pMutate = mp.prog.pSwap = mp.prog.pConstantMutation = 0.5;
    Mutator::RNG rng;
    bool r = Mutator::ProgramMutator::mutateProgram(p, mp, rng);
    checkProgram(w, p, mp.prog.maxProgramSize);
    auto cb = constsOf(p, 2);
    for (size_t i = 0; i < 2; i++)
        vp_assert(ca[i] == cb[i] || (cb[i] >= mp.prog.minConstValue && cb[i] <= mp.prog.maxConstValue), "a mutated constant is in range");
    if (!r) {
        vp_assert(linesOf(p) == a && ca == cb, "a mutation that reports nothing changed nothing");
        vp_reach("nothing");
    }
    else vp_reach("something");
    checkMarks(p);
    checkRuns(w, p);
}
