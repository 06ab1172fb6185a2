// C03: program execution.  C04: introns.  C05: identical behaviour.  C06: copies.
#include "world.h"

// One line, every instruction kind and data source: operand fetching and write back.
HARNESS(execline)
{
    Shape s;
    s.consts = 2;
    s.ins = {I1, I2, IW, IW2, IC, II, ICW};
    s.d2 = s.di = true;
    World w(s);
    Program::Program p(*w.env);
    w.symConstants(p);
    // a preceding line gives the registers arbitrary contents
    auto& l0 = p.addNewLine();
    l0.setInstructionIndex(0);
    l0.setDestinationIndex(vp_pick("dest0", 0, 1));
    l0.setOperand(0, 2, 0);
    w.symLine(p.addNewLine(), true, false);
    w.symbolic();
    Program::ProgramExecutionEngine e(p);
    double r = e.executeProgram();
    double q = w.run(p, true);
    vp_assert(same(r, q), "the result of a program is given by its lines and the data");
    vp_reach("end");
}

// Several lines; with intron marks or without; after another program, on changed data.
HARNESS(execseq)
{
    Shape s;
    s.ins = {I1, I2};
    s.consts = 0;
    World w(s);
    size_t n = vp_pick("lines", vp_param("minLines", 1), vp_param("lines", 2));
    Program::Program p(*w.env), other(*w.env);
    for (size_t i = 0; i < n; i++) w.symLine(p.addNewLine(), true, false);
    w.symLine(other.addNewLine(), true, false);
    if (vp_pick("introns", 0, 1)) p.identifyIntrons();
    w.symbolic();
    Program::ProgramExecutionEngine e(*w.env);
    e.setProgram(other);
    double r0 = e.executeProgram();
    double q0 = w.run(other, true);
    vp_assert(same(r0, q0), "result of the first program");
    w.symbolic();
    e.setProgram(p);
    double r1 = e.executeProgram();
    double q1 = w.run(p, true);
    vp_assert(same(r1, q1), "result does not depend on what ran before");
    double r2 = e.executeProgram();
    vp_assert(same(r2, r1), "executing twice gives the same result");
    vp_reach("end");
}

// The engine reads the sources it was given, in replacement of the environment's.
HARNESS(execsrc)
{
    Shape s;
    s.ins = {I1, II, IC};
    s.consts = 2;
    s.di = true;
    World w(s);
    Program::Program p(*w.env), p2(*w.env);
    w.symConstants(p);
    w.symConstants(p2);
    for (auto* x : {&p, &p2}) w.symLine(x->addNewLine(), true, false);
    std::unique_ptr<Data::DataHandler> c1(w.a1.clone()), ci(w.ai.clone());
    w.symbolic(); // the environment's own sources now differ from the clones
    std::vector<double> v1 = w.v1;
    std::vector<int> vi = w.vi;
    auto* d1 = dynamic_cast<Data::PrimitiveTypeArray<double>*>(c1.get());
    auto* di = dynamic_cast<Data::PrimitiveTypeArray<int>*>(ci.get());
    vp_assert(d1 && di, "type of the clones");
    Program::ProgramExecutionEngine e(p);
    double r = e.executeProgram();
    double q = w.run(p, true);
    vp_assert(same(r, q), "result on the environment's sources");
    for (size_t i = 0; i < 3; i++) w.v1[i] = vp_double("c1"), d1->setDataAt(typeid(double), i, w.v1[i]);
    for (size_t i = 0; i < 2; i++) w.vi[i] = vp_i32("ci", INT32_MIN, INT32_MAX), di->setDataAt(typeid(int), i, w.vi[i]);
    Sources other{*c1, *ci};
    e.setDataSources(other);
    r = e.executeProgram();
    q = w.run(p, true);
    vp_assert(same(r, q), "result on the replaced sources");
    e.setProgram(p2);
    r = e.executeProgram();
    q = w.run(p2, true);
    vp_assert(same(r, q), "another program uses its own constants on the same sources");
    Program::ProgramExecutionEngine f(p, other);
    r = f.executeProgram();
    q = w.run(p, true);
    vp_assert(same(r, q), "an engine built on other sources reads them");
    vp_reach("end");
}

static void liveness(const World& w, const Program::Program& p)
{
    // a useful line is read by a later useful line, or is the last useful writer of register 0
    size_t n = p.getNbLines();
    for (size_t i = 0; i < n; i++) {
        if (p.isIntron(i)) continue;
        uint64_t d = p.getLine(i).getDestinationIndex();
        bool read = false, over = false;
        for (size_t j = i + 1; j < n; j++) {
            if (p.isIntron(j)) continue;
            const auto& l = p.getLine(j);
            const char* o = World::ops(w.sh.ins[l.getInstructionIndex()]);
            for (size_t k = 0; o[k]; k++) {
                if (w.src[l.getOperand(k).first] != 'r') continue;
                uint64_t a = l.getOperand(k).second % w.space('r', o[k]);
                if (a == d || (o[k] == 'w' && a + 1 == d)) read = true;
            }
            if (read) break;
            if (l.getDestinationIndex() == d) {
                over = true;
                break;
            }
        }
        vp_assert(read || (!over && d == 0), "a line that is not an intron contributes to the result");
    }
}
HARNESS(introns)
{
    Shape s;
    s.regs = vp_param("regs", 3);
    s.ins = {I2, IW};
    s.d1 = true;
    World w(s);
    size_t n = vp_pick("lines", vp_param("minLines", 1), vp_param("lines", 3));
    Program::Program p(*w.env);
    for (size_t i = 0; i < n; i++) w.symLine(p.addNewLine(), false, false);
    w.symbolic();
    uint64_t nb = p.identifyIntrons();
    uint64_t cnt = 0;
    for (size_t i = 0; i < n; i++) cnt += p.isIntron(i);
    vp_assert(nb == cnt, "number of introns returned");
    liveness(w, p);
    Program::ProgramExecutionEngine e(p);
    double r = e.executeProgram();
    double q = w.run(p, false);
    vp_assert(same(r, q), "skipping the introns does not change the result");
    if (nb) vp_reach("introns");
    if (nb == 0 && n > 1) vp_reach("no introns");
    p.clearIntrons();
    vp_assert(p.getNbLines() == n - nb, "only the introns are removed");
    Program::ProgramExecutionEngine e2(p);
    r = e2.executeProgram();
    vp_assert(same(r, q), "removing the introns does not change the result");
}
// Marks are recomputed: identification after a modification does not keep stale marks
HARNESS(intronsagain)
{
    Shape s;
    s.regs = 2;
    s.ins = {I1, I2};
    World w(s);
    size_t n = vp_param("lines", 2);
    Program::Program p(*w.env);
    for (size_t i = 0; i < n; i++) w.symLine(p.addNewLine(), false, false);
    p.identifyIntrons();
    switch (vp_pick("op", 0, 3)) {
    case 0: w.symLine(p.addNewLine(vp_pick("at", 0, n)), false, false); break;
    case 1: p.removeLine(vp_pick("at", 0, n - 1)); break;
    case 2: p.swapLines(0, n - 1); break;
    default: w.symLine(p.getLine(vp_pick("at", 0, n - 1)), false, false);
    }
    w.symbolic();
    p.identifyIntrons();
    liveness(w, p);
    Program::ProgramExecutionEngine e(p);
    double r = e.executeProgram();
    double q = w.run(p, false);
    vp_assert(same(r, q), "introns are identified anew after a modification");
    vp_reach("end");
}

// C05
static void freeLine(World& w, Program::Line& l, const Program::Line* like)
{
    // a line that is arbitrary, or equal to another line
    if (like && vp_pick("equal", 0, 1)) {
        l.setInstructionIndex(like->getInstructionIndex());
        l.setDestinationIndex(like->getDestinationIndex());
        for (size_t k = 0; k < w.env->getMaxNbOperands(); k++) l.setOperand(k, like->getOperand(k).first, like->getOperand(k).second);
        return;
    }
    w.symLine(l, false, false);
}
HARNESS(identical)
{
    Shape s;
    s.regs = 2;
    s.consts = vp_param("consts", 2);
    s.ins = {I1, I2};
    if (s.consts) s.ins = {I1, IC, ICW};
    s.d1 = vp_param("data", 1);
    World w(s);
    size_t n = vp_pick("lines", 1, vp_param("lines", 1)), m = n;
    Program::Program p(*w.env), q(*w.env);
    w.symConstants(p);
    w.symConstants(q);
    for (size_t i = 0; i < n; i++) w.symLine(p.addNewLine(), false, false);
    size_t extra = vp_param("extra", 1) ? vp_pick("extra", 0, 2) : 0;
    // q: the lines of p or arbitrary ones, and possibly one more line
    size_t at = extra ? vp_pick("at", 0, m) : 0;
    for (size_t i = 0, j = 0; i < m + (extra ? 1 : 0); i++) {
        if (extra && i == at) w.symLine(q.addNewLine(), false, false);
        else freeLine(w, q.addNewLine(), &p.getLine(j++));
    }
    if (vp_pick("introns", 0, 1)) {
        p.identifyIntrons();
        q.identifyIntrons();
    }
    w.symbolic();
    bool same1 = p.hasIdenticalBehavior(q);
    bool same2 = q.hasIdenticalBehavior(p);
    vp_assert(same1 == same2, "the relation is symmetric");
    if (same1) {
        Program::ProgramExecutionEngine e(p), f(q);
        double a = e.executeProgram();
        double b = f.executeProgram();
        vp_assert(same(a, b), "programs declared identical return the same result");
        if (extra) vp_reach("identical up to an intron");
        vp_reach("identical");
    }
    else
        vp_reach("different");
    // introns play no role
    Program::Program pc(p), qc(q);
    pc.clearIntrons();
    qc.clearIntrons();
    bool same3 = pc.hasIdenticalBehavior(q), same4 = p.hasIdenticalBehavior(qc);
    vp_assert(same3 == same1 && same4 == same1, "the relation does not depend on introns");
    bool own = p.hasIdenticalBehavior(Program::Program(p));
    vp_assert(own, "a program has identical behaviour to its copy");
}

// C06
struct Snap {
    std::vector<std::vector<uint64_t>> l;
    std::vector<int32_t> c;
    const Environment* e;
    explicit Snap(const Program::Program& p) : e(&p.getEnvironment())
    {
        for (size_t i = 0; i < p.getNbLines(); i++) {
            auto& x = p.getLine(i);
            std::vector<uint64_t> v{x.getInstructionIndex(), x.getDestinationIndex(), (uint64_t)p.isIntron(i)};
            for (size_t k = 0; k < x.getEnvironment().getMaxNbOperands(); k++) v.push_back(x.getOperand(k).first), v.push_back(x.getOperand(k).second);
            l.push_back(v);
        }
        for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++) c.push_back(p.getConstantAt(i).value);
    }
    void expect(const Snap& o, const char* m) const
    {
        vp_assert(l.size() == o.l.size() && e == o.e && c.size() == o.c.size(), m);
        for (size_t i = 0; i < l.size(); i++)
            for (size_t k = 0; k < l[i].size(); k++) vp_assert(l[i][k] == o.l[i][k], m);
        for (size_t i = 0; i < c.size(); i++) vp_assert(c[i] == o.c[i], m);
    }
};
HARNESS(copyprog)
{
    Shape s;
    s.consts = 2;
    s.ins = {I1, IC};
    World w(s);
    size_t n = vp_pick("lines", 1, vp_param("lines", 2));
    Program::Program p(*w.env);
    w.symConstants(p);
    for (size_t i = 0; i < n; i++) w.symLine(p.addNewLine(), false, false);
    if (vp_pick("introns", 0, 1)) p.identifyIntrons();
    w.symbolic();
    auto* c = new Program::Program(p);
    Snap before(p), copied(*c);
    copied.expect(before, "the copy has the lines, marks and constants of the original");
    Program::ProgramExecutionEngine e(p), f(*c);
    double a = e.executeProgram();
    double b = f.executeProgram();
    vp_assert(same(a, b), "the copy has the result of the original");
    // modify one of them
    bool modCopy = vp_pick("which", 0, 1);
    Program::Program& m = modCopy ? *c : p;
    const Program::Program& o = modCopy ? p : *c;
    size_t at = vp_pick("at", 0, n - 1);
    switch (vp_pick("op", 0, 7)) {
    case 0: m.getLine(at).setInstructionIndex(vp_u64("x", 0, 1)); break;
    case 1: m.getLine(at).setDestinationIndex(vp_u64("x", 0, 1)); break;
    case 2: m.getLine(at).setOperand(vp_pick("op", 0, 1), vp_u64("x", 0, 2), vp_u64("y", 0, 2)); break;
    case 3: m.getConstantHandler().setDataAt(typeid(Data::Constant), vp_pick("k", 0, 1), {vp_i32("v", -9, 9)}); break;
    case 4: m.removeLine(at); break;
    case 5: m.addNewLine(at); break;
    case 6: m.swapLines(0, n - 1); break;
    default:
        m.getLine(at).setDestinationIndex(1);
        m.identifyIntrons();
    }
    Snap after(o);
    after.expect(before, "modifying one of them is not visible through the other");
    if (modCopy) {
        delete c;
        Snap end(p);
        end.expect(before, "deleting the copy leaves the original intact");
        Program::ProgramExecutionEngine g(p);
        double d = g.executeProgram();
        vp_assert(same(d, a), "the original still has its result");
    }
    vp_reach("end");
}
HARNESS(copyline)
{
    Shape s;
    s.ins = {I1, I2};
    World w(s);
    Program::Line l(*w.env);
    w.symLine(l, false, false);
    // whatever the number of operands of the instruction
    for (size_t o = 0; o < 2; o++) l.setOperand(o, vp_u64("source", 0, w.env->getNbDataSources() - 1), vp_u64("location", 0, w.env->getLargestAddressSpace() - 1));
    Program::Line c(l);
    bool eq = c == l, ne = c != l;
    vp_assert(eq && !ne, "a copied line is equal to its source");
    uint64_t i = l.getInstructionIndex(), d = l.getDestinationIndex();
    auto o0 = l.getOperand(0), o1 = l.getOperand(1);
    c.setInstructionIndex(vp_u64("x", 0, 1));
    c.setDestinationIndex(vp_u64("y", 0, 1));
    c.setOperand(0, vp_u64("s0", 0, 1), vp_u64("l0", 0, 2));
    c.setOperand(1, vp_u64("s1", 0, 1), vp_u64("l1", 0, 2));
    vp_assert(l.getInstructionIndex() == i, "instruction of the original");
    vp_assert(l.getDestinationIndex() == d, "destination of the original");
    vp_assert(l.getOperand(0).first == o0.first && l.getOperand(0).second == o0.second, "first operand of the original");
    vp_assert(l.getOperand(1).first == o1.first && l.getOperand(1).second == o1.second, "second operand of the original");
    // equality is equality of all fields
    bool all = c.getInstructionIndex() == i;
    all = all & (c.getDestinationIndex() == d) & (c.getOperand(0).first == o0.first) & (c.getOperand(0).second == o0.second) & (c.getOperand(1).first == o1.first) & (c.getOperand(1).second == o1.second);
    bool eq2 = c == l;
    vp_assert(eq2 == all, "lines are equal when all their fields are");
    vp_reach("end");
}
