// C24: the family of graphs whose generated C code is compared with their execution.
#pragma once
#include "hx.h"
#include "instructions/addPrimitiveType.h"
#include "instructions/multByConstant.h"
#include "tpg/tpgGraph.h"
extern "C" {
double cg1(double), cg2(double, double), cgw(const double*), cgww(double (*)[2]), cgc(double, int32_t), cgi(int32_t, double), cgcw(const int32_t*), cgiw(const int32_t*), cgwr(double (*)[3]);
}
static double cfw(const double a[2]) { return cgw(a); }
static double cfw22(const double a[2][2])
{
    double b[2][2] = {{a[0][0], a[0][1]}, {a[1][0], a[1][1]}};
    return cgww(b);
}
static double cfw23(const double a[2][3])
{
    double b[2][3] = {{a[0][0], a[0][1], a[0][2]}, {a[1][0], a[1][1], a[1][2]}};
    return cgwr(b);
}
static double cfc(double a, Data::Constant c) { return cgc(a, c.value); }
static double cfi(int a, double b) { return cgi(a, b); }
static double cfcw(const Data::Constant c[2])
{
    int32_t v[2] = {c[0].value, c[1].value};
    return cgcw(v);
}
static double cfiw(const int a[2])
{
    int32_t v[2] = {a[0], a[1]};
    return cgiw(v);
}
static double cf1(double a) { return cg1(a); }
static double cf2(double a, double b) { return cg2(a, b); }
static double cfswap(double a, double b) { return cg2(b, a); }
static double cftwice(double a, double b) { return cg2(cg1(a), cg2(a, b)); }
struct CodeGraph {
    uint64_t seed;
    uint64_t rnd(uint64_t n)
    {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        return (seed >> 33) % n;
    }
    Instructions::LambdaInstruction<double> copy{idFn, "$0 = $1;"};
    Instructions::LambdaInstruction<double> i1{cf1, "$0 = cg1($1);"};
    Instructions::LambdaInstruction<double, double> i2{cf2, "$0 = cg2($1, $2);"};
    Instructions::LambdaInstruction<const double[2]> iw{cfw, "$0 = cgw($1);"};
    Instructions::LambdaInstruction<const double[2][2]> iww{cfw22, "$0 = cgww($1);"};
    Instructions::LambdaInstruction<const double[2][3]> iwr{cfw23, "$0 = cgwr($1);"};
    Instructions::LambdaInstruction<double, Data::Constant> ic{cfc, "$0 = cgc($1, $2);"};
    Instructions::LambdaInstruction<int, double> ii{cfi, "$0 = cgi($1, $2);"};
    Instructions::LambdaInstruction<const Data::Constant[2]> icw{cfcw, "$0 = cgcw($1);"};
    Instructions::LambdaInstruction<const int[2]> iiw{cfiw, "$0 = cgiw($1);"};
    Instructions::LambdaInstruction<double, double> swap{cfswap, "$0 = cg2($2, $1);"};
    Instructions::LambdaInstruction<double, double> twice{cftwice, "double a = cg1($1); $0 = cg2(a, cg2($1, $2));"};
    Instructions::MultByConstant<double> mul;
    Instructions::AddPrimitiveType<double> add{"$0 = $1 + $2;"};
    std::vector<const Instructions::Instruction*> ins;
    Instructions::Set set;
    // 1D: 4 doubles, 2D: 3 rows of 4 doubles, 3 rows of 2 doubles, 3 integers
    Data::PrimitiveTypeArray<double> a1{4};
    Data::PrimitiveTypeArray2D<double> a2{4, 3}, a3{2, 3};
    Data::PrimitiveTypeArray<int> ai{3};
    std::unique_ptr<Environment> env;
    std::unique_ptr<TPG::TPGGraph> g;
    size_t consts, regs;
    std::vector<std::shared_ptr<Program::Program>> progs;
    static constexpr uint64_t CHAINS = 112; // every instruction, without and with constants, in 4 parts

    Program::Line& line(Program::Program& p, uint64_t i, uint64_t dest)
    {
        auto& l = p.addNewLine();
        l.setInstructionIndex(i);
        l.setDestinationIndex(dest);
        return l;
    }
    std::shared_ptr<Program::Program> program()
    {
        auto p = std::make_shared<Program::Program>(*env);
        static const int32_t special[] = {0, 1, -1, INT32_MAX, INT32_MIN + 1, 100, -100, 7};
        for (size_t c = 0; c < consts; c++) p->getConstantHandler().setDataAt(typeid(Data::Constant), c, Data::Constant{special[rnd(8)]});
        progs.push_back(p);
        return p;
    }
    // a program that copies a cell
    std::shared_ptr<Program::Program> cell(uint64_t ds, uint64_t loc)
    {
        auto p = program();
        line(*p, 0, 0).setOperand(0, ds, loc);
        p->identifyIntrons();
        return p;
    }
    bool valid(uint64_t i, uint64_t op, uint64_t ds) { return env->getFakeDataSources().at(ds).get().canHandle(ins[i]->getOperandTypes().at(op).get()); }
    void randomOperand(Program::Line& l, uint64_t i, uint64_t op)
    {
        uint64_t ds;
        do {
            ds = rnd(env->getNbDataSources());
        } while (!valid(i, op, ds));
        l.setOperand(op, ds, rnd(env->getLargestAddressSpace()));
    }
    void randomOperands(Program::Line& l, uint64_t i)
    {
        for (uint64_t op = 0; op < ins[i]->getNbOperands(); op++) randomOperand(l, i, op);
    }
    // One team per operand place of the instruction: its bid against an arbitrary cell.
    void chain(uint64_t i, uint64_t part)
    {
        std::vector<std::shared_ptr<Program::Program>> ps;
        size_t first = consts ? 2 : 1;
        for (uint64_t op = 0; op < ins[i]->getNbOperands(); op++)
            for (uint64_t ds = 0; ds < env->getNbDataSources(); ds++) {
                if (!valid(i, op, ds)) continue;
                size_t n = env->getFakeDataSources().at(ds).get().getAddressSpace(ins[i]->getOperandTypes().at(op).get());
                if (ins[i] == &mul || ins[i] == &add) { // arithmetic is costly: one place of one source
                    if (ds != first && ins[i]->getOperandTypes().at(op).get() != typeid(Data::Constant)) continue;
                    n = 1;
                }
                for (uint64_t loc = 0; loc < n; loc++) {
                    auto p = program();
                    // different known content in every register
                    for (uint64_t r = 0; r < regs; r++) line(*p, 1, r).setOperand(0, first, r);
                    auto& l = line(*p, i, loc % regs);
                    randomOperands(l, i);
                    l.setOperand(op, ds, loc);
                    if (loc % regs) line(*p, 0, 0).setOperand(0, 0, loc % regs);
                    p->identifyIntrons();
                    ps.push_back(p);
                }
            }
        size_t len = (ps.size() + 3) / 4, from = std::min(part * len, ps.size() - 1);
        ps = {ps.begin() + from, ps.begin() + std::min(from + len, ps.size())};
        std::vector<const TPG::TPGVertex*> t;
        for (size_t k = 0; k < ps.size(); k++) t.push_back(&g->addNewTeam());
        for (size_t k = 0; k <= ps.size(); k++) t.push_back(&g->addNewAction(k));
        for (size_t k = 0; k < ps.size(); k++) {
            g->addNewEdge(*t[k], *t[ps.size() + k], cell(first, 3));
            g->addNewEdge(*t[k], k + 1 == ps.size() ? *t[2 * ps.size()] : *t[k + 1], ps[k]);
        }
    }
    void random()
    {
        size_t nt = 1 + rnd(3), na = 1 + rnd(3);
        std::vector<const TPG::TPGVertex*> t(nt), a(na);
        // vertices are not created in the order of the graph
        bool up = rnd(2), first = rnd(2), twins = !rnd(4);
        auto acts = [&] { for (size_t k = 0; k < na; k++) a[k] = &g->addNewAction(k && twins ? 1 : 3 * k + rnd(3)); };
        if (first) acts();
        for (size_t k = 0; k < nt; k++) t[up ? k : nt - 1 - k] = &g->addNewTeam();
        if (!first) acts();
        for (size_t k = 0; k < nt; k++) {
            size_t ne = 1 + rnd(3);
            for (size_t e = 0; e < ne; e++) {
                // every team but the first has an incoming edge
                const TPG::TPGVertex* d = !e && k + 1 < nt ? t[k + 1] : k + 1 < nt && rnd(2) ? t[k + 1 + rnd(nt - k - 1)] : a[rnd(na)];
                std::shared_ptr<Program::Program> p;
                if (!progs.empty() && !rnd(4)) p = progs[rnd(progs.size())];
                else {
                    p = program();
                    size_t nl = rnd(5);
                    for (size_t l = 0; l < nl; l++) {
                        uint64_t i = rnd(ins.size() - (consts ? 2 : 1)); // no arithmetic
                        randomOperands(line(*p, i, l + 1 == nl ? 0 : rnd(regs)), i);
                    }
                    p->identifyIntrons();
                }
                g->addNewEdge(*t[k], *d, p);
            }
        }
    }
    explicit CodeGraph(uint64_t k)
        : seed(k * 2654435761u + 12345), ins{&copy, &i1, &i2, &iw, &iww, &ic, &ii, &icw, &iiw, &swap, &twice, &iwr, &mul, &add}
    {
        for (auto i : ins) set.add(*i);
        for (int w = 0; w < 8; w++) rnd(2);
        consts = k < CHAINS ? (k / 4 & 1) * 3 : rnd(2) * (2 + rnd(2));
        regs = k < CHAINS ? 3 : 2 + rnd(2);
        // some instructions need constants
        Instructions::Set s;
        env = std::make_unique<Environment>(set, Sources{a1, a2, ai, a3}, regs, consts);
        if (!consts) { // instructions on constants are removed: keep the same indices for others
            std::vector<const Instructions::Instruction*> kept;
            for (auto i : ins)
                if (i != &ic && i != &icw && i != &mul) kept.push_back(i);
            ins = kept;
        }
        g = std::make_unique<TPG::TPGGraph>(*env);
        if (k < CHAINS && k / 8 < ins.size()) chain(k / 8, k % 4);
        else random();
    }
    uint64_t print()
    {
        uint64_t h = 1469598103934665603ull;
        auto add = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
        for (auto v : g->getVertices()) add(dynamic_cast<const TPG::TPGAction*>(v) ? ((const TPG::TPGAction*)v)->getActionID() : 1000);
        for (auto& e : g->getEdges())
            for (auto& p : progs)
                if (&e->getProgram() == p.get()) add(&p - &progs[0]);
        for (auto& p : progs)
            for (size_t l = 0; l < p->getNbLines(); l++) add(p->getLine(l).getInstructionIndex()), add(p->getLine(l).getDestinationIndex()), add(p->isIntron(l));
        return h;
    }
};
