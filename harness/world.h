// An environment with symbolic data and an independent interpreter of programs.
#pragma once
#include "hx.h"

// an integer argument of an uninterpreted function, as a bit pattern
static double ci(int32_t v) { return bitsd((uint64_t)(int64_t)v); }
static double fw2(const double a[2]) { return vp_uf(11, 2, a[0], a[1], 0, 0); }
static double fw22(const double a[2][2]) { return vp_uf(12, 4, a[0][0], a[0][1], a[1][0], a[1][1]); }
static double fc(double a, Data::Constant c) { return vp_uf(13, 2, a, ci(c.value), 0, 0); }
static double fi(int a, double b) { return vp_uf(14, 2, ci(a), b, 0, 0); }
static double fcw(const Data::Constant c[2]) { return vp_uf(15, 2, ci(c[0].value), ci(c[1].value), 0, 0); }

enum Ins { I1, I2, IW, IW2, IC, II, ICW };
struct Shape {
    size_t regs = 2, consts = 0;
    std::vector<Ins> ins;
    bool d1 = true, d2 = false, di = false;
};
// An environment, symbolic data, and an independent reading of what an operand means.
struct World {
    Shape sh;
    Instructions::Set set;
    Instructions::LambdaInstruction<double> i1{uf1};
    Instructions::LambdaInstruction<double, double> i2{uf2};
    Instructions::LambdaInstruction<const double[2]> iw{fw2};
    Instructions::LambdaInstruction<const double[2][2]> iw2{fw22};
    Instructions::LambdaInstruction<double, Data::Constant> ic{fc};
    Instructions::LambdaInstruction<int, double> ii{fi};
    Instructions::LambdaInstruction<const Data::Constant[2]> icw{fcw};
    Data::PrimitiveTypeArray<double> a1{3};
    Data::PrimitiveTypeArray2D<double> a2{3, 2};
    Data::PrimitiveTypeArray<int> ai{2};
    std::vector<double> v1, v2;
    std::vector<int> vi;
    std::vector<char> src; // kind of each data source: r registers, k constants, 1, 2, i
    std::unique_ptr<Environment> env;
    explicit World(Shape s) : sh(s), v1(3), v2(6), vi(2)
    {
        for (auto i : sh.ins) {
            if (i == I1) set.add(i1);
            if (i == I2) set.add(i2);
            if (i == IW) set.add(iw);
            if (i == IW2) set.add(iw2);
            if (i == IC) set.add(ic);
            if (i == II) set.add(ii);
            if (i == ICW) set.add(icw);
        }
        Sources so;
        src.push_back('r');
        if (sh.consts) src.push_back('k');
        if (sh.d1) so.push_back(a1), src.push_back('1');
        if (sh.d2) so.push_back(a2), src.push_back('2');
        if (sh.di) so.push_back(ai), src.push_back('i');
        env = std::make_unique<Environment>(set, so, sh.regs, sh.consts);
        vp_assert(env->getNbInstructions() == sh.ins.size(), "every instruction is kept");
    }
    void symbolic()
    {
        if (sh.d1)
            for (size_t i = 0; i < 3; i++) v1[i] = vp_double("d1"), a1.setDataAt(typeid(double), i, v1[i]);
        if (sh.d2)
            for (size_t i = 0; i < 6; i++) v2[i] = vp_double("d2"), a2.setDataAt(typeid(double), i, v2[i]);
        if (sh.di)
            for (size_t i = 0; i < 2; i++) vi[i] = vp_i32("di", INT32_MIN, INT32_MAX), ai.setDataAt(typeid(int), i, vi[i]);
    }
    // operand kinds of an instruction: d double, w double[2], m double[2][2], c constant, C constant[2], i int
    static const char* ops(Ins i)
    {
        switch (i) {
        case I1: return "d";
        case I2: return "dd";
        case IW: return "w";
        case IW2: return "m";
        case IC: return "dc";
        case II: return "id";
        default: return "C";
        }
    }
    // number of addresses of operand kind o in source kind s
    size_t space(char s, char o) const
    {
        size_t n = s == 'r' ? sh.regs : s == 'k' ? sh.consts : s == '1' ? 3 : s == '2' ? 6 : 2;
        bool dbl = s == 'r' || s == '1' || s == '2';
        switch (o) {
        case 'd': return dbl ? n : 0;
        case 'w': return !dbl ? 0 : s == '2' ? 2 * 2 : n >= 2 ? n - 1 : 0;
        case 'm': return s == '2' ? 1 * 2 : 0;
        case 'c': return s == 'k' ? n : 0;
        case 'C': return s == 'k' && n >= 2 ? n - 1 : 0;
        case 'i': return s == 'i' ? n : 0;
        }
        return 0;
    }
    uint64_t lastLoc() const
    {
        uint64_t m = std::max(sh.regs, sh.consts);
        if (sh.d1) m = std::max<uint64_t>(m, 3);
        if (sh.d2) m = std::max<uint64_t>(m, 6);
        return m - 1;
    }
    // an arbitrary valid line
    void symLine(Program::Line& l, bool pickDest, bool pickLoc)
    {
        size_t ins = vp_pick("instr", 0, sh.ins.size() - 1);
        uint64_t dest = vp_u64("dest", 0, sh.regs - 1);
        if (pickDest) dest = vp_conc(dest);
        l.setInstructionIndex(ins);
        l.setDestinationIndex(dest);
        const char* o = ops(sh.ins[ins]);
        for (size_t k = 0; o[k]; k++) {
            std::vector<size_t> ok;
            for (size_t s = 0; s < src.size(); s++)
                if (space(src[s], o[k])) ok.push_back(s);
            size_t s = ok[vp_pick("src", 0, ok.size() - 1)];
            uint64_t loc = vp_u64("loc", 0, lastLoc());
            if (pickLoc) loc = vp_conc(loc);
            bool set = l.setOperand(k, s, loc);
            vp_assert(set, "a valid operand is accepted");
        }
    }
    // reference interpreter: introns skipped or not
    double run(const Program::Program& p, bool skip) const
    {
        std::vector<double> reg(sh.regs, 0.0);
        for (size_t n = 0; n < p.getNbLines(); n++) {
            if (skip && p.isIntron(n)) continue;
            const auto& l = p.getLine(n);
            Ins ins = sh.ins[l.getInstructionIndex()];
            const char* o = ops(ins);
            double x[4] = {0, 0, 0, 0};
            size_t f = 0;
            for (size_t k = 0; o[k]; k++) {
                char s = src[l.getOperand(k).first];
                uint64_t a = l.getOperand(k).second % space(s, o[k]);
                const double* base = s == 'r' ? reg.data() : s == '1' ? v1.data() : v2.data();
                if (o[k] == 'd') x[f++] = base[a];
                else if (o[k] == 'w') {
                    uint64_t c = s == '2' ? (a / 2) * 3 + a % 2 : a;
                    x[f++] = base[c];
                    x[f++] = base[c + 1];
                }
                else if (o[k] == 'm')
                    for (uint64_t c : {(uint64_t)0, (uint64_t)1, (uint64_t)3, (uint64_t)4}) x[f++] = base[a + c];
                else if (o[k] == 'c') x[f++] = ci(p.cGetConstantHandler().getDataAt(typeid(Data::Constant), a).getSharedPointer<const Data::Constant>()->value);
                else if (o[k] == 'C')
                    for (int c = 0; c < 2; c++) x[f++] = ci(p.getConstantAt(a + c).value);
                else x[f++] = ci(vi[a]);
            }
            double r = 0;
            switch (ins) {
            case I1: r = uf1(x[0]); break;
            case I2: r = uf2(x[0], x[1]); break;
            case IW: r = vp_uf(11, 2, x[0], x[1], 0, 0); break;
            case IW2: r = vp_uf(12, 4, x[0], x[1], x[2], x[3]); break;
            case IC: r = vp_uf(13, 2, x[0], x[1], 0, 0); break;
            case II: r = vp_uf(14, 2, x[0], x[1], 0, 0); break;
            case ICW: r = vp_uf(15, 2, x[0], x[1], 0, 0); break;
            }
            uint64_t d = l.getDestinationIndex();
            for (size_t q = 0; q < sh.regs; q++) { // branch-free: the destination may be symbolic
                uint64_t m = 0 - (uint64_t)(d == q);
                reg[q] = bitsd((dbits(r) & m) | (dbits(reg[q]) & ~m));
            }
        }
        return reg[0];
    }
    void symConstants(Program::Program& p)
    {
        for (size_t i = 0; i < sh.consts; i++)
            p.getConstantHandler().setDataAt(typeid(Data::Constant), i, {vp_i32("const", -8, 8)});
    }
};

