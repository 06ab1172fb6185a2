// C24: the generated C code against the execution of the graph it comes from.
#include "codegen_graphs.h"
#include "tpg/tpgExecutionEngine.h"
static double u(uint64_t id, uint64_t n, double a = 0, double b = 0, double c = 0, double d = 0) { return vp_uf(id, n, a, b, c, d); }
static double ib(int32_t v) { return bitsd((uint64_t)(int64_t)v); }
extern "C" {
double cg1(double a) { return u(1, 1, a); }
double cg2(double a, double b) { return u(2, 2, a, b); }
double cgw(const double* a) { return u(3, 2, a[0], a[1]); }
double cgww(double (*a)[2]) { return u(4, 4, a[0][0], a[0][1], a[1][0], a[1][1]); }
double cgc(double a, int32_t c) { return u(5, 2, a, ib(c)); }
double cgi(int32_t a, double b) { return u(6, 2, ib(a), b); }
double cgcw(const int32_t* c) { return u(7, 2, ib(c[0]), ib(c[1])); }
double cgwr(double (*a)[3]) { return u(9, 3, u(10, 4, a[0][0], a[0][1], a[0][2], a[1][0]), a[1][1], a[1][2]); }
double cgiw(const int32_t* c) { return u(8, 2, ib(c[0]), ib(c[1])); }
typedef struct {
    int (*f[2])(double*, double*, int*, double*);
    unsigned long print;
} Generated;
extern Generated generatedGraphs[];
extern unsigned long nbGeneratedGraphs;
}
HARNESS(codegen)
{
    uint64_t k = vp_pick("graph", vp_param("first", 0), vp_param("last", nbGeneratedGraphs - 1));
    CodeGraph w(k);
    if (w.print() != generatedGraphs[k].print) {
        vp_cut("the graph built is not the one the code was generated from");
        return;
    }
    double d1[4], d2[12], d4[6];
    int d3[3];
    for (int i = 0; i < 4; i++) w.a1.setDataAt(typeid(double), i, d1[i] = vp_double("1D"));
    for (int i = 0; i < 12; i++) w.a2.setDataAt(typeid(double), i, d2[i] = vp_double("2D wide"));
    for (int i = 0; i < 6; i++) w.a3.setDataAt(typeid(double), i, d4[i] = vp_double("2D tall"));
    for (int i = 0; i < 3; i++) w.ai.setDataAt(typeid(int), i, d3[i] = vp_i32("integers", INT32_MIN, INT32_MAX));
    TPG::TPGExecutionEngine e(*w.env);
    auto path = e.executeFromRoot(*w.g->getRootVertices().at(0));
    auto a = dynamic_cast<const TPG::TPGAction*>(path.back());
    vp_assert(a, "the execution ends at an action");
    for (int m = 0; m < 2; m++) {
        int got = generatedGraphs[k].f[m](d1, d2, d3, d4);
        vp_assert((uint64_t)got == a->getActionID(), m ? "the code generated in stack mode selects the action the execution selects" : "the code generated in switch mode selects the action the execution selects");
    }
    if (k < CodeGraph::CHAINS) vp_reach("every operand");
    else vp_reach("random graph");
    vp_reach("end");
}
