// Writes the C code of the graphs of codegen_graphs.h, and for each graph and mode a file giving access to it.
#include "codeGen/tpgGenerationEngineFactory.h"
#include "codegen_graphs.h"
extern "C" {
double cg1(double) { return 0; }
double cg2(double, double) { return 0; }
double cgw(const double*) { return 0; }
double cgww(double (*)[2]) { return 0; }
double cgc(double, int32_t) { return 0; }
double cgi(int32_t, double) { return 0; }
double cgcw(const int32_t*) { return 0; }
double cgiw(const int32_t*) { return 0; }
double cgwr(double (*)[3]) { return 0; }
}
int main(int, char** av)
{
    std::string dir = std::string(av[1]) + "/";
    uint64_t n = std::stoull(av[2]);
    std::ofstream x(dir + "externHeader.h");
    x << "#include <stdint.h>\ndouble cg1(double), cg2(double, double), cgw(const double*), cgww(double (*)[2]), cgc(double, int32_t), cgi(int32_t, double), cgcw(const int32_t*), cgiw(const int32_t*), cgwr(double (*)[3]);\n";
    std::ofstream tab(dir + "tab.c");
    std::string decl, rows;
    typedef CodeGen::TPGGenerationEngineFactory F;
    for (uint64_t k = 0; k < n; k++) {
        uint64_t h = 0;
        for (int m = 0; m < 2; m++) {
            CodeGraph w(k);
            h = w.print();
            std::string b = "g" + std::to_string(k) + (m ? "s" : "w");
            try {
                F(m ? F::stackMode : F::switchMode).create(b, *w.g, dir)->generateTPGGraph();
            }
            catch (std::exception& e) {
                std::cerr << "graph " << k << (m ? " stack" : " switch") << " mode: generation fails: " << e.what() << std::endl;
                return 3;
            }
            std::ofstream o(dir + "w" + b + ".c");
            o << "#include \"" << b << "_program.c\"\n#include \"" << b << ".c\"\n"
              << "double *in1, *in2, *in4;\nint* in3;\n"
              << "int infer_" << b << "(double* a, double* b, int* c, double* d) { in1 = a; in2 = b; in3 = c; in4 = d; return inferenceTPG(); }\n";
            decl += "int infer_" + b + "(double*, double*, int*, double*);\n";
        }
        rows += "{infer_g" + std::to_string(k) + "w, infer_g" + std::to_string(k) + "s, " + std::to_string(h) + "u},\n";
    }
    tab << decl << "struct { int (*f[2])(double*, double*, int*, double*); unsigned long print; } generatedGraphs[] = {\n" << rows << "};\nunsigned long nbGeneratedGraphs = " << n << ";\n";
    return 0;
}
