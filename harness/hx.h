// Helpers shared by the harnesses.
#pragma once
#include "vp.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "archive.h"
#include "data/array2DWrapper.h"
#include "data/arrayWrapper.h"
#include "data/constantHandler.h"
#include "data/pointerWrapper.h"
#include "data/primitiveTypeArray.h"
#include "data/primitiveTypeArray2D.h"
#include "environment.h"
#include "instructions/lambdaInstruction.h"
#include "instructions/set.h"
#include "program/program.h"
#include "program/programExecutionEngine.h"

static inline uint64_t dbits(double d)
{
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}
static inline double bitsd(uint64_t u)
{
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}
// same value: bit-identical (NaN equals the same NaN)
static inline bool same(double a, double b) { return dbits(a) == dbits(b); }
typedef std::vector<std::reference_wrapper<const Data::DataHandler>> Sources;

// identity on a double operand: a program bid becomes one data cell
static inline double idFn(double a) { return a; }
static inline double uf1(double a) { return vp_uf(1, 1, a, 0, 0, 0); }
static inline double uf2(double a, double b) { return vp_uf(2, 2, a, b, 0, 0); }
static inline double uf3(double a, double b) { return vp_uf(3, 2, a, b, 0, 0); }

// A program whose single line copies cell c of data source ds into register 0
static inline std::shared_ptr<Program::Program> bidProgram(const Environment& env, uint64_t ds, uint64_t c)
{
    auto p = std::make_shared<Program::Program>(env);
    auto& l = p->addNewLine();
    l.setInstructionIndex(0);
    l.setDestinationIndex(0);
    l.setOperand(0, ds, c);
    return p;
}
