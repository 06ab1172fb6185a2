// C23: learning parameters and JSON.
#include "hx.h"
#include "file/parametersParser.h"
#include "learn/learningParameters.h"
#include <fcntl.h>
#include <fstream>
#include <json.h>
#include <sys/mman.h>
#include <unistd.h>
typedef Learn::LearningParameters P;
enum Kind { SIZE, INT, REAL, BOOL };
struct Field {
    const char *section, *name;
    Kind kind;
    std::function<void*(P&)> at;
};
#define F(sec, k, n, expr) {sec, #n, k, [](P& p) -> void* { return &p.expr n; }}
static const std::vector<Field> fields = {
    F("", SIZE, archiveSize, ), F("", REAL, archivingProbability, ), F("", SIZE, nbIterationsPerPolicyEvaluation, ),
    F("", SIZE, maxNbActionsPerEval, ), F("", REAL, ratioDeletedRoots, ), F("", SIZE, nbGenerations, ),
    F("", SIZE, maxNbEvaluationPerPolicy, ), F("", SIZE, nbIterationsPerJob, ), F("", SIZE, nbRegisters, ),
    F("", SIZE, nbProgramConstant, ), F("", SIZE, nbThreads, ), F("", BOOL, doValidation, ),
    F("tpg", SIZE, nbActions, mutation.tpg.), F("tpg", SIZE, nbRoots, mutation.tpg.), F("tpg", SIZE, maxInitOutgoingEdges, mutation.tpg.),
    F("tpg", SIZE, maxOutgoingEdges, mutation.tpg.), F("tpg", REAL, pEdgeDeletion, mutation.tpg.), F("tpg", REAL, pEdgeAddition, mutation.tpg.),
    F("tpg", REAL, pProgramMutation, mutation.tpg.), F("tpg", BOOL, forceProgramBehaviorChangeOnMutation, mutation.tpg.),
    F("tpg", REAL, pEdgeDestinationChange, mutation.tpg.), F("tpg", REAL, pEdgeDestinationIsAction, mutation.tpg.),
    F("prog", SIZE, maxProgramSize, mutation.prog.), F("prog", REAL, pDelete, mutation.prog.), F("prog", REAL, pAdd, mutation.prog.),
    F("prog", REAL, pMutate, mutation.prog.), F("prog", REAL, pSwap, mutation.prog.), F("prog", REAL, pConstantMutation, mutation.prog.),
    F("prog", INT, minConstValue, mutation.prog.), F("prog", INT, maxConstValue, mutation.prog.)};
static void arbitrary(P& p)
{
    for (auto& f : fields) {
        void* a = f.at(p);
        switch (f.kind) {
        case SIZE: *(uint64_t*)a = vp_u64(f.name, 0, UINT64_MAX); break;
        case INT: *(int32_t*)a = (int32_t)vp_u64(f.name, 0, UINT32_MAX); break;
        case REAL: {
            double d = vp_double(f.name);
            vp_assume((d >= -1e300) & (d <= 1e300));
            *(double*)a = d;
            break;
        }
        case BOOL: *(bool*)a = vp_u64(f.name, 0, 1) != 0; break;
        }
    }
}
static bool equal(const Field& f, P& p, P& q)
{
    void *a = f.at(p), *b = f.at(q);
    switch (f.kind) {
    case SIZE: return *(uint64_t*)a == *(uint64_t*)b;
    case INT: return *(int32_t*)a == *(int32_t*)b;
    case REAL: return dbits(*(double*)a) == dbits(*(double*)b);
    default: return *(uint8_t*)a == *(uint8_t*)b;
    }
}
#ifndef REAL_TEXT
// The text itself belongs to JsonCpp: here the written value is the one read.
static Json::Value written;
static bool rewritten = false, closed = false;
namespace Json {
    struct Capture : StreamWriter {
        int write(Value const& v, OStream* s) override
        {
            vp_assert(s && s->good(), "parameters are written to a file that is open");
            written = v;
            rewritten = true;
            return 0;
        }
    };
    StreamWriter* StreamWriterBuilder::newStreamWriter() const
    {
        vp_assert(settings_["precision"].asUInt() >= 6, "numbers are written with 6 digits at least");
        return new Capture;
    }
    bool parseFromStream(CharReader::Factory const&, IStream& s, Value* root, String*)
    {
        vp_assert(s.good(), "the file read is open");
        *root = written;
        return true;
    }
} // namespace Json
// Values as they are after parsing text: positive numbers are signed if they fit.
HARNESS(jsonround)
{
    P p, q, before;
    arbitrary(p);
    if (vp_param("anyTarget", 1)) arbitrary(q);
    File::ParametersParser::writeParametersToJson("/dev/null", p);
    vp_assert(rewritten, "parameters are written");
    File::ParametersParser::loadParametersFromJson("/dev/null", q);
    for (auto& f : fields) vp_assert(equal(f, p, q), "every parameter is read back with the value written");
    vp_reach("end");
}
// A file with any set of keys.
HARNESS(jsonkeys)
{
    P p, before;
    arbitrary(p);
    before = p;
    Json::Value root(Json::objectValue);
    size_t n = vp_param("keys", 1);
    std::vector<int> given(fields.size());
    P wanted = p;
    std::vector<Json::Value> dummy;
    for (size_t i = 0; i < n; i++) {
        uint64_t k = vp_pick("key", 0, fields.size()); // the last one is unknown
        if (k == fields.size()) {
            Json::Value v((Json::LargestUInt)vp_u64("unknown", 0, UINT64_MAX));
            const char* sec[] = {"", "tpg", "prog"};
            auto s = sec[vp_pick("section", 0, 2)];
            (*s ? root["mutation"][s] : root)["notAParameter"] = v;
            vp_reach("unknown key");
            continue;
        }
        auto& f = fields[k];
        Json::Value v;
        void* a = f.at(wanted);
        switch (f.kind) {
        case SIZE: {
            uint64_t x = vp_u64("value", 0, UINT64_MAX);
            *(uint64_t*)a = x;
            if (x <= INT64_MAX) v = (Json::LargestInt)x;
            else v = (Json::LargestUInt)x;
            break;
        }
        case INT: {
            int32_t x = (int32_t)vp_u64("value", 0, UINT32_MAX);
            *(int32_t*)a = x;
            v = (Json::LargestInt)x;
            break;
        }
        case REAL:
            if (vp_pick("integer literal", 0, 1)) {
                int64_t x = (int64_t)vp_u64("value", 0, 1 << 20);
                *(double*)a = (double)x;
                v = (Json::LargestInt)x;
            }
            else {
                double x = vp_double("value");
                *(double*)a = x;
                v = x;
            }
            break;
        case BOOL: {
            bool x = vp_pick("value", 0, 1);
            *(bool*)a = x;
            v = x;
        }
        }
        (*f.section ? root["mutation"][f.section] : root)[f.name] = v;
    }
    written = root;
    File::ParametersParser::loadParametersFromJson("/dev/null", p);
    for (auto& f : fields) vp_assert(equal(f, p, wanted), "each key sets exactly its own parameter");
    vp_reach("end");
}
#endif
