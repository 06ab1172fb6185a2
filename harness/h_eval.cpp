// C13: combination of evaluation results. C29: classification scores.
#include "hx.h"
#include "learn/adversarialEvaluationResult.h"
#include "learn/classificationEvaluationResult.h"
#include "learn/classificationLearningEnvironment.h"
#include "learn/evaluationResult.h"
using namespace Learn;

static double score(const char* n)
{
    double d = vp_double(n);
    vp_assume(d >= -1e6 && d <= 1e6);
    return d;
}
// equal up to rounding
static bool near(double a, double b, double tol = 1e-6)
{
    if (same(a, b)) return true;
    double d = a - b;
    return (d <= tol) & (d >= -tol);
}
// weighted mean; the first value when there is no weight
static double mean(double a, size_t n, double b, size_t m)
{
    if (n + m == 0) return a;
    return (a * (double)n + b * (double)m) / ((double)n + (double)m);
}
static size_t count(const char* n) { return vp_pick(n, 0, vp_param("count", 2)) * (vp_param("scale", 1)); }

HARNESS(plainresult)
{
    double a = score("a"), b = score("b");
    size_t n = count("n"), m = count("m");
    EvaluationResult x(a, n), y(b, m);
    bool self = vp_pick("self", 0, 1);
    EvaluationResult& r = x += (self ? x : y);
    if (self) b = a, m = n;
    vp_assert(&r == &x, "the target is returned");
    vp_assert(x.getNbEvaluation() == n + m, "numbers of evaluations are added");
    vp_assert(near(x.getResult(), mean(a, n, b, m)), "the combined result is the weighted mean");
    if (m == 0) {
        vp_assert(near(x.getResult(), a), "a result without evaluation changes nothing");
        vp_reach("no evaluation added");
    }
    else vp_reach("evaluation added");
    if (!self) vp_assert(same(y.getResult(), b) && y.getNbEvaluation() == m, "the added result is unchanged");
}
HARNESS(classresult)
{
    size_t k = vp_param("classes", 2);
    std::vector<double> a(k), b(k);
    std::vector<size_t> n(k), m(k);
    for (size_t i = 0; i < k; i++) a[i] = score("a"), b[i] = score("b"), n[i] = count("n"), m[i] = count("m");
    ClassificationEvaluationResult x(a, n), y(b, m);
    size_t N = 0, M = 0;
    double g = 0;
    for (size_t i = 0; i < k; i++) N += n[i], M += m[i], g += a[i];
    vp_assert(x.getNbEvaluation() == N, "the number of evaluations is the sum over the classes");
    vp_assert(near(x.getResult(), g / (double)k), "the result is the mean of the classes");
    EvaluationResult& base = x;
    base += y;
    g = 0;
    for (size_t i = 0; i < k; i++) {
        double e = mean(a[i], n[i], b[i], m[i]);
        vp_assert(near(x.getScorePerClass().at(i), e), "the score of a class is the weighted mean");
        vp_assert(x.getNbEvaluationPerClass().at(i) == n[i] + m[i], "numbers of evaluations of a class are added");
        if (n[i] + m[i] == 0) vp_reach("class without evaluation");
        g += e;
        vp_assert(same(y.getScorePerClass().at(i), b[i]) && y.getNbEvaluationPerClass().at(i) == m[i], "the added result is unchanged");
    }
    vp_assert(x.getScorePerClass().size() == k, "the number of classes is unchanged");
    vp_assert(base.getNbEvaluation() == N + M, "numbers of evaluations are added");
    vp_assert(near(base.getResult(), g / (double)k), "the combined result is the mean of the classes");
    vp_reach("end");
}
HARNESS(advresult)
{
    size_t n = count("n"), m = count("m");
    double a0 = score("a"), a1 = score("a"), b0 = score("b"), b1 = score("b");
    size_t two = vp_param("two", 2); // not a constant of the compiler
    AdversarialEvaluationResult x({a0, a1}, n), y({b0, b1}, m);
    vp_assert(x.getSize() == 2, "size");
    vp_assert(near(x.getResult(), (0.0 + a0 + a1) / (double)two), "the result is the mean of the scores");
    EvaluationResult& base = x;
    base += y;
    double e0 = mean(a0, n, b0, m), e1 = mean(a1, n, b1, m);
    vp_assert(near(x.getScoreOf(0), e0) && near(x.getScoreOf(1), e1), "the score of a player is the weighted mean");
    vp_assert(x.getNbEvaluation() == n + m, "numbers of evaluations are added");
    vp_assert(near(base.getResult(), (0.0 + x.getScoreOf(0) + x.getScoreOf(1)) / (double)two), "the combined result is the mean of the scores");
    vp_assert(same(y.getScoreOf(0), b0) && same(y.getScoreOf(1), b1) && y.getNbEvaluation() == m, "the added result is unchanged");
    vp_reach(n + m ? "evaluation" : "no evaluation");
    AdversarialEvaluationResult z({a0, a1, b0}, 1);
    z /= 2.0;
    vp_assert(near(z.getScoreOf(0), a0 / 2) && near(z.getScoreOf(1), a1 / 2) && near(z.getScoreOf(2), b0 / 2), "division of every score");
    AdversarialEvaluationResult f(3);
    vp_assert(f.getSize() == 3 && f.getNbEvaluation() == 0 && f.getScoreOf(0) == 0 && f.getScoreOf(1) == 0 && f.getScoreOf(2) == 0, "an empty result");
}
// results of different kinds, or of different sizes
HARNESS(mixedresult)
{
    double s[4];
    for (auto& x : s) x = score("s");
    auto make = [&](size_t k) -> std::shared_ptr<EvaluationResult> {
        switch (k) {
        case 0: return std::make_shared<EvaluationResult>(s[0], 2);
        case 1: return std::make_shared<ClassificationEvaluationResult>(std::vector<double>{s[0], s[1]}, std::vector<size_t>{1, 3});
        case 2: return std::make_shared<ClassificationEvaluationResult>(std::vector<double>{s[0], s[1], s[2]}, std::vector<size_t>{1, 3, 2});
        case 3: return std::make_shared<AdversarialEvaluationResult>(std::initializer_list<double>{s[2], s[3]}, 2);
        default: return std::make_shared<AdversarialEvaluationResult>(std::initializer_list<double>{s[2], s[3], s[0]}, 2);
        }
    };
    size_t i = vp_pick("target", 0, 4), j = vp_pick("added", 0, 4);
    auto x = make(i), y = make(j), ref = make(i);
    // ordering by mean result
    vp_assert((*x < *y) == (x->getResult() < y->getResult()), "results are ordered by their mean result");
    vp_assert(std::less<std::shared_ptr<EvaluationResult>>()(x, y) == (x->getResult() < y->getResult()), "pointed results are ordered by their mean result");
    bool thrown = false;
    try {
        *x += *y;
    }
    catch (std::runtime_error&) {
        thrown = true;
    }
    vp_assert(thrown == (i != j), "results of different kinds are rejected");
    if (thrown) {
        vp_assert(same(x->getResult(), ref->getResult()) && x->getNbEvaluation() == ref->getNbEvaluation(), "a rejected combination leaves the target unchanged");
        if (auto* c = dynamic_cast<ClassificationEvaluationResult*>(x.get())) {
            auto* d = dynamic_cast<ClassificationEvaluationResult*>(ref.get());
            for (size_t k = 0; k < c->getScorePerClass().size(); k++)
                vp_assert(same(c->getScorePerClass()[k], d->getScorePerClass()[k]) && c->getNbEvaluationPerClass()[k] == d->getNbEvaluationPerClass()[k], "a rejected combination leaves the target unchanged");
        }
        if (auto* c = dynamic_cast<AdversarialEvaluationResult*>(x.get()))
            for (size_t k = 0; k < c->getSize(); k++)
                vp_assert(same(c->getScoreOf(k), dynamic_cast<AdversarialEvaluationResult*>(ref.get())->getScoreOf(k)), "a rejected combination leaves the target unchanged");
        vp_reach("rejected");
    }
    else vp_reach("accepted");
    bool bad = false;
    try {
        ClassificationEvaluationResult z({s[0], s[1]}, {1});
    }
    catch (std::runtime_error&) {
        bad = true;
    }
    vp_assert(bad, "as many numbers of evaluations as scores");
}

// ---- C29
struct ClassEnv : ClassificationLearningEnvironment {
    Data::PrimitiveTypeArray<double> d{1};
    ClassEnv(size_t n) : ClassificationLearningEnvironment(n) {}
    void doAction(uint64_t a) override { ClassificationLearningEnvironment::doAction(a); }
    void reset(size_t s, LearningMode m, uint16_t i, uint64_t g) override { ClassificationLearningEnvironment::reset(s, m, i, g); }
    Sources getDataSources() override { return {d}; }
    bool isTerminal() const override { return false; }
    void cls(uint64_t c) { currentClass = c; }
    void table(size_t i, size_t j, uint64_t v) { classificationTable.at(i).at(j) = v; }
};
static double f1(const std::vector<std::vector<uint64_t>>& t, size_t c)
{
    uint64_t tp = t[c][c], row = 0, col = 0;
    for (size_t k = 0; k < t.size(); k++) row += t[c][k], col += t[k][c];
    if (!tp) return 0.0;
    return 2.0 * (double)tp / (double)(row + col); // F1 = 2 TP / (2 TP + FP + FN)
}
// any sequence of guesses
HARNESS(guesses)
{
    size_t k = vp_param("classes", 2), n = vp_param("guesses", 4);
    ClassEnv e(k);
    std::vector<std::vector<uint64_t>> t(k, std::vector<uint64_t>(k, 0));
    for (size_t i = 0; i < n; i++) {
        uint64_t c = vp_pick("class", 0, k - 1), a = vp_pick("guess", 0, k - 1);
        e.cls(c);
        e.doAction(a);
        t[c][a]++;
    }
    vp_assert(e.getClassificationTable() == t, "every guess is counted once, in its cell");
    double s = 0;
    for (size_t c = 0; c < k; c++) s += f1(t, c);
    vp_assert(near(e.getScore(), s / (double)k, 1e-9), "the score is the mean of the F1 scores");
    bool zero = false, thrown = false;
    for (size_t c = 0; c < k; c++) zero |= t[c][c] == 0;
    if (zero) vp_reach("no true positive");
    else vp_reach("true positives");
    try {
        e.doAction(k);
    }
    catch (std::out_of_range&) {
        thrown = true;
    }
    catch (std::runtime_error&) {
        thrown = true;
    }
    vp_assert(thrown && e.getClassificationTable() == t, "a guess outside the classes is rejected");
    e.reset(0, LearningMode::TRAINING, 0, 0);
    for (auto& r : e.getClassificationTable())
        for (auto v : r) vp_assert(v == 0, "a reset empties the table");
    vp_assert(e.getClassificationTable().size() == k && e.getScore() == 0.0, "an empty table scores zero");
}
static double f1pr(const std::vector<std::vector<uint64_t>>& t, size_t c)
{
    uint64_t tp = t[c][c], fn = 0, fp = 0;
    for (size_t k = 0; k < t.size(); k++) fn += t[c][k], fp += t[k][c];
    fn -= tp, fp -= tp;
    double recall = (double)tp / (double)(tp + fn), precision = (double)tp / (double)(tp + fp);
    return tp ? 2 * (precision * recall) / (precision + recall) : 0.0;
}
// any content of the table
HARNESS(f1table)
{
    size_t k = vp_param("classes", 2);
    uint64_t mx = vp_param("max", 3);
    ClassEnv e(k);
    std::vector<std::vector<uint64_t>> t(k, std::vector<uint64_t>(k));
    for (size_t i = 0; i < k; i++)
        for (size_t j = 0; j < k; j++) {
            // any number, or one of a few of very different magnitudes
            static const uint64_t of[] = {0, 3, 3000000000ull, 1, 1ull << 40};
            size_t levels = vp_param("levels", 0);
            t[i][j] = levels ? of[vp_pick("cell", 0, levels - 1)] : vp_u64("cell", 0, mx);
            e.table(i, j, t[i][j]);
        }
    double s = 0;
    bool some = false;
    for (size_t c = 0; c < k; c++) {
        bool z = t[c][c] == 0;
        some |= z;
        s += f1pr(t, c);
    }
    double n = (double)vp_param("classes", 2);
    vp_assert(near(e.getScore(), s / n, 1e-9), "the score is the mean of the F1 scores");
    vp_reach(some ? "no true positive" : "true positives");
}
