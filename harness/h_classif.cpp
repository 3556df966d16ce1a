// C25: class probabilities against the evidences of the models that succeeded.
#include "mc.h"
#include <RedshiftLibrary/common/flag.h>
#include <RedshiftLibrary/method/classificationresult.h>
#include <RedshiftLibrary/method/classificationsolve.h>
#include <RedshiftLibrary/method/solveresult.h>
#include <RedshiftLibrary/operator/extremaresult.h>
#include <RedshiftLibrary/processflow/autoscope.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/processflow/parameterstore.h>
#include <RedshiftLibrary/processflow/resultstore.h>
using namespace NSEpic;
using namespace mc;
static const std::vector<std::string> M = {"galaxy", "star", "qso"};
static const std::vector<std::string> METH = {"lineModelSolve", "templateFittingSolve", "tplCombinationSolve"};
struct Sp {
  std::vector<int> order;
  std::vector<double> ev; // per model, NaN = no result
  std::vector<int> decoy; // per model
};
static std::shared_ptr<const CPdfSolveResult> res(double ev) {
  auto c = std::make_shared<TCandidateZ>();
  return std::make_shared<CPdfSolveResult>("CPdfSolveResult", c, "marg", ev);
}
static void params(const std::vector<int> &meth, const std::vector<int> &unsolved) {
  std::string j = "{\"spectrumModels\":[\"galaxy\",\"star\",\"qso\"]";
  for (int i = 0; i < 3; i++)
    j += ",\"" + M[i] + "\":{" + (unsolved[i] ? "\"stages\":[]" : "\"redshiftSolver\":{\"method\":\"" + METH[meth[i]] + "\"}") + "}";
  Context.LoadParameterStore(j + "}");
}
static void load(const Sp &s, const std::vector<int> &meth) {
  auto &ctx = Context;
  ctx.reset();
  auto &cat = const_cast<CInputContext &>(*ctx.GetInputContext()).m_categories;
  cat.clear();
  for (int i : s.order)
    cat.push_back(M[i]);
  auto &rs = ctx.GetResultStore();
  for (int i = 0; i < 3; i++) {
    if (!std::isnan(s.ev[i]))
      rs->StoreGlobalResult(M[i] + ".redshiftSolver." + METH[meth[i]], "solveResult", res(s.ev[i]));
    // results of another method, stage or name are not those of the redshift solver
    if (s.decoy[i] == 1)
      rs->StoreGlobalResult(M[i] + ".redshiftSolver." + METH[(meth[i] + 1) % 3], "solveResult", res(1e6));
    if (s.decoy[i] == 2)
      rs->StoreGlobalResult(M[i] + ".lineMeasSolver.lineMeasSolve", "solveResult", res(1e6));
    if (s.decoy[i] == 3)
      rs->StoreGlobalResult(M[i] + ".redshiftSolver." + METH[meth[i]], "extrema_results", res(1e6));
  }
}
static std::string classify(Ctx &c, CClassificationSolve &solve, const Sp &s, const std::string &w) {
  auto &ctx = Context;
  auto &rs = ctx.GetResultStore();
  double max = -INFINITY;
  for (int i : s.order)
    if (!std::isnan(s.ev[i]))
      max = std::max(max, s.ev[i]);
  bool refused = false;
  try {
    solve.Compute();
  } catch (const AmzException &e) {
    refused = true;
    check(e.getErrorCode() == ErrorCode::NO_CLASSIFICATION, w + ": wrong error code", "error");
  }
  c.step();
  check(refused == std::isinf(max), w + (refused ? ": classification refused although a model has an evidence" : ": classification succeeds without any evidence"), "refuse");
  bool stored = rs->HasDataset("classification", "classification", "classification", "solveResult");
  check(stored == !refused, w + ": result stored after a failure or missing after a success", "stored");
  if (refused)
    return "-";
  auto r = rs->GetClassificationResult("classification", "classification", "classification", "solveResult");
  check(r != nullptr && r->m_proba.size() == s.order.size() && r->m_evidences.size() == s.order.size(), w + ": not one probability per model", "size");
  long double sum = 0, tot = 0;
  for (int i : s.order)
    if (!std::isnan(s.ev[i]))
      sum += expl((long double)s.ev[i] - max);
  for (int i : s.order) {
    double p = r->m_proba.at(M[i]), x = std::isnan(s.ev[i]) ? 0 : double(expl((long double)s.ev[i] - max) / sum);
    check(p >= 0 && p <= 1, w + ": probability " + num(p) + " of " + M[i], "range");
    check(close(p, x, 1e-12, 1e-300), w + ": probability of " + M[i] + " is " + num(p) + " instead of " + num(x), "proba");
    double e = r->m_evidences.at(M[i]), xe = std::isnan(s.ev[i]) ? -INFINITY : s.ev[i];
    check(e == xe, w + ": evidence of " + M[i] + " is " + num(e) + " instead of " + num(xe), "evidence");
    tot += p;
  }
  check(std::abs((double)tot - 1) < 1e-12, w + ": probabilities add up to " + num((double)tot), "sum");
  int best = -1;
  for (int i : s.order)
    if (r->m_TypeLabel == M[i])
      best = i;
  check(best >= 0, w + ": class " + r->m_TypeLabel + " is not one of the models", "label");
  check(s.ev[best] == max, w + ": class " + r->m_TypeLabel + " is not the most likely one", "label");
  return r->m_TypeLabel;
}
static const std::vector<std::vector<int>> ORD = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0}, {1}, {2}};
static std::string show(const Sp &s) {
  std::string t = "[";
  for (int i : s.order)
    t += M[i] + ":" + (std::isnan(s.ev[i]) ? "none" : num(s.ev[i])) + (s.decoy[i] ? "+decoy" + std::to_string(s.decoy[i]) : "") + " ";
  return t + "]";
}
static Sp gen(Ctx &c, const TFloat64List &evs, const std::vector<std::vector<int>> &ords, int ndecoy) {
  Sp s;
  s.order = c.pick(ords);
  s.ev.assign(3, NAN);
  s.decoy.assign(3, 0);
  for (int i = 0; i < 3; i++) { // models that are not processed may still have results
    bool used = std::find(s.order.begin(), s.order.end(), i) != s.order.end();
    s.ev[i] = used ? c.pick(evs) : 1e5;
    s.decoy[i] = c.choose(ndecoy);
  }
  return s;
}
static void seq(Ctx &c, int n, const TFloat64List &evs, const std::vector<std::vector<int>> &ords, int ndecoy, int nmeth) {
  std::vector<int> meth(3);
  int k = c.choose(nmeth);
  for (int i = 0; i < 3; i++)
    meth[i] = (k / (i == 0 ? 1 : i == 1 ? 3 : 9)) % 3;
  auto &ctx = Context;
  std::string o;
  bool reuse = n > 1 && c.flip();
  std::vector<Sp> ss;
  for (int i = 0; i < n; i++) {
    ss.push_back(gen(c, evs, ords, ndecoy));
    c.desc << show(ss[i]);
  }
  // a model without result may also be one without redshift solver
  std::vector<int> unsolved(3, 0);
  for (int i = 0; i < 3; i++) {
    bool none = true;
    for (auto &x : ss)
      none = none && std::isnan(x.ev[i]);
    if (none && c.flip()) {
      unsolved[i] = 1;
      c.desc << " no solver for " << M[i];
    }
  }
  params(meth, unsolved);
  Flag.resetFlag();
  CAutoScope a(ctx.m_ScopeStack, "classification", ScopeType::SPECTRUMMODEL, false), b(ctx.m_ScopeStack, "classification", ScopeType::STAGE, false);
  auto solve = std::make_unique<CClassificationSolve>();
  for (int i = 0; i < n; i++) {
    load(ss[i], meth);
    if (i && !reuse)
      solve.reset(new CClassificationSolve());
    o += classify(c, *solve, ss[i], "spectrum " + std::to_string(i)) + " ";
  }
  c.outcome(o);
}
int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  static const double N = NAN, I = -INFINITY;
  Harness H;
  H.add("one", [](Ctx &c) {
    static const TFloat64List E1 = {N, 0, 0.5, -3, 800, -1e5, I, 1.5e5, 1e-13}, E2 = {N, 0, 0.5, -3, 800, -1e5, I, 1.5e5, 1e-13, 745, -745, 1e10, -1e300};
    seq(c, 1, c.thorough ? E2 : E1, ORD, 1, 1);
  });
  H.add("decoys", [](Ctx &c) { seq(c, 1, {N, 2, -1e4}, {ORD[0], ORD[4], ORD[8], ORD[13]}, 4, c.thorough ? 27 : 9); });
  H.add("history", [](Ctx &c) { seq(c, 2, c.thorough ? TFloat64List{N, 0, 3, -2000, I, 700} : TFloat64List{N, 3, -2000, I}, {ORD[0], ORD[3], ORD[10]}, 1, 1); });
  H.add("history3", [](Ctx &c) { seq(c, 3, c.thorough ? TFloat64List{N, 1, 2} : TFloat64List{N, 1}, {ORD[0], ORD[2], ORD[6]}, 1, 1); });
  return H.main(argc, argv);
}
