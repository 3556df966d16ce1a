// C29: the fitted amplitudes (and offsets, and polynomials) of the lines are
// the weighted least-squares ones of the samples under the lines.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/line/catalog.h>
#include <RedshiftLibrary/line/linetags.h>
#include <RedshiftLibrary/linemodel/abstractfitter.h>
#include <RedshiftLibrary/linemodel/continuummanager.h>
#include <RedshiftLibrary/linemodel/linemodelfitting.h>
#include <RedshiftLibrary/linemodel/linemodelsolution.h>
#include <RedshiftLibrary/linemodel/lineratiomanager.h>
#include <RedshiftLibrary/operator/templatefitting.h>
#include <RedshiftLibrary/processflow/autoscope.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/processflow/inputcontext.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <RedshiftLibrary/spectrum/template/catalog.h>
#include <set>
using namespace NSEpic;
using namespace mc;
typedef long double R;
static const double CL = 299792.458;

struct L { // a line
  std::string name;
  double pos;
  bool em;
  double nominal;
  std::string group;
  bool off = false;
  double truth = 0;
  bool strong = true;
};
struct World {
  bool meas = false, cont = false, ampOff = false, balmer = false;
  int noise = 0, step = 0;
  double z = 2.06, v = 200, va = 300, shift = 0, lo = 3700, hi = 6000;
  std::string fit = "individual";
  std::vector<L> lines;
};
static const char *B(bool b) { return b ? "true" : "false"; }
static std::string json(const World &w) {
  std::string lm = std::string("{\"lineTypeFilter\":\"no\",\"lineForceFilter\":\"no\",\"fittingMethod\":\"") + w.fit +
                   "\",\"lineWidthType\":\"combined\",\"velocityEmission\":200.0,\"velocityAbsorption\":300.0,\"velocityFit\":false,\"ampOffsetFit\":" + B(w.ampOff) +
                   ",\"lbdaOffsetFit\":true,\"emVelocityFitMin\":100.0,\"emVelocityFitMax\":300.0,\"emVelocityFitStep\":100.0,\"absVelocityFitMin\":150.0,\"absVelocityFitMax\":350.0,"
                   "\"absVelocityFitStep\":100.0,\"lya\":{\"profile\":\"igm\"},\"hAlphaPrior\":-1.0,\"lineRatioType\":\"rules\",\"rules\":\"no\",\"improveBalmerFit\":" +
                   B(w.balmer) + ",\"tplRatioIsmFit\":false,\"continuumComponent\":\"" + (w.cont ? "fromSpectrum" : "noContinuum") +
                   "\",\"continuumReestimation\":\"no\",\"continuumFit\":{\"negativeThreshold\":-5.0,\"nullThreshold\":3.0,\"fftProcessing\":false,\"ismFit\":false,"
                   "\"igmFit\":false,\"count\":1,\"ignoreLineSupport\":false,\"priors\":{\"betaA\":1.0,\"betaTE\":1.0,\"betaZ\":1.0,\"catalogDirPath\":\"\"}},\"useLogLambdaSampling\":false,"
                   "\"firstPass\":{\"fittingMethod\":\"individual\",\"tplRatioIsmFit\":false,\"multipleContinuumFitDisable\":true},\"nSigmaSupport\":8.0,\"enablePhotometry\":false,"
                   "\"polynomialDegree\":2}";
  std::string m = w.meas ? "lineMeasSolve" : "lineModelSolve", st = w.meas ? "lineMeasSolver" : "redshiftSolver";
  return "{\"multiObsMethod\":\"\",\"lambdaRange\":[" + num(w.lo) + "," + num(w.hi) +
         "],\"smoothWidth\":0.0,\"templateCatalog\":{\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75.0,\"medianEvenReflection\":true}},"
         "\"continuumRemoval\":{\"method\":\"irregularSamplingMedian\",\"medianKernelWidth\":150.0,\"medianEvenReflection\":true},"
         "\"ebmv\":{\"start\":0.0,\"step\":0.1,\"count\":3},\"airVacuumMethod\":\"\",\"autoCorrectInput\":false,\"lsf\":{\"lsfType\":\"gaussianConstantResolution\",\"resolution\":1000.0},"
         "\"extremaRedshiftSeparation\":0.01,\"spectrumModels\":[\"galaxy\"],\"galaxy\":{\"redshiftRange\":[0.0,4.0],\"redshiftStep\":0.001,\"redshiftSampling\":\"log\","
         "\"stages\":[\"" +
         st + "\"],\"" + st + "\":{\"method\":\"" + m + "\",\"" + m + "\":{\"lineModel\":" + lm + "}}}}";
}
static void tables() { // of no use here, but required
  static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> CAL;
  static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> IGM;
  if (!CAL) {
    TFloat64List l, f, m, g;
    for (int i = 0; i <= 40; i++)
      l.push_back(100 + 250. * i), f.push_back(2);
    CAL = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, f), 0., 0.1, 3);
    for (int i = 0; i < 6000; i++)
      m.push_back(1000. + 0.05 * i), g.push_back(.5);
    IGM = std::make_shared<CSpectrumFluxCorrectionMeiksin>(std::vector<MeiksinCorrection>(2, MeiksinCorrection(m, std::vector<TFloat64List>(7, g))), TFloat64List{2.0, 2.5, 3.0});
  }
  Context.setfluxCorrectionMeiksin(IGM);
  Context.setfluxCorrectionCalzetti(CAL);
}
static double sigmaAt(double mu, double v) { return std::sqrt(std::pow(mu / 1000. / 2.355, 2) + std::pow(v / CL * mu, 2)); }
static std::vector<double> X, F, S, C; // what is observed: wavelength, flux without continuum, error, continuum
static void setup(const World &w) {
  Context.reset();
  Context.LoadParameterStore(json(w));
  TFloat64List x, f, s;
  double l = w.lo - 40;
  for (int i = 0; l <= w.hi + 40; i++, l += w.step == 0 ? 5. : w.step == 1 ? 2.5 : 2. + 3. * std::pow(std::sin(i * .7), 2)) {
    double y = w.cont ? 1.5 + .4 * std::sin(l / 200) : 0;
    double c = y;
    for (auto &k : w.lines) {
      double mu = k.pos * (1 + w.z) * (1 + (k.off ? w.shift : 0) / CL), sg = sigmaAt(mu, k.em ? w.v : w.va);
      y += k.truth * (k.em ? 1 : -c) * std::exp(-.5 * std::pow((l - mu) / sg, 2));
    }
    x.push_back(l);
    f.push_back(y + .03 * std::sin(i * 12.9898) * std::cos(i * 4.1414));
    s.push_back(w.noise == 0 ? .1 : w.noise == 1 ? .1 * (1 + .6 * std::sin(i * 1.7)) : i % 5 == 2 ? 3. : .02 * (1 + i % 3));
  }
  auto sp = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f, CSpectrumNoiseAxis(s)));
  sp->SetName("s");
  sp->SetLSF(LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(1000.)));
  Context.addSpectrum(sp);
  tables();
  auto cat = std::make_shared<CTemplateCatalog>();
  Context.setTemplateCatalog(cat);
  CLineCatalog lc(8.);
  int id = 0;
  for (auto &k : w.lines) {
    lc.AddLineFromParams(k.name, k.pos, k.em ? "E" : "A", k.strong ? "S" : "W", "SYM", TAsymParams(), k.group, k.nominal, k.em ? "Em1" : "Abs1", 0., k.off, id, k.name + "_" + num(id), nullptr);
    ++id;
  }
  Context.setLineCatalog("galaxy", w.meas ? "lineMeasSolve" : "lineModelSolve", std::make_shared<CLineCatalog>(lc));
  Context.Init();
  auto &t = *Context.getSpectra().front();
  X = t.GetSpectralAxis().GetSamplesVector();
  S = t.GetFluxAxis().GetError().GetSamplesVector();
  F = t.GetRawFluxAxis().GetSamplesVector();
  C.assign(X.size(), 0.);
  if (w.cont) {
    C = t.GetContinuumFluxAxis().GetSamplesVector();
    for (size_t i = 0; i < F.size(); i++)
      F[i] -= C[i];
  }
}
struct Scope {
  std::unique_ptr<CAutoScope> a, b, c;
  Scope(const World &w) {
    auto &s = Context.m_ScopeStack;
    a = std::make_unique<CAutoScope>(s, "galaxy", ScopeType::SPECTRUMMODEL, false);
    b = std::make_unique<CAutoScope>(s, w.meas ? "lineMeasSolver" : "redshiftSolver", ScopeType::STAGE, false);
    c = std::make_unique<CAutoScope>(s, w.meas ? "lineMeasSolve" : "lineModelSolve", ScopeType::METHOD, false);
  }
  ~Scope() { c.reset(), b.reset(), a.reset(); }
};

// ------------------------------------------------------------------- oracle
struct E { // element
  std::vector<int> k; // lines
  std::vector<std::pair<int, int>> win; // samples of each line
  std::vector<bool> in;
  std::vector<double> nominal, off;
  bool em = true, outside = true, canOff = false;
  std::set<int> samples() const {
    std::set<int> s;
    for (size_t i = 0; i < k.size(); i++)
      if (in[i])
        for (int j = win[i].first; j <= win[i].second; j++)
          s.insert(j);
    return s;
  }
};
// flux of the element of unit amplitude, or of that amplitude with absorption lines that take no more than the continuum
static R column(const World &w, const E &e, int s, bool trunc, double amp = NAN) {
  R y = 0;
  // windows that touch each other act as one
  std::vector<bool> on(e.k.size(), !trunc);
  if (trunc) {
    for (size_t i = 0; i < e.k.size(); i++)
      on[i] = e.in[i] && s >= e.win[i].first && s <= e.win[i].second;
    for (size_t n = 0; n < e.k.size(); n++)
      for (size_t i = 0; i < e.k.size(); i++)
        for (size_t j = 0; j < e.k.size(); j++)
          if (on[i] && e.in[j] && e.in[i] && std::max(e.win[i].first, e.win[j].first) <= std::min(e.win[i].second, e.win[j].second))
            on[j] = true;
  }
  for (size_t i = 0; i < e.k.size(); i++) {
    if (!e.in[i] || !on[i])
      continue;
    auto &l = w.lines[e.k[i]];
    double mu = l.pos * (1 + w.z) * (1 + e.off[i] / CL), sg = sigmaAt(mu, e.em ? w.v : w.va);
    R h = std::isnan(amp) ? e.nominal[i] : e.em ? e.nominal[i] * amp : std::min(1., e.nominal[i] * amp);
    y += h * (e.em ? 1 : -C[s]) * std::exp(-.5 * std::pow((X[s] - mu) / sg, 2));
  }
  return y;
}
struct Fit {
  std::vector<double> a, err; // by element of the group
  std::vector<double> poly;   // value at the samples
  double sse = 0;
  bool close0 = false, third = false;
};
static std::vector<std::vector<R>> inverse(std::vector<std::vector<R>> m) {
  int n = m.size();
  std::vector<std::vector<R>> v(n, std::vector<R>(n, 0));
  for (int i = 0; i < n; i++)
    v[i][i] = 1;
  for (int i = 0; i < n; i++) {
    int p = i;
    for (int j = i; j < n; j++)
      if (std::fabs(m[j][i]) > std::fabs(m[p][i]))
        p = j;
    std::swap(m[i], m[p]), std::swap(v[i], v[p]);
    if (std::fabs(m[i][i]) < 1e-14L)
      throw Skip();
    R d = m[i][i];
    for (int j = 0; j < n; j++)
      m[i][j] /= d, v[i][j] /= d;
    for (int k = 0; k < n; k++)
      if (k != i) {
        R q = m[k][i];
        for (int j = 0; j < n; j++)
          m[k][j] -= q * m[i][j], v[k][j] -= q * v[i][j];
      }
  }
  return v;
}
static void joint(const World &w, const std::vector<const E *> &g, const std::vector<int> &which, const std::set<int> &sm, int np, bool trunc, std::vector<R> &a, std::vector<R> &err,
                  std::vector<R> &poly) {
  int n = which.size() + np;
  std::vector<std::vector<R>> M(n, std::vector<R>(n, 0));
  std::vector<R> b(n, 0), col(n), sc(n, 0);
  double x0 = X[*sm.begin()], dx = X[*sm.rbegin()] - x0 + 1;
  auto fill = [&](int s) {
    for (size_t i = 0; i < which.size(); i++)
      col[i] = column(w, *g[which[i]], s, trunc);
    for (int p = 0; p < np; p++)
      col[which.size() + p] = std::pow((X[s] - x0) / dx * 2 - 1, p);
  };
  for (int s : sm) {
    fill(s);
    for (int i = 0; i < n; i++)
      sc[i] += col[i] * col[i] / (R(S[s]) * S[s]);
  }
  for (auto &q : sc) {
    if (q <= 0)
      throw Skip();
    q = std::sqrt(q);
  }
  for (int s : sm) {
    fill(s);
    for (int i = 0; i < n; i++) {
      b[i] += col[i] / sc[i] * F[s] / (R(S[s]) * S[s]);
      for (int j = 0; j < n; j++)
        M[i][j] += col[i] / sc[i] * col[j] / sc[j] / (R(S[s]) * S[s]);
    }
  }
  auto V = inverse(M);
  std::vector<R> sol(n, 0);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++)
      sol[i] += V[i][j] * b[j];
    sol[i] /= sc[i];
  }
  a.assign(sol.begin(), sol.begin() + which.size());
  err.clear();
  for (size_t i = 0; i < which.size(); i++)
    err.push_back(std::sqrt(V[i][i]) / sc[i]);
  poly.clear();
  for (int s : sm) {
    R y = 0;
    for (int p = 0; p < np; p++)
      y += sol[which.size() + p] * std::pow((X[s] - x0) / dx * 2 - 1, p);
    poly.push_back(y);
  }
}
static Fit fitGroup(const World &w, const std::vector<const E *> &g, bool alone, int np, bool trunc) {
  Fit r;
  int n = g.size();
  std::set<int> sm;
  for (auto e : g)
    for (int s : e->samples())
      sm.insert(s);
  r.a.assign(n, 0), r.err.assign(n, INFINITY), r.poly.assign(sm.size(), 0.);
  auto one = [&](int i) { // its own samples only
    R dm = 0, mm = 0;
    for (int s : g[i]->samples()) {
      R m = column(w, *g[i], s, trunc), v = R(S[s]) * S[s];
      dm += m * F[s] / v, mm += m * m / v;
    }
    if (mm <= 0)
      throw Skip();
    r.close0 |= std::fabs(dm / mm) < 1e-9;
    r.a[i] = std::max(R(0), dm / mm), r.err[i] = 1 / std::sqrt(mm);
  };
  std::vector<int> all(n);
  for (int i = 0; i < n; i++)
    all[i] = i;
  if (alone)
    one(0);
  else if (int(sm.size()) >= n + np) {
    std::vector<R> a, e, p;
    auto go = [&](const std::vector<int> &wh) {
      joint(w, g, wh, sm, np, trunc, a, e, p);
      bool ok = true;
      for (size_t i = 0; i < wh.size(); i++) {
        r.a[wh[i]] = a[i], r.err[wh[i]] = e[i];
        r.close0 |= std::fabs(a[i]) < 1e-9;
        ok &= a[i] >= 0;
      }
      r.poly.assign(p.begin(), p.end());
      return ok;
    };
    if (!go(all)) {
      std::vector<int> pos;
      for (int i = 0; i < n; i++)
        if (r.a[i] < 0)
          r.a[i] = 0;
        else
          pos.push_back(i);
      if (!np && pos.size() == 1)
        one(pos[0]);
      else if (!pos.empty() && !go(pos)) {
        r.third = true;
        for (int i : pos)
          if (r.a[i] > 0)
            one(i);
          else
            r.a[i] = 0;
      }
    }
  }
  size_t q = 0;
  for (int s : sm) {
    R m = r.poly[q++];
    for (int i = 0; i < n; i++)
      m += column(w, *g[i], s, true, r.a[i]);
    r.sse += std::pow((F[s] - m) / S[s], 2);
  }
  return r;
}

// joint fit of a Balmer line in emission and in absorption, if it is better
typedef std::vector<std::pair<double, double>> Amps;
static std::string balmer(const World &w, const std::vector<E> &el, Amps &T, Amps &U) {
  std::string out;
  for (std::string tag : {"Halpha", "Hbeta"}) {
    auto find = [&](const std::string &n, bool em) {
      for (size_t e = 0; e < el.size(); e++)
        for (int k : el[e].k)
          if (w.lines[k].name == n && w.lines[k].em == em)
            return int(e);
      return -1;
    };
    int e = find(tag, true), a = find(tag + "A", false);
    if (e < 0 || a < 0 || el[e].k.size() > 1 || el[a].k.size() > 1 || el[e].outside)
      continue;
    double mu = w.lines[el[e].k[0]].pos * (1 + w.z);
    if (sigmaAt(mu, w.va) < 2 * sigmaAt(mu, w.v))
      continue;
    std::set<int> more;
    if (tag == "Halpha")
      for (std::string n : {"[NII]a", "[NII]b"})
        if (find(n, true) >= 0)
          more.insert(find(n, true));
    std::vector<int> id{a, e};
    id.insert(id.end(), more.begin(), more.end());
    std::vector<const E *> g;
    for (int i : id) {
      if (el[i].outside)
        throw Skip();
      g.push_back(&el[i]);
    }
    int better[2];
    Fit f[2];
    for (int tr = 0; tr < 2; tr++) {
      f[tr] = fitGroup(w, g, false, 0, !tr);
      if (f[tr].close0)
        throw Skip();
      R before = 0, after = 0;
      for (int s : el[a].samples()) {
        R m = 0, q = 0;
        for (size_t i = 0; i < id.size(); i++) {
          m += column(w, *g[i], s, true, (tr ? U : T)[id[i]].first);
          q += column(w, *g[i], s, true, f[tr].a[i]);
        }
        before += std::pow((F[s] - m) / S[s], 2), after += std::pow((F[s] - q) / S[s], 2);
      }
      better[tr] = std::fabs(after - before) < 1e-6 * before ? 2 : after <= before;
    }
    if (better[0] != better[1] || better[0] == 2 || f[0].third != f[1].third)
      throw Skip();
    out += better[0] ? "better " : "worse ";
    if (better[0])
      for (size_t i = 0; i < id.size(); i++)
        T[id[i]] = {f[0].a[i], f[0].err[i]}, U[id[i]] = {f[1].a[i], f[1].err[i]};
  }
  return out;
}

static std::string str(const World &w) {
  std::string s = std::string(w.meas ? "lineMeas " : "") + w.fit + (w.cont ? " continuum" : "") + (w.ampOff ? " polynomial" : "") + (w.balmer ? " balmer" : "") + " noise:" + num(w.noise) + " step:" + num(w.step) +
                  " z:" + num(w.z) + " v:" + num(w.v) + "/" + num(w.va) + (w.shift ? " shift:" + num(w.shift) : "") + " range:" + num(w.lo) + "-" + num(w.hi);
  for (auto &l : w.lines)
    s += " " + l.name + "@" + num(l.pos) + (l.em ? "E" : "A") + (l.group == undefStr ? "" : "(" + l.group + ")") + "x" + num(l.nominal) + (l.off ? "+offset" : "") + (l.strong ? "" : "weak") + "=" + num(l.truth);
  return s;
}
// cumulated signal to noise of the emission lines: each sample once
static void snr(Ctx &c, CLineModelFitting &f, const World &w, const std::vector<E> &el) {
  struct Q {
    std::set<int> s;
    bool strong;
  };
  std::vector<Q> q;
  for (auto &e : el)
    for (size_t i = 0; i < e.k.size(); i++)
      if (e.em && e.in[i]) {
        Q n{{}, w.lines[e.k[i]].strong};
        for (int j = e.win[i].first; j <= e.win[i].second; j++)
          n.s.insert(j);
        for (size_t k = 0; k < q.size();) {
          bool share = false;
          for (int j : n.s)
            share |= q[k].s.count(j);
          if (share) {
            n.s.insert(q[k].s.begin(), q[k].s.end()), n.strong |= q[k].strong;
            q.erase(q.begin() + k), k = 0;
          } else
            ++k;
        }
        q.push_back(n);
      }
  f.refreshAllModels();
  f.getSpectraIndex().reset();
  auto &model = f.getSpectrumModel().GetModelSpectrum().GetFluxAxis();
  R a[2] = {0, 0}, b[2] = {0, 0};
  for (auto &g : q) {
    R fl = 0, er = 0;
    for (int j : g.s)
      fl += model[j] - C[j], er += R(S[j]) * S[j];
    for (int k = 0; k < 2; k++)
      if (!k || g.strong)
        a[k] += std::fabs(fl), b[k] += er;
  }
  auto r = f.getCumulSNRStrongEL();
  for (int k = 0; k < 2; k++) {
    double x = a[k] / std::sqrt(b[k]), y = k ? r.second : r.first;
    check((std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-7 * (1 + std::fabs(x)),
          std::string("signal to noise of the ") + (k ? "strong " : "") + "lines is " + num(y) + ", their samples give " + num(x), "snr");
  }
}
static void run(Ctx &c, World w) {
  c.desc << str(w);
  setup(w);
  Scope scope(w);
  CLineModelFitting f(std::make_shared<COperatorTemplateFitting>(TFloat64List{w.z}), w.meas ? ElementComposition::OneLine : ElementComposition::Default);
  f.m_lineRatioManager->SetLeastSquareFastEstimationEnabled(0);
  f.setContinuumComponent(w.cont ? "fromSpectrum" : "noContinuum");
  f.setPassMode(w.meas ? 3 : 2);
  f.SetVelocityEmission(w.v);
  f.SetVelocityAbsorption(w.va);
  f.SetAbsLinesLimit(1.0);
  CLineModelSolution sol;
  CTplModelSolution cont;
  f.fit(w.z, sol, cont, 0, true);
  c.step();
  
  f.getSpectraIndex().reset();
  auto &list = f.getElementList();
  auto &par = f.getElementParam();
  std::vector<E> el;
  size_t nl = 0;
  int nin = 0;
  for (size_t e = 0; e < par.size(); e++) {
    E x;
    auto &p = *par[e];
    x.em = p.IsEmission();
    for (int i = 0; i < p.size(); i++, nl++) {
      int k = -1;
      for (size_t j = 0; j < w.lines.size(); j++)
        if (p.m_Lines[i].GetPosition() == w.lines[j].pos && p.m_Lines[i].GetName() == w.lines[j].name)
          k = j;
      check(k >= 0, "line of no catalog", "lines");
      auto &l = w.lines[k];
      check(l.em == x.em, "lines of different types together", "lines");
      double mu = l.pos * (1 + w.z), h = 4 * sigmaAt(mu, x.em ? w.v : w.va), lo = std::max(w.lo, mu - h), hi = std::min(w.hi, mu + h);
      bool in = !list[e]->IsOutsideLambdaRange() && !list[e]->IsOutsideLambdaRangeLine(i);
      int a = 0, b = -1;
      if (in) {
        auto sup = list[e]->getTheoreticalSupportSubElt(i);
        a = sup.GetBegin(), b = sup.GetEnd();
        int ra = std::lower_bound(X.begin(), X.end(), lo) - X.begin(), rb = std::upper_bound(X.begin(), X.end(), hi) - X.begin() - 1;
        check(std::abs(a - ra) <= 1 && std::abs(b - rb) <= 1,
              "samples of " + l.name + " are " + num(a) + "-" + num(b) + ", those of its window " + num(lo) + "-" + num(hi) + " are " + num(ra) + "-" + num(rb), "support");
        check(hi > lo, "line " + l.name + " has no sample but is used", "support");
        x.outside = false, ++nin;
      } else
        check(hi - lo < h * 1.5, "line " + l.name + " is not used", "support");
      x.k.push_back(k), x.win.push_back({a, b}), x.in.push_back(in);
      x.nominal.push_back(p.m_NominalAmplitudes[i]);
      check(x.nominal.back() == (w.meas ? 1. : l.nominal) || x.nominal.back() == l.nominal, "nominal amplitude", "lines");
      x.canOff = x.canOff || l.off;
      x.off.push_back(0);
    }
    el.push_back(x);
  }
  check(nl == w.lines.size(), "lines fitted are " + num(nl) + " of " + num(w.lines.size()), "lines");
  // groups
  std::vector<std::vector<int>> groups;
  std::vector<bool> done(el.size(), false);
  for (size_t e = 0; e < el.size(); e++) {
    if (el[e].outside || done[e])
      continue;
    std::vector<int> g{int(e)};
    done[e] = true;
    for (size_t h = 0; h < el.size(); h++) {
      if (done[h] || el[h].outside || w.fit == "individual")
        continue;
      bool with = w.fit == "svd";
      if (w.fit == "hybrid" && el[h].em == el[e].em)
        for (size_t i = 0; i < el[e].k.size(); i++)
          for (size_t j = 0; j < el[h].k.size(); j++) {
            if (!el[e].in[i] || !el[h].in[j])
              continue;
            double m1 = w.lines[el[e].k[i]].pos * (1 + w.z), m2 = w.lines[el[h].k[j]].pos * (1 + w.z), h1 = 4 * sigmaAt(m1, el[e].em ? w.v : w.va), h2 = 4 * sigmaAt(m2, el[h].em ? w.v : w.va);
            with |= std::min(m1 + h1, m2 + h2) - std::max(m1 - h1, m2 - h2) > .15 * 2 * h1;
          }
      if (with)
        g.push_back(h), done[h] = true;
    }
    groups.push_back(g);
  }
  int np = w.ampOff && w.fit != "individual" ? 3 : 0;
  std::string out;
  std::vector<std::pair<double, double>> T(el.size(), {NAN, NAN}), U = T; // expected, without and with the tails
  bool lambdaOff = w.fit != "individual";
  for (auto &gi : groups) {
    std::vector<const E *> g;
    bool can = false;
    for (int e : gi)
      g.push_back(&el[e]), can |= el[e].canOff;
    bool alone = w.fit == "individual" || (w.fit == "hybrid" && g.size() == 1 && !np);
    int gp = alone ? 0 : np;
    std::string who;
    for (int e : gi)
      for (int k : el[e].k)
        who += " " + w.lines[k].name;
    double got = NAN;
    for (int e : gi)
      for (size_t i = 0; i < el[e].k.size(); i++) {
        double o = par[e]->m_Offsets[i];
        if (!w.lines[el[e].k[i]].off || !lambdaOff)
          check(o == 0, "offset of" + who + " is " + num(o), "offset/fixed");
        else {
          check(std::isnan(got) || got == o, "different offsets in" + who, "offset/common");
          got = o;
        }
      }
    auto set = [&](double o) {
      for (int e : gi)
        for (size_t i = 0; i < el[e].k.size(); i++)
          if (w.lines[el[e].k[i]].off)
            el[e].off[i] = o;
    };
    if (can && lambdaOff) {
      // the amplitudes may be fitted with or without the tails of the lines
      bool ok = false;
      double best, bo, q;
      for (bool tr : {false, true}) {
        if (ok)
          break;
        best = INFINITY, bo = 0;
        for (int i = -16; i <= 16; i++) {
          set(i * 25.);
          double q = fitGroup(w, g, alone, gp, tr).sse;
          if (q < best)
            best = q, bo = i * 25.;
        }
        set(got);
        q = fitGroup(w, g, alone, gp, tr).sse;
        ok = q <= best + 1e-6 * (1 + best);
      }
      check(std::fabs(got) <= 400 && std::fmod(got, 25) == 0, "offset of" + who + " is " + num(got), "offset/range");
      set(got);
      check(ok, "offset of" + who + " is " + num(got) + " with chi-square " + num(q) + ", " + num(bo) + " gives " + num(best), "offset/best");
      out += "offset ";
    }
    Fit a = fitGroup(w, g, alone, gp, true), b = fitGroup(w, g, alone, gp, false);
    if (a.close0 || b.close0 || a.third != b.third)
      throw Skip();
    for (size_t n = 0; n < gi.size(); n++)
      T[gi[n]] = {a.a[n], a.err[n]}, U[gi[n]] = {b.a[n], b.err[n]};
    if (gp) {
      std::set<int> sm;
      for (auto e : g)
        for (int s : e->samples())
          sm.insert(s);
      size_t q = 0;
      for (int s : sm) {
        double x = a.poly[q], t = 3 * std::fabs(a.poly[q] - b.poly[q]);
        ++q;
        for (int e : gi) {
          double y = par[e]->GetPolynomCoeffs().getValue(X[s]);
          check(std::fabs(y - x) <= 1e-5 * (std::fabs(x) + .03) + t, "polynomial under" + who + " is " + num(y) + " at " + num(X[s]) + ", least squares give " + num(x), "polynomial");
        }
      }
    }
    out += (alone ? "alone:" : "joint:") + num(g.size()) + (a.third ? "third" : "") + " ";
    int zero = 0;
    for (double v : a.a)
      zero += v == 0;
    out += zero ? "zero:" + num(zero) + " " : "";
  }
  if (w.balmer && w.fit == "hybrid")
    out += balmer(w, el, T, U);
  for (size_t n = 0; n < el.size(); n++) {
    auto &e = el[n];
    if (e.outside)
      continue;
    for (size_t i = 0; i < e.k.size(); i++) {
      double A = par[n]->m_FittedAmplitudes[i], D = par[n]->m_FittedAmplitudesStd[i];
      auto &l = w.lines[e.k[i]];
      if (!e.in[i]) {
        check(std::isnan(A), "amplitude of " + l.name + ", out of the range, is " + num(A), "outside");
        continue;
      }
      double xa = T[n].first * e.nominal[i], xe = T[n].second * e.nominal[i], ta = 3 * std::fabs(xa - U[n].first * e.nominal[i]), te = std::isinf(xe) ? 0 : 3 * std::fabs(xe - U[n].second * e.nominal[i]);
      if (!e.em)
        xa = std::min(1., xa);
      check(A >= 0, "amplitude of " + l.name + " is " + num(A), "negative");
      check(std::fabs(A - xa) <= 1e-6 * (std::fabs(xa) + (std::isinf(xe) ? 0 : xe)) + ta, "amplitude of " + l.name + " is " + num(A) + ", least squares give " + num(xa), "amplitude");
      check((std::isinf(xe) && std::isinf(D)) || std::fabs(D - xe) <= 1e-6 * xe + te, "uncertainty of " + l.name + " is " + num(D) + ", least squares give " + num(xe), "uncertainty");
    }
  }
  for (size_t e = 0; e < el.size(); e++)
    if (el[e].outside)
      for (int i = 0; i < par[e]->size(); i++)
        check(std::isnan(par[e]->m_FittedAmplitudes[i]), "amplitude of a line out of the range is " + num(par[e]->m_FittedAmplitudes[i]), "outside");
  snr(c, f, w, el);
  double sum = 0;
  for (auto &t : T)
    if (!std::isnan(t.first))
      sum += t.first * (1 + sum);
  c.outcome(out + num(std::round(sum * 1000)), nin > 0);
}

static const std::vector<double> SEP{1., 3., 6., 8.5, 9.5, 12.};
static std::vector<L> lines(int set, double sep) {
  double p = 1549.5;
  std::string u = undefStr;
  switch (set) {
  case 0:
    return {{"a", p, true, 1, u}};
  case 1:
    return {{"a", p, true, 1, u}, {"b", p + sep, true, 1, u}};
  case 2:
    return {{"a", p, true, 1, "g"}, {"b", p + sep, true, .5, "g"}, {"c", p + 4, true, 1, u}};
  case 3:
    return {{"a", p, true, 1, u}, {"b", p + sep, false, 1, u}};
  case 4:
    return {{"a", p, true, 1, u}, {"b", p + sep, true, 1, u}, {"c", p + 2 * sep, true, 1, u}};
  case 5:
    return {{"a", p, false, 1, u}, {"b", p + sep, false, .7, "h"}, {"c", p + 2 * sep, false, 1, "h"}};
  case 6: // at the border of the range
    return {{"a", 3700 / 3.06 + sep - 4.5, true, 1, u}, {"b", 3700 / 3.06 + 5, true, 1, u}, {"c", 6000 / 3.06 + 4.5 - sep, true, 1, u}};
  case 8: // two lines of a group that a third one joins
    return {{"a", p, true, 1, "g"}, {"b", p + 2 * sep, true, .8, "g"}, {"c", p + sep, true, .5, "g"}};
  case 7: // a line out of the range, in the group of one in the range
    return {{"b", 1100., true, .5, "g"}, {"a", p, true, 1, "g"}, {"c", 1000., true, 1, u}, {"d", p + sep, true, 1, u}};
  }
  return {};
}
static void amplitudes(Ctx &c) {
  World w;
  w.fit = std::vector<std::string>{"individual", "hybrid", "svd"}[c.choose(3)];
  w.cont = c.flip();
  int set = c.choose(9);
  if (!w.cont && (set == 3 || set == 5))
    throw Skip();
  w.lines = lines(set, set ? c.pick(SEP) : 0.);
  for (auto &l : w.lines)
    l.truth = l.pos < 1150 ? 0 : l.em ? c.pick(std::vector<double>{1.2, .15, -.8}) : c.pick(std::vector<double>{.5, 1.3, -.4});
  w.noise = c.choose(3);
  w.step = c.choose(c.thorough ? 3 : 2);
  if (c.thorough && c.flip())
    w.v = 500, w.va = 120;
  if (c.thorough && c.flip())
    w.z = 2.051;
  c.mine();
  run(c, w);
}
static void measures(Ctx &c) {
  World w;
  w.meas = true;
  w.fit = c.flip() ? "svd" : "hybrid";
  w.cont = c.flip();
  w.ampOff = c.flip();
  int set = c.choose(6);
  if (!w.cont && (set == 3 || set == 5))
    throw Skip();
  w.lines = lines(set, set ? c.pick(c.thorough ? SEP : std::vector<double>{3., 8.5}) : 0.);
  int off = c.choose(3); // none, the first one, all
  for (size_t i = 0; i < w.lines.size(); i++) {
    auto &l = w.lines[i];
    l.truth = l.em ? c.pick(std::vector<double>{1.2, -.8}) : c.pick(std::vector<double>{.5, -.4});
    l.off = off == 2 || (off == 1 && i == 0);
  }
  w.shift = off ? c.pick(c.thorough ? std::vector<double>{0., 100., -260., 400., -400.} : std::vector<double>{100., 400., -400.}) : 0;
  w.noise = c.choose(c.thorough ? 3 : 2);
  c.mine();
  run(c, w);
}
static void balmers(Ctx &c) {
  World w;
  w.cont = w.balmer = true;
  w.meas = c.flip();
  w.fit = "hybrid";
  w.v = c.pick(std::vector<double>{100., 300.});
  w.va = c.pick(std::vector<double>{300., 500., 900.});
  double p = 1549.5, sep = c.pick(c.thorough ? std::vector<double>{2., 4., 8., 12.} : std::vector<double>{3., 8.});
  int set = c.choose(4);
  std::string u = undefStr;
  if (set != 3)
    w.lines = {{"Hbeta", p, true, 1, u}, {"HbetaA", p, false, 1, u}};
  if (set == 1)
    w.lines.push_back({"x", p + sep, true, 1, u});
  if (set >= 2) {
    double q = set == 2 ? 1700 : p;
    w.lines.push_back({"HalphaA", q, false, 1, u});
    w.lines.push_back({"Halpha", q, true, 1, u});
    std::string gr = c.flip() ? "nii" : u;
    w.lines.push_back({"[NII]b", q - sep, true, .4, gr});
    w.lines.push_back({"[NII]a", q + sep, true, 1, gr});
  }
  int off = w.meas ? c.choose(2) : 0;
  for (auto &l : w.lines) {
    l.truth = l.em ? c.pick(std::vector<double>{1.2, -.3}) : c.pick(std::vector<double>{.6, -.2});
    l.off = off;
  }
  w.shift = off ? 100 : 0;
  w.noise = c.choose(c.thorough ? 3 : 2);
  w.step = c.thorough ? c.choose(2) : 0;
  c.mine();
  run(c, w);
}

static void strength(Ctx &c) {
  World w;
  int set = c.choose(7);
  const int of[] = {1, 2, 4, 8, 6, 7, 3};
  w.cont = of[set] == 3;
  w.step = c.choose(c.thorough ? 3 : 2);
  w.lines = lines(of[set], c.pick(SEP));
  std::sort(w.lines.begin(), w.lines.end(), [](const L &a, const L &b) { return a.name < b.name; });
  int n = w.lines.size(), perm = c.choose(n == 3 ? 6 : n == 4 ? 24 : 2);
  while (perm--)
    std::next_permutation(w.lines.begin(), w.lines.end(), [](const L &a, const L &b) { return a.name < b.name; });
  for (auto &l : w.lines) {
    l.truth = l.pos < 1150 ? 0 : l.em ? 1.2 : .5;
    l.strong = c.flip();
  }
  w.v = c.thorough && c.flip() ? 120 : 200;
  c.mine();
  run(c, w);
}
int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  Harness H;
  H.add("amplitudes", amplitudes);
  H.add("measures", measures);
  H.add("balmers", balmers);
  H.add("strength", strength);
  return H.main(argc, argv);
}
