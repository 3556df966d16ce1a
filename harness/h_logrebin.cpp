// C18: what the input context prepares when FFT processing is on: the log grids
// of spectrum and templates, for single inputs and for every history of spectra.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/processflow/inputcontext.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <RedshiftLibrary/spectrum/logrebinning.h>
#include <RedshiftLibrary/spectrum/template/catalog.h>
#include <memory>
using namespace NSEpic;
using namespace mc;

static const double LB = 4000., H = 1e-4;
static double grid(double k) { return LB * std::exp(k * H); }

struct Params {
  double le, zmin, zmax, step = H, qstep = 0; // qstep: second FFT category
  int ratio = 1;                             // line model first pass ratio (galaxy)
  double lb = LB;
};
static std::string json(const Params &p) {
  std::ostringstream o;
  o << std::setprecision(17);
  auto cr = "\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":10.0,\"medianEvenReflection\":false}";
  o << "{\"spectrumModels\":[\"galaxy\"" << (p.qstep ? ",\"qso\"" : "") << ",\"star\"],\"autoCorrectInput\":false,\"lambdaRange\":["
    << p.lb << "," << p.le << "],\"smoothWidth\":0.0," << cr << ",\"templateCatalog\":{" << cr << "},"
    << "\"lsf\":{\"lsfType\":\"gaussianConstantResolution\",\"resolution\":4000.0},";
  std::ostringstream z;
  z << std::setprecision(17) << "\"redshiftRange\":[" << p.zmin << "," << p.zmax << "],\"redshiftStep\":";
  if (p.ratio == 1)
    o << "\"galaxy\":{" << z.str() << p.step
      << ",\"redshiftSolver\":{\"method\":\"templateFittingSolve\",\"templateFittingSolve\":{\"fftProcessing\":true,\"igmFit\":true,\"ismFit\":true}}}";
  else
    o << "\"galaxy\":{" << z.str() << p.step
      << ",\"redshiftSolver\":{\"method\":\"lineModelSolve\",\"lineModelSolve\":{\"lineModel\":{\"continuumComponent\":\"fromSpectrum\",\"firstPass\":{\"largeGridStepRatio\":"
      << p.ratio << "},\"continuumFit\":{\"fftProcessing\":true,\"igmFit\":true,\"ismFit\":true}}}}}";
  if (p.qstep)
    o << ",\"qso\":{" << z.str() << p.qstep
      << ",\"redshiftSolver\":{\"method\":\"templateFittingSolve\",\"templateFittingSolve\":{\"fftProcessing\":true,\"igmFit\":false,\"ismFit\":false}}}";
  o << ",\"star\":{" << z.str() << p.step
    << ",\"redshiftSolver\":{\"method\":\"templateFittingSolve\",\"templateFittingSolve\":{\"fftProcessing\":false,\"igmFit\":false,\"ismFit\":false}}}}";
  return o.str();
}
static double flux(double l) { return 2. + std::sin(l / 7.) + 0.3 * std::cos(l / 1.7); }
static double terr(double l) { return 0.1 + 0.01 * std::sin(l / 3.); }

// irregular sampling from a to b, both included
static TFloat64List irregular(double a, double b, double step) {
  TFloat64List v{a};
  for (int i = 0; v.back() + 2 * step < b; i++)
    v.push_back(v.back() + step * (i % 2 ? 1.25 : 0.75));
  if (b > v.back())
    v.push_back(b);
  return v;
}
static double lin(const TFloat64List &x, const TFloat64List &y, double t) {
  int k = std::upper_bound(x.begin(), x.end(), t) - x.begin() - 1;
  k = std::max(0, std::min(k, (int)x.size() - 2));
  return y[k] + (y[k + 1] - y[k]) * ((t - x[k]) / (x[k + 1] - x[k]));
}

struct Spc {
  bool log = false, bad = false;
  TFloat64List w;  // as delivered
  double h = 0;    // log: true step
  TFloat64List tw; // log: true wavelengths
  std::string name;
};
static Spc linSpc(double a, double b) {
  Spc s;
  s.w = irregular(a, b, 1.0);
  s.name = "irregular " + num(a) + ".." + num(b);
  return s;
}
static Spc logSpc(double phase, double h, int n, int decimals = -1) {
  Spc s;
  s.log = true;
  s.h = h;
  for (int i = 0; i < n; i++) {
    double l = LB * std::exp((phase * H) + i * h);
    s.tw.push_back(l);
    s.w.push_back(decimals < 0 ? l : std::round(l * std::pow(10, decimals)) / std::pow(10, decimals));
  }
  s.name = "log-sampled phase " + num(phase) + " step " + num(h) + " n " + std::to_string(n) + (decimals < 0 ? "" : " rounded");
  return s;
}
struct Tpl {
  std::string name, cat;
  double a, b;
};

struct Run {
  std::shared_ptr<CTemplateCatalog> cat = std::make_shared<CTemplateCatalog>();
  std::map<std::string, std::vector<std::shared_ptr<CTemplate>>> org;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> igm;
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> ism;

  Run(const std::vector<Tpl> &tpls) {
    // a context as it is at program start
    auto ic = std::const_pointer_cast<CInputContext>(CProcessFlowContext::GetInstance().GetInputContext());
    ic->m_logRebin.clear();
    ic->m_use_LogLambaSpectrum = false;
    for (auto &t : tpls) {
      TFloat64List w = irregular(t.a, t.b, 1.7), f;
      for (double l : w)
        f.push_back(flux(l) * (1 + 0.1 * org[t.cat].size()));
      auto p = std::make_shared<CTemplate>(t.name, t.cat, CSpectrumSpectralAxis(w), CSpectrumFluxAxis(f));
      org[t.cat].push_back(p);
      cat->Add(p);
    }
    TFloat64List l, c;
    for (int i = 0; i < 50; i++) {
      l.push_back(100. * i + 100);
      c.push_back(5 - 0.05 * i);
    }
    ism = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, c), 0., 0.1, 3);
    TFloat64List ml, mf;
    for (int i = 0; i < 40; i++) {
      ml.push_back(1190 + i);
      mf.push_back(0.9);
    }
    std::vector<MeiksinCorrection> mc_{MeiksinCorrection(ml, {mf, mf})};
    igm = std::make_shared<CSpectrumFluxCorrectionMeiksin>(mc_, TFloat64List{2., 3.});
  }
  static bool near(double a, double b, double rel) { return std::fabs(a / b - 1) <= rel; }

  // one spectrum through Init(); every postcondition is checked
  std::string process(const Params &p, const Spc &s) {
    auto &ctx = CProcessFlowContext::GetInstance();
    ctx.reset();
    ctx.setTemplateCatalog(cat);
    ctx.setfluxCorrectionMeiksin(igm);
    ctx.setfluxCorrectionCalzetti(ism);
    TFloat64List f, e;
    for (double l : s.w) {
      f.push_back(flux(l));
      e.push_back(terr(l));
    }
    if (s.bad)
      f[f.size() / 2] = NAN;
    auto sp = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(s.w), CSpectrumFluxAxis(f, CSpectrumNoiseAxis(e)));
    sp->SetName("s");
    sp->SetLSF(LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(4000.)));
    ctx.addSpectrum(sp);
    ctx.LoadParameterStore(json(p));
    auto ic = ctx.GetInputContext();
    // ---- definitions -----------------------------------------------------
    double h = s.log ? s.h : (p.qstep ? std::min(p.step, p.qstep) : p.step);
    const double EPS = 1e-9;
    double refb, refe;
    bool refuse = s.bad, unsure = false;
    double gb, ge; // wavelengths the resampled spectrum has to span (lin)
    if (s.log) {
      double x = std::log(p.lb / s.tw[0]) / h, y = std::log(p.le / s.tw[0]) / h;
      // a sample within the rounding of the input of a range end may count or not
      unsure = std::fabs(x - std::round(x)) < 0.02 || std::fabs(y - std::round(y)) < 0.02;
      int i0 = std::max(0., std::ceil(x)), i1 = std::min((double)s.tw.size() - 1, std::floor(y));
      refb = s.tw[0] * std::exp(std::ceil(x) * h);
      refe = s.tw[0] * std::exp(std::floor(y) * h);
      refuse = refuse || i1 - i0 < 1;
      if (i1 >= i0)
        gb = s.tw[i0], ge = s.tw[i1];
    } else {
      double x = std::log(p.le / p.lb) / h;
      unsure = std::fabs(x - std::round(x)) < 1e-6;
      refb = p.lb;
      refe = refb * std::exp(std::floor(x) * h);
      double a = std::max(s.w.front(), refb), b = std::min(s.w.back(), refe);
      double ka = std::log(a / refb) / h, kb = std::log(b / refb) / h;
      if (a >= b)
        refuse = true;
      for (double k : {ka, kb})
        unsure = unsure || (std::fabs(k - std::round(k)) < 1e-6 && k != 0);
      gb = refb * std::exp(std::ceil(ka) * h);
      ge = refb * std::exp(std::floor(kb) * h);
      refuse = refuse || std::floor(kb) - std::ceil(ka) < 1;
    }
    std::map<std::string, TFloat64Range> zr;
    std::vector<std::string> fft{"galaxy"};
    if (p.qstep)
      fft.push_back("qso");
    for (auto &c : fft) {
      int r = c == "galaxy" ? p.ratio : 1;
      double n = std::log((1 + p.zmax) / (1 + p.zmin)) / h / r;
      double nn = std::fabs(n - std::round(n)) < 1e-6 ? std::round(n) : std::ceil(n);
      zr[c] = TFloat64Range(p.zmin, (1 + p.zmin) * std::exp(nn * h * r) - 1);
      double slack = std::fabs(n - std::round(n)) < 1e-6 ? r * h : 0;
      for (auto &t : org[c]) {
        double nb = refb / (1 + zr[c].GetEnd()), ne = refe / (1 + p.zmin);
        double tb = t->GetSpectralAxis()[0], te = t->GetSpectralAxis().GetSamplesVector().back();
        if (tb > nb * (1 + 1e-12) || te < ne * (1 - 1e-12))
          refuse = true;
        unsure = unsure || std::fabs(tb / nb - 1) < 1e-12 + slack + (s.log ? 1e-6 : 0) || std::fabs(te / ne - 1) < 1e-12 + (s.log ? 1e-6 : 0);
      }
    }
    // ---- run ---------------------------------------------------------------
    std::string err;
    try {
      ctx.Init();
    } catch (const AmzException &x) {
      err = x.getMessage();
    } catch (const std::exception &x) {
      throw Violation(std::string("refused with a library exception: ") + x.what(), "refusal/type");
    }
    if (err.empty() && refuse && !unsure)
      throw Violation("accepted although the template or spectrum coverage is insufficient", "refusal/missing");
    if (!err.empty()) {
      check(refuse || unsure, "refused although everything needed is covered: " + err, "refusal/undue");
      return "refused";
    }
    // ---- postconditions ----------------------------------------------------
    check(near(ic->getLogGridStep(), h, s.log ? 1e-3 : 1e-12), "grid step " + num(ic->getLogGridStep()) + " for " + num(h), "step");
    double step = ic->getLogGridStep();
    auto rs = ctx.GetRebinnedSpectrum();
    const auto &rw = rs->GetSpectralAxis().GetSamplesVector();
    const auto &rf = rs->GetFluxAxis().GetSamplesVector();
    const auto &re = rs->GetErrorAxis().GetSamplesVector();
    check(rw.size() >= 2 && rf.size() == rw.size() && re.size() == rw.size(), "sizes", "sizes");
    check(rs->GetSpectralAxis().IsLogSampled(step), "the resampled spectrum is not on the log grid", "spectrum/grid");
    for (size_t i = 0; i < rw.size(); i++)
      check(near(rw[i], rw[0] * std::exp(i * step), 1e-9), "spectrum sample " + std::to_string(i) + " is off the log grid", "spectrum/grid");
    double tol = s.log ? 1e-6 : EPS;
    if (!unsure) {
      check(near(rw.front(), gb, tol) && near(rw.back(), ge, tol),
            "the resampled spectrum spans " + num(rw.front()) + ".." + num(rw.back()) + " instead of " + num(gb) + ".." + num(ge), "spectrum/span");
    } else { // one step less at either end at most
      check(std::fabs(std::log(rw.front() / gb)) < 1.01 * h && std::fabs(std::log(rw.back() / ge)) < 1.01 * h,
            "the resampled spectrum spans " + num(rw.front()) + ".." + num(rw.back()) + " instead of about " + num(gb) + ".." + num(ge), "spectrum/span");
    }
    for (size_t i = 0; i < rw.size(); i++) {
      if (s.log) { // the very samples that were delivered
        int j = std::lround(std::log(rw[i] / s.tw[0]) / h);
        check(j >= 0 && j < (int)s.w.size() && rf[i] == f[j] && re[i] == e[j] && near(rw[i], s.w[j], 2e-6),
              "sample " + std::to_string(i) + " of the log-sampled input changed", "spectrum/log-values");
      } else {
        check(rw[i] >= s.w.front() && rw[i] <= s.w.back(), "sample outside the input spectrum", "spectrum/outside");
        check(close(rf[i], lin(s.w, f, rw[i]), 1e-9, 1e-9), "resampled flux " + std::to_string(i) + ": " + num(rf[i]) + " for " + num(lin(s.w, f, rw[i])), "spectrum/flux");
        check(std::isfinite(re[i]) && re[i] > 0, "resampled error " + std::to_string(i) + " is " + num(re[i]), "spectrum/error");
      }
    }
    auto cl = ic->getClampedLambdaRange(true);
    check(near(cl->GetBegin(), std::max(rw.front(), p.lb), 1e-15) && near(cl->GetEnd(), std::min(rw.back(), p.le), 1e-15), "clamped range", "clamped");
    check(rs->GetLSF() == sp->GetLSF() && rs->GetName() == sp->GetName(), "LSF or name of the resampled spectrum", "lsf");
    // aligned reference range the templates have to serve
    double kb = std::ceil(std::log(p.lb / rw[0]) / step - 1e-6), ke = std::floor(std::log(p.le / rw[0]) / step + 1e-6);
    double rb = rw[0], rend = rw.back();
    (void)kb;
    (void)ke;
    check(ic->m_logRebin.size() == fft.size(), "redshift ranges kept for models that do not use the log grids", "zrange/extra");
    for (auto &c : fft) {
      auto it = ic->m_logRebin.find(c);
      check(it != ic->m_logRebin.end(), "no redshift range for " + c, "zrange/missing");
      TFloat64Range z = it->second.zrange;
      int r = c == "galaxy" ? p.ratio : 1;
      double n = std::log((1 + z.GetEnd()) / (1 + z.GetBegin())) / step / r;
      check(z.GetBegin() == p.zmin, "redshift range starts at " + num(z.GetBegin()), "zrange/begin");
      check(std::fabs(n - std::round(n)) < 1e-6, c + ": redshift range is not a whole number of grid steps: " + num(n), "zrange/aligned");
      check(z.GetEnd() >= p.zmax * (1 - 1e-12) && std::log((1 + z.GetEnd()) / (1 + p.zmax)) < r * step * (1 + 1e-6), c + ": redshift range ends at " + num(z.GetEnd()), "zrange/end");
      const auto &ol = org[c];
      check(cat->GetTemplateCount(c, false, true) == (int)ol.size(),
            std::to_string(cat->GetTemplateCount(c, false, true)) + " log-sampled templates for " + std::to_string(ol.size()) + " templates", "templates/count");
      for (size_t i = 0; i < ol.size(); i++) {
        auto t = cat->GetTemplate(c, i, false, true);
        std::string w = c + " template " + std::to_string(i) + ": ";
        check(t && t->GetName() == ol[i]->GetName() && t->GetCategory() == c, w + "not the variant of this template", "templates/identity");
        const auto &tw = t->GetSpectralAxis().GetSamplesVector();
        const auto &tf = t->GetFluxAxis().GetSamplesVector();
        const auto &ow = ol[i]->GetSpectralAxis().GetSamplesVector();
        const auto &of = ol[i]->GetFluxAxis().GetSamplesVector();
        check(tw.size() >= 2 && near(std::log(tw.back() / tw[0]) / (tw.size() - 1), step, 2e-3), w + "log step differs from the spectrum's", "templates/step");
        for (size_t k = 0; k < tw.size(); k++) {
          check(close(tf[k], lin(ow, of, tw[k]), 1e-9, 1e-9), w + "flux " + std::to_string(k) + " is not the template's", "templates/flux");
          check(tw[k] >= ow.front() * (1 - 1e-14) && tw[k] <= ow.back() * (1 + 1e-14), w + "extrapolated", "templates/extrapolated");
        }
        // alignment with the spectrum at both ends of the redshift range
        for (double target : {rb / (1 + z.GetEnd()), rend / (1 + z.GetBegin())}) {
          double k = std::log(target / tw[0]) / (std::log(tw.back() / tw[0]) / (tw.size() - 1));
          int kk = std::lround(k);
          check(kk >= 0 && kk < (int)tw.size(), w + "does not cover the whole redshift range (node " + num(k) + " of " + std::to_string(tw.size()) + ")", "templates/coverage");
          check(near(tw[kk], target, 4e-7), w + "not aligned with the spectrum: " + num(std::log(tw[kk] / target) / step) + " of a step off", "templates/aligned");
        }
        check(t->m_ismCorrectionCalzetti == ol[i]->m_ismCorrectionCalzetti && t->m_igmCorrectionMeiksin == ol[i]->m_igmCorrectionMeiksin, w + "corrections not attached", "templates/corrections");
        check((c == "galaxy") == !!t->m_ismCorrectionCalzetti, w + "dust correction", "templates/corrections");
      }
    }
    check(cat->GetTemplateCount("star", false, true) == 0, "templates of a model without FFT were resampled", "templates/star");
    for (auto &[c, l] : org)
      for (size_t i = 0; i < l.size(); i++)
        check(cat->GetTemplate(c, i, false, false) == l[i], "original templates changed", "templates/original");
    check(!cat->m_logsampling && !cat->m_orthogonal, "the catalog is left on another variant", "selection");
    std::ostringstream o;
    o << rw.size() << "/" << num(rw.front());
    return o.str();
  }
};
static double need(const Params &p, double l, bool begin) {
  if (!begin)
    return l / (1 + p.zmin);
  double n = std::ceil(std::log((1 + p.zmax) / (1 + p.zmin)) / p.step / p.ratio - 1e-9);
  return l / ((1 + p.zmin) * std::exp(n * p.step * p.ratio));
}

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  Harness H_;
  std::vector<std::pair<double, double>> ZR{{0., 0.00087}, {0.5, 0.5006}, {1.0, 1.0 + 2 * (std::exp(5 * H) - 1)}};
  // one irregular spectrum at every position relative to the range and grid
  H_.add("irregular", [&](Ctx &c) {
    Params p;
    int n = c.pick(std::vector<int>{12, 320});
    p.le = grid(n + c.pick(std::vector<double>{1e-5, 0.5, 0.999}));
    auto z = c.pick(ZR);
    p.zmin = z.first;
    p.zmax = z.second;
    p.qstep = c.pick(std::vector<double>{0, 2 * H, H / 2});
    double a = c.pick(std::vector<double>{-30, -1e-3, 0, 1e-3, 0.4, 1, 2, 2.6, 8.7}), b = c.pick(std::vector<double>{40, 0.999, 0.3, 0, -1e-3, -0.4, -1, -2, -2.6});
    Spc s;
    int shape = n == 12 ? c.choose(2) : 0;
    c.mine();
    if (shape == 0)
      s = linSpc(grid(a), grid(n + b));
    else { // coarser sampling than the grid
      s.w = irregular(grid(a), grid(n + b), 0.25);
      s.name = "fine irregular";
    }
    if (s.w.size() < 2)
      throw Skip();
    // the premise: not regular in log
    if (CSpectrumSpectralAxis(s.w).IsLogSampled())
      throw Skip();
    c.desc << "lambda range 4000.." << num(p.le) << " z " << p.zmin << ".." << p.zmax << " second step " << p.qstep << "; " << s.name;
    Run r({{"g0", "galaxy", 1500, 4500}, {"g1", "galaxy", 1600, 4400}, {"q0", "qso", 1500, 4500}, {"s0", "star", 3990, 4200}});
    std::string o = r.process(p, s);
    c.outcome(o, o != "refused");
  });
  // template coverage and redshift ranges
  H_.add("coverage", [&](Ctx &c) {
    Params p;
    int n = 25;
    p.le = grid(n + c.pick(std::vector<double>{1e-5, 0.5, 0.999}));
    auto z = c.pick(std::vector<std::pair<double, double>>{{0., 0.00087}, {0., 0.0009}, {0.5, 0.5006}, {2., 2.0005}, {0.1, 0.10001}});
    p.zmin = z.first;
    p.zmax = z.second;
    p.ratio = c.pick(std::vector<int>{1, 2, 3, 5});
    std::vector<double> m{1e-2, 1e-5, 2e-9, 0., -1e-7, -1e-4};
    if (c.thorough)
      m.insert(m.end(), {1e-3, 1e-7, -1e-9, -1e-2});
    double a = c.pick(m), b = c.pick(m);
    bool second = c.flip(), wide = c.flip();
    c.mine();
    double nb = need(p, LB, true) * (1 - a), ne = need(p, grid(n), false) * (1 + b);
    std::vector<Tpl> t{{"g0", "galaxy", 1000, 5000}, {"g1", "galaxy", nb, ne}, {"s0", "star", 3990, 4200}};
    if (second)
      std::swap(t[0], t[1]);
    Spc s = wide ? linSpc(3990, 4100) : linSpc(LB, grid(n));
    c.desc << "z " << p.zmin << ".." << num(p.zmax) << " ratio " << p.ratio << " template margin " << a << "," << b << (second ? " first" : " second") << " " << s.name;
    Run r(t);
    std::string o = r.process(p, s);
    c.outcome(o + (o == "refused" ? num(a) + num(b) : ""), true);
  });
  // every history of spectra with one parameter document
  H_.add("history", [&](Ctx &c) {
    Params p;
    p.le = grid(330.5);
    p.zmin = 0.;
    p.zmax = 0.00087;
    int cfg = c.choose(5);
    int depth = c.thorough ? 4 : 3;
    std::vector<int> h;
    std::ostringstream d;
    for (int i = 0; i < depth; i++)
      h.push_back(c.choose(10));
    c.mine();
    // margins in grid steps: with <1 step missing, only some inputs can be served
    double a[2] = {0.5, 0.5}, b[2] = {0.5, 0.5};
    if (cfg == 1)
      a[1] = -0.5;
    if (cfg == 2)
      a[0] = -0.5;
    if (cfg == 3)
      b[1] = -0.2;
    if (cfg == 4)
      a[1] = -0.2, b[0] = -0.2;
    std::vector<Tpl> t;
    for (int i = 0; i < 2; i++)
      t.push_back({"g" + std::to_string(i), "galaxy", need(p, LB, true) * std::exp(-a[i] * H), need(p, grid(330.5), false) * std::exp((b[i]) * H)});
    if (cfg == 0)
      t.push_back({"g2", "galaxy", 3900, 4200});
    t.push_back({"s0", "star", 3990, 4200});
    Run r(t);
    std::string o;
    c.desc << "templates configuration " << cfg << ": ";
    bool any = false;
    for (int k : h) {
      Spc s;
      switch (k) {
      case 0: s = linSpc(3990, 4200); break;
      case 1: s = linSpc(grid(3.4), grid(300.2)); break;
      case 2: s = logSpc(0.03, H, 331); break;
      case 3: s = logSpc(-10 + 0.3, H, 350); break;
      case 4: s = logSpc(0.6, H, 320); break;
      case 5: s = logSpc(0.6, H, 320, 3); break;
      case 6: s = logSpc(-0.7, H / 2, 663); break;
      case 7: s = logSpc(0.8, 1.5 * H, 310); break;
      case 8: s = linSpc(3990, 4200); s.bad = true; break;
      case 9: s = logSpc(0.6 - 300, H, 305); break; // few samples left in the range
      }
      c.desc << s.name << (s.bad ? " (invalid)" : "") << "; ";
      std::string q = r.process(p, s);
      c.step();
      any = any || q != "refused";
      o += q + ";";
    }
    c.outcome(o, any);
  });
  // two parameter documents one after the other
  H_.add("parameters", [&](Ctx &c) {
    std::ostringstream d;
    Params p[2];
    for (int i = 0; i < 2; i++) {
      p[i].le = grid(c.pick(std::vector<double>{25.5, 20.}) + 1e-5);
      auto z = c.pick(ZR);
      p[i].zmin = z.first;
      p[i].zmax = z.second;
      p[i].step = c.pick(std::vector<double>{H, 2 * H});
      p[i].qstep = c.pick(std::vector<double>{0, H / 2});
      p[i].lb = c.pick(std::vector<double>{LB, LB + 0.1});
      d << "4000.." << num(p[i].le) << " z " << p[i].zmin << ".." << p[i].zmax << " steps " << p[i].step << "," << p[i].qstep << "; ";
    }
    c.mine();
    c.desc << d.str();
    Run r({{"g0", "galaxy", 1500, 4500}, {"g1", "galaxy", 1600, 4400}, {"q0", "qso", 1500, 4500}, {"s0", "star", 3990, 4200}});
    std::string o;
    for (auto &q : p)
      o += r.process(q, linSpc(3990, 4100)) + ";";
    c.outcome(o);
  });
  return H_.main(argc, argv);
}
