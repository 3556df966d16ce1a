// C22: template fitting (direct, with photometry, FFT) against brute force
// weighted least squares over every combination of corrections.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/operator/modelspectrumresult.h>
#include <RedshiftLibrary/operator/templatefitting.h>
#include <RedshiftLibrary/operator/templatefittinglog.h>
#include <RedshiftLibrary/operator/templatefittingwithphot.h>
#include <RedshiftLibrary/photometry/photometricband.h>
#include <RedshiftLibrary/photometry/photometricdata.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/processflow/inputcontext.h>
#include <RedshiftLibrary/spectrum/LSFConstantWidth.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <RedshiftLibrary/spectrum/maskBuilder.h>
#include <RedshiftLibrary/spectrum/template/catalog.h>
#include <memory>
using namespace NSEpic;
using namespace mc;

static const double LYA = 1216.;
static const TFloat64List ZB{2.0, 2.5, 3.0};
static const int NE = 3, NM = 2;
static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> CAL;
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> IGM;
static void tables() {
  TFloat64List l, f;
  for (int i = 0; i <= 140; i++) {
    l.push_back(600 + 10. * i);
    f.push_back(6. - 0.02 * i - (i % 5) * 0.03);
  }
  CAL = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, f), 0., 0.2, NE);
  TFloat64List ml;
  for (int i = 0; i < 121; i++)
    ml.push_back(1210.03 + 0.05 * i);
  std::vector<MeiksinCorrection> mcv;
  for (int z = 0; z < 2; z++) {
    std::vector<TFloat64List> v;
    for (int j = 0; j < NM; j++) {
      TFloat64List g;
      for (int i = 0; i < 121; i++)
        g.push_back(0.9 - 0.2 * z - 0.3 * j - 0.001 * i - (i % 7) * 0.003);
      v.push_back(g);
    }
    mcv.push_back(MeiksinCorrection(ml, v));
  }
  IGM = std::make_shared<CSpectrumFluxCorrectionMeiksin>(mcv, ZB);
  IGM->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(0.01), TFloat64Range(100, 100000));
}
static bool igmUnavailable(double z) { return z < ZB[0]; }
static double igm(double z, int k, double l) { return k < 0 || l > LYA ? 1 : IGM->getCorrection(z, k, l); }
static double dust(int k, double l) { return k < 0 ? 1 : CAL->GetDustCoeff(k, l); }

struct Obs {
  TFloat64List w, f, e;
  double lb, le;
  std::vector<bool> use; // mask
  std::string id;
};
struct Band {
  std::string name;
  TFloat64List w, t;
  double d, e;
};
struct Cfg {
  std::vector<Obs> obs;
  std::vector<Band> bands;
  double weight = 1;
  TFloat64List tw, tf;
  TFloat64List z;
  bool igm = false, ism = false;
  int fixE = undefIdx, fixM = undefIdx;
  double thr = 0, ovl = 0.1;
  CPriorHelper::TPriorZEList prior;
};
static double lin(const TFloat64List &x, const TFloat64List &y, double t) {
  int k = std::upper_bound(x.begin(), x.end(), t) - x.begin() - 1;
  k = std::max(0, std::min(k, (int)x.size() - 2));
  return y[k] + (y[k + 1] - y[k]) * ((t - x[k]) / (x[k + 1] - x[k]));
}
static double integrate(const Band &b, const TFloat64List &f) { // photon-counting band average in F_nu
  const double C = 299792458e10;
  double num_ = 0, den = 0;
  for (size_t i = 1; i < b.w.size(); i++) {
    double dn = C / b.w[i - 1] - C / b.w[i];
    auto g = [&](size_t k) { return b.t[k] * b.w[k]; };
    auto n = [&](size_t k) { return f[k] * b.w[k] * b.w[k] / C * g(k); };
    num_ += (n(i) + n(i - 1)) / 2 * dn;
    den += (g(i) + g(i - 1)) / 2 * dn;
  }
  return num_ / den;
}
struct One { // least squares for one combination
  double S = 0, T = 0, X = 0, Sp = 0, Tp = 0, Xp = 0, a = 0, ae = 0, as = 0, chi2 = 0, lp = 0;
};
struct Ref {
  bool refuse = false, igmOn = false, borderline = false;
  std::vector<double> ovl;
  std::vector<std::vector<One>> g; // [ism][igm]
  std::vector<int> E, Mx;
};
static TFloat64List modelOf(const Cfg &c, const Obs &o, double z, int ke, int km, std::vector<bool> &in, bool &any) {
  TFloat64List m(o.w.size(), 0.);
  in.assign(o.w.size(), false);
  for (size_t j = 0; j < o.w.size(); j++) {
    double l = o.w[j] / (1 + z);
    if (o.w[j] < o.lb || o.w[j] > o.le || l < c.tw.front() || l > c.tw.back())
      continue;
    in[j] = true;
    any = true;
    m[j] = lin(c.tw, c.tf, l) * dust(ke, l) * igm(z, km, l);
  }
  return m;
}
static void solve(One &o, const CPriorHelper::SPriorTZE *p, double thr) {
  bool pa = p && p->A_sigma > 0 && p->betaA > 0;
  double b = pa ? p->betaA / (p->A_sigma * p->A_sigma) : 0;
  // minimum of chi2 + b (a - mean)^2
  o.a = (o.X + (pa ? b * p->A_mean : 0)) / (o.T + b);
  o.ae = std::sqrt(o.T) / (o.T + b);
  o.as = o.a / o.ae;
  if (o.as < thr)
    o.a = 0;
  o.chi2 = o.S + o.T * o.a * o.a - 2 * o.a * o.X;
  if (pa) {
    o.lp = -2 * p->betaTE * p->logprior_precompTE - 2 * p->betaA * p->logprior_precompA - 2 * p->betaZ * p->logprior_precompZ + b * (o.a - p->A_mean) * (o.a - p->A_mean);
    o.chi2 += o.lp;
  }
}
static Ref reference(const Cfg &c, size_t iz) {
  Ref r;
  double z = c.z[iz];
  // fit range
  for (auto &o : c.obs) {
    int n = 0, k = 0;
    double fb = INFINITY;
    for (size_t j = 0; j < o.w.size(); j++) {
      double l = o.w[j] / (1 + z);
      for (double x : {l / c.tw.front(), l / c.tw.back(), l / LYA})
        r.borderline = r.borderline || (std::fabs(x - 1) < 1e-12);
      if (o.w[j] < o.lb || o.w[j] > o.le)
        continue;
      n++;
      if (l < c.tw.front() || l > c.tw.back())
        continue;
      k++;
      fb = std::min(fb, l);
    }
    double f = n ? (double)k / n : 0;
    r.ovl.push_back(f);
    r.refuse = r.refuse || f < c.ovl || f <= 0;
    r.igmOn = r.igmOn || (k && fb <= LYA);
  }
  for (auto &b : c.bands)
    for (double w : b.w) {
      double l = w / (1 + z);
      r.refuse = r.refuse || l < c.tw.front() || l > c.tw.back();
      r.igmOn = r.igmOn || l <= LYA;
      r.borderline = r.borderline || std::fabs(l / LYA - 1) < 1e-12 || std::fabs(l / c.tw.front() - 1) < 1e-12 || std::fabs(l / c.tw.back() - 1) < 1e-12;
    }
  r.igmOn = r.igmOn && c.igm;
  r.refuse = r.refuse || (r.igmOn && igmUnavailable(z));
  r.E = {-1};
  r.Mx = {-1};
  if (c.ism) {
    r.E.clear();
    for (int k = 0; k < NE; k++)
      if (c.fixE == undefIdx || k == c.fixE)
        r.E.push_back(k);
  }
  if (c.igm) {
    r.Mx.clear();
    for (int k = 0; k < NM; k++)
      if (c.fixM == undefIdx || k == c.fixM)
        r.Mx.push_back(k);
  }
  for (int ke : r.E) {
    r.g.emplace_back();
    for (int km : r.Mx) {
      One o;
      for (auto &ob : c.obs) {
        std::vector<bool> in;
        bool any = false;
        TFloat64List m = modelOf(c, ob, z, ke, r.igmOn ? km : -1, in, any);
        for (size_t j = 0; j < m.size(); j++)
          if (in[j] && ob.use[j]) {
            double v = 1 / (ob.e[j] * ob.e[j]);
            o.S += ob.f[j] * ob.f[j] * v;
            o.T += m[j] * m[j] * v;
            o.X += m[j] * ob.f[j] * v;
          }
        if (o.T == 0) // nothing to fit in this observation alone
          r.refuse = true;
      }
      for (auto &b : c.bands) {
        TFloat64List f;
        for (double w : b.w) {
          double l = w / (1 + z);
          f.push_back(lin(c.tw, c.tf, l) * dust(ke, l) * igm(z, r.igmOn ? km : -1, l));
        }
        double m = integrate(b, f), v = c.weight * c.weight / (b.e * b.e);
        o.Sp += b.d * b.d * v;
        o.Tp += m * m * v;
        o.Xp += m * b.d * v;
      }
      o.S += o.Sp;
      o.T += o.Tp;
      o.X += o.Xp;
      const CPriorHelper::SPriorTZE *p = c.prior.empty() ? nullptr : &c.prior[iz][ke < 0 ? 0 : ke];
      solve(o, p, c.thr);
      r.g.back().push_back(o);
    }
  }
  return r;
}
static const double TOL = 1e-9;
static bool eq(double a, double b, double scale) { return std::fabs(a - b) <= TOL * std::max({1e-300, std::fabs(scale), std::fabs(b)}) || (std::isnan(a) && std::isnan(b)); }

static std::string js(const Cfg &c, bool fft = false, double zmin = 0, double zmax = 0, double step = 1e-4) {
  std::ostringstream o;
  o << std::setprecision(17);
  auto cr = "\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":10.0,\"medianEvenReflection\":false}";
  o << "{\"spectrumModels\":[\"galaxy\"],\"autoCorrectInput\":false,\"lambdaRange\":";
  if (c.obs.size() == 1)
    o << "[" << c.obs[0].lb << "," << c.obs[0].le << "]";
  else {
    o << "{";
    for (size_t i = 0; i < c.obs.size(); i++)
      o << (i ? "," : "") << "\"" << c.obs[i].id << "\":[" << c.obs[i].lb << "," << c.obs[i].le << "]";
    o << "}";
  }
  o << ",\"smoothWidth\":0.0," << cr << ",\"templateCatalog\":{" << cr << "},\"lsf\":{\"lsfType\":\"gaussianConstantResolution\",\"resolution\":4000.0},"
    << "\"galaxy\":{\"redshiftRange\":[" << zmin << "," << zmax << "],\"redshiftStep\":" << step
    << ",\"redshiftSolver\":{\"method\":\"templateFittingSolve\",\"templateFittingSolve\":{\"fftProcessing\":" << (fft ? "true" : "false")
    << ",\"igmFit\":" << (c.igm ? "true" : "false") << ",\"ismFit\":" << (c.ism ? "true" : "false") << "}}}}";
  return o.str();
}
static void context(const Cfg &c, const std::shared_ptr<CTemplateCatalog> &cat, const std::string &json) {
  auto &ctx = CProcessFlowContext::GetInstance();
  ctx.reset();
  ctx.setTemplateCatalog(cat);
  ctx.setfluxCorrectionMeiksin(IGM);
  ctx.setfluxCorrectionCalzetti(CAL);
  for (auto &o : c.obs) {
    auto sp = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(o.w), CSpectrumFluxAxis(o.f, CSpectrumNoiseAxis(o.e)));
    sp->SetName("s");
    sp->setObsID(o.id);
    sp->SetLSF(LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(4000.)));
    if (!c.bands.empty()) {
      TStringList n;
      TFloat64List f, e;
      for (auto &b : c.bands) {
        n.push_back(b.name);
        f.push_back(b.d);
        e.push_back(b.e);
      }
      sp->SetPhotData(std::make_shared<CPhotometricData>(n, f, e));
    }
    ctx.addSpectrum(sp);
  }
  ctx.LoadParameterStore(json);
  ctx.Init();
}
struct Masker : CMaskBuilder {
  std::vector<Obs> obs;
  CMask getMask(const CSpectrumSpectralAxis &x, const TFloat64Range &, const Float64 &) override {
    for (auto &o : obs)
      if (o.w == x.GetSamplesVector()) {
        CMask m(o.w.size(), 1);
        for (size_t j = 0; j < o.w.size(); j++)
          m[j] = o.use[j];
        return m;
      }
    throw std::runtime_error("mask asked for an unknown axis");
  }
};
// the result at one redshift against the reference
static std::string compare(const Cfg &c, const Ref &r, const CTemplateFittingResult &res, size_t i, const std::string &tag, bool tables_ = true) {
  double best = INFINITY, scale = 0;
  for (auto &v : r.g)
    for (auto &o : v) {
      best = std::min(best, o.chi2);
      scale = std::max(scale, o.S + std::fabs(o.lp));
    }
  std::string at = "z=" + num(res.Redshifts[i]) + ": ";
  check(eq(res.ChiSquare[i], best, scale), at + "chi2 " + num(res.ChiSquare[i]) + ", optimum " + num(best), tag + "/chi2");
  int ke = -2, km = -2;
  if (!c.ism) {
    check(res.FitEbmvCoeff[i] == -1, at + "dust coefficient " + num(res.FitEbmvCoeff[i]) + " without dust", tag + "/ism");
    ke = 0;
  } else
    for (size_t k = 0; k < r.E.size(); k++)
      if (close(res.FitEbmvCoeff[i], 0.2 * r.E[k], 1e-12, 1e-12))
        ke = k;
  check(ke >= 0, at + "dust coefficient " + num(res.FitEbmvCoeff[i]) + " was not asked for", tag + "/ism");
  if (!r.igmOn) {
    check(res.FitMeiksinIdx[i] == undefIdx, at + "absorption index " + num(res.FitMeiksinIdx[i]) + " without absorption in range", tag + "/igm");
    km = 0;
  } else
    for (size_t k = 0; k < r.Mx.size(); k++)
      if (res.FitMeiksinIdx[i] == r.Mx[k])
        km = k;
  check(km >= 0, at + "absorption index " + num(res.FitMeiksinIdx[i]) + " was not asked for", tag + "/igm");
  const One &o = r.g[ke][km];
  check(eq(o.chi2, best, scale), at + "corrections reported (" + num(res.FitEbmvCoeff[i]) + ", " + num(res.FitMeiksinIdx[i]) + ") give chi2 " + num(o.chi2) + ", optimum " + num(best), tag + "/indices");
  double as = std::sqrt(o.S / std::max(o.T, 1e-300));
  bool edge = std::fabs(o.as - c.thr) < 1e-9 * (1 + std::fabs(c.thr)); // on the threshold: either
  if (!edge)
    check(eq(res.FitAmplitude[i], o.a, as), at + "amplitude " + num(res.FitAmplitude[i]) + ", optimum " + num(o.a), tag + "/ampl");
  check(eq(res.FitAmplitudeError[i], o.ae, o.ae), at + "amplitude error " + num(res.FitAmplitudeError[i]) + " for " + num(o.ae), tag + "/amplerr");
  check(eq(res.FitAmplitudeSigma[i], o.as, std::sqrt(o.S)), at + "amplitude significance " + num(res.FitAmplitudeSigma[i]) + " for " + num(o.as), tag + "/amplsigma");
  check(eq(res.FitDtM[i], o.X, std::sqrt(o.S * o.T)) && eq(res.FitMtM[i], o.T, o.T), at + "cross products", tag + "/products");
  check(eq(res.LogPrior[i], o.lp, 1), at + "prior term " + num(res.LogPrior[i]) + " for " + num(o.lp), tag + "/prior");
  if (tables_) {
    double snr = o.X <= 0 ? 0 : o.X / std::sqrt(o.T);
    check(eq(res.SNR[i], snr, std::sqrt(o.S)), at + "SNR " + num(res.SNR[i]) + " for " + num(snr), tag + "/snr");
    if (!c.bands.empty())
      check(eq(res.ChiSquarePhot[i], o.Sp + o.Tp * o.a * o.a - 2 * o.a * o.Xp, o.Sp), at + "photometric chi2 " + num(res.ChiSquarePhot[i]), tag + "/photchi2");
    for (size_t k = 0; k < c.obs.size(); k++)
      check(close(res.Overlap[i][k], r.ovl[k], 1e-12, 1e-12), at + "overlap " + num(res.Overlap[i][k]) + " for " + num(r.ovl[k]), tag + "/overlap");
  }
  check(res.ChiSquareIntermediate[i].size() == r.E.size(), at + "size of the intermediate table", tag + "/table");
  for (size_t a = 0; a < r.E.size(); a++) {
    check(res.ChiSquareIntermediate[i][a].size() == r.Mx.size(), at + "size of the intermediate table", tag + "/table");
    for (size_t b = 0; b < r.Mx.size(); b++)
      check(eq(res.ChiSquareIntermediate[i][a][b], r.g[a][b].chi2, scale),
            at + "chi2 for dust " + num(r.E[a]) + " absorption " + num(r.Mx[b]) + ": " + num(res.ChiSquareIntermediate[i][a][b]) + ", expected " + num(r.g[a][b].chi2), tag + "/table");
  }
  return num(std::round(best * 1e6) / 1e6);
}
static double cst(const Cfg &c) {
  double s = 0;
  for (auto &o : c.obs)
    for (size_t j = 0; j < o.w.size(); j++)
      if (o.w[j] >= o.lb && o.w[j] <= o.le)
        s -= 0.5 * std::log(2 * M_PI) + std::log(o.e[j]);
  for (auto &b : c.bands)
    s -= 0.5 * std::log(2 * M_PI) + std::log(b.e / c.weight);
  return s;
}
static std::shared_ptr<CTemplate> mkTpl(const Cfg &c) {
  auto t = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(c.tw), CSpectrumFluxAxis(c.tf));
  // attached when the parameters ask for them, as the context does
  if (c.ism)
    t->m_ismCorrectionCalzetti = CAL;
  if (c.igm)
    t->m_igmCorrectionMeiksin = IGM;
  return t;
}
static std::string direct(const Cfg &c, bool models = true) {
  context(c, std::make_shared<CTemplateCatalog>(), js(c));
  auto tpl = mkTpl(c);
  std::vector<Ref> ref;
  bool refuse = false, border = false;
  for (size_t i = 0; i < c.z.size(); i++) {
    ref.push_back(reference(c, i));
    refuse = refuse || ref.back().refuse;
    border = border || ref.back().borderline;
  }
  if (border)
    throw Skip();
  std::shared_ptr<COperatorTemplateFitting> op;
  if (c.bands.empty())
    op = std::make_shared<COperatorTemplateFitting>(c.z);
  else {
    auto bc = std::make_shared<CPhotBandCatalog>();
    for (auto &b : c.bands)
      bc->Add(b.name, CPhotometricBand(b.t, b.w));
    op = std::make_shared<COperatorTemplateFittingPhot>(bc, c.weight, c.z);
  }
  bool masked = false;
  for (auto &o : c.obs)
    for (bool u : o.use)
      masked = masked || !u;
  if (masked) {
    auto m = std::make_shared<Masker>();
    m->obs = c.obs;
    op->setMaskBuilder(m);
  }
  std::shared_ptr<CTemplateFittingResult> res;
  std::string err;
  try {
    res = std::dynamic_pointer_cast<CTemplateFittingResult>(op->Compute(tpl, c.ovl, "lin", c.igm, c.ism, c.thr, c.prior, c.fixE, c.fixM));
  } catch (const AmzException &e) {
    err = e.getMessage();
  }
  if (!res) {
    check(refuse, "refused although there is something to fit: " + err, "direct/refused");
    return "refused";
  }
  check(!refuse, "accepted although the template does not overlap, the absorption curve is missing or nothing is left to fit", "direct/accepted");
  check(res->Redshifts == c.z, "redshifts of the result", "direct/redshifts");
  std::string out;
  for (size_t i = 0; i < c.z.size(); i++)
    out += compare(c, ref[i], *res, i, "direct") + " ";
  check(close(res->CstLog, cst(c), 1e-12, 1e-12), "likelihood constant " + num(res->CstLog) + ", expected " + num(cst(c)), "direct/cstlog");
  check(tpl->GetFluxAxis().GetSamplesVector() == c.tf && !tpl->CheckIsmIgmEnabled(), "the template was changed by fitting it", "direct/template");
  if (models && c.prior.empty()) {
    size_t i = c.z.size() - 1;
    double chi2 = 0, scale = 0;
    auto mr = std::make_shared<CModelSpectrumResult>();
    TPhotVal pv;
    for (size_t k = 0; k < c.obs.size(); k++) {
      auto v = op->ComputeSpectrumModel(tpl, c.z[i], res->FitEbmvCoeff[i], res->FitMeiksinIdx[i], res->FitAmplitude[i], c.ovl, k, mr);
      if (k == 0)
        pv = v;
      const auto &ml = mr->ModelLambda.at(c.obs[k].id), &mf = mr->ModelFlux.at(c.obs[k].id);
      check(ml.size() == c.obs[k].w.size() && mf.size() == ml.size(), "size of the model spectrum", "model/size");
      for (size_t j = 0; j < ml.size(); j++) {
        check(close(ml[j], c.obs[k].w[j], 1e-12, 0), "wavelengths of the model spectrum", "model/wavelength");
        double l = ml[j] / (1 + c.z[i]);
        if (ml[j] < c.obs[k].lb || ml[j] > c.obs[k].le || l < c.tw.front() || l > c.tw.back() || !c.obs[k].use[j])
          continue;
        double d = (c.obs[k].f[j] - mf[j]) / c.obs[k].e[j];
        chi2 += d * d;
        scale += c.obs[k].f[j] * c.obs[k].f[j] / c.obs[k].e[j] / c.obs[k].e[j];
      }
    }
    for (auto &b : c.bands) {
      double d = (b.d - pv.at(b.name)) / b.e * c.weight;
      chi2 += d * d;
      scale += b.d * b.d / b.e / b.e;
    }
    check(std::fabs(chi2 - res->ChiSquare[i]) <= 1e-8 * std::max(chi2, scale), "the model built from the best fit has chi2 " + num(chi2) + " instead of " + num(res->ChiSquare[i]), "model/chi2");
  }
  return out;
}
static const double MIDZ = 2.4; // LyA in the middle of the observed range
static TFloat64List axis(int n, double mid, double step, double phase) {
  TFloat64List v;
  for (int i = 0; i < n; i++)
    v.push_back(mid + step * (i - n / 2 + phase) + (i % 2 ? 0.3 : 0.));
  return v;
}
static TFloat64List tplAxis(double a, double b) {
  TFloat64List v{a};
  for (int i = 0; v.back() + 60 < b; i++)
    v.push_back(v.back() + (i % 3 ? 23.7 : 14.1));
  v.push_back(b);
  return v;
}
static TFloat64List tplFlux(const TFloat64List &w, int shape) {
  TFloat64List f;
  for (size_t i = 0; i < w.size(); i++)
    f.push_back(shape == 0 ? 1.5 + std::sin(w[i] / 40.) : shape == 1 ? std::sin(w[i] / 25.)
                                                                     : 1.);
  return f;
}
static Obs mkObs(int n, double mid, double step, double phase, const std::string &id) {
  Obs o;
  o.w = axis(n, mid, step, phase);
  o.lb = o.w.front() - 1;
  o.le = o.w.back() + 1;
  o.use.assign(n, true);
  o.id = id;
  return o;
}
// spectra: 0 template-like with corrections, 1 irregular positive, 2 negative, 3 mixed signs
static void fill(const Cfg &c, Obs &o, int kind, int errs) {
  for (size_t j = 0; j < o.w.size(); j++) {
    double l = o.w[j] / (1 + MIDZ), t = lin(c.tw, c.tf, l);
    o.f.push_back(kind == 0 ? 2.5 * t * dust(1, l) * igm(MIDZ, 1, l) + 0.02 * (j % 3) : kind == 1 ? 1 + (j * 7 % 5)
                                                                                    : kind == 2   ? -1. - (j % 3)
                                                                                                  : (j % 2 ? -2. : 1.7));
    o.e.push_back(errs == 0 ? 0.5 : 0.3 + 0.2 * (j % 3));
  }
}
static const TFloat64List Z{1.9, 2.0, 2.39, 2.4, 2.41, 2.5, 3.3};
static CPriorHelper::TPriorZEList priors(size_t nz, int kind) {
  CPriorHelper::TPriorZEList r;
  for (size_t i = 0; kind && i < nz; i++) {
    r.emplace_back();
    for (int e = 0; e < NE; e++) {
      CPriorHelper::SPriorTZE p;
      p.priorTZE = 1;
      p.A_sigma = kind == 3 ? -1 : 0.4 + 0.3 * e;
      p.A_mean = kind == 2 ? -1. : 1.2 + e + 0.1 * i;
      p.betaA = kind == 4 ? 0 : 1.5;
      p.betaTE = 0.7;
      p.betaZ = 0.6;
      p.logprior_precompA = 0.3 * e;
      p.logprior_precompTE = -0.2 - e + 0.05 * i;
      p.logprior_precompZ = 0.11 * i;
      r.back().push_back(p);
    }
  }
  return r;
}

// The FFT fit chooses the corrections before it applies the prior (known finding)
static std::string comparePrior(const Cfg &c, const Ref &r, const CTemplateFittingResult &res, size_t i) {
  double best = INFINITY, bare = INFINITY, scale = 0;
  for (auto &v : r.g)
    for (auto &o : v) {
      best = std::min(best, o.chi2);
      scale = std::max(scale, o.S + std::fabs(o.lp));
      One q = o;
      solve(q, nullptr, c.thr);
      bare = std::min(bare, q.chi2);
    }
  std::string at = "z=" + num(res.Redshifts[i]) + ": chi2 " + num(res.ChiSquare[i]) + ", optimum with the prior " + num(best);
  if (eq(res.ChiSquare[i], best, scale))
    return num(std::round(best * 1e6) / 1e6) + " ";
  for (auto &v : r.g)
    for (auto &o : v) {
      One q = o;
      solve(q, nullptr, c.thr);
      check(!(eq(q.chi2, bare, scale) && eq(res.ChiSquare[i], o.chi2, scale)), at, "fft/selected-before-prior");
    }
  throw Violation(at, "fft/prior");
}

static void fillLog(Cfg &g, int kind, double first, double h, int n, double za, double zb, int shape) {
  auto &o = g.obs[0];
  for (int i = 0; i < n * 2 + 5; i++)
    o.w.push_back(first * std::exp(h * (0.43 * i + (i % 2 ? 0.15 : 0) - 1.1)));
  o.lb = first;
  o.le = first * std::exp(h * (n + 0.5));
  o.use.assign(o.w.size(), true);
  g.tw = {};
  for (double l = o.w.front() / (1 + zb) * 0.98; l < o.w.back() / (1 + za) * 1.03; l *= 1 + 0.7 * h)
    g.tw.push_back(l);
  g.tf = tplFlux(g.tw, shape);
  for (size_t j = 0; j < o.w.size(); j++) {
    double l = o.w[j] / (1 + (za + zb) / 2);
    o.f.push_back(kind == 0 ? 2.5 * lin(g.tw, g.tf, l) * dust(1, l) * igm((za + zb) / 2, 1, l) : kind == 1 ? 1 + (j * 7 % 5)
                                                                                             : kind == 2   ? -1. - (j % 3)
                                                                                                           : (j % 2 ? -2. : 1.7));
    o.e.push_back(0.3 + 0.2 * (j % 3));
  }
}
// FFT fit on the log grids made by the context
static std::string fft(Cfg g, double za, double zb, double h, int ratio, int prior) {
  auto cat = std::make_shared<CTemplateCatalog>();
  cat->Add(mkTpl(g));
  context(g, cat, js(g, true, za, zb, h));
  auto &ctx = CProcessFlowContext::GetInstance();
  auto rs = ctx.GetRebinnedSpectrum();
  TFloat64Range zz = ctx.GetInputContext()->m_logRebin.at("galaxy").zrange;
  TFloat64List zs = zz.SpreadOverLogZplusOne(h * ratio);
  if (zs.size() < 2 || (int)rs->GetSampleCount() < 2 * ratio)
    throw Skip();
  cat->m_logsampling = true;
  auto lt = cat->GetTemplate("galaxy", 0);
  cat->m_logsampling = false;
  g.prior = priors(zs.size(), prior);
  // reference on the very samples both share
  const auto &rw = rs->GetSpectralAxis().GetSamplesVector();
  const auto &rf = rs->GetFluxAxis().GetSamplesVector();
  const auto &re = rs->GetErrorAxis().GetSamplesVector();
  const auto &tw = lt->GetSpectralAxis().GetSamplesVector();
  const auto &tf = lt->GetFluxAxis().GetSamplesVector();
  std::shared_ptr<CTemplateFittingResult> res;
  std::string err;
  try {
    COperatorTemplateFittingLog op(zs);
    res = std::dynamic_pointer_cast<CTemplateFittingResult>(op.Compute(lt, 1., "lin", g.igm, g.ism, g.thr, g.prior, g.fixE, g.fixM));
  } catch (const AmzException &e) {
    err = e.getMessage();
  }
  std::vector<int> sub;
  for (int j = 0; j < (int)rw.size(); j++)
    if (ratio == 1 || j % ratio == 0)
      sub.push_back(j);
  bool refuse = false;
  std::vector<Ref> refs;
  for (double z : zs) {
    Ref r;
    r.E = {-1};
    r.Mx = {-1};
    if (g.ism) {
      r.E.clear();
      for (int k = 0; k < NE; k++)
        if (g.fixE == undefIdx || k == g.fixE)
          r.E.push_back(k);
    }
    if (g.igm) {
      r.Mx.clear();
      for (int k = 0; k < NM; k++)
        if (g.fixM == undefIdx || k == g.fixM)
          r.Mx.push_back(k);
    }
    r.igmOn = g.igm && rw[sub[0]] / (1 + z) <= LYA;
    r.refuse = r.igmOn && igmUnavailable(z);
    for (int j : sub)
      r.borderline = r.borderline || std::fabs(rw[j] / (1 + z) / LYA - 1) < 1e-7;
    for (double b : ZB)
      r.borderline = r.borderline || std::fabs(b - z) < 1e-9;
    refuse = refuse || r.refuse;
    for (int ke : r.E) {
      r.g.emplace_back();
      for (int km : r.Mx) {
        One v;
        for (int j : sub) {
          double l = rw[j] / (1 + z);
          int k = std::lround(std::log(l / tw[0]) / (std::log(tw.back() / tw[0]) / (tw.size() - 1)));
          check(k >= 0 && k < (int)tw.size() && std::fabs(tw[k] / l - 1) < 1e-6, "template not aligned", "fft/align");
          double m = tf[k] * dust(ke, tw[k]) * igm(z, r.igmOn ? km : -1, tw[k]), w = ratio / (re[j] * re[j]);
          v.S += rf[j] * rf[j] * w;
          v.T += m * m * w;
          v.X += m * rf[j] * w;
        }
        solve(v, g.prior.empty() ? nullptr : &g.prior[refs.size()][ke < 0 ? 0 : ke], g.thr);
        r.g.back().push_back(v);
      }
    }
    refs.push_back(r);
  }
  if (!res) {
    check(refuse, "refused although everything is covered: " + err, "fft/refused");
    return "refused";
  }
  check(!refuse, "accepted although the absorption curve is missing", "fft/accepted");
  std::string out;
  for (size_t i = 0; i < zs.size(); i++)
    if (!refs[i].borderline)
      out += prior ? comparePrior(g, refs[i], *res, i) : compare(g, refs[i], *res, i, "fft", false) + " ";
  return out;
}

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  tables();
  Harness H_;
  bool deep = false;
  for (int i = 1; i + 1 < argc; i++)
    deep = deep || (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough");
  auto options = [](Ctx &c, Cfg &g) {
    switch (c.choose(4)) {
    case 1:
      g.igm = true;
      break;
    case 2:
      g.igm = true, g.fixM = 0;
      break;
    case 3:
      g.igm = true, g.fixM = 1;
      break;
    }
    switch (c.choose(3)) {
    case 1:
      g.ism = true;
      break;
    case 2:
      g.ism = true, g.fixE = 2;
      break;
    }
    c.desc << (g.igm ? g.fixM == undefIdx ? " igm" : " igm=" + std::to_string(g.fixM) : "") << (g.ism ? g.fixE == undefIdx ? " ism" : " ism=2" : "");
  };
  // every option, redshift pair, position of LyA, range, mask
  H_.add("direct", [&](Ctx &c) {
    Cfg g;
    g.tw = tplAxis(880, 1480);
    int shape = c.choose(2), kind = c.choose(4);
    g.tf = tplFlux(g.tw, shape);
    options(c, g);
    int z1 = c.choose(Z.size() + 1), z2 = c.choose(Z.size());
    if (z1)
      g.z.push_back(Z[z1 - 1]);
    g.z.push_back(Z[z2]);
    int range = c.choose(4), mask = c.choose(3);
    g.thr = c.pick(std::vector<double>{0, 8});
    c.mine();
    g.obs.push_back(mkObs(5, LYA * (1 + MIDZ), 9, 0.13, ""));
    auto &o = g.obs[0];
    fill(g, o, kind, kind % 2);
    if (range == 1)
      o.lb = o.w[1], o.le = o.w[3];
    if (range == 2)
      o.lb = o.w[3] - 1;
    if (range == 3)
      o.le = o.w[1] + 0.5;
    if (mask == 1)
      o.use[0] = o.use[2] = false;
    if (mask == 2)
      o.use[3] = o.use[4] = false;
    c.desc << " template " << shape << " spectrum " << kind << " z=" << vec(g.z) << " range " << range << " mask " << mask << " threshold " << num(g.thr);
    std::string r = direct(g);
    c.outcome(r, r != "refused");
  });
  // all small spectra
  H_.add("spectra", [&](Ctx &c) {
    Cfg g;
    g.tw = tplAxis(880, 1480);
    g.tf = tplFlux(g.tw, c.choose(3));
    int n = deep ? 5 : 4, code = 0;
    Obs o = mkObs(n, LYA * (1 + MIDZ), 9, 0.13, "");
    for (int j = 0; j < n; j++) {
      o.f.push_back(c.pick(std::vector<double>{0.7, -1, 3}));
      code = code * 3 + (int)o.f.back();
    }
    bool nonzero = true;
    int errs = c.choose(1 << n);
    for (int j = 0; j < n; j++)
      o.e.push_back(errs >> j & 1 ? 1. : 0.25);
    int opt = c.choose(2);
    g.igm = g.ism = opt;
    g.z = {c.pick(TFloat64List{2.39, 2.4, 2.41})};
    g.thr = 0;
    c.mine();
    (void)nonzero;
    g.obs.push_back(o);
    c.desc << "flux " << vec(o.f) << " err " << vec(o.e) << (opt ? " ism igm" : "") << " z " << num(g.z[0]);
    c.outcome(direct(g), true);
  });
  // sequences of redshifts in one call
  H_.add("redshifts", [&](Ctx &c) {
    Cfg g;
    g.tw = tplAxis(880, 1480);
    g.tf = tplFlux(g.tw, 0);
    options(c, g);
    int n = deep ? 4 : 3;
    for (int i = 0; i < n; i++)
      g.z.push_back(Z[1 + c.choose(Z.size() - 1)]);
    c.mine();
    g.obs.push_back(mkObs(6, LYA * (1 + MIDZ), 9, 0.13, ""));
    fill(g, g.obs[0], 0, 1);
    c.desc << " z=" << vec(g.z);
    c.outcome(direct(g), true);
  });
  // templates shorter than the spectrum, overlap thresholds
  H_.add("overlap", [&](Ctx &c) {
    Cfg g;
    double a = c.pick(TFloat64List{880, 1209.5, 1213.5, 1217, 1222, 1300}), b = c.pick(TFloat64List{1480, 1222, 1218, 1214.5, 1211, 1100});
    options(c, g);
    g.ovl = c.pick(TFloat64List{0.01, 0.4, 0.6, 1.0});
    g.z = {c.pick(Z)};
    int range = c.choose(3), kind = c.choose(2);
    c.mine();
    if (b - a < 1)
      throw Skip();
    g.tw = {a, a + (b - a) * 0.4, a + (b - a) * 0.7, b};
    g.tf = {1.3, 2.2, 0.9, 1.4};
    g.obs.push_back(mkObs(5, LYA * (1 + MIDZ), 9, 0.13, ""));
    auto &o = g.obs[0];
    Cfg full = g;
    full.tw = tplAxis(880, 1480);
    full.tf = tplFlux(full.tw, 0);
    fill(full, o, kind, 1);
    if (range == 1)
      o.lb = o.w[1], o.le = o.w[3];
    if (range == 2)
      o.lb = o.w[2] - 0.5;
    c.desc << " template " << num(a) << ".." << num(b) << " overlap " << num(g.ovl) << " z=" << num(g.z[0]) << " range " << range;
    std::string r = direct(g);
    c.outcome(r, r != "refused");
  });
  // priors
  H_.add("priors", [&](Ctx &c) {
    Cfg g;
    g.tw = tplAxis(880, 1480);
    g.tf = tplFlux(g.tw, c.choose(2));
    options(c, g);
    g.z = {c.pick(Z), c.pick(Z)};
    int kind = c.choose(4), p = c.choose(5);
    g.thr = c.pick(std::vector<double>{0, 8});
    c.mine();
    if (!g.ism && p)
      throw Skip(); // priors are per dust value
    g.prior = priors(g.z.size(), p);
    g.obs.push_back(mkObs(5, LYA * (1 + MIDZ), 9, 0.13, ""));
    fill(g, g.obs[0], kind, 1);
    c.desc << " spectrum " << kind << " prior " << p << " z=" << vec(g.z) << " threshold " << num(g.thr);
    std::string r = direct(g);
    c.outcome(r, r != "refused");
  });
  // two observations, each at its own place relative to LyA
  H_.add("observations", [&](Ctx &c) {
    Cfg g;
    g.tw = tplAxis(880, 1480);
    g.tf = tplFlux(g.tw, 0);
    options(c, g);
    int a = c.choose(5), b = c.choose(5), mask = c.choose(2), kind = c.choose(2);
    g.z = {c.pick(Z), c.pick(TFloat64List{2.39, 2.41})};
    c.mine();
    std::vector<double> off{-200, -10, 0, 10, 200};
    g.obs = {mkObs(4, LYA * (1 + MIDZ) + off[a], 9, 0.13, "1"), mkObs(3, LYA * (1 + MIDZ) + off[b], 7, 0.21, "2")};
    for (auto &o : g.obs)
      fill(g, o, kind, 1);
    if (mask)
      g.obs[1].use[1] = false;
    c.desc << " offsets " << num(off[a]) << " " << num(off[b]) << " spectrum " << kind << " mask " << mask << " z=" << vec(g.z);
    std::string r = direct(g);
    c.outcome(r, r != "refused");
  });
  // photometry
  H_.add("photometry", [&](Ctx &c) {
    Cfg g;
    g.tw = tplAxis(880, 1480);
    g.tf = tplFlux(g.tw, 0);
    options(c, g);
    int a = c.choose(5), b = c.choose(5), kind = c.choose(2);
    int s = c.choose(3);
    g.weight = c.pick(TFloat64List{1, 0.5});
    g.z = {c.pick(Z), c.pick(TFloat64List{2.39, 2.41})};
    c.mine();
    std::vector<double> off{-400, -20, 0, 20, 400};
    double L = LYA * (1 + MIDZ);
    g.obs.push_back(mkObs(4, L + off[1 + s], 9, 0.13, ""));
    fill(g, g.obs[0], kind, 1);
    auto band = [&](const char *n, double mid, double d, double e) {
      return Band{n, {mid - 31, mid - 17, mid - 1, mid + 14, mid + 33}, {0.1, 0.8, 1., 0.7, 0.2}, d, e};
    };
    double fn = L * L / 299792458e10;
    g.bands = {band("zz", L + off[a], 2.1 * fn, 0.4 * fn), band("aa", L + off[b] + 3, 3.3 * fn, 0.7 * fn)};
    c.desc << " bands at " << num(off[a]) << " " << num(off[b]) << " spectrum " << s << "/" << kind << " weight " << num(g.weight) << " z=" << vec(g.z);
    std::string r = direct(g);
    c.outcome(r, r != "refused");
  });
  // FFT on the log grids
  H_.add("fft", [&](Ctx &c) {
    Cfg g;
    double h = 1e-3;
    int shape = c.choose(2), kind = c.choose(4);
    options(c, g);
    // redshift ranges: below LyA, start and end of absorption at several places, several bins
    auto zr = c.pick(std::vector<std::pair<double, double>>{{1.5, 1.505}, {2.38, 2.42}, {2.399, 2.42}, {2.45, 2.55}, {2.49, 2.512}, {2.9, 3.1}, {2.38, 2.56}, {2.5, 2.52}, {2.0, 2.01}});
    double first = c.pick(TFloat64List{LYA * 3.4, LYA * 3.4 * (1 + 0.3 * h), LYA * 3.5 * (1 + 0.2 * h), LYA * 3.5 * (1 - 0.2 * h), 2000.});
    int n = c.pick(std::vector<int>{2, 5});
    g.thr = c.pick(std::vector<double>{0, 8});
    int ratio = c.pick(std::vector<int>{1, 2});
    c.mine();
    g.obs.emplace_back();
    double za = zr.first, zb = zr.second;
    fillLog(g, kind, first, h, n, za, zb, shape);
    c.desc << " template " << shape << " spectrum " << kind << " z " << num(za) << ".." << num(zb) << " from " << num(first) << " n " << n << " ratio " << ratio << " threshold " << num(g.thr);
    std::string out = fft(g, za, zb, h, ratio, 0);
    c.outcome(out, out != "refused");
  });
  H_.add("fft-priors", [&](Ctx &c) {
    Cfg g;
    double h = 1e-3;
    g.ism = true;
    g.fixE = c.pick(std::vector<int>{undefIdx, 0, 2});
    int kind = c.choose(4), prior = 1;
    g.thr = c.pick(std::vector<double>{0, 8});
    double za = c.pick(TFloat64List{1.5, 2.38});
    c.mine();
    double zb = za + 0.02, first = LYA * 3.45;
    g.obs.emplace_back();
    fillLog(g, kind, first, h, 5, za, zb, 0);
    c.desc << "spectrum " << kind << " z " << num(za) << " dust " << g.fixE << " threshold " << num(g.thr);
    std::string out = fft(g, za, zb, h, 1, prior);
    c.outcome(out, out != "refused");
  });
  return H_.main(argc, argv);
}
