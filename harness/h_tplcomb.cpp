// C27: combinations of templates against an own weighted least squares over
// every pair of corrections.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/mask.h>
#include <RedshiftLibrary/operator/modelspectrumresult.h>
#include <RedshiftLibrary/operator/tplcombination.h>
#include <RedshiftLibrary/operator/tplcombinationresult.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/LSFConstantWidth.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <RedshiftLibrary/spectrum/spectrum.h>
#include <RedshiftLibrary/spectrum/template/template.h>
#include <memory>
using namespace NSEpic;
using namespace mc;

static const double LYA = 1216.;
static const TFloat64List ZB{2.0, 2.5, 3.0};
static const int NE = 3, NM = 2;
static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> CAL;
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> IGM;
static void tables() {
  TFloat64List l, f;
  for (int i = 0; i <= 140; i++) {
    l.push_back(600 + 10. * i);
    f.push_back(6. - 0.02 * i - (i % 5) * 0.03);
  }
  CAL = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, f), 0., 0.2, NE);
  TFloat64List ml;
  for (int i = 0; i < 121; i++)
    ml.push_back(1210.03 + 0.05 * i);
  std::vector<MeiksinCorrection> mcv;
  for (int z = 0; z < 2; z++) {
    std::vector<TFloat64List> v;
    for (int j = 0; j < NM; j++) {
      TFloat64List g;
      for (int i = 0; i < 121; i++)
        g.push_back(0.9 - 0.2 * z - 0.3 * j - 0.001 * i - (i % 7) * 0.003);
      v.push_back(g);
    }
    mcv.push_back(MeiksinCorrection(ml, v));
  }
  IGM = std::make_shared<CSpectrumFluxCorrectionMeiksin>(mcv, ZB);
  IGM->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(0.01), TFloat64Range(100, 100000));
}
static bool igmUnavailable(double z) { return z < ZB[0]; }
static double igm(double z, int k, double l) { return k < 0 || l > LYA ? 1 : IGM->getCorrection(z, k, l); }
static double dust(int k, double l) { return k < 0 ? 1 : CAL->GetDustCoeff(k, l); }


struct Cfg {
  TFloat64List w, f, e; // spectrum
  double lb, le;
  TFloat64List tw; // axis shared by the templates
  std::vector<TFloat64List> tf;
  TFloat64List z;
  bool igm = false, ism = false;
  int fixE = undefIdx, fixM = undefIdx;
  double ovl = 0.1;
};
static double lin(const TFloat64List &x, const TFloat64List &y, double t) {
  int k = std::upper_bound(x.begin(), x.end(), t) - x.begin() - 1;
  k = std::max(0, std::min(k, (int)x.size() - 2));
  return y[k] + (y[k + 1] - y[k]) * ((t - x[k]) / (x[k + 1] - x[k]));
}
typedef long double LD;
struct One {
  double chi2 = 0;
  bool regular = false; // the templates are independent over the fitted range
  std::vector<double> a, err;
  std::vector<std::vector<double>> cov;
};
// weighted least squares by orthogonalisation of the columns
static One least(const std::vector<std::vector<LD>> &X, const std::vector<LD> &y) {
  size_t p = X.size(), n = y.size();
  One o;
  std::vector<std::vector<LD>> Q;
  std::vector<LD> r = y;
  auto dot = [&](const std::vector<LD> &a, const std::vector<LD> &b) {
    LD s = 0;
    for (size_t i = 0; i < n; i++)
      s += a[i] * b[i];
    return s;
  };
  o.regular = true;
  for (size_t k = 0; k < p; k++) {
    std::vector<LD> v = X[k];
    LD n0 = dot(v, v);
    for (int pass = 0; pass < 2; pass++)
      for (auto &q : Q) {
        LD d = dot(q, v);
        for (size_t i = 0; i < n; i++)
          v[i] -= d * q[i];
      }
    LD n1 = dot(v, v);
    if (n0 == 0 || n1 < 1e-6L * n0)
      o.regular = false;
    if (n0 == 0 || n1 < 1e-26L * n0)
      continue;
    for (auto &q : v)
      q /= std::sqrt(n1);
    Q.push_back(v);
  }
  for (int pass = 0; pass < 2; pass++)
    for (auto &q : Q) {
      LD d = dot(q, r);
      for (size_t i = 0; i < n; i++)
        r[i] -= d * q[i];
    }
  o.chi2 = dot(r, r);
  if (!o.regular)
    return o;
  // inverse of the normal matrix by elimination on a scaled system
  std::vector<std::vector<LD>> M(p, std::vector<LD>(p)), I(p, std::vector<LD>(p, 0));
  std::vector<LD> s(p);
  for (size_t i = 0; i < p; i++)
    s[i] = std::sqrt(dot(X[i], X[i]));
  for (size_t i = 0; i < p; i++)
    for (size_t j = 0; j < p; j++)
      M[i][j] = dot(X[i], X[j]) / s[i] / s[j], I[i][j] = i == j;
  for (size_t k = 0; k < p; k++) {
    LD d = M[k][k];
    for (size_t j = 0; j < p; j++)
      M[k][j] /= d, I[k][j] /= d;
    for (size_t i = 0; i < p; i++)
      if (i != k) {
        LD g = M[i][k];
        for (size_t j = 0; j < p; j++)
          M[i][j] -= g * M[k][j], I[i][j] -= g * I[k][j];
      }
  }
  for (size_t i = 0; i < p; i++) {
    LD a = 0;
    o.cov.emplace_back();
    for (size_t j = 0; j < p; j++) {
      a += I[i][j] * dot(X[j], y) / s[j] / s[i];
      o.cov[i].push_back(I[i][j] / s[i] / s[j]);
    }
    o.a.push_back(a);
    o.err.push_back(std::sqrt(o.cov[i][i]));
  }
  return o;
}
struct Ref {
  bool refuse = false, igmOn = false, borderline = false;
  double ovl = 0, S = 0;
  std::vector<std::vector<One>> g;
  std::vector<int> E, Mx;
  std::vector<bool> in;
};
static Ref reference(const Cfg &c, double z) {
  Ref r;
  int n = 0, k = 0;
  double fb = INFINITY;
  r.in.assign(c.w.size(), false);
  for (size_t j = 0; j < c.w.size(); j++) {
    double l = c.w[j] / (1 + z);
    for (double x : {l / c.tw.front(), l / c.tw.back(), l / LYA})
      r.borderline = r.borderline || std::fabs(x - 1) < 1e-12;
    if (c.w[j] < c.lb || c.w[j] > c.le)
      continue;
    n++;
    if (l < c.tw.front() || l > c.tw.back())
      continue;
    k++;
    r.in[j] = true;
    fb = std::min(fb, l);
    r.S += c.f[j] * c.f[j] / c.e[j] / c.e[j];
  }
  r.ovl = n ? (double)k / n : 0;
  r.igmOn = c.igm && k && fb <= LYA;
  r.refuse = r.ovl < c.ovl || k == 0 || k < (int)c.tf.size() || (r.igmOn && igmUnavailable(z));
  r.E = {-1};
  r.Mx = {-1};
  if (c.ism) {
    r.E.clear();
    for (int i = 0; i < NE; i++)
      if (c.fixE == undefIdx || i == c.fixE)
        r.E.push_back(i);
  }
  if (c.igm) {
    r.Mx.clear();
    for (int i = 0; i < NM; i++)
      if (c.fixM == undefIdx || i == c.fixM)
        r.Mx.push_back(i);
  }
  if (r.refuse)
    return r;
  for (int ke : r.E) {
    r.g.emplace_back();
    for (int km : r.Mx) {
      std::vector<std::vector<LD>> X(c.tf.size());
      std::vector<LD> y;
      for (size_t j = 0; j < c.w.size(); j++)
        if (r.in[j]) {
          double l = c.w[j] / (1 + z);
          y.push_back((LD)c.f[j] / c.e[j]);
          for (size_t t = 0; t < X.size(); t++)
            X[t].push_back((LD)lin(c.tw, c.tf[t], l) * dust(ke, l) * igm(z, r.igmOn ? km : -1, l) / c.e[j]);
        }
      r.g.back().push_back(least(X, y));
    }
  }
  return r;
}
static bool eq(double a, double b, double scale, double tol = 1e-8) { return std::fabs(a - b) <= tol * std::max({1e-300, std::fabs(scale), std::fabs(b)}); }

static std::string run(const Cfg &c) {
  std::vector<Ref> refs;
  TFloat64List zs = c.z;
  std::sort(zs.begin(), zs.end());
  bool refuse = false;
  for (double z : zs) {
    refs.push_back(reference(c, z));
    if (refs.back().borderline)
      throw Skip();
    refuse = refuse || refs.back().refuse;
  }
  CSpectrum sp(CSpectrumSpectralAxis(c.w), CSpectrumFluxAxis(c.f, CSpectrumNoiseAxis(c.e)));
  sp.SetName("s");
  TTemplateConstRefList tl;
  std::vector<std::shared_ptr<CTemplate>> raw;
  for (size_t t = 0; t < c.tf.size(); t++) {
    auto x = std::make_shared<CTemplate>("t" + std::to_string(t), "galaxy", CSpectrumSpectralAxis(c.tw), CSpectrumFluxAxis(c.tf[t]));
    if (c.ism)
      x->m_ismCorrectionCalzetti = CAL;
    if (c.igm)
      x->m_igmCorrectionMeiksin = IGM;
    raw.push_back(x);
    tl.push_back(x);
  }
  COperatorTplcombination op;
  std::shared_ptr<CTplCombinationResult> res;
  std::string err;
  try {
    res = std::dynamic_pointer_cast<CTplCombinationResult>(op.Compute(sp, tl, TFloat64Range(c.lb, c.le), c.z, c.ovl, {}, "lin", c.igm, c.ism, CPriorHelper::TPriorZEList(), c.fixE, c.fixM));
  } catch (const AmzException &x) {
    err = x.getMessage();
  }
  if (!res) {
    check(refuse, "refused although there is something to fit: " + err, "refused");
    return "refused";
  }
  check(!refuse, "accepted although the templates do not overlap, outnumber the samples or the absorption curve is missing", "accepted");
  check(res->Redshifts == zs, "redshifts of the result " + vec(res->Redshifts), "redshifts");
  std::string out;
  size_t p = c.tf.size();
  for (size_t i = 0; i < zs.size(); i++) {
    const Ref &r = refs[i];
    std::string at = "z=" + num(zs[i]) + ": ";
    double best = INFINITY;
    for (auto &v : r.g)
      for (auto &o : v)
        best = std::min(best, o.chi2);
    check(eq(res->ChiSquare[i], best, r.S), at + "chi2 " + num(res->ChiSquare[i]) + ", optimum " + num(best), "chi2");
    check(close(res->Overlap[i].at(0), r.ovl, 1e-12, 1e-12), at + "overlap " + num(res->Overlap[i].at(0)) + " for " + num(r.ovl), "overlap");
    int ke = -2, km = -2;
    if (!c.ism) {
      check(res->FitEbmvCoeff[i] == -1, at + "dust coefficient " + num(res->FitEbmvCoeff[i]) + " without dust", "ism");
      ke = 0;
    } else
      for (size_t k = 0; k < r.E.size(); k++)
        if (close(res->FitEbmvCoeff[i], 0.2 * r.E[k], 1e-12, 1e-12))
          ke = k;
    check(ke >= 0, at + "dust coefficient " + num(res->FitEbmvCoeff[i]) + " was not asked for", "ism");
    if (!r.igmOn) {
      check(res->FitMeiksinIdx[i] == undefIdx, at + "absorption index " + num(res->FitMeiksinIdx[i]) + " without absorption in range", "igm");
      km = 0;
    } else
      for (size_t k = 0; k < r.Mx.size(); k++)
        if (res->FitMeiksinIdx[i] == r.Mx[k])
          km = k;
    check(km >= 0, at + "absorption index " + num(res->FitMeiksinIdx[i]) + " was not asked for", "igm");
    const One &o = r.g[ke][km];
    check(eq(o.chi2, best, r.S), at + "corrections reported (" + num(res->FitEbmvCoeff[i]) + ", " + num(res->FitMeiksinIdx[i]) + ") give chi2 " + num(o.chi2) + ", optimum " + num(best), "indices");
    check(res->FitAmplitude[i].size() == p && res->FitAmplitudeError[i].size() == p && res->FitAmplitudeSigma[i].size() == p && res->FitCOV[i].size() == p, at + "sizes", "sizes");
    if (o.regular) {
      double sa = 0, se = 0;
      for (size_t t = 0; t < p; t++) {
        check(eq(res->FitAmplitude[i][t], o.a[t], o.err[t] * std::sqrt(r.S), 1e-7), at + "amplitude " + vec(res->FitAmplitude[i]) + ", optimum " + vec(o.a), "ampl");
        check(eq(res->FitAmplitudeError[i][t], o.err[t], 0, 1e-7), at + "amplitude error " + vec(res->FitAmplitudeError[i]) + " for " + vec(o.err), "amplerr");
        check(eq(res->FitAmplitudeSigma[i][t], o.a[t] / o.err[t], std::sqrt(r.S), 1e-7), at + "amplitude significance " + vec(res->FitAmplitudeSigma[i]), "amplsigma");
        sa += o.a[t] * o.a[t];
        se += o.err[t] * o.err[t];
        for (size_t u = 0; u < p; u++)
          check(eq(res->FitCOV[i][t].at(u), o.cov[t][u], o.err[t] * o.err[u], 1e-7), at + "covariance of the amplitudes " + num(t) + "," + num(u) + ": " + num(res->FitCOV[i][t][u]) + " for " + num(o.cov[t][u]), "cov");
      }
      check(eq(res->SNR[i], std::sqrt(sa / se), std::sqrt(r.S), 1e-7), at + "SNR " + num(res->SNR[i]) + " for " + num(std::sqrt(sa / se)), "snr");
    }
    check(res->ChiSquareIntermediate[i].size() == r.E.size(), at + "size of the intermediate table", "table");
    for (size_t a = 0; a < r.E.size(); a++) {
      check(res->ChiSquareIntermediate[i][a].size() == r.Mx.size(), at + "size of the intermediate table", "table");
      for (size_t b = 0; b < r.Mx.size(); b++) {
        check(eq(res->ChiSquareIntermediate[i][a][b], r.g[a][b].chi2, r.S), at + "chi2 for dust " + num(r.E[a]) + " absorption " + num(r.Mx[b]) + ": " + num(res->ChiSquareIntermediate[i][a][b]) + ", expected " + num(r.g[a][b].chi2), "table");
        check(close(res->IsmEbmvCoeffIntermediate[i][a][b], c.ism ? 0.2 * r.E[a] : -1., 1e-12, 1e-12), at + "dust coefficient of the table", "table/ism");
        check(res->IgmMeiksinIdxIntermediate[i][a][b] == (r.igmOn ? r.Mx[b] : undefIdx), at + "absorption index of the table", "table/igm");
      }
    }
    // the model spectrum
    auto m = op.ComputeSpectrumModel(sp, tl, zs[i], res->FitEbmvCoeff[i], res->FitMeiksinIdx[i], res->FitAmplitude[i], TFloat64Range(c.lb, c.le), c.ovl);
    const auto &ml = m->ModelLambda.at(""), &mf = m->ModelFlux.at("");
    check(ml.size() == c.w.size() && mf.size() == ml.size(), at + "size of the model", "model/size");
    double chi2 = 0;
    for (size_t j = 0; j < ml.size(); j++) {
      check(close(ml[j], c.w[j], 1e-12, 0), at + "wavelengths of the model", "model/wavelength");
      check(std::isfinite(mf[j]), at + "model value " + num(mf[j]), "model/finite");
      if (r.in[j])
        chi2 += std::pow((c.f[j] - mf[j]) / c.e[j], 2);
    }
    check(eq(chi2, res->ChiSquare[i], r.S, 1e-7), at + "the model built from the best fit has chi2 " + num(chi2) + " instead of " + num(res->ChiSquare[i]), "model/chi2");
    out += num(std::round(best * 1e6) / 1e6) + " ";
  }
  double s = 0;
  for (size_t j = 0; j < c.w.size(); j++)
    if (c.w[j] >= c.lb && c.w[j] <= c.le)
      s -= 0.5 * std::log(2 * M_PI) + std::log(c.e[j]);
  check(close(res->CstLog, s, 1e-12, 1e-12), "likelihood constant " + num(res->CstLog) + ", expected " + num(s), "cstlog");
  for (size_t t = 0; t < p; t++)
    check(raw[t]->GetFluxAxis().GetSamplesVector() == c.tf[t] && !raw[t]->CheckIsmIgmEnabled(), "a template was changed by fitting it", "template");
  return out;
}
static const double MIDZ = 2.4;
static TFloat64List tplAxis(double a, double b) {
  TFloat64List v{a};
  for (int i = 0; v.back() + 60 < b; i++)
    v.push_back(v.back() + (i % 3 ? 23.7 : 14.1));
  v.push_back(b);
  return v;
}
// 0 wavy, 1 fast wave, 2 constant, 3 slope, 4 twice the first, 5 zero
static TFloat64List tplFlux(const TFloat64List &w, int shape) {
  TFloat64List f;
  for (double l : w)
    f.push_back(shape == 0 ? 1.5 + std::sin(l / 40.) : shape == 1 ? std::sin(l / 25.)
                                                   : shape == 2   ? 1.
                                                   : shape == 3   ? 1e-3 * (l - 800)
                                                   : shape == 4   ? 3. + 2 * std::sin(l / 40.)
                                                                  : 0.);
  return f;
}
static void spectrum(Cfg &c, int n, int kind, int errs, double scale, double step = 9) {
  for (int j = 0; j < n; j++)
    c.w.push_back(LYA * (1 + MIDZ) + step * (j - n / 2 + 0.13) + (j % 2 ? 0.3 : 0.));
  c.lb = c.w.front() - 1;
  c.le = c.w.back() + 1;
  for (int j = 0; j < n; j++) {
    double l = c.w[j] / (1 + MIDZ), m = 0;
    for (size_t t = 0; t < c.tf.size(); t++)
      m += (t + 1.5) * lin(c.tw, c.tf[t], l);
    c.f.push_back(scale * (kind == 0 ? m * dust(1, l) * igm(MIDZ, 1, l) + 0.02 * (j % 3) : kind == 1 ? 1 + (j * 7 % 5)
                                                                                       : kind == 2   ? -1. - (j % 3)
                                                                                                     : (j % 2 ? -2. : 1.7)));
    c.e.push_back(scale * (errs == 0 ? 0.5 : 0.3 + 0.2 * (j % 3)));
  }
}
static const TFloat64List Z{1.2, 1.95, 2.0, 2.2, 2.39, 2.4, 2.41, 2.5, 2.7, 3.1};
static const std::vector<std::vector<int>> SETS{{0}, {0, 1}, {0, 2}, {1, 2, 3}, {0, 4}, {2, 5}, {0, 1, 4}};

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  tables();
  Harness H_;
  bool deep = false;
  for (int i = 1; i + 1 < argc; i++)
    deep = deep || (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough");
  auto options = [](Ctx &c, Cfg &g) {
    int m = c.choose(4), e = c.choose(3);
    g.igm = m > 0;
    g.fixM = m == 2 ? 0 : m == 3 ? 1 : undefIdx;
    g.ism = e > 0;
    g.fixE = e == 2 ? 2 : undefIdx;
    c.desc << (g.igm ? g.fixM == undefIdx ? " igm" : " igm=" + std::to_string(g.fixM) : "") << (g.ism ? g.fixE == undefIdx ? " ism" : " ism=2" : "");
  };
  auto templates = [](Ctx &c, Cfg &g, double a = 880, double b = 1480) {
    auto &s = SETS[c.choose(SETS.size())];
    g.tw = tplAxis(a, b);
    c.desc << " templates";
    for (int k : s) {
      g.tf.push_back(tplFlux(g.tw, k));
      c.desc << " " << k;
    }
  };
  H_.add("options", [&](Ctx &c) {
    Cfg g;
    options(c, g);
    templates(c, g);
    int kind = c.choose(4);
    int z1 = c.choose(deep ? Z.size() + 1 : 4), z2 = c.choose(Z.size());
    if (z1)
      g.z.push_back(deep ? Z[z1 - 1] : Z[3 * z1 - 2]);
    g.z.push_back(Z[z2]);
    int range = c.choose(4);
    double scale = c.pick(TFloat64List{1, 1e-18});
    c.mine();
    spectrum(g, 8, kind, kind % 2, scale);
    if (range == 1)
      g.lb = g.w[1], g.le = g.w[5];
    if (range == 2)
      g.lb = g.w[4] - 1;
    if (range == 3)
      g.le = g.w[3] + 0.5;
    c.desc << " spectrum " << kind << " z=" << vec(g.z) << " range " << range << " scale " << num(scale);
    std::string r = run(g);
    c.outcome(r, r != "refused");
  });
  // every small spectrum
  H_.add("spectra", [&](Ctx &c) {
    Cfg g;
    templates(c, g);
    int n = c.pick(deep ? std::vector<int>{2, 3, 4, 5} : std::vector<int>{2, 3, 4});
    TFloat64List f;
    for (int j = 0; j < n; j++)
      f.push_back(c.pick(std::vector<double>{0.7, -1, 3, 0}));
    int errs = c.choose(1 << n);
    int opt = c.choose(2);
    g.z = {c.pick(TFloat64List{2.39, 2.41})};
    double scale = c.pick(TFloat64List{1, 1e-18});
    c.mine();
    g.igm = g.ism = opt;
    spectrum(g, n, 0, 0, 1);
    for (int j = 0; j < n; j++)
      g.f[j] = scale * f[j], g.e[j] = scale * (errs >> j & 1 ? 1. : 0.25);
    c.desc << " flux " << vec(f) << " errors " << errs << (opt ? " ism igm" : "") << " z " << num(g.z[0]) << " scale " << num(scale);
    std::string r = run(g);
    c.outcome(r, r != "refused");
  });
  // templates shorter than the spectrum
  H_.add("overlap", [&](Ctx &c) {
    Cfg g;
    options(c, g);
    double a = c.pick(TFloat64List{880, 1207.5, 1213.5, 1217, 1222, 1300}), b = c.pick(TFloat64List{1480, 1225, 1220, 1214.5, 1211, 1100});
    auto &s = SETS[c.choose(SETS.size())];
    g.ovl = c.pick(TFloat64List{0.01, 0.4, 0.6, 1.0});
    g.z = {c.pick(deep ? Z : TFloat64List{1.2, 2.0, 2.39, 2.41, 3.1})};
    int range = c.choose(3);
    c.mine();
    if (b - a < 1)
      throw Skip();
    g.tw = {a, a + (b - a) * 0.15, a + (b - a) * 0.3, a + (b - a) * 0.4, a + (b - a) * 0.7, b};
    Cfg full = g;
    full.tw = tplAxis(880, 1480);
    for (int k : s) {
      g.tf.push_back(tplFlux(g.tw, k));
      full.tf.push_back(tplFlux(full.tw, k));
    }
    spectrum(full, 10, 1, 1, 1);
    g.w = full.w, g.f = full.f, g.e = full.e, g.lb = full.lb, g.le = full.le;
    if (range == 1)
      g.lb = g.w[1], g.le = g.w[6];
    if (range == 2)
      g.lb = g.w[4] - 0.5;
    c.desc << " " << s.size() << " templates on " << num(a) << ".." << num(b) << " overlap " << num(g.ovl) << " z=" << num(g.z[0]) << " range " << range;
    std::string r = run(g);
    c.outcome(r, r != "refused");
  });
  // sequences of redshifts, in any order
  H_.add("redshifts", [&](Ctx &c) {
    Cfg g;
    options(c, g);
    templates(c, g);
    int n = deep ? 4 : 3;
    for (int i = 0; i < n; i++)
      g.z.push_back(Z[1 + c.choose(Z.size() - 1)]);
    c.mine();
    spectrum(g, 7, 0, 1, 1);
    c.desc << " z=" << vec(g.z);
    std::string r = run(g);
    c.outcome(r, r != "refused");
  });
  return H_.main(argc, argv);
}
