// C28: shapes of the lines and of the instrument response.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/line/lineprofileASYM.h>
#include <RedshiftLibrary/line/lineprofileASYMFIT.h>
#include <RedshiftLibrary/line/lineprofileLOR.h>
#include <RedshiftLibrary/line/lineprofileSYM.h>
#include <RedshiftLibrary/line/lineprofileSYMIGM.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/LSFConstantResolution.h>
#include <RedshiftLibrary/spectrum/LSFConstantWidth.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/LSFVariableWidth.h>
#include <RedshiftLibrary/spectrum/LSF_NISPSIM_2016.h>
#include <RedshiftLibrary/spectrum/LSF_NISPVSSPSF_201707.h>
using namespace NSEpic;
using namespace mc;
typedef std::shared_ptr<CLineProfile> PP;

static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> IGM;
static const double SLOPE = 2e-3, T0 = 0.3, L0 = 1190.03;
static const int NL = 521; // up to 1216.03
// transmission of curve k at z: grows linearly with the wavelength
static double trans(int zi, int k, double l) { return T0 + 0.1 * zi + 0.05 * k + SLOPE * (k + 1) * (l - L0); }
static void tables() {
  TFloat64List ml;
  for (int i = 0; i < NL; i++)
    ml.push_back(L0 + 0.05 * i);
  std::vector<MeiksinCorrection> mcv;
  for (int z = 0; z < 2; z++) {
    std::vector<TFloat64List> v;
    for (int k = 0; k < 2; k++) {
      TFloat64List g;
      for (double l : ml)
        g.push_back(trans(z, k, l));
      v.push_back(g);
    }
    mcv.push_back(MeiksinCorrection(ml, v));
  }
  IGM = std::make_shared<CSpectrumFluxCorrectionMeiksin>(mcv, TFloat64List{2.0, 2.5, 3.0});
  IGM->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(0.05), TFloat64Range(100, 100000));
}
static bool refused(std::function<void()> f) {
  try {
    f();
  } catch (const AmzException &) {
    return true;
  }
  return false;
}

struct Spec {
  std::string kind; // SYM LOR ASYM ASYMFIT
  double c = 1, a = 0, d = 0;
  std::string m = "none";
  double ns = 8;
};
static const std::vector<std::string> CENT{"none", "mean", "mode"};
static PP make(const Spec &s) {
  TAsymParams p(s.c, s.a, s.d);
  if (s.kind == "SYM")
    return std::make_shared<CLineProfileSYM>(s.ns);
  if (s.kind == "LOR")
    return std::make_shared<CLineProfileLOR>(s.ns);
  if (s.kind == "ASYM")
    return std::make_shared<CLineProfileASYM>(s.ns, p, s.m);
  return std::make_shared<CLineProfileASYMFIT>(s.ns, p, s.m);
}
static Spec pickSpec(Ctx &c) {
  Spec s;
  s.kind = c.pick(std::vector<std::string>{"SYM", "LOR", "ASYM", "ASYMFIT"});
  if (s.kind[0] == 'A') {
    s.m = c.pick(CENT);
    s.c = c.pick(c.thorough ? TFloat64List{0.3, 0.5, 1, 1.2, 2, 2.5} : TFloat64List{0.5, 1, 2});
    s.a = c.pick(c.thorough ? TFloat64List{-8, -4.5, -2, -0.7, -0.1, 0, 0.1, 0.7, 1, 2, 3, 4.5, 8} : TFloat64List{-4.5, -0.7, 0, 0.7, 2, 4.5});
    if (s.m != "none")
      s.d = c.pick(c.thorough ? TFloat64List{0, 0.3, -0.5, 1, -1.5} : TFloat64List{0, 0.3, -0.5});
  }
  s.ns = c.pick(TFloat64List{8, 4});
  return s;
}
static std::string show(const Spec &s) {
  return " " + s.kind + (s.kind[0] == 'A' ? " sigma coefficient " + num(s.c) + " asymmetry " + num(s.a) + " offset " + num(s.d) + " centred on " + s.m : "") + " support " + num(s.ns);
}
// independent shape: skew normal, mean or (numerically found) mode at the centre
static long double skew(long double a, long double u) { return expl(-0.5L * u * u) * (1 + erfl(a * u / sqrtl(2.L))); }
static long double modeOf(long double a) {
  long double l = -1.5, h = 1.5;
  for (int i = 0; i < 200; i++) {
    long double p = l + (h - l) / 3, q = h - (h - l) / 3;
    if (skew(a, p) < skew(a, q))
      l = p;
    else
      h = q;
  }
  return (l + h) / 2;
}
static double value(const Spec &s, double x, double x0, double sig) {
  if (s.kind == "SYM")
    return std::exp(-0.5 * (x - x0) * (x - x0) / sig / sig);
  if (s.kind == "LOR")
    return sig * sig / (sig * sig + (x - x0) * (x - x0));
  double sg = sig * s.c;
  long double m = s.m == "mean" ? s.a / sqrtl(1 + s.a * s.a) * sqrtl(2 / M_PIl) : s.m == "mode" ? modeOf(s.a) : 0;
  return double(skew(s.a, (x - x0 + s.d) / sg + m));
}
static double diff(const std::function<double(double)> &f, double x, double h) { // six points
  return (45 * (f(x + h) - f(x - h)) - 9 * (f(x + 2 * h) - f(x - 2 * h)) + (f(x + 3 * h) - f(x - 3 * h))) / (60 * h);
}
static void shape(Ctx &c) {
  Spec s = pickSpec(c);
  double x0 = c.pick(TFloat64List{1215.67, 5000}), sig = c.pick(c.thorough ? TFloat64List{0.5, 1, 3, 20} : TFloat64List{0.5, 3});
  c.mine();
  c.desc << show(s) << " centre " << num(x0) << " width " << num(sig);
  PP p = make(s);
  const std::string K = s.kind[0] == 'A' ? "ASYM/" + s.m : s.kind;
  const bool asym = s.kind[0] == 'A';
  double coeff = asym ? s.c : 1, sg = sig * coeff;
  check(close(p->GetNSigmaSupport(), s.ns * (s.kind == "LOR" ? 2 : asym ? s.c * (s.m == "none" ? 1 : 2.5) : 1), 1e-14, 0), "support " + num(p->GetNSigmaSupport()), "support/" + K);
  double peak = 0, at = 0;
  for (int i = -80; i <= 80; i++) {
    double x = x0 + i * 0.1 * sg + 0.013 * sg;
    double v = p->GetLineProfileVal(x, x0, sig);
    // the mode of a skew normal has no closed form: the documented approximation is good to a few thousandths of the width
    if (s.m != "mode")
      check(close(v, value(s, x, x0, sig), 1e-9, 1e-12), "value at " + num(x) + ": " + num(v) + " instead of " + num(value(s, x, x0, sig)), "value/" + K);
    else
      check(close(v, value(s, x, x0, sig), 0, 0.03), "value at " + num(x) + ": " + num(v) + " instead of " + num(value(s, x, x0, sig)), "value/" + K);
    check(v >= 0, "negative profile", "sign/" + K);
    if (v > peak)
      peak = v, at = x;
    if (s.kind == "LOR")
      continue;
    auto fx = [&](double y) { return p->GetLineProfileVal(x, y, sig); };
    auto fs = [&](double y) { return p->GetLineProfileVal(x, x0, y); };
    double h = 0.01 * sg / (1 + std::abs(s.a)), hs = 0.002 * sig / (1 + std::abs(s.a)), d0 = p->GetLineProfileDerivX0(x, x0, sig), d1 = p->GetLineProfileDerivSigma(x, x0, sig);
    check(close(d0, diff(fx, x0, h), 1e-6, 2e-7 / sg), "derivative with respect to the centre at " + num(x) + ": " + num(d0) + " instead of " + num(diff(fx, x0, h)), "derivX0/" + K);
    check(close(d1, diff(fs, sig, hs), 1e-6, 2e-6 / sig), "derivative with respect to the width at " + num(x) + ": " + num(d1) + " instead of " + num(diff(fs, sig, hs)),
          "derivSigma/" + K);
    c.step();
  }
  if (s.kind == "LOR")
    check(refused([&] { p->GetLineProfileDerivX0(x0, x0, sig); }) && refused([&] { p->GetLineProfileDerivSigma(x0, x0, sig); }), "undefined derivatives are not refused", "deriv/LOR");
  if (s.m == "mode" || !asym)
    check(std::abs(at - (x0 - s.d)) <= 0.12 * sg, "peak at " + num(at) + " instead of " + num(x0 - s.d), "peak/" + K);
  // flux = integral, mean
  const int N = 20001;
  double span = s.kind == "LOR" ? 4000 : 14, I = 0, M = 0;
  for (int i = 0; i < N; i++) {
    double x = x0 - s.d + span * sg * (2. * i / (N - 1) - 1), w = (i == 0 || i == N - 1) ? 0.5 : 1;
    double v = w * p->GetLineProfileVal(x, x0, sig);
    I += v;
    M += v * (x - x0);
  }
  I *= 2 * span * sg / (N - 1);
  M *= 2 * span * sg / (N - 1);
  for (double A : {1., 2.5, 0., -1.5}) {
    double f = p->GetLineFlux(x0, sig, A);
    check(close(f, A * I, s.kind == "LOR" ? 3e-4 : 1e-7, 1e-12), "flux " + num(f) + " for amplitude " + num(A) + ": the integral of the profile is " + num(A * I), "flux/" + K);
  }
  if (s.m == "mean" && asym)
    check(close(M / I, -s.d, 0, 1e-6 * sg), "mean of the profile at " + num(M / I) + " from the centre instead of " + num(-s.d), "mean/" + K);
  check(p->GetDelta() == (asym ? s.d : 0), "offset", "delta/" + K);
  c.outcome(num(I), true);
}
// every sequence of parameter changes, resets, copies and conversions
struct AM {
  bool fit;
  TAsymParams p;
  std::string m;
  double ns;
};
static const std::vector<TAsymParams> PS{TAsymParams(1.2, 3., 0.4), TAsymParams(2., 0., 0.), TAsymParams(0.5, 4.5, -0.3)};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string life(const std::vector<int> &h) {
  PP p;
  AM m{};
  double x0 = 1215.67, sg = 2;
  for (size_t i = 0; i < h.size(); i++) {
    int o = h[i];
    if (i == 0) {
      if (o > 5)
        throw NotEnabled();
      m.fit = o & 1;
      m.m = o / 2 == 0 ? "none" : o / 2 == 1 ? "mean" : "mode";
      m.ns = 6;
      m.p = o / 2 == 0 ? TAsymParams(1.5, 2., 0.) : TAsymParams(1.5, 2., 0.2);
      p = m.fit ? PP(new CLineProfileASYMFIT(m.ns, m.p, m.m)) : PP(new CLineProfileASYM(m.ns, m.p, m.m));
    } else if (o <= 2) {
      p->SetAsymParams(PS[o]);
      if (m.fit)
        m.p = PS[o];
    } else if (o == 3) {
      p->resetParams();
      if (m.fit)
        m.p = TAsymParams(2., 0., 0.);
    } else if (o == 4)
      p = p->Clone();
    else if (o == 5) {
      if (m.fit)
        p = dynamic_cast<CLineProfileASYMFIT &>(*p).cloneToASYM();
      else
        p = dynamic_cast<CLineProfileASYM &>(*p).cloneToASYMFIT();
      m.fit = !m.fit;
    } else if (o < 9) { // one missing parameter
      TAsymParams q(1.3, 1., 0.1);
      (o == 6 ? q.sigma : o == 7 ? q.alpha : q.delta) = NAN;
      p->SetAsymParams(q);
      if (m.fit)
        m.p = q;
    } else
      throw NotEnabled();
    TAsymParams g = p->GetAsymParams();
    check(same(g.sigma, m.p.sigma) && same(g.alpha, m.p.alpha) && same(g.delta, m.p.delta), "parameters " + num(g.sigma) + " " + num(g.alpha) + " " + num(g.delta), "life/params");
    check(p->GetName() == (m.fit ? ASYMFIT : ASYM) && p->isAsym() && p->isAsymFit() == m.fit && p->isAsymFixed() == !m.fit, "kind", "life/kind");
    check(dynamic_cast<CLineProfileASYM &>(*p).GetCenteringMethod() == m.m, "centring", "life/centring");
    check(same(p->GetNSigmaSupport(), m.ns * m.p.sigma * (m.m == "none" ? 1 : 2.5)), "support " + num(p->GetNSigmaSupport()), "life/support");
    bool valid = !std::isnan(m.p.sigma) && !std::isnan(m.p.alpha) && !std::isnan(m.p.delta) && (m.m != "none" || m.p.delta == 0);
    Spec s;
    s.kind = "ASYM";
    s.c = m.p.sigma, s.a = m.p.alpha, s.d = m.p.delta, s.m = m.m;
    for (double x : {x0 - 2.5, x0, x0 + 1.5}) {
      if (valid)
        check(close(p->GetLineProfileVal(x, x0, sg), value(s, x, x0, sg), 1e-9, m.m == "mode" ? 0.03 : 1e-12), "value", "life/value");
      else
        check(refused([&] { p->GetLineProfileVal(x, x0, sg); }) && refused([&] { p->GetLineProfileDerivX0(x, x0, sg); }) && refused([&] { p->GetLineProfileDerivSigma(x, x0, sg); }),
              "invalid parameters are not refused", "life/refused");
    }
  }
  auto z = [](double x) { return num(x); };
  return m.m + (m.fit ? "F" : "X") + z(m.p.sigma) + "," + z(m.p.alpha) + "," + z(m.p.delta);
}
// a line absorbed by the intergalactic medium
static void igmline(Ctx &c) {
  double z = c.pick(c.thorough ? TFloat64List{1.8, 2.0, 2.1, 2.45, 2.5, 2.75, 3.3} : TFloat64List{1.8, 2.1, 2.75});
  double rest = c.pick(c.thorough ? TFloat64List{1205, 1208, 1210, 1212, 1214, 1215.67, 1216, 1217, 1230} : TFloat64List{1205, 1212, 1215.67, 1230});
  double sr = c.pick(c.thorough ? TFloat64List{0.2, 0.5, 1, 2} : TFloat64List{0.2, 1}); // rest-frame width
  int k = c.choose(2);
  c.mine();
  double x0 = rest * (1 + z), sig = sr * (1 + z);
  c.desc << " SYMIGM rest wavelength " << num(rest) << " redshift " << num(z) << " rest width " << num(sr) << " curve " << k;
  CLineProfileSYMIGM p(IGM, 8);
  CLineProfileSYM g(8);
  p.SetSymIgmParams(TSymIgmParams(k, z));
  int zi = z < 2 ? -1 : z < 2.5 ? 0 : 1;
  auto T = [&](double x) { return zi < 0 || x / (1 + z) > RESTLAMBDA_LYA ? 1. : IGM->getCorrection(z, k, x / (1 + z)); };
  for (int i = -40; i <= 40; i++) {
    double x = x0 + (i * 0.1 + 0.01) * sig, xr = x / (1 + z);
    if (std::abs(xr - RESTLAMBDA_LYA) < 0.06)
      continue;
    double v = p.GetLineProfileVal(x, x0, sig), e = g.GetLineProfileVal(x, x0, sig) * T(x);
    check(close(v, e, 1e-12, 1e-14), "value at " + num(x) + ": " + num(v) + " instead of " + num(e), "symigm/value");
    if (T(x) != 1 && xr > L0 + 1 && xr < RESTLAMBDA_LYA - 1)
      check(close(T(x), trans(zi, k, xr), 1e-3, 0), "transmission " + num(T(x)) + " instead of " + num(trans(zi, k, xr)), "symigm/transmission");
    check(close(p.GetLineProfileDerivSigma(x, x0, sig), g.GetLineProfileDerivSigma(x, x0, sig) * T(x), 1e-12, 1e-14), "derivative with respect to the width", "symigm/derivSigma");
    // the redshift follows the centre of the line
    double dT = T(x) == 1 ? 0 : -xr / x0 * SLOPE * (k + 1);
    if (T(x) == 1 || (xr > L0 + 1 && xr < RESTLAMBDA_LYA - 1)) {
      double d = p.GetLineProfileDerivX0(x, x0, sig), ed = g.GetLineProfileDerivX0(x, x0, sig) * T(x) + g.GetLineProfileVal(x, x0, sig) * dT;
      check(close(d, ed, 1e-6, 1e-9), "derivative with respect to the centre at " + num(x) + ": " + num(d) + " instead of " + num(ed), "symigm/derivX0");
    }
    c.step();
  }
  const int N = 8001;
  double I = 0;
  for (int i = 0; i < N; i++)
    I += p.GetLineProfileVal(x0 + 4 * sig * (2. * i / (N - 1) - 1), x0, sig) * ((i == 0 || i == N - 1) ? 0.5 : 1);
  I *= 8 * sig / (N - 1);
  // known finding: integral over rest-frame wavelengths of the tabulated range, with the absorption applied twice
  auto waves = IGM->getWaveAndCorrectionVector(TFloat64Range(rest - 4 * sr, rest + 4 * sr), z, k);
  double bad = 0;
  for (size_t i = 0; i + 1 < waves.first.size(); i++) {
    auto F = [&](size_t j) { return p.GetLineProfileVal(waves.first[j] * (1 + z), x0, sig) * waves.second[j]; };
    bad += (F(i) + F(i + 1)) / 2 * (waves.first[i + 1] - waves.first[i]);
  }
  for (double A : {1., 3.}) {
    double f = p.GetLineFlux(x0, sig, A);
    bool known = rest - 4 * sr <= RESTLAMBDA_LYA && close(f, A * bad, 1e-9, 0);
    check(close(f, A * I, 0.01, 0), "flux " + num(f) + ": the integral of the absorbed profile is " + num(A * I), known ? "symigm/flux-rest-frame-twice-absorbed" : "symigm/flux");
  }
  p.SetSymIgmFit(false);
  p.resetParams();
  check(p.GetSymIgmParams().m_igmidx == k && p.GetSymIgmParams().m_redshift == z, "a fixed absorption is reset", "symigm/fixed");
  auto q = p.Clone();
  check(q->GetSymIgmParams().m_igmidx == k && q->GetSymIgmParams().m_redshift == z && q->GetLineProfileVal(x0 + sig, x0, sig) == p.GetLineProfileVal(x0 + sig, x0, sig) && q->isSymIgm() &&
            q->getIGMIdxCount() == 2,
        "copy", "symigm/copy");
  p.SetSymIgmFit();
  p.resetParams();
  check(p.GetSymIgmParams().m_igmidx == undefIdx && std::isnan(p.GetSymIgmParams().m_redshift), "a fitted absorption is not reset", "symigm/fit");
  c.outcome(num(I), true);
}

// instrument response
static const double INVF = 2.355;
static double lin(const TFloat64List &l, const TFloat64List &w, double x) {
  for (size_t i = 0; i < l.size(); i++)
    if (l[i] == x)
      return w[i];
  for (size_t i = 0; i + 1 < l.size(); i++)
    if (x > l[i] && x < l[i + 1])
      return w[i] + (w[i + 1] - w[i]) * (x - l[i]) / (l[i + 1] - l[i]);
  return NAN;
}
static void response(const CLSF &lsf, Ctx &c, const std::string &K, const std::function<double(double)> &W, double lo, double hi, bool bounded) {
  TFloat64List xs{lo, lo + 1e-9 * lo, (lo + hi) / 2, lo + (hi - lo) / 3, hi - 1e-9 * hi, hi};
  TFloat64List out{lo * 0.9, lo - 1, hi + 1, hi * 1.5};
  check(lsf.GetProfile()->GetName() == SYM, "response is not a Gaussian", "lsf/gauss");
  check(lsf.getSpectralRange().GetBegin() == lo && lsf.getSpectralRange().GetEnd() == hi, "range of the response", "lsf/range/" + K);
  for (double x : xs) {
    check(close(lsf.GetWidth(x), W(x), 1e-10, 0) && close(lsf.GetWidth(x, true), W(x), 1e-10, 0), "width at " + num(x) + ": " + num(lsf.GetWidth(x)) + " instead of " + num(W(x)), "lsf/width/" + K);
    check(lsf.checkAvailability(x), "response not available in its range", "lsf/available/" + K);
    for (double u : {-2.5, -1., 0., 0.5, 3.}) {
      double w = W(x), v = lsf.GetProfileVal(x + u * w, x);
      check(close(v, std::exp(-0.5 * u * u), 1e-6, 1e-9), "response at " + num(u) + " widths: " + num(v), "lsf/value/" + K);
    }
    c.step();
  }
  for (double x : out) {
    double cl = std::min(std::max(x, lo), hi);
    check(close(lsf.GetWidth(x, true), W(cl), 1e-10, 0), "clipped width at " + num(x) + ": " + num(lsf.GetWidth(x, true)) + " instead of " + num(W(cl)), "lsf/clip/" + K);
    check(lsf.checkAvailability(x) == !bounded, "availability outside the range", "lsf/available/" + K);
    if (bounded)
      check(refused([&] { lsf.GetWidth(x); }), "width outside the range of the response is not refused", "lsf/outside/" + K);
  }
  for (double x : {xs[0], xs[2], hi + 1}) {
    double w = W(std::min(std::max(x, lo), hi));
    for (int n : {1, 3, 8}) {
      TFloat64List l;
      for (int i = 0; i < n; i++)
        l.push_back(x + w * (-1.3 + i * 0.4));
      auto k = lsf.getNormalizedProfileVector(l, x);
      check((int)k.size() == n, "size of the kernel", "lsf/kernel/" + K);
      double s = 0, e = 0;
      for (int i = 0; i < n; i++)
        s += k[i], e += std::exp(-0.5 * std::pow((l[i] - x) / w, 2));
      check(close(s, 1, 1e-12, 0), "the kernel sums to " + num(s), "lsf/kernel/" + K);
      for (int i = 0; i < n; i++)
        check(close(k[i], std::exp(-0.5 * std::pow((l[i] - x) / w, 2)) / e, 1e-7, 0), "weight of the kernel", "lsf/kernel/" + K);
    }
  }
}
static void lsf(Ctx &c) {
  static const std::vector<std::string> NAMES{"gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016", "gaussianNISPVSSPSF201707"};
  int t = c.choose(4);
  const TFloat64List V{NAN, -3, -0.1, 0, 0.2, 1, 1.0000001, 2.5, 4300, INFINITY};
  double v = t == 2 ? 0.3 : c.pick(V);
  if (std::isinf(v) || (t == 3 && std::isnan(v)))
    throw Skip();
  c.mine();
  c.desc << " " << NAMES[t] << " " << num(v);
  std::shared_ptr<TLSFArguments> a;
  if (t == 0)
    a = std::make_shared<TLSFGaussianConstantWidthArgs>(v);
  else if (t == 1)
    a = std::make_shared<TLSFGaussianConstantResolutionArgs>(v);
  else if (t == 2)
    a = std::make_shared<TLSFArguments>();
  else {
    auto st = std::make_shared<CScopeStack>();
    auto ps = std::make_shared<CParameterStore>(st);
    ps->Set("lsf.sourceSize", v);
    a = std::make_shared<TLSFGaussianNISPVSSPSF201707Args>(ps);
  }
  bool ok = t == 0 ? v > 0 : t == 1 ? v > 1 : true;
  std::shared_ptr<CLSF> l;
  bool no = refused([&] { l = LSFFactory.Create(NAMES[t], a); });
  check(no == !ok, ok ? "a valid response is refused" : "an invalid response is accepted", "lsf/valid/" + NAMES[t]);
  if (!ok)
    return c.outcome("refused", true);
  check(l->IsValid(), "valid", "lsf/valid/" + NAMES[t]);
  std::function<double(double)> W;
  if (t == 0)
    W = [=](double) { return v; };
  if (t == 1)
    W = [=](double x) { return x / v / INVF; };
  if (t == 2)
    W = [=](double x) { return (x * 8.121e-4 + 7.4248) / 2.35; };
  if (t == 3)
    W = [=](double x) { return std::hypot(x * 3.939e-4 + 2.191, v * 13.4 / 0.355); };
  response(*l, c, NAMES[t], W, LSF_MIN_LAMBDA, LSF_MAX_LAMBDA, false);
  if (t == 1)
    for (double x : {1000., 6000.})
      check(close(CLSFGaussianConstantResolution::computeResolution(x, l->GetWidth(x)), v, 1e-12, 0), "resolution from the width", "lsf/resolution");
  c.outcome(num(l->GetWidth(5000)), true);
}
static void variable(Ctx &c) {
  const TFloat64List LA{1000, 1000.5, 2000, 5000, 9000};
  const TFloat64List WA = c.thorough ? TFloat64List{0.5, 2, 7, 0, -1, NAN} : TFloat64List{0.5, 2, 0, NAN};
  int n = c.choose(5), extra = c.choose(3) - 1; // extra widths
  TFloat64List l, w;
  int mask = 0;
  if (n)
    for (int i = 0, prev = -1; i < n; i++) {
      int k = c.choose((int)LA.size());
      if (k <= prev)
        throw Skip();
      prev = k;
      l.push_back(LA[k]);
      mask |= 1 << k;
    }
  int m = n + extra;
  if (m < 0)
    throw Skip();
  for (int i = 0; i < m; i++)
    w.push_back(c.pick(WA));
  c.mine();
  c.desc << " wavelengths " << vec(l) << " widths " << vec(w);
  bool ok = n > 0 && m == n;
  for (double x : w)
    ok = ok && x > 0;
  std::shared_ptr<CLSF> r;
  bool no = refused([&] { r = LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(l, w)); });
  bool nan = false;
  for (double x : w)
    nan = nan || std::isnan(x);
  check(no == !ok, ok ? "a valid response is refused" : "an invalid response is accepted", nan ? "lsf/valid/nan" : "lsf/valid/variable");
  if (!ok)
    return c.outcome("refused", true);
  if (n < 2)
    return c.outcome("one", true);
  response(*r, c, "variable", [&](double x) { return lin(l, w, x); }, l[0], l.back(), true);
  for (double x : l)
    check(r->GetWidth(x) == lin(l, w, x), "width at a tabulated wavelength", "lsf/width/variable");
  c.outcome(num(r->GetWidth((l[0] + l[1]) / 2)), true);
}
int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  tables();
  Harness H;
  H.add("shape", shape);
  H.add("igm", igmline);
  H.add("lsf", lsf);
  H.add("variable", variable);
  H.addBfs("life", 9, 5, life, [](const std::vector<int> &h) {
    std::string s;
    for (int o : h)
      s += " " + std::to_string(o);
    return s;
  });
  return H.main(argc, argv);
}
