// C17: resampling of a spectrum on another wavelength axis.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/mask.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/spectrum.h>
using namespace NSEpic;
using namespace mc;

// natural cubic spline, solved by elimination
struct Spline {
  std::vector<long double> x, y, m;
  Spline(const TFloat64List &X, const TFloat64List &Y) : x(X.begin(), X.end()), y(Y.begin(), Y.end()) {
    int n = x.size();
    m.assign(n, 0);
    if (n < 3)
      return;
    std::vector<long double> a(n), b(n), c(n), d(n);
    for (int i = 1; i < n - 1; i++) {
      long double h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
      a[i] = h0;
      b[i] = 2 * (h0 + h1);
      c[i] = h1;
      d[i] = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
    }
    for (int i = 2; i < n - 1; i++) {
      long double w = a[i] / b[i - 1];
      b[i] -= w * c[i - 1];
      d[i] -= w * d[i - 1];
    }
    for (int i = n - 2; i >= 1; i--)
      m[i] = (d[i] - (i + 1 < n - 1 ? c[i] * m[i + 1] : 0)) / b[i];
  }
  double operator()(long double t) const {
    int n = x.size(), k = 0;
    while (k < n - 2 && t > x[k + 1])
      k++;
    long double h = x[k + 1] - x[k], A = (x[k + 1] - t) / h, B = (t - x[k]) / h;
    return A * y[k] + B * y[k + 1] + ((A * A * A - A) * m[k] + (B * B * B - B) * m[k + 1]) * h * h / 6;
  }
};
static bool anyClose(double v, const std::vector<double> &l) {
  for (double x : l)
    if (close(v, x, 1e-10, 1e-12))
      return true;
  return false;
}

static const std::vector<std::string> METHODS = {"lin", "ngp", "spline", "preComputedFineGrid"};
static const std::vector<std::string> ERRS = {"no", "rebin", "rebinVariance"};

struct Case {
  TFloat64List w, f, e, tgt;
  double lo, hi;
};
// compares one resampling with the definition
static void verify(const CSpectrum &src, const Case &k, const std::string &method, const std::string &eopt, CSpectrum &out, CMask &mask,
                   Ctx &c) {
  const std::string M = method + "/";
  int n = k.w.size(), nt = k.tgt.size();
  bool anyIn = false;
  for (double t : k.tgt)
    anyIn |= t >= k.lo && t <= k.hi;
  bool inside = k.lo >= k.w.front() && k.hi <= k.w.back();
  bool needSpline = method == "spline" || (method == "preComputedFineGrid");
  bool thrown = false;
  int code = 0;
  try {
    src.Rebin(TFloat64Range(k.lo, k.hi), CSpectrumSpectralAxis(k.tgt), out, mask, eopt);
  } catch (AmzException &x) {
    thrown = true;
    code = (int)x.getErrorCode();
  }
  bool refuse = !inside || (needSpline && n < 3) || (needSpline && eopt != "no" && anyIn);
  c.outcome(M + eopt + num(thrown));
  if (refuse) {
    check(thrown, !inside ? "range outside the source accepted" : "unsupported request accepted", M + "refuse");
    return;
  }
  check(!thrown, "legitimate request refused with code " + num(code), M + "accept");
  check(out.GetSampleCount() == nt && mask.GetMasksCount() == nt, "wrong output size", M + "size");
  check(out.GetSpectralAxis().GetSamplesVector() == k.tgt, "output axis is not the target axis", M + "axis");
  check(out.GetErrorAxis().GetSamplesCount() == nt, "wrong error size", M + "size");
  Spline sp(k.w, k.f);
  std::string o;
  for (int i = 0; i < nt; i++) {
    double t = k.tgt[i], fv = out.GetRawFluxAxis()[i], ev = out.GetErrorAxis()[i];
    bool in = t >= k.lo && t <= k.hi;
    std::string at = "target " + num(t);
    check(mask[i] == (in ? 1 : 0), at + (in ? " inside the range is masked" : " outside the range is flagged as valid"), M + (in ? "mask-in" : "mask-out"));
    o += num(mask[i]);
    if (!in) {
      check(fv == 0, at + " outside the range has flux " + num(fv), M + "neutral");
      check(eopt == "no" || ev == INFINITY, at + " outside the range has error " + num(ev), M + "neutral");
      continue;
    }
    // every enclosing segment (two at a node)
    std::vector<int> seg;
    for (int s = 0; s + 1 < n; s++)
      if (t >= k.w[s] && t <= k.w[s + 1])
        seg.push_back(s);
    std::vector<double> comp; // destination step
    double dst = nt < 2 ? NAN : (i + 1 < nt ? k.tgt[i + 1] - t : t - k.tgt[i - 1]);
    std::vector<double> F, E;
    if (method == "lin") {
      for (int s : seg) {
        double h = k.w[s + 1] - k.w[s], u = (t - k.w[s]) / h;
        F.push_back(k.f[s] + (k.f[s + 1] - k.f[s]) * u);
        if (eopt == "rebin")
          E.push_back(k.e[s] + (k.e[s + 1] - k.e[s]) * u);
        else
          E.push_back(std::sqrt(std::pow(k.e[s] * (1 - u), 2) + std::pow(k.e[s + 1] * u, 2)) * std::sqrt(nt < 2 ? 1. : h / dst));
      }
    } else if (method == "ngp") {
      double best = INFINITY;
      for (double x : k.w)
        best = std::min(best, std::fabs(x - t));
      for (int s = 0; s < n; s++)
        if (std::fabs(k.w[s] - t) <= best + 1e-9) {
          F.push_back(k.f[s]);
          if (eopt == "rebin")
            E.push_back(k.e[s]);
          else {
            if (s + 1 < n)
              E.push_back(k.e[s] * std::sqrt(nt < 2 ? 1. : (k.w[s + 1] - k.w[s]) / dst));
            if (s > 0)
              E.push_back(k.e[s] * std::sqrt(nt < 2 ? 1. : (k.w[s] - k.w[s - 1]) / dst));
          }
        }
    } else if (method == "spline")
      F.push_back(sp(t));
    else { // nearest node of a 0.1 grid starting at the first sample; the last one stands for the end
      double best = INFINITY;
      std::vector<double> nodes;
      for (int j = 0; k.w[0] + j * 0.1 <= k.w.back() + 0.1; j++)
        nodes.push_back(std::min(k.w[0] + j * 0.1, k.w.back()));
      for (double x : nodes)
        best = std::min(best, std::fabs(x - t));
      check(best <= 0.05 + 1e-9, "harness: fine grid", "harness");
      // at most half a step away
      double mn = INFINITY, mx = -INFINITY;
      for (double x : nodes)
        if (std::fabs(x - t) <= 0.05 + 1e-9) {
          mn = std::min(mn, sp(x));
          mx = std::max(mx, sp(x));
          F.push_back(sp(x));
        }
    }
    check(anyClose(fv, F), at + " gets flux " + num(fv) + ", expected " + vec(F), M + "flux");
    if (eopt != "no")
      check(anyClose(ev, E), at + " gets error " + num(ev) + ", expected " + vec(E), M + "error-" + eopt);
  }
  c.outcome(o);
  // the source is left as it was
  check(src.GetRawFluxAxis().GetSamplesVector() == k.f && src.GetErrorAxis().GetSamplesVector() == k.e && src.GetSpectralAxis().GetSamplesVector() == k.w,
        "source spectrum changed", M + "source");
}

static CSpectrum mkSpectrum(const Case &k) {
  CSpectrumSpectralAxis a(k.w);
  CSpectrumFluxAxis fl(CSpectrumAxis(k.f), CSpectrumNoiseAxis(k.e));
  return CSpectrum(a, fl);
}
static std::vector<double> lattice(const TFloat64List &w) { // positions relative to the source
  std::vector<double> p = {w.front() - 0.7};
  for (size_t i = 0; i < w.size(); i++) {
    p.push_back(w[i]);
    if (i + 1 < w.size()) {
      p.push_back(w[i] + 0.5 * (w[i + 1] - w[i]));
      p.push_back(w[i] + 0.9 * (w[i + 1] - w[i]));
    }
  }
  p.push_back(w.back() - 0.02);
  p.push_back(w.back() + 0.3);
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  return p;
}

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance(); // installs the GSL error handler
  Harness H;
  // one resampling, every grid
  H.add("grid", [](Ctx &c) {
    Case k;
    int n = 2 + c.choose(3);
    k.w.push_back(100);
    for (int i = 1; i < n; i++)
      k.w.push_back(k.w.back() + c.pick(c.thorough ? std::vector<double>{1., 0.35, 0.04, 2.33} : std::vector<double>{1., 0.35}));
    std::vector<double> vals = {1., -2.};
    if (c.thorough)
      vals.push_back(0.);
    for (int i = 0; i < n; i++) {
      k.f.push_back((i == 0 || i == n - 1) ? c.pick(vals) + i * 0.25 : 3. - i);
      k.e.push_back(0.5 + 0.25 * i * i);
    }
    auto P = lattice(k.w);
    int np = P.size();
    // targets: every increasing list of up to 3 (4) positions
    int nt = 1 + c.choose(c.thorough ? 4 : 3), last = -1;
    for (int i = 0; i < nt; i++) {
      int room = np - last - 1 - (nt - 1 - i);
      if (room <= 0)
        throw Skip();
      last = last + 1 + c.choose(room);
      k.tgt.push_back(P[last]);
    }
    std::vector<double> los = {k.w[0], (k.w[0] + k.w[1]) / 2, k.w[1], k.w[0] - 0.01};
    std::vector<double> his = {k.w.back(), (k.w[n - 1] + k.w[n - 2]) / 2, k.w[n - 2], k.w.back() + 0.01};
    k.lo = c.pick(los);
    k.hi = c.pick(his);
    std::string m = c.pick(METHODS), eo = c.pick(ERRS);
    bool outRange = k.lo < k.w[0] || k.hi > k.w.back();
    c.mine();
    if (k.lo > k.hi || (outRange && (nt > 1 || k.lo < k.w[0] && k.hi > k.w.back())))
      throw Skip();
    c.desc << m << " " << eo << " source " << vec(k.w) << " flux " << vec(k.f) << " error " << vec(k.e) << " target " << vec(k.tgt) << " range [" << k.lo << "," << k.hi << "]";
    CSpectrum s = mkSpectrum(k), out;
    s.setRebinInterpMethod(m);
    CMask mask;
    verify(s, k, m, eo, out, mask, c);
  });
  // successive resamplings by one spectrum into one output, with changes of method
  H.add("sequence", [](Ctx &c) {
    Case base;
    base.w = {100, 101, 101.5, 103};
    base.f = {1, -2, 5, 3};
    base.e = {0.5, 1, 2, 4};
    std::vector<TFloat64List> T = {{99, 100, 100.5, 101.5, 103, 104}, {100.2}, {101, 102, 102.97}};
    std::vector<std::pair<double, double>> R = {{100, 103}, {100.5, 102}};
    struct Step { std::string m, e; int t, r; };
    std::vector<Step> st;
    int len = c.thorough ? 4 : 3;
    for (int i = 0; i < len; i++) {
      Step s;
      s.m = c.pick(METHODS);
      bool sp = s.m == "spline" || s.m == "preComputedFineGrid";
      s.e = sp ? (c.thorough ? "no" : (i == 0 ? c.pick(std::vector<std::string>{"no", "rebin"}) : "no")) : c.pick(ERRS);
      s.t = c.choose((int)T.size());
      s.r = c.choose(len == 4 ? 1 : 2);
      st.push_back(s);
      c.desc << s.m << " " << s.e << " target " << vec(T[s.t]) << " range " << s.r << "; ";
    }
    c.mine();
    CSpectrum s = mkSpectrum(base), out;
    CMask mask;
    for (auto &x : st) {
      Case k = base;
      k.tgt = T[x.t];
      k.lo = R[x.r].first;
      k.hi = R[x.r].second;
      s.setRebinInterpMethod(x.m);
      verify(s, k, x.m, x.e, out, mask, c);
      c.step();
    }
  });
  // the source component in use: raw, continuum, without continuum
  H.add("component", [](Ctx &c) {
    Case k;
    k.w = {100, 101, 101.5, 103, 104};
    k.f = {1, -2, 5, 3, 2};
    k.e = {0.5, 1, 2, 4, 1};
    int type = c.choose(3);
    std::string m = c.pick(METHODS);
    k.tgt = {100, 100.5, 103.95, 104};
    k.lo = 100;
    k.hi = 104;
    TFloat64List cont = {0.5, 0.25, 1, 2, 4};
    c.mine();
    c.desc << m << " component " << type;
    CSpectrum s = mkSpectrum(k), out;
    s.SetContinuumEstimationMethod(CSpectrumFluxAxis(CSpectrumAxis(cont)));
    s.SetType(type == 0 ? CSpectrum::EType::nType_raw : type == 1 ? CSpectrum::EType::nType_continuumOnly : CSpectrum::EType::nType_noContinuum);
    s.setRebinInterpMethod(m);
    CMask mask;
    Case k2 = k;
    for (size_t i = 0; i < k.f.size(); i++)
      k2.f[i] = type == 0 ? k.f[i] : type == 1 ? cont[i] : k.f[i] - cont[i];
    CSpectrum expect = mkSpectrum(k2), out2;
    expect.setRebinInterpMethod(m);
    CMask mask2;
    s.Rebin(TFloat64Range(k.lo, k.hi), CSpectrumSpectralAxis(k.tgt), out, mask, "no");
    verify(expect, k2, m, "no", out2, mask2, c);
    for (size_t i = 0; i < k.tgt.size(); i++)
      check(close(out.GetFluxAxis()[i], out2.GetFluxAxis()[i]), "resampled component differs: " + num(out.GetFluxAxis()[i]) + " instead of " + num(out2.GetFluxAxis()[i]), "component");
  });
  H.add("unknown", [](Ctx &c) {
    std::string m = c.pick(std::vector<std::string>{"lin", "ngp", "spline", "preComputedFineGrid", "", "linear", "LIN"});
    c.mine();
    c.desc << m;
    Case k;
    k.w = {1, 2, 3};
    k.f = k.e = {1, 1, 1};
    CSpectrum s = mkSpectrum(k);
    bool thrown = false;
    try {
      s.setRebinInterpMethod(m);
    } catch (AmzException &) {
      thrown = true;
    }
    check(thrown == !std::count(METHODS.begin(), METHODS.end(), m), "interpolation method " + m + (thrown ? " refused" : " accepted"), "unknown");
    c.outcome(num(thrown));
  });
  return H.main(argc, argv);
}
