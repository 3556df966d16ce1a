// C16: a spectrum after every history of operations, against a spectrum
// freshly built from the data and settings a plain model says it has.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/mask.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/continuum/irregularsamplingmedian.h>
#include <RedshiftLibrary/photometry/photometricdata.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/spectrum.h>
#include <memory>
using namespace NSEpic;
using namespace mc;
typedef CSpectrum::EType T;
typedef std::shared_ptr<CSpectrum> P;

struct Model {
  TFloat64List w, f, e, cont;
  std::string method = "zero", rebin = "lin", name, obs;
  double win = 2;
  bool even = true, lost = false, maskedMedian = false;
  T type = T::nType_raw;
  std::shared_ptr<const CLSF> lsf;
  std::shared_ptr<const CPhotometricData> phot;
};
static bool same(const TFloat64List &a, const TFloat64List &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!close(a[i], b[i], 1e-9, 1e-11))
      return false;
  return true;
}
static P fresh(const Model &m) {
  CSpectrumSpectralAxis a(m.w);
  CSpectrumFluxAxis fl(CSpectrumAxis(m.f), CSpectrumNoiseAxis(m.e));
  P s = std::make_shared<CSpectrum>(a, fl, m.lsf);
  s->SetName(m.name);
  s->setObsID(m.obs);
  s->SetPhotData(m.phot);
  if (m.method == "manual")
    s->SetContinuumEstimationMethod(CSpectrumFluxAxis(CSpectrumAxis(m.cont)));
  else
    s->SetContinuumEstimationMethod(m.method);
  s->SetMedianWinsize(m.win);
  s->SetMedianEvenReflection(m.even);
  s->setRebinInterpMethod(m.rebin);
  return s;
}
static TFloat64List resample(const CSpectrum &s, const TFloat64List &w, CSpectrum *keep = nullptr) {
  TFloat64List t;
  for (size_t i = 0; i + 1 < w.size(); i++)
    t.push_back(w[i] + 0.3 * (w[i + 1] - w[i]));
  CSpectrum out;
  CMask mask;
  s.Rebin(TFloat64Range(w.front(), w.back()), CSpectrumSpectralAxis(t), out, mask, "no");
  return out.GetRawFluxAxis().GetSamplesVector();
}
static TFloat64List resampleErr(const CSpectrum &s, const TFloat64List &w) {
  TFloat64List t;
  for (size_t i = 0; i + 1 < w.size(); i++)
    t.push_back(w[i] + 0.3 * (w[i + 1] - w[i]));
  CSpectrum out;
  CMask mask;
  s.Rebin(TFloat64Range(w.front(), w.back()), CSpectrumSpectralAxis(t), out, mask, "rebin");
  return out.GetErrorAxis().GetSamplesVector();
}
static bool finite(const TFloat64List &l) {
  for (double x : l)
    if (!std::isfinite(x))
      return false;
  return true;
}
static void verify(const CSpectrum &s, const Model &m, const std::string &tag) {
  const std::string S = tag + "/";
  check(same(s.GetSpectralAxis().GetSamplesVector(), m.w), "wavelengths " + vec(s.GetSpectralAxis().GetSamplesVector()) + ", expected " + vec(m.w), S + "wavelength");
  check(same(s.GetRawFluxAxis().GetSamplesVector(), m.f), "raw flux " + vec(s.GetRawFluxAxis().GetSamplesVector()) + ", expected " + vec(m.f), S + "raw");
  check(same(s.GetRawFluxAxis().GetError().GetSamplesVector(), m.e), "raw error " + vec(s.GetRawFluxAxis().GetError().GetSamplesVector()) + ", expected " + vec(m.e), S + "error");
  check(s.GetType() == m.type, "component in use", S + "type");
  check(s.GetName() == m.name, "name", S + "name");
  check(s.GetLSF() == m.lsf, "line spread function", S + "lsf");
  check(s.GetContinuumEstimationMethod() == m.method && s.GetMedianWinsize() == m.win && s.GetMedianEvenReflection() == m.even, "continuum settings", S + "settings");
  check(s.getObsID() == m.obs, "observation id '" + s.getObsID() + "', expected '" + m.obs + "'", S + "obsid");
  check(s.GetPhotData() == m.phot, "photometric data lost", S + "phot");
  if (!m.lost && !(m.method == "irregularSamplingMedian" && !finite(m.f))) {
    P r = fresh(m);
    TFloat64List rc = r->GetContinuumFluxAxis().GetSamplesVector(), rw = r->GetWithoutContinuumFluxAxis().GetSamplesVector();
    TFloat64List rce = r->GetContinuumFluxAxis().GetError().GetSamplesVector(), rwe = r->GetWithoutContinuumFluxAxis().GetError().GetSamplesVector();
    r = fresh(m);
    // the reference itself, where the definition is direct
    if (finite(m.f))
      for (size_t i = 0; i < m.f.size(); i++) {
        double c = m.method == "zero" ? 0 : m.method == "raw" ? m.f[i] : m.method == "manual" ? m.cont[i] : rc[i];
        check(close(rc[i], c, 1e-9, 1e-11) && close(rw[i], m.f[i] - c, 1e-9, 1e-11), "continuum of a fresh spectrum is wrong", "fresh");
      }
    r->SetType(m.type);
    TFloat64List rf = r->GetFluxAxis().GetSamplesVector();
    TFloat64List re = r->GetErrorAxis().GetSamplesVector();
    if (!m.maskedMedian) {
      check(same(s.GetFluxAxis().GetSamplesVector(), rf), "flux in use " + vec(s.GetFluxAxis().GetSamplesVector()) + ", a fresh spectrum gives " + vec(rf), S + "flux");
      check(same(s.GetErrorAxis().GetSamplesVector(), re), "error in use " + vec(s.GetErrorAxis().GetSamplesVector()) + ", a fresh spectrum gives " + vec(re), S + "error-in-use");
    }
    if (finite(m.f) && !m.maskedMedian) {
      TFloat64List a = resample(s, m.w), b = resample(*r, m.w);
      check(same(a, b), "resampled flux (" + m.rebin + ") " + vec(a) + ", a fresh spectrum gives " + vec(b), S + "resample");
      if (m.rebin == "lin") {
        a = resampleErr(s, m.w), b = resampleErr(*r, m.w);
        check(same(a, b), "resampled error " + vec(a) + ", a fresh spectrum gives " + vec(b), S + "resample-error");
      }
    }
    TFloat64List sc = s.GetContinuumFluxAxis().GetSamplesVector(), sw = s.GetWithoutContinuumFluxAxis().GetSamplesVector();
    if (!m.maskedMedian) {
      check(same(sc, rc), "continuum (" + m.method + ") " + vec(sc) + ", a fresh spectrum gives " + vec(rc), S + "continuum");
      check(same(sw, rw), "continuum free flux (" + m.method + ") " + vec(sw) + ", a fresh spectrum gives " + vec(rw), S + "nocontinuum");
      check(same(s.GetContinuumFluxAxis().GetError().GetSamplesVector(), rce), "error of the continuum", S + "continuum-error");
      check(same(s.GetWithoutContinuumFluxAxis().GetError().GetSamplesVector(), rwe), "error of the continuum free flux " + vec(s.GetWithoutContinuumFluxAxis().GetError().GetSamplesVector()) + ", a fresh spectrum gives " + vec(rwe), S + "nocontinuum-error");
    }
    check(s.GetSampleCount() == (int)m.w.size() && !s.IsEmpty() && s.IsValid(), "validity", S + "valid");
  }
}

static const int N = 12;
static TFloat64List grid(int n, double a, double st) {
  TFloat64List w;
  for (int i = 0; i < n; i++)
    w.push_back(a + st * i);
  return w;
}
static TFloat64List fluxes(int n, int k) {
  TFloat64List f;
  for (int i = 0; i < n; i++)
    f.push_back(1 + ((i * (k + 3) + k) % 7) * 0.5 + (i == 5 ? 4 : 0));
  return f;
}
static TFloat64List errors(int n, int k) {
  TFloat64List f;
  for (int i = 0; i < n; i++)
    f.push_back(0.5 + 0.125 * ((i + k) % 4) + k);
  return f;
}

struct Op {
  std::string name;
  std::function<void(P &, Model &)> run;
};
static CSpectrumFluxAxis flux(const TFloat64List &f, const TFloat64List &e) { return CSpectrumFluxAxis(CSpectrumAxis(f), CSpectrumNoiseAxis(e)); }
static void newData(Model &m) {
  m.type = T::nType_raw;
  m.maskedMedian = false;
  if (m.method == "manual")
    m.lost = true;
}
static void needCont(const Model &m) { // the component in use must exist
  if (m.lost)
    throw Skip();
}
static void disturb(CSpectrum &s) { // change everything in an object that is dropped
  s.ApplyAmplitude(-3);
  s.SetFluxAxis(CSpectrumFluxAxis(TFloat64List(s.GetSampleCount(), 7.)));
  s.setRebinInterpMethod("spline");
  s.SetName("other");
}
static std::vector<Op> makeOps(bool thorough) {
  std::vector<Op> o;
  auto add = [&](const std::string &n, std::function<void(P &, Model &)> f) { o.push_back({n, f}); };
  add("query", [](P &s, Model &m) {
    needCont(m);
    if (m.method == "irregularSamplingMedian" && !finite(m.f))
      throw Skip(); // the median of NaN is not defined
    s->GetContinuumFluxAxis();
    s->GetWithoutContinuumFluxAxis();
    s->GetErrorAxis();
  });
  add("resample", [](P &s, Model &m) {
    needCont(m);
    if (!finite(m.f))
      throw Skip();
    resample(*s, m.w);
  });
  add("SetFluxAxis", [](P &s, Model &m) {
    m.f = fluxes(m.w.size(), 1);
    m.e = errors(m.w.size(), 1);
    if (m.lost && m.type != T::nType_raw)
      throw Skip();
    s->SetFluxAxis(flux(m.f, m.e));
    newData(m);
  });
  add("SetFluxAxis(with NaN)", [](P &s, Model &m) {
    m.f = fluxes(m.w.size(), 2);
    m.f[3] = NAN;
    m.e = errors(m.w.size(), 0);
    CSpectrumFluxAxis a = flux(m.f, m.e);
    s->SetFluxAxis(std::move(a));
    newData(m);
  });
  add("SetSpectralAxis", [](P &s, Model &m) {
    needCont(m);
    m.w = grid(m.w.size(), 100, m.w[1] - m.w[0] < 1.5 ? 2.5 : 1);
    s->SetSpectralAxis(CSpectrumSpectralAxis(m.w));
  });
  add("SetSpectralAndFluxAxes", [](P &s, Model &m) {
    int n = m.w.size() == N ? N + 2 : N;
    m.w = grid(n, 200, 1.5);
    m.f = fluxes(n, 3);
    m.e = errors(n, 2);
    s->SetSpectralAndFluxAxes(CSpectrumSpectralAxis(m.w), flux(m.f, m.e));
    newData(m);
  });
  add("SetErrorAxis", [](P &s, Model &m) {
    if (m.type != T::nType_raw)
      throw Skip();
    m.e = errors(m.w.size(), 3);
    s->SetErrorAxis(CSpectrumNoiseAxis(m.e));
  });
  add("ApplyAmplitude", [](P &s, Model &m) {
    for (auto &x : m.f)
      x *= 2;
    for (auto &x : m.cont)
      x *= 2;
    s->ApplyAmplitude(2);
  });
  add("InvertFlux", [](P &s, Model &m) {
    for (auto &x : m.f)
      x = -x;
    for (auto &x : m.cont)
      x = -x;
    s->InvertFlux();
  });
  add("correctSpectrum", [](P &s, Model &m) {
    if (m.type != T::nType_raw)
      throw Skip();
    double mx = 0, mn = 1e300;
    bool bad = false;
    for (size_t i = 0; i < m.f.size(); i++)
      if (std::isfinite(m.f[i])) {
        mx = std::max(mx, m.e[i]);
        mn = std::min(mn, std::fabs(m.f[i]));
      } else
        bad = true;
    for (size_t i = 0; i < m.f.size(); i++)
      if (!std::isfinite(m.f[i])) {
        m.f[i] = mn / 10;
        m.e[i] = mx * 10;
      }
    bool r = s->correctSpectrum(m.w.front() - 1, m.w.back() + 1);
    check(r == bad, "correction report", "correct");
    if (bad) {
      if (m.method == "manual")
        m.lost = true;
    }
  });
  for (std::string me : {"zero", "raw", "irregularSamplingMedian"})
    add("method " + me, [me](P &s, Model &m) {
      m.method = me;
      m.lost = false;
      s->SetContinuumEstimationMethod(me);
    });
  add("manual continuum", [](P &s, Model &m) {
    if (m.type != T::nType_raw && m.lost)
      throw Skip();
    m.method = "manual";
    m.lost = false;
    m.cont = fluxes(m.w.size(), 4);
    s->SetContinuumEstimationMethod(CSpectrumFluxAxis(CSpectrumAxis(m.cont)));
  });
  add("SetMedianWinsize", [](P &s, Model &m) {
    m.win = m.win == 2 ? 5 : 2;
    s->SetMedianWinsize(m.win);
  });
  add("SetMedianEvenReflection", [](P &s, Model &m) {
    m.even = !m.even;
    s->SetMedianEvenReflection(m.even);
  });
  add("type raw", [](P &s, Model &m) {
    m.type = T::nType_raw;
    s->SetType(m.type);
  });
  add("type continuum", [](P &s, Model &m) {
    m.type = T::nType_continuumOnly;
    s->SetType(m.type);
  });
  add("type no continuum", [](P &s, Model &m) {
    m.type = T::nType_noContinuum;
    s->SetType(m.type);
  });
  for (std::string r : {"lin", "preComputedFineGrid", "spline"})
    add("interpolation " + r, [r](P &s, Model &m) {
      m.rebin = r;
      s->setRebinInterpMethod(r);
    });
  add("RemoveContinuum", [](P &s, Model &m) {
    if (m.method == "manual" || !finite(m.f))
      throw Skip();
    CContinuumIrregularSamplingMedian c;
    c.SetMedianKernelWidth(3);
    c.SetMeanKernelWidth(3);
    s->RemoveContinuum(c);
  });
  add("InitSpectrumContinuum", [](P &s, Model &m) {
    needCont(m);
    if (m.maskedMedian)
      throw Skip();
    CParameterStore ps(std::make_shared<CScopeStack>());
    ps.FromString("{\"smoothWidth\": 1.0, \"continuumRemoval\": {\"method\": \"irregularSamplingMedian\", \"medianKernelWidth\": 5.0, \"medianEvenReflection\": true}}");
    TFloat64List f = m.f;
    for (int i = 0; i < (int)f.size(); i++) {
      double t = 0;
      int k = 0;
      for (int j = std::max(0, i - 1); j <= std::min((int)f.size() - 1, i + 1); j++, k++)
        t += m.f[j];
      f[i] = t / k;
    }
    m.f = f;
    s->InitSpectrumContinuum(ps);
    m.type = T::nType_raw;
    m.method = "irregularSamplingMedian";
    m.win = 5;
    m.even = true;
  });
  add("copy, change the source", [](P &s, Model &m) {
    needCont(m);
    P c = std::make_shared<CSpectrum>(*s);
    disturb(*s);
    s = c;
  });
  add("copy, change the copy", [](P &s, Model &m) {
    needCont(m);
    CSpectrum c(*s);
    verify(c, m, "copy");
    disturb(c);
  });
  add("assign", [](P &s, Model &m) {
    needCont(m);
    Model o = m;
    o.f = fluxes(5, 5);
    o.e = errors(5, 5);
    o.w = grid(5, 3, 1);
    o.method = "zero";
    o.obs = "o";
    o.phot.reset();
    P c = fresh(o);
    c->SetType(T::nType_noContinuum);
    c->GetContinuumFluxAxis();
    *c = *s;
    disturb(*s);
    s = c;
  });
  add("move", [](P &s, Model &m) {
    needCont(m);
    s = std::make_shared<CSpectrum>(std::move(*s));
  });
  add("move assign", [](P &s, Model &m) {
    needCont(m);
    P c = std::make_shared<CSpectrum>("empty");
    *c = std::move(*s);
    s = c;
  });
  add("masked copy", [](P &s, Model &m) {
    if (m.lost || m.w.size() < N)
      throw Skip();
    TFloat64List mask(m.w.size(), 1.);
    mask[1] = 0;
    auto cut = [&](TFloat64List &l) {
      if (!l.empty())
        l.erase(l.begin() + 1);
    };
    s = std::make_shared<CSpectrum>(*s, mask);
    cut(m.w);
    cut(m.f);
    cut(m.e);
    cut(m.cont);
    if (m.method == "manual") // only known to the copy when it was estimated before
      throw Skip();
    m.maskedMedian = m.method == "irregularSamplingMedian";
  });
  add("extract", [](P &s, Model &m) {
    if (m.lost || m.method == "manual" || m.w.size() < N)
      throw Skip();
    auto cut = [&](TFloat64List &l) { l = TFloat64List(l.begin() + 1, l.begin() + N); };
    s = std::make_shared<CSpectrum>(s->extract(1, N - 1));
    cut(m.w);
    cut(m.f);
    cut(m.e);
    m.type = T::nType_raw;
    m.rebin = "lin";
    m.obs = s->getObsID();
    m.phot = s->GetPhotData();
    m.maskedMedian = false;
  });
  return o;
}

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  Harness H;
  auto lsf = LSFFactory.Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(2.));
  auto phot = std::make_shared<const CPhotometricData>(TStringList{"b1"}, TFloat64List{1.}, TFloat64List{0.5});
  H.add("history", [=](Ctx &c) {
    static const std::vector<Op> ops = makeOps(c.thorough);
    // (settings, data) the histories start from
    int start = c.choose(2);
    int depth = (c.thorough ? 5 : 4) - start;
    std::vector<int> seq;
    for (int i = 0; i < depth; i++)
      seq.push_back(c.choose((int)ops.size()));
    c.mine();
    Model m;
    m.w = grid(N, 100, 1);
    m.f = fluxes(N, 0);
    m.e = errors(N, 0);
    m.name = "spc";
    m.obs = "obs1";
    m.lsf = lsf;
    m.phot = phot;
    if (start) {
      m.method = "irregularSamplingMedian";
      m.rebin = "preComputedFineGrid";
    }
    P s = fresh(m);
    for (int k : seq) {
      c.desc << ops[k].name << "; ";
      ops[k].run(s, m);
      c.step();
    }
    verify(*s, m, start ? "median" : "zero");
    c.outcome(num(fnv(vec(m.w) + vec(m.f) + vec(m.e) + vec(m.cont) + m.method + m.rebin + num(m.type) + num(m.win) + num(m.even) + num(m.lost))));
  });
  return H.main(argc, argv);
}
