// C20: extinction and IGM absorption of a template after every history of
// operations, against the product formula; the correction tables themselves.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/mask.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/LSFConstantWidth.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <RedshiftLibrary/spectrum/template/template.h>
#include <memory>
using namespace NSEpic;
using namespace mc;
typedef std::shared_ptr<CTemplate> P;
typedef CSpectrum::EType T;

static const double MIN0 = 1210.03, STEP = 0.05, LYA = 1216.;
static const TFloat64List ZB{2.0, 2.5, 3.0};
static const double CMIN = 1210, CMAX = 1220, CSTEP = 0.5;
static const double E0 = 0., ES = 0.4;
static const int NE = 3;
static TFloat64List CL, CF, ML;
static std::vector<std::vector<TFloat64List>> MC; // raw curves [z][idx]
static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> CAL;
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> IGM;

static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> mkIgm() {
  std::vector<MeiksinCorrection> c;
  for (auto &x : MC)
    c.push_back(MeiksinCorrection(ML, x));
  return std::make_shared<CSpectrumFluxCorrectionMeiksin>(c, ZB);
}
static void tables() {
  for (int i = 0; CMIN + CSTEP * i <= CMAX; i++) {
    CL.push_back(CMIN + CSTEP * i);
    CF.push_back(6. - 0.2 * i);
  }
  for (int i = 0; i < 121; i++)
    ML.push_back(MIN0 + STEP * i);
  for (int z = 0; z < 2; z++) {
    std::vector<TFloat64List> v;
    for (int j = 0; j < 2; j++) {
      TFloat64List f;
      for (int i = 0; i < 121; i++)
        f.push_back(0.9 - 0.2 * z - 0.3 * j - 0.001 * i - (i % 7) * 0.003);
      v.push_back(f);
    }
    MC.push_back(v);
  }
  CAL = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(CL, CF), E0, ES, NE);
  IGM = mkIgm();
  IGM->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(0.01), TFloat64Range(100, 100000));
}
// --- definitions -----------------------------------------------------------
static double dust(int k, double l) {
  if (k < 0 || l < CMIN || l >= CMAX)
    return 1;
  return std::pow(10., -0.4 * CF[(int)std::lround((l - CMIN) / CSTEP)] * (E0 + ES * k));
}
static int zidx(double z) { return z < ZB[0] ? -1 : z < ZB[1] ? 0 : 1; }
static int widx(double l) { return std::min(120, std::max(0, (int)std::lround((l - MIN0) / STEP))); }
static double igm(int zi, int k, double l) {
  if (k < 0 || l > LYA || zi < 0)
    return 1;
  return MC[zi][k][widx(l)]; // the test LSF is much narrower than the table step
}

struct M {
  TFloat64List w, f;
  bool on = false, hasIgm = false, hasDust = false;
  int ks = 0, ke = 0, kd = -1, mi = -1, zi = -1;
  T type = T::nType_raw;
  int igmEnd() const {
    int r = -1;
    for (int k = ks; k <= ke; k++)
      if (w[k] <= LYA)
        r = k;
    return r;
  }
  TFloat64List flux() const {
    TFloat64List r = f;
    if (on)
      for (int k = ks; k <= ke; k++)
        r[k] *= dust(kd, w[k]) * (k <= igmEnd() ? igm(zi, mi, w[k]) : 1.);
    return r;
  }
};
static bool same(const TFloat64List &a, const TFloat64List &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!close(a[i], b[i], 1e-9, 1e-12))
      return false;
  return true;
}
static TFloat64List resample(const CSpectrum &s, const TFloat64List &w) {
  TFloat64List t;
  for (size_t i = 0; i + 1 < w.size(); i++)
    t.push_back(w[i] + 0.4 * (w[i + 1] - w[i]));
  CSpectrum out;
  CMask mask;
  s.Rebin(TFloat64Range(w.front(), w.back()), CSpectrumSpectralAxis(t), out, mask, "no");
  return out.GetRawFluxAxis().GetSamplesVector();
}
static void verify(CTemplate &t, const M &m, bool res, const std::string &tag) {
  check(same(t.GetSpectralAxis().GetSamplesVector(), m.w), "wavelengths differ", tag + "/wavelength");
  check(t.CheckIsmIgmEnabled() == m.on, "corrections enabled", tag + "/enabled");
  check(t.GetType() == m.type, "component in use", tag + "/type");
  TFloat64List e = m.flux();
  check(same(t.GetFluxAxis().GetSamplesVector(), e), "flux " + vec(t.GetFluxAxis().GetSamplesVector()) + ", expected " + vec(e), tag + "/flux");
  if (m.type != T::nType_raw)
    check(same(t.GetRawFluxAxis().GetSamplesVector(), m.f), "raw flux " + vec(t.GetRawFluxAxis().GetSamplesVector()) + ", expected " + vec(m.f), tag + "/raw");
  if (m.on) {
    check(t.GetIsmCoeff() == m.kd, "dust index " + num(t.GetIsmCoeff()) + ", expected " + num(m.kd), tag + "/ismidx");
    check(t.GetIgmCoeff() == m.mi, "absorption index " + num(t.GetIgmCoeff()) + ", expected " + num(m.mi), tag + "/igmidx");
    auto r = t.GetIsmIgmRangeIndex();
    check(r.first == m.ks && r.second == m.ke, "range", tag + "/range");
    if (m.hasIgm)
      check(t.GetIgmEndIndex() == m.igmEnd(), "absorption end " + num(t.GetIgmEndIndex()) + ", expected " + num(m.igmEnd()), tag + "/igmend");
    for (int k = m.ks; k <= m.ke; k++) {
      check(close(t.GetcomputedDustCoeffs()[k], dust(m.kd, m.w[k]), 1e-9, 0), "dust coefficient", tag + "/dustcoeff");
      check(close(t.GetcomputedMeiksinCoeffs()[k], k <= m.igmEnd() ? igm(m.zi, m.mi, m.w[k]) : 1., 1e-9, 0), "absorption coefficient", tag + "/igmcoeff");
    }
  }
  if (res && m.w.size() > 3) {
    CSpectrum ref{CSpectrumSpectralAxis(m.w), CSpectrumFluxAxis(CSpectrumAxis(e))};
    ref.setRebinInterpMethod("preComputedFineGrid");
    TFloat64List a = resample(t, m.w), b = resample(ref, m.w);
    check(same(a, b), "resampled flux " + vec(a) + ", expected " + vec(b), tag + "/resampled");
  }
}
template <class F> static bool refused(F f) {
  try {
    f();
  } catch (AmzException &) {
    return true;
  }
  return false;
}
struct Op {
  std::string name;
  std::function<void(P &, M &)> run;
};
static const TFloat64List W0{1209.2, 1211.02, 1214.5, 1216., 1216.5, 1218.2, 1219.9, 1221.};

static void init(P &t, M &m, int ks, int ke, double z, int how) {
  if (how == 0)
    t->InitIsmIgmConfig(ks, ke, z, CAL, IGM);
  else if (how == 1)
    t->InitIsmIgmConfig(ks, ke, z); // keeps the tables it has
  else if (how == 2)
    t->InitIsmIgmConfig(TFloat64Range(m.w[ks] - 0.01, m.w[ke] + 0.01), z, CAL, IGM);
  else if (how == 3)
    t->InitIsmIgmConfig(z, CAL, IGM);
  m.on = m.hasIgm = m.hasDust = true;
  m.ks = ks;
  m.ke = ke;
  m.kd = m.mi = -1;
  m.zi = zidx(z);
}
static M maskedModel(const M &m, const TFloat64List &mask) {
  M r = m;
  r.w.clear();
  r.f.clear();
  TFloat64List cur = m.flux();
  int ks = -1, ke = -1;
  for (size_t i = 0; i < m.w.size(); i++)
    if (mask[i]) {
      if (m.on && (int)i >= m.ks && (int)i <= m.ke) {
        if (ks < 0)
          ks = r.w.size();
        ke = r.w.size();
      }
      r.w.push_back(m.w[i]);
      r.f.push_back(m.f[i]);
    }
  if (m.on && ks < 0)
    r.on = false;
  if (r.on) {
    r.ks = ks;
    r.ke = ke;
  }
  return r;
}
static std::vector<Op> makeOps(bool thorough) {
  std::vector<Op> o;
  auto add = [&](std::string n, std::function<void(P &, M &)> f) { o.push_back({n, f}); };
  auto last = [](const M &m) { return (int)m.w.size() - 1; };
  add("init all z=2.8", [=](P &t, M &m) { init(t, m, 0, last(m), 2.8, 0); });
  add("init all z=2.2 by redshift", [=](P &t, M &m) { init(t, m, 0, last(m), 2.2, 3); });
  add("init [1,2] z=7 by range", [=](P &t, M &m) { init(t, m, std::min(1, last(m)), std::min(2, last(m)), 7, 2); });
  add("init redward z=2.8", [=](P &t, M &m) {
    if (m.w.size() < 8)
      throw NotEnabled();
    init(t, m, 4, 6, 2.8, 0);
  });
  add("init redward z=0.5", [=](P &t, M &m) {
    if (m.w.size() < 8)
      throw NotEnabled();
    init(t, m, 4, 7, 0.5, 0);
  });
  add("init with its tables", [=](P &t, M &m) {
    if (!m.hasIgm)
      check(refused([&] { t->InitIsmIgmConfig(0, last(m), 2.8); }), "correction without tables accepted", "init/notables");
    else
      init(t, m, 0, last(m), 2.8, 1);
  });
  add("init refused: no curve", [=](P &t, M &m) {
    if (m.w[0] > LYA)
      throw NotEnabled();
    check(refused([&] { t->InitIsmIgmConfig(0, last(m), 0.5, CAL, IGM); }), "missing absorption curve accepted", "init/nocurve");
    m.hasIgm = m.hasDust = true;
  });
  add("init refused: range", [=](P &t, M &m) {
    check(refused([&] { t->InitIsmIgmConfig(0, last(m) + 1, 2.8, CAL, IGM); }), "end outside accepted", "init/kend");
    check(refused([&] { t->InitIsmIgmConfig(-1, last(m), 2.8, CAL, IGM); }), "start outside accepted", "init/kstart");
    m.hasIgm = m.hasDust = true;
  });
  for (int k : thorough ? std::vector<int>{-1, 0, 1, 2} : std::vector<int>{-1, 1, 2})
    add("dust " + std::to_string(k), [=](P &t, M &m) {
      if (!m.on) {
        check(refused([&] { t->ApplyDustCoeff(k); }), "dust applied without configuration", "dust/noconfig");
        return;
      }
      check(t->ApplyDustCoeff(k), "dust not applied", "dust/false");
      m.kd = k;
    });
  for (int k : std::vector<int>{-1, 0, 1})
    add("igm " + std::to_string(k), [=](P &t, M &m) {
      if (!m.on) {
        check(refused([&] { t->ApplyMeiksinCoeff(k); }), "absorption applied without configuration", "igm/noconfig");
        return;
      }
      bool r = t->ApplyMeiksinCoeff(k);
      check(r == (m.igmEnd() >= 0), "absorption answer " + num(r), "igm/answer");
      m.mi = k;
    });
  add("dust refused", [=](P &t, M &m) {
    if (!m.on)
      throw NotEnabled();
    bool any = false;
    for (int k = m.ks; k <= m.ke; k++)
      any = any || (m.w[k] >= CMIN && m.w[k] < CMAX);
    if (!any)
      throw NotEnabled();
    check(refused([&] { t->ApplyDustCoeff(NE); }), "unknown dust index accepted", "dust/unknown");
  });
  add("amplitude 2", [](P &t, M &m) {
    t->ApplyAmplitude(2);
    for (auto &x : m.f)
      x *= 2;
  });
  add("disable", [](P &t, M &m) {
    t->DisableIsmIgm();
    m.on = false;
  });
  add("set flux", [](P &t, M &m) {
    for (size_t i = 0; i < m.f.size(); i++)
      m.f[i] = 3. + i;
    t->SetFluxAxis(CSpectrumFluxAxis(CSpectrumAxis(m.f)));
    m.on = false;
    m.type = T::nType_raw;
  });
  add("set wavelengths", [](P &t, M &m) {
    for (auto &x : m.w)
      x += 0.25;
    t->SetSpectralAxis(CSpectrumSpectralAxis(m.w));
    if (m.on)
      m.f = m.flux(), m.f = m.f; // resolved below
    m.on = false;
  });
  add("type without continuum", [](P &t, M &m) {
    t->SetType(T::nType_noContinuum);
    if (m.type != T::nType_noContinuum)
      m.on = false;
    m.type = T::nType_noContinuum;
  });
  add("type raw", [](P &t, M &m) {
    t->SetType(T::nType_raw);
    if (m.type != T::nType_raw)
      m.on = false;
    m.type = T::nType_raw;
  });
  add("const type", [](P &t, M &m) {
    T o = m.type == T::nType_raw ? T::nType_noContinuum : T::nType_raw;
    const CTemplate &c = *t;
    bool r = refused([&] { c.SetType(o); });
    check(r == m.on, "component change of a corrected constant template", "type/const");
    if (!r)
      m.type = o;
  });
  add("copy", [](P &t, M &m) {
    P u = std::make_shared<CTemplate>(*t);
    P old = t;
    t = u;
    if (m.on) // the source must stay independent
      old->ApplyDustCoeff(m.kd == 1 ? 2 : 1);
    old->ApplyAmplitude(5);
  });
  add("assign", [](P &t, M &m) {
    P u = std::make_shared<CTemplate>("o", "o", CSpectrumSpectralAxis(W0), CSpectrumFluxAxis(CSpectrumAxis(TFloat64List(8, 9.))));
    u->InitIsmIgmConfig(0, 7, 2.8, CAL, IGM);
    u->ApplyDustCoeff(2);
    *u = *t;
    t = u;
  });
  add("assign fresh", [](P &t, M &m) {
    m = M();
    m.w = W0;
    m.f = TFloat64List(8, 9.);
    CTemplate u("o", "o", CSpectrumSpectralAxis(m.w), CSpectrumFluxAxis(CSpectrumAxis(m.f)));
    u.SetContinuumEstimationMethod("zero");
    u.setRebinInterpMethod("preComputedFineGrid");
    *t = u;
  });
  add("move", [](P &t, M &m) { t = std::make_shared<CTemplate>(std::move(*t)); });
  add("move assign", [](P &t, M &m) {
    P u = std::make_shared<CTemplate>("o", "o");
    *u = std::move(*t);
    t = u;
  });
  std::vector<std::vector<int>> masks{{1, 0, 1, 0, 1, 1, 0, 1}, {0, 0, 0, 0, 1, 1, 1, 1}, {1, 0, 0, 1, 1, 1, 1, 1}, {1, 1, 1, 1, 0, 0, 0, 1}};
  for (auto mk : masks)
    add("mask " + vec(mk), [=](P &t, M &m) {
      if (m.w.size() != 8)
        throw NotEnabled();
      TFloat64List mask(mk.begin(), mk.end());
      M r = maskedModel(m, mask);
      t = std::make_shared<CTemplate>(*t, mask);
      m = r;
    });
  add("receive resampled", [](P &t, M &m) {
    CSpectrum s{CSpectrumSpectralAxis(W0), CSpectrumFluxAxis(CSpectrumAxis(TFloat64List{1, 2, 3, 4, 5, 6, 7, 8}))};
    CMask mask;
    s.Rebin(TFloat64Range(W0.front(), W0.back()), CSpectrumSpectralAxis(W0), *t, mask, "no");
    std::string tmp;
    m.w = W0;
    m.f = {1, 2, 3, 4, 5, 6, 7, 8};
    m.on = false;
    m.type = T::nType_raw;
    t->setRebinInterpMethod("preComputedFineGrid");
  });
  return o;
}

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  tables();
  Harness H;
  H.add("history", [](Ctx &c) {
    static const std::vector<Op> ops = makeOps(c.thorough);
    int start = c.choose(2);
    int depth = (c.thorough ? 4 : 3);
    std::vector<int> seq;
    for (int i = 0; i < depth; i++)
      seq.push_back(c.choose((int)ops.size()));
    bool res = c.flip();
    c.mine();
    M m;
    m.w = W0;
    m.f = {1, 2, 4, 3, 5, 2.5, 6, 1.5};
    P t = std::make_shared<CTemplate>("n", "cat", CSpectrumSpectralAxis(m.w), CSpectrumFluxAxis(CSpectrumAxis(m.f)));
    t->SetContinuumEstimationMethod("zero");
    t->setRebinInterpMethod("preComputedFineGrid");
    c.desc << (start ? "corrected start" : "plain start") << (res ? ", resampled after each" : "") << ":";
    if (start) {
      init(t, m, 0, 6, 2.8, 0);
      t->ApplyDustCoeff(1);
      t->ApplyMeiksinCoeff(1);
      m.kd = m.mi = 1;
    }
    verify(*t, m, res, "start");
    bool corrected = false;
    for (int k : seq) {
      c.desc << " " << ops[k].name << ";";
      // replacing the wavelengths of a corrected template leaves its flux undefined
      if (ops[k].name == "set wavelengths" && m.on)
        throw Skip();
      try {
        ops[k].run(t, m);
      } catch (NotEnabled &) {
        throw Skip();
      }
      c.step();
      verify(*t, m, res, ops[k].name);
      corrected = corrected || (m.on && (m.kd >= 0 || m.mi >= 0));
    }
    c.outcome(vec(m.flux()) + std::to_string(m.on), corrected);
  });
  H.add("calzetti", [](Ctx &c) {
    double e0 = c.pick(std::vector<double>{0., 0.1, -0.2}), es = c.pick(std::vector<double>{0.1, 0.4});
    int n = 1 + c.choose(4), k = c.choose(n + 1), pos = c.choose((int)CL.size() + 2), fr = c.choose(5);
    c.mine();
    static const double F[] = {0, 0.1, 0.49, 0.51, 0.999};
    double l = CMIN + CSTEP * (pos - 1 + F[fr]);
    c.desc << "E(B-V) " << e0 << "+" << es << "*" << k << " of " << n << " lambda " << l;
    CSpectrumFluxCorrectionCalzetti z(CalzettiCorrection(CL, CF), e0, es, n);
    check(z.GetNPrecomputedEbmvCoeffs() == n, "number of coefficients", "calzetti/n");
    if (k == n) {
      check(refused([&] { z.GetDustCoeff(k, l); }), "unknown index accepted", "calzetti/unknown");
      c.outcome("refused", false);
      return;
    }
    check(close(z.GetEbmvValue(k), e0 + es * k, 1e-12, 1e-15), "E(B-V) value", "calzetti/value");
    check(z.GetEbmvIndex(z.GetEbmvValue(k)) == k, "E(B-V) index", "calzetti/index");
    double d = z.GetDustCoeff(k, l), e = 1;
    if (l >= CMIN && l < CMAX)
      e = std::pow(10., -0.4 * CF[(int)std::lround((l - CMIN) / CSTEP)] * (e0 + es * k));
    check(close(d, e, 1e-12, 0), "coefficient " + num(d) + ", expected " + num(e), "calzetti/coeff");
    if (e0 + es * k >= 0)
      check(d > 0 && d <= 1, "coefficient outside ]0,1]", "calzetti/bounds");
    if (std::abs(e0 + es * k) < 1e-15)
      check(d == 1, "no extinction is not factor one", "calzetti/none");
    c.outcome(num(d), d != 1);
  });
  H.add("calzettigrid", [](Ctx &c) {
    int n = 2 + c.choose(4);
    int bad = c.choose(n + 1); // n: regular
    double off = c.pick(std::vector<double>{0.3, -0.3, 1e-4});
    c.mine();
    TFloat64List l, f;
    for (int i = 0; i < n; i++) {
      l.push_back(1000 + 2. * i + (i == bad ? off : 0));
      f.push_back(1 + i);
    }
    c.desc << vec(l);
    bool regular = true;
    for (int i = 2; i < n; i++)
      regular = regular && std::abs((l[i] - l[i - 1]) - (l[1] - l[0])) <= 1e-8 * (l[1] - l[0]);
    check(refused([&] { CalzettiCorrection z(l, f); }) == !regular, "irregular wavelength table", "calzetti/grid");
    c.outcome(std::to_string(regular));
  });
  H.add("meiksin", [](Ctx &c) {
    static const std::vector<double> Z{0., 1.9, 1.9999, 2., 2.2, 2.4999, 2.5, 2.7, 3., 3.0001, 9.};
    static const std::vector<double> L{900, 1210, 1210.03, 1210.05, 1210.06, 1213.019, 1213.04, 1215.9, 1216., 1216.0001, 1216.2, 5000};
    double z = c.pick(Z), l = c.pick(L);
    int k = c.choose(3) - 1;
    c.mine();
    c.desc << "z " << z << " lambda " << l << " index " << k;
    check(IGM->getRedshiftIndex(z) == zidx(z), "redshift index " + num(IGM->getRedshiftIndex(z)), "meiksin/zindex");
    check(IGM->getWaveIndex(l) == widx(l), "wavelength index " + num(IGM->getWaveIndex(l)), "meiksin/windex");
    check(IGM->getIdxCount() == 2 && IGM->isConvolved() && IGM->getLambdaMin() == MIN0 && IGM->getLambdaMax() == LYA, "description", "meiksin/desc");
    if (l <= LYA && k < 0) {
      check(refused([&] { IGM->getCorrection(z, k, l); }), "undefined index accepted", "meiksin/undef");
      check(refused([&] { IGM->getCorrectionAndDerivLbdaRest(z, k, l); }), "undefined index accepted", "meiksin/undef");
      c.outcome("refused", false);
      return;
    }
    double v = IGM->getCorrection(z, k, l), e = igm(zidx(z), k, l);
    check(close(v, e, 1e-9, 0), "correction " + num(v) + ", expected " + num(e), "meiksin/correction");
    check(v >= 0 && v <= 1, "correction outside [0,1]", "meiksin/bounds");
    auto [v2, d] = IGM->getCorrectionAndDerivLbdaRest(z, k, l);
    double ed = 0;
    if (l <= LYA && zidx(z) >= 0) {
      int i0 = std::max(0, widx(l) - 1), i1 = std::min(120, widx(l) + 1);
      ed = (MC[zidx(z)][k][i1] - MC[zidx(z)][k][i0]) / (ML[i1] - ML[i0]);
    }
    check(v2 == v, "correction with derivative differs", "meiksin/deriv");
    check(close(d, ed, 1e-6, 1e-9), "derivative " + num(d) + ", expected " + num(ed), "meiksin/deriv");
    c.outcome(num(v), v != 1);
  });
  H.add("meiksinrange", [](Ctx &c) {
    static const std::vector<double> L{1200, 1210.03, 1210.05, 1213.0, 1213.03, 1213.06, 1213.07, 1215.99, 1216.03, 1217};
    double a = c.pick(L), b = c.pick(L), z = c.pick(std::vector<double>{1., 2.2, 2.7});
    int k = c.choose(2);
    c.mine();
    if (a > b)
      throw Skip();
    c.desc << "[" << a << "," << b << "] z " << z << " index " << k;
    TFloat64List ew, ec;
    for (int i = 0; i < 121; i++)
      if (ML[i] >= a - 1e-9 && ML[i] <= b + 1e-9) {
        ew.push_back(ML[i]);
        ec.push_back(zidx(z) < 0 ? 1. : MC[zidx(z)][k][i]);
      }
    // a range outside the table, or ending on a node up to rounding, is not decided
    bool edge = b < ML.front() || a > ML.back();
    for (double x : {a, b})
      for (double y : ML)
        edge = edge || (std::abs(x - y) < 1e-9 && x != y);
    for (double x : {a, b}) {
      double q = (x - MIN0) / STEP;
      edge = edge || (std::abs(q - std::round(q)) < 1e-6 && x > ML.front() && x < ML.back());
    }
    if (edge)
      throw Skip();
    if (ew.empty()) {
      check(refused([&] { IGM->getWaveAndCorrectionVector(TFloat64Range(a, b), z, k); }), "empty range accepted", "meiksinrange/empty");
      c.outcome("refused", false);
      return;
    }
    auto [w, f] = IGM->getWaveAndCorrectionVector(TFloat64Range(a, b), z, k);
    check(same(w, ew), "wavelengths " + vec(w) + ", expected " + vec(ew), "meiksinrange/wave");
    check(same(f, ec), "corrections", "meiksinrange/corr");
    c.outcome(std::to_string(w.size()));
  });
  H.add("convolve", [](Ctx &c) {
    std::vector<double> s;
    int n = 1 + c.choose(2);
    for (int i = 0; i < n; i++)
      s.push_back(c.pick(std::vector<double>{0.01, 0.3, 0.8}));
    c.mine();
    c.desc << "LSF widths " << vec(s);
    auto o = mkIgm();
    for (double x : s)
      o->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(x), TFloat64Range(100, 100000));
    for (int zi = 0; zi < 2; zi++)
      for (int k = 0; k < 2; k++)
        for (int i = 0; i < 121; i += 4) {
          double zc = zi ? 2.75 : 2.25, l0 = ML[i] * (1 + zc), sum = 0, norm = 0;
          for (int j = 0; j < 121; j++) {
            double x = (ML[j] * (1 + zc) - l0) / s.back();
            if (std::abs(x) > 4.5) // support of the line profile
              continue;
            sum += std::exp(-0.5 * x * x) * MC[zi][k][j];
            norm += std::exp(-0.5 * x * x);
          }
          double v = o->getCorrection(zi, k, i);
          check(close(v, sum / norm, 2e-3, 0), "curve " + num(v) + " at " + num(ML[i]) + ", expected " + num(sum / norm),
                n > 1 && s[0] != s[1] ? "convolve/second" : "convolve/curve");
        }
    c.outcome(vec(s));
  });
  H.add("indexlists", [](Ctx &c) {
    bool cal = c.flip(), ig = c.flip(), ext = c.flip(), du = c.flip();
    int fe = c.choose(3) - 1, fm = c.choose(3) - 1;
    c.mine();
    c.desc << "tables " << cal << ig << " absorption " << ext << " dust " << du << " fixed " << fm << "," << fe;
    CTemplate t("n", "c", CSpectrumSpectralAxis(W0), CSpectrumFluxAxis(CSpectrumAxis(TFloat64List(8, 1.))));
    if (cal)
      t.m_ismCorrectionCalzetti = CAL;
    if (ig)
      t.m_igmCorrectionMeiksin = IGM;
    TInt32List ml, el;
    bool bad = (du && !cal) || (ext && !ig);
    check(refused([&] { t.GetIsmIgmIdxList(ext, du, ml, el, fe, fm); }) == bad, "missing table", "indexlists/refuse");
    if (!bad) {
      TInt32List xe = !du ? TInt32List{-1} : fe != -1 ? TInt32List{fe} : TInt32List{0, 1, 2};
      TInt32List xm = !ext ? TInt32List{-1} : fm != -1 ? TInt32List{fm} : TInt32List{0, 1};
      check(ml == xm, "absorption indexes " + vec(ml), "indexlists/igm");
      check(el == xe, "dust indexes " + vec(el), "indexlists/ism");
    }
    c.outcome(vec(ml) + vec(el), !bad);
  });
  return H.main(argc, argv);
}
