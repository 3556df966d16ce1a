// C21: validation and automatic correction of input spectra.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/spectrum.h>
#include <cfloat>
#include <cstring>
using namespace NSEpic;
using namespace mc;

struct Sam { double f, e; };
static const std::vector<Sam> ALPHA = {
    {2., 0.5}, {NAN, 0.5}, {0., 0.5}, {-3., 0.25}, {INFINITY, 0.5}, {-INFINITY, 0.5}, {2., 0.}, {2., -1.},
    {2., NAN}, {2., INFINITY}, {2., 1e-170}, {2., 1e-310}, {NAN, NAN}, {0., 0.}, {1e-200, 1e100}};
static bool okF(double f) { return std::isfinite(f); }
static bool okE(double e) { return std::isfinite(e) && e > 0 && std::isfinite(1 / (e * e)) && e >= DBL_MIN; }
static bool bitsame(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

struct Res { bool thrown; int code; };
template <class F> static Res tryit(F f) {
  try {
    f();
  } catch (AmzException &e) {
    return {true, (int)e.getErrorCode()};
  }
  return {false, 0};
}

static void body(Ctx &c, bool viaSpectrum) {
  int n = c.thorough ? 4 + (viaSpectrum ? 0 : 0) : 3 + c.choose(2);
  std::vector<Sam> A = ALPHA;
  if (n == 4 && !c.thorough)
    A = {ALPHA[0], ALPHA[1], ALPHA[2], ALPHA[3], ALPHA[6], ALPHA[8], ALPHA[10]};
  TFloat64List w, f, e;
  for (int i = 0; i < n; i++)
    w.push_back(1000 + 10. * i);
  for (int i = 0; i < n; i++) {
    auto s = c.pick(A);
    f.push_back(s.f);
    e.push_back(s.e);
  }
  // range ends: below, on every node, between nodes, above
  std::vector<double> pts = {900., 1000., 1005., 1010., 1020., 1025., 1000. + 10 * (n - 1), 1100.};
  double lo = c.pick(pts), hi = c.pick(pts);
  bool corr = c.flip();
  double coeff = viaSpectrum ? 10. : c.pick(std::vector<double>{10., 3.});
  c.mine();
  if (lo >= hi)
    throw Skip();
  c.desc << "flux=" << vec(f) << " error=" << vec(e) << " range [" << lo << "," << hi << "] correct=" << corr << " coeff=" << coeff;
  std::vector<int> in;
  for (int i = 0; i < n; i++)
    if (w[i] >= lo && w[i] <= hi)
      in.push_back(i);
  double cl = std::max(lo, w.front()), ch = std::min(hi, w.back());
  CSpectrum s{CSpectrumSpectralAxis(w), CSpectrumFluxAxis(CSpectrumAxis(f), CSpectrumNoiseAxis(e))};
  int badF = 0, badE = 0, bad = 0, nz = 0;
  double maxE = 0, minF = DBL_MAX;
  for (int i : in) {
    badF += !okF(f[i]);
    badE += !okE(e[i]);
    bad += !okF(f[i]) || !okE(e[i]);
    nz += f[i] != 0;
    if (okF(f[i]) && okE(e[i])) {
      maxE = std::max(maxE, e[i]);
      minF = std::min(minF, std::fabs(f[i]));
    }
  }
  bool usable = cl < ch && !in.empty();
  auto checkOthers = [&](bool corrected) {
    for (int i = 0; i < n; i++) {
      double gf = s.GetFluxAxis()[i], ge = s.GetErrorAxis()[i];
      bool isin = std::count(in.begin(), in.end(), i), b = !okF(f[i]) || !okE(e[i]);
      if (!(corrected && isin && b))
        check(bitsame(gf, f[i]) && bitsame(ge, e[i]), "sample " + num(i) + " changed although it is " + (isin ? "valid" : "out of the range"), "correct/untouched");
      else {
        check(okF(gf) && okE(ge), "sample " + num(i) + " is still invalid after correction", "correct/valid");
        check(std::fabs(gf) <= minF && ge > maxE, "corrected sample " + num(i) + " has flux " + num(gf) + " error " + num(ge) + ": not harmless", "correct/harmless");
      }
      check(s.GetSpectralAxis()[i] == w[i], "wavelength changed", "correct/wavelength");
    }
  };
  if (viaSpectrum) {
    Res r = tryit([&] { s.ValidateSpectrum(TFloat64Range(lo, hi), corr); });
    if (!usable) {
      check(r.thrown, "range without samples accepted", "validate/range");
      c.outcome("range");
      return;
    }
    bool fixable = corr && bad > 0 && bad < (int)in.size();
    bool expFlux, expNoise;
    if (corr && bad == (int)in.size()) {
      check(r.thrown && r.code == (int)ErrorCode::SPECTRUM_CORRECTION_ERROR, "no valid sample to correct from, result code " + num(r.code), "validate/correct-error");
      c.outcome("uncorrectable");
      return;
    }
    if (fixable) { // corrected samples have minF/coeff flux
      expFlux = minF == 0 && [&] { for (int i : in) if (okF(f[i]) && okE(e[i]) && f[i] != 0) return false; return true; }();
      expNoise = false;
    } else {
      expFlux = badF > 0 || nz == 0;
      expNoise = badE > 0;
    }
    if (expFlux)
      check(r.thrown && r.code == (int)ErrorCode::INVALID_SPECTRUM_FLUX, r.thrown ? "invalid flux reported with code " + num(r.code) : "spectrum with invalid or null flux accepted", "validate/flux");
    else if (expNoise)
      check(r.thrown && r.code == (int)ErrorCode::INVALID_NOISE, r.thrown ? "invalid noise reported with code " + num(r.code) : "spectrum with invalid error accepted", "validate/noise");
    else
      check(!r.thrown, "valid spectrum refused with code " + num(r.code), "validate/accept");
    checkOthers(fixable);
    c.outcome(num(r.code) + num(bad) + num(in.size()));
  } else {
    // the three steps, called on the clamped range as the library does
    if (!usable)
      throw Skip();
    Res rf = tryit([&] { s.ValidateFlux(cl, ch); });
    check(rf.thrown == (badF > 0 || nz == 0), "flux validation " + std::string(rf.thrown ? "refuses a valid flux" : "accepts an invalid flux"), "steps/flux");
    Res rn = tryit([&] { s.ValidateNoise(cl, ch); });
    check(rn.thrown == (badE > 0), "noise validation " + std::string(rn.thrown ? "refuses a valid error" : "accepts an invalid error"), "steps/noise");
    if (corr) {
      bool changed = false;
      Res rc = tryit([&] { changed = s.correctSpectrum(cl, ch, coeff); });
      check(rc.thrown == (bad == (int)in.size()), "correction " + std::string(rc.thrown ? "refused" : "accepted without a valid sample"), "steps/correct");
      if (!rc.thrown) {
        check(changed == (bad > 0), "correction reports " + num(changed) + " for " + num(bad) + " invalid samples", "steps/report");
        checkOthers(changed);
        Res r2 = tryit([&] { s.ValidateNoise(cl, ch); });
        check(!r2.thrown, "corrected noise does not validate", "steps/again");
        check(!tryit([&] { check(!s.correctSpectrum(cl, ch, coeff), "second correction changes something", "steps/idempotent"); }).thrown, "second correction fails", "steps/idempotent");
      } else
        checkOthers(false);
    } else
      checkOthers(false);
    c.outcome(num(rf.code) + num(rn.code) + num(bad));
  }
}

int main(int argc, char **argv) {
  Harness H;
  H.add("validate", [](Ctx &c) { body(c, true); });
  H.add("steps", [](Ctx &c) { body(c, false); });
  // malformed spectra and LSF coverage
  H.add("shape", [](Ctx &c) {
    int kind = c.choose(5);
    int lsfk = c.choose(3);
    double hi = c.pick(std::vector<double>{1015., 1020., 1040., 2000.});
    double lo = c.pick(std::vector<double>{500., 1000., 1005.});
    c.mine();
    TFloat64List w = {1000, 1010, 1020, 1030, 1040};
    CSpectrum s{CSpectrumSpectralAxis(w), CSpectrumFluxAxis(CSpectrumAxis(TFloat64List{1, 2, 3, 4, 5}), CSpectrumNoiseAxis(TFloat64List(5, 1.)))};
    c.desc << "kind " << kind << " lsf " << lsfk << " range [" << lo << "," << hi << "]";
    bool bad = false;
    if (kind == 1) {
      CSpectrumSpectralAxis a(TFloat64List{1000, 1010, 1005, 1030, 1040});
      s.SetSpectralAxis(a);
      bad = true;
    } else if (kind == 2) {
      s.SetSpectralAxis(CSpectrumSpectralAxis(TFloat64List{1000, 1010, 1010, 1030, 1040}));
      bad = true;
    } else if (kind == 3) {
      s = CSpectrum("empty");
      bad = true;
    } else if (kind == 4) {
      bool t = tryit([&] { s.SetSpectralAxis(CSpectrumSpectralAxis(TFloat64List{1000, 1010})); }).thrown &&
               tryit([&] { s.SetFluxAxis(CSpectrumFluxAxis(TFloat64List{1, 2})); }).thrown &&
               tryit([&] { s.SetSpectralAndFluxAxes(CSpectrumSpectralAxis(TFloat64List{1, 2}), CSpectrumFluxAxis(TFloat64List{1, 2, 3})); }).thrown &&
               tryit([&] { CSpectrum x(CSpectrumSpectralAxis(TFloat64List{1, 2}), CSpectrumFluxAxis(TFloat64List{1, 2, 3})); }).thrown &&
               tryit([&] { CSpectrum x(CSpectrumSpectralAxis(TFloat64List{2, 1}), CSpectrumFluxAxis(TFloat64List{1, 2})); }).thrown;
      check(t, "axes of different sizes or unsorted axis accepted", "shape/setters");
    }
    bool lsfbad = false;
    double b = std::max(lo, 1000.), e = std::min(hi, 1040.);
    if (lsfk) {
      TFloat64List lw = lsfk == 1 ? TFloat64List{990, 1045} : TFloat64List{1004, 1025};
      auto args = std::make_shared<TLSFGaussianVarWidthArgs>(lw, TFloat64List{1., 2.});
      s.SetLSF(LSFFactory.Create("gaussianVariableWidth", args));
      lsfbad = b < lw.front() || e > lw.back();
    }
    Res r = tryit([&] { s.ValidateSpectrum(TFloat64Range(lo, hi), false); });
    check(r.thrown == (bad || lsfbad), r.thrown ? "valid spectrum refused" : "malformed spectrum accepted", "shape/" + num(kind));
    if (bad)
      check(r.code == (int)ErrorCode::INVALID_SPECTRUM, "error code", "shape/code");
    else if (lsfbad)
      check(r.code == (int)ErrorCode::INVALID_LSF, "error code " + num(r.code), "shape/lsf");
    c.outcome(num(r.code));
  });
  return H.main(argc, argv);
}
