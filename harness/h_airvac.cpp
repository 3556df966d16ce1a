// C23: conversion of wavelengths between air and vacuum.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/flag.h>
#include <RedshiftLibrary/line/airvacuum.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/spectralaxis.h>
using namespace NSEpic;
using namespace mc;

struct Conv {
  std::string name;
  long double a, b1, b2, c1, c2;
  double lo, hi;
  double back; // tolerance (relative) of the way back
};
static const std::vector<Conv> CONV = {
    {"edlen1953", 6.4328E-5L, 2.94981E-2L, 2.5540E-4L, 146.0L, 41.0L, 2000, INFINITY, 1e-12},
    {"edlen1966", 8.34213E-5L, 2.406030E-2L, 1.5997E-4L, 130.0L, 38.9L, 2000, INFINITY, 1e-12},
    {"peckreeder1972", 0, 5.791817E-2L, 1.67909E-3L, 238.0185L, 57.362L, 3000, 19000, 1e-12},
    {"ciddor1996", 0, 5.792105E-2L, 1.67917E-3L, 238.0185L, 57.362L, 3000, 19000, 1e-12},
    {"morton2000", 8.34254e-5L, 2.406147e-2L, 1.5998e-4L, 130.0L, 38.9L, 3000, 19000, 2e-9}, // approximate inverse
};
static long double refr(const Conv &k, long double w) {
  long double s = 1e8L / (w * w);
  return 1 + k.a + k.b1 / (k.c1 - s) + k.b2 / (k.c2 - s);
}
static double toAir(const Conv &k, double w) { return double(w / refr(k, w)); }
static double toVac(const Conv &k, double air) {
  long double v = air;
  for (int i = 0; i < 60; i++)
    v = air * refr(k, v);
  return double(v);
}
static TFloat64List alphabet(const Conv &k, bool thorough) {
  double hi = std::isinf(k.hi) ? 50000. : k.hi;
  TFloat64List l = {std::nextafter(k.lo, 0), k.lo, std::nextafter(k.lo, 1e9), k.lo + 0.7, 3727.1, 5006.843, 6562.8, 10830., hi - 3, hi - 1e-6, hi};
  if (!std::isinf(k.hi)) {
    l.push_back(std::nextafter(hi, 1e9));
    l.push_back(hi + 4);
  } else
    l.push_back(1e6);
  l.push_back(0);
  l.push_back(-5000);
  if (thorough)
    for (double x : {1215.67, k.lo - 1, k.lo + 1e-6, 4100., 8000., 15000.5, hi - 5.2})
      l.push_back(x);
  return l;
}
static void one(Ctx &c, const Conv &k, const TFloat64List &w) {
  auto conv = CAirVacuumConverter::Get(k.name);
  bool in = !w.empty();
  for (double x : w)
    in = in && x >= k.lo && x <= k.hi;
  c.desc << " " << k.name << " " << vec(w);
  const std::string S = k.name;
  for (int air2vac = 0; air2vac < 2; air2vac++) {
    TFloat64List r;
    bool ok = true;
    std::string what;
    Flag.resetFlag();
    try {
      r = air2vac ? conv->AirToVac(w) : conv->VacToAir(w);
    } catch (const AmzException &e) {
      ok = false;
      what = e.what();
    }
    c.step();
    const char *op = air2vac ? "air to vacuum" : "vacuum to air";
    if (!in) {
      check(!ok, std::string(op) + ": " + (w.empty() ? "an empty list" : "a wavelength outside the validity range") + " is not refused", "accepted/" + S);
      continue;
    }
    check(ok, std::string(op) + " refuses wavelengths of the validity range: " + what, "refused/" + S + (air2vac ? "/back" : ""));
    check(!Flag.getBitMask(), std::string(op) + ": a warning for wavelengths of the validity range: " + num(Flag.getBitMask()), "warning/" + S);
    check(r.size() == w.size(), std::string(op) + ": number of wavelengths changed", "size/" + S);
    for (size_t i = 0; i < w.size(); i++) {
      double ref = air2vac ? toVac(k, w[i]) : toAir(k, w[i]);
      check(close(r[i], ref, air2vac ? k.back : 1e-14, 0), std::string(op) + " of " + num(w[i]) + " gives " + num(r[i]) + " instead of " + num(ref),
            std::string(air2vac ? "back/" : "forth/") + S);
      check(air2vac ? r[i] > w[i] : r[i] < w[i], "vacuum wavelength not above the air wavelength", "above/" + S);
      for (size_t j = 0; j < w.size(); j++)
        if (w[j] - w[i] > 1e-6)
          check(r[i] < r[j], "order of " + num(w[i]) + " and " + num(w[j]) + " not preserved", "order/" + S);
      // alone
      TFloat64List alone = air2vac ? conv->AirToVac({w[i]}) : conv->VacToAir({w[i]});
      check(close(alone[0], r[i], air2vac ? 1e-12 : 0, 0), "the conversion of " + num(w[i]) + " depends on the other wavelengths: " + num(r[i]) + ", alone " + num(alone[0]),
            "alone/" + S);
    }
    // round trip
    bool back = true;
    for (double x : r)
      back = back && x >= k.lo && x <= k.hi;
    if (back) {
      TFloat64List rt = air2vac ? conv->VacToAir(r) : conv->AirToVac(r);
      for (size_t i = 0; i < w.size(); i++)
        check(close(rt[i], w[i], k.back, 0), std::string(op) + " and back turns " + num(w[i]) + " into " + num(rt[i]), "roundtrip/" + S);
    }
    c.outcome(S + (air2vac ? "v" : "a") + vec(r));
  }
}
// any list
static void lists(Ctx &c, int n) {
  const Conv &k = c.pick(CONV);
  TFloat64List al = alphabet(k, false), w;
  int len = c.choose(n + 1);
  for (int i = 0; i < len; i++)
    w.push_back(c.pick(al));
  one(c, k, w);
}
static void wide(Ctx &c, int n) {
  const Conv &k = c.pick(CONV);
  TFloat64List al = alphabet(k, true), w;
  int len = 1 + c.choose(n);
  for (int i = 0; i < len; i++)
    w.push_back(c.pick(al));
  one(c, k, w);
}
// dense scan of the validity range: every wavelength alone
static void scan(Ctx &c, int n) {
  const Conv &k = c.pick(CONV);
  double hi = std::isinf(k.hi) ? 30000. : k.hi;
  int i = c.choose(n + 1);
  double w = std::exp(std::log(k.lo) + (std::log(hi) - std::log(k.lo)) * i / n);
  one(c, k, {std::min(std::max(w, k.lo), hi)});
}
// through the wavelength axis, all ways of building it; and conversion names
static void axis(Ctx &c) {
  static const std::vector<std::string> NAMES = {"edlen1953", "edlen1966", "PeckReeder1972", "peckreeder1972", "ciddor1996", "morton2000", "", "default", "Edlen1953", "ciddor", "vacuum"};
  std::string name = c.pick(NAMES);
  TFloat64List w;
  for (int i = 0; i < 3; i++)
    w.push_back(4000 + 1500. * i + 7.3 * c.choose(3));
  int way = c.choose(3);
  c.desc << " '" << name << "' " << vec(w) << " way " << way;
  const Conv *k = nullptr;
  for (auto &x : CONV)
    if (x.name == (name == "PeckReeder1972" ? "peckreeder1972" : name)) // former spelling
      k = &x;
  TFloat64List got;
  bool ok = true;
  try {
    if (way == 0)
      got = CSpectrumSpectralAxis(w, name).GetSamplesVector();
    else if (way == 1) {
      TFloat64List tmp = w;
      got = CSpectrumSpectralAxis(std::move(tmp), name).GetSamplesVector();
    } else
      got = CSpectrumSpectralAxis(w.data(), (Int32)w.size(), name).GetSamplesVector();
  } catch (const AmzException &e) {
    ok = false;
  }
  c.step();
  check(ok == (k != nullptr || name.empty()), ok ? "unknown conversion accepted" : "known conversion refused", "name");
  if (!ok)
    return;
  check(got.size() == w.size(), "axis size", "axis");
  for (size_t i = 0; i < w.size(); i++) {
    double ref = k ? toVac(*k, w[i]) : w[i];
    check(close(got[i], ref, k ? k->back : 0, 0), "axis wavelength " + num(got[i]) + " instead of " + num(ref), "axis");
  }
  c.outcome(name + vec(got));
}
int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  Harness H;
  H.add("lists", [](Ctx &c) { lists(c, c.thorough ? 4 : 3); });
  H.add("wide", [](Ctx &c) { wide(c, c.thorough ? 3 : 2); });
  H.add("scan", [](Ctx &c) { scan(c, c.thorough ? 200000 : 4000); });
  H.add("axis", [](Ctx &c) { axis(c); });
  return H.main(argc, argv);
}
