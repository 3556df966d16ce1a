// C15: the cached answers of a wavelength axis after every history of
// operations, against a fresh axis holding the same samples and against the
// definitions.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/mask.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/spectrum/spectralaxis.h>
using namespace NSEpic;
using namespace mc;
typedef CSpectrumSpectralAxis Axis;

static TFloat64List logGrid(double a, double step, int n) {
  TFloat64List r;
  for (int i = 0; i < n; i++)
    r.push_back(a * std::exp(step * i));
  return r;
}
static bool refSorted(const TFloat64List &s) {
  for (size_t i = 1; i < s.size(); i++)
    if (!(s[i] > s[i - 1]))
      return false;
  return true;
}
static int refLog(const TFloat64List &s, double *step = nullptr) { // 0, 1, or -1 when the definition does not apply
  if (s.size() < 2)
    return 0;
  if (!refSorted(s) || s[0] <= 0)
    return -1;
  double first = std::log(s[1] / s[0]), worst = 0;
  for (size_t i = 1; i < s.size(); i++)
    worst = std::max(worst, std::fabs(std::log(s[i] / s[i - 1]) / first - 1));
  if (std::fabs(worst - 0.1) < 1e-9)
    return -1;
  if (step)
    *step = std::log(s.back() / s.front()) / (s.size() - 1);
  return worst <= 0.1;
}
static bool regular(const TFloat64List &s) {
  for (size_t i = 1; i < s.size(); i++)
    if (!(std::fabs(s[i] / s[i - 1] / (s[1] / s[0]) - 1) < 1e-9))
      return false;
  return true;
}
static bool sameList(const TFloat64List &a, const TFloat64List &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!close(a[i], b[i], 1e-12, 0))
      return false;
  return true;
}
static void verify(const Axis &a, const TFloat64List &ref, const std::string &last, bool cutUnsorted = false, bool cutApprox = false, bool noLog = false) {
  check(sameList(a.GetSamplesVector(), ref), "samples are " + vec(a.GetSamplesVector()) + ", expected " + vec(ref), "samples/" + last);
  check(a.GetSamplesCount() == (int)ref.size() && a.isEmpty() == ref.empty(), "sample count", "samples/" + last);
  for (double x : ref)
    if (!std::isfinite(x))
      return;
  check(a.isSorted() == refSorted(ref), std::string("says ") + (a.isSorted() ? "sorted" : "not sorted") + " for " + vec(ref),
        cutUnsorted && !a.isSorted() ? "sorted/part extracted from an unsorted axis" : "sorted/" + last);
  for (double x : ref) // the logarithmic sampling of non positive wavelengths is not defined
    if (x <= 0 || noLog)
      return;
  double st = NAN;
  int rl = refLog(ref, &st);
  bool got = a.IsLogSampled();
  if (rl >= 0) {
    check(got == (rl == 1), std::string("says ") + (got ? "log sampled" : "not log sampled") + " for " + vec(ref), "log/" + last);
    if (rl == 1) {
      // a part of an approximately regular grid keeps the step it was validated with
      check(close(a.GetlogGridStep(), st, regular(ref) && !cutApprox ? 1e-9 : 0.1, 1e-13), "log step " + num(a.GetlogGridStep()) + " expected " + num(st), "step/" + last);
      double own = a.GetlogGridStep();
      check(a.IsLogSampled(own) && !a.IsLogSampled(own + 1e-5), "comparison with a given step", "step/" + last);
    } else {
      bool thrown = false;
      try {
        a.GetlogGridStep();
      } catch (AmzException &) {
        thrown = true;
      }
      check(thrown, "log step of an axis that is not log sampled", "step/" + last);
    }
  } else {
    Axis fresh(ref);
    check(got == fresh.IsLogSampled(), "log sampling differs from a fresh axis with the same samples " + vec(ref), "log/" + last);
    if (got)
      check(close(a.GetlogGridStep(), fresh.GetlogGridStep(), regular(ref) && !cutApprox ? 1e-9 : 0.1, 1e-12), "log step differs from a fresh axis", "step/" + last);
  }
}

static const std::vector<TFloat64List> STARTS = {
    logGrid(1000, 0.01, 5), {1000, 1010, 1025, 1040}, {1000, 1100, 1050, 1155}, {500}, {}, {1000, 1100, 1210, 1100, 1331}};

static const std::vector<std::string> OPS = {
    "*=2", "*=-1", "*=0", "/=4", "SetSize-1", "SetSize+1", "SetSize=1", "mask drop first", "mask drop last", "mask every other",
    "mask none", "extract tail", "extract head", "extract one", "offset 5", "offset 0", "shift fwd 3", "shift bwd 3", "shift of other", "write [0]", "write [last]",
    "set log grid", "set unsorted", "copy", "assign other", "move", "clear", "constructor shift"};

static void apply(int op, Axis &A, Axis &B, TFloat64List &a, const TFloat64List &b) {
  int n = a.size();
  auto keep = [&](std::function<bool(int)> f) {
    TFloat64List m, r;
    for (int i = 0; i < n; i++) {
      m.push_back(f(i) ? 1. : 0.);
      if (f(i))
        r.push_back(a[i]);
    }
    A = A.MaskAxis(m);
    a = r;
  };
  auto scale = [&](double k) {
    for (double &x : a)
      x *= k;
  };
  auto part = [&](int s, int e) {
    if (n == 0 || s > e)
      throw Skip();
    A = A.extract(s, e);
    a = TFloat64List(a.begin() + s, a.begin() + e + 1);
  };
  switch (op) {
  case 0: A *= 2; scale(2); break;
  case 1: A *= -1; scale(-1); break;
  case 2: A *= 0; scale(0); break;
  case 3: A /= 4; scale(0.25); break;
  case 4: if (!n) throw Skip(); A.SetSize(n - 1); a.resize(n - 1); break;
  case 5: if (n > 6) throw Skip(); A.SetSize(n + 1); a.resize(n + 1); break;
  case 6: A.SetSize(1); a.resize(1); break;
  case 7: keep([&](int i) { return i > 0; }); break;
  case 8: keep([&](int i) { return i < n - 1; }); break;
  case 9: keep([&](int i) { return i % 2 == 0; }); break;
  case 10: keep([&](int i) { return true; }); break;
  case 11: part(1, n - 1); break;
  case 12: part(0, n - 2); break;
  case 13: part(n / 2, n / 2); break;
  case 14: A.ApplyOffset(500); for (double &x : a) x += 500; break;
  case 15: A.ApplyOffset(0); break;
  case 16: A.ShiftByWaveLength(3, Axis::nShiftForward); scale(3); break;
  case 17: A.ShiftByWaveLength(3, Axis::nShiftBackward); scale(1. / 3); break;
  case 18: A.ShiftByWaveLength(B, 2, Axis::nShiftBackward); a = b; scale(0.5); break;
  case 19: if (!n) throw Skip(); A[0] = 1005; a[0] = 1005; break;
  case 20: if (!n) throw Skip(); A[n - 1] = 1400; a[n - 1] = 1400; break;
  case 21: A.setSamplesVector(logGrid(800, 0.02, 4)); a = logGrid(800, 0.02, 4); break;
  case 22: A.setSamplesVector({3, 2, 5}); a = {3, 2, 5}; break;
  case 23: { Axis C(A); A = C; C *= -1; C.SetSize(0); break; }
  case 24: A = B; a = b; break;
  case 25: { Axis C(std::move(A)); A = std::move(C); break; }
  case 26: A.clear(); a.clear(); break;
  case 27: { Axis C(A, 2., Axis::nShiftForward); A = std::move(C); scale(2); break; }
  }
}

int main(int argc, char **argv) {
  Harness H;
  H.add("histories", [](Ctx &c) {
    int start = c.choose(STARTS.size());
    int depth = c.thorough ? 4 : 3;
    std::vector<int> ops, q;
    int n = 1 + c.choose(depth);
    for (int i = 0; i < n; i++) {
      ops.push_back(c.choose(OPS.size()));
      q.push_back(c.choose(2));
    }
    c.mine();
    Axis A(STARTS[start]), B(STARTS[(start + 1) % STARTS.size()]);
    TFloat64List a = STARTS[start], b = STARTS[(start + 1) % STARTS.size()];
    c.desc << "start " << vec(a);
    for (int i = 0; i < n; i++)
      c.desc << (q[i] ? " ?; " : " ; ") << OPS[ops[i]];
    bool cutUnsorted = false, cutApprox = false, noLog = false;
    bool qb = c.desc.str().size() % 2;
    if (qb) {
      B.isSorted();
      B.IsLogSampled();
    }
    for (int i = 0; i < n; i++) {
      if (q[i]) {
        A.isSorted();
        A.IsLogSampled();
        for (double x : a)
          noLog = noLog || x <= 0;
      }
      if (ops[i] >= 11 && ops[i] <= 13 && !refSorted(a))
        cutUnsorted = true;
      if (ops[i] >= 11 && ops[i] <= 13 && !regular(a))
        cutApprox = true;
      apply(ops[i], A, B, a, b);
      c.step();
    }
    verify(A, a, OPS[ops.back()], cutUnsorted, cutApprox, noLog);
    if (ops.back() == 23 || ops.back() == 24 || ops.back() == 18)
      verify(B, b, "other axis");
    c.outcome(vec(a));
  });

  H.add("lookups", [](Ctx &c) {
    int n = 1 + c.choose(c.thorough ? 6 : 5);
    std::vector<double> steps = {1., 2.5};
    TFloat64List s{10.};
    for (int i = 1; i < n; i++)
      s.push_back(s.back() + c.pick(steps));
    std::vector<double> pts = {0., 9.5, 10., 10.5, 11., 12., 12.5, 13., 14.9, 15., 17.5, 20., 100.};
    double lo = c.pick(pts), hi = c.pick(pts);
    c.mine();
    Axis A(s);
    c.desc << vec(s) << " range [" << lo << "," << hi << "]";
    int ref = n - 1;
    for (int i = n - 1; i >= 0; i--)
      if (s[i] >= lo)
        ref = i;
    check(A.GetIndexAtWaveLength(lo) == ref, "index " + num(A.GetIndexAtWaveLength(lo)) + " expected " + num(ref), "index");
    double res = n < 2 ? 0. : s[std::max(1, std::min(ref, n - 1))] - s[std::max(1, std::min(ref, n - 1)) - 1];
    check(close(A.GetResolution(lo), res), "resolution " + num(A.GetResolution(lo)) + " expected " + num(res), "resolution");
    check(close(A.GetMeanResolution(), n < 2 ? 0. : (s.back() - s.front()) / (n - 1)), "mean resolution", "meanresolution");
    if (lo > hi)
      return;
    TFloat64Range r(lo, hi);
    CMask m;
    A.GetMask(r, m);
    int in = 0, om = 0;
    CMask o(n);
    for (int i = 0; i < n; i++) {
      bool e = s[i] >= lo && s[i] <= hi;
      check((m[i] != 0) == e, "mask of sample " + num(i), "mask");
      o[i] = i % 2;
      in += e;
      om += e && i % 2;
    }
    check(close(A.IntersectMaskAndComputeOverlapFraction(r, o), in ? (double)om / in : 0.), "overlap fraction", "overlap");
    TFloat64Range cl;
    bool thrown = false;
    try {
      A.ClampLambdaRange(r, cl);
    } catch (AmzException &) {
      thrown = true;
    }
    double b = std::max(lo, s.front()), e = std::min(hi, s.back());
    bool ok = n > 1 && e > b;
    check(thrown == !ok, thrown ? "usable range refused" : "range without overlap accepted", "clamp");
    if (ok)
      check(cl.GetBegin() == b && cl.GetEnd() == e, "clamped range", "clamp");
    c.outcome(num(ref) + num(in) + num(om));
  });

  H.add("subsampling", [](Ctx &c) {
    int n = 2 + c.choose(8);
    int ratio = 1 + c.choose(4);
    int b = c.choose(n), e = c.choose(n);
    bool whole = c.flip();
    double step = c.pick(std::vector<double>{0.001, 0.02});
    c.mine();
    if (b > e)
      throw Skip();
    Axis A(logGrid(500, step, n));
    c.desc << n << " samples ratio " << ratio << " indexes " << b << ".." << e;
    TFloat64List m = whole ? A.GetSubSamplingMask(ratio) : A.GetSubSamplingMask(ratio, TInt32Range(b, e));
    if (whole) {
      b = 0;
      e = n - 1;
    }
    TFloat64List m2 = A.GetSubSamplingMask(ratio, TFloat64Range(A[b], A[e]));
    check(m == m2 || whole, "mask by wavelengths differs from mask by indexes", "submask");
    for (int i = 0; i < n; i++) {
      bool ref = ratio == 1 || (i >= b && i <= e && (e - i) % ratio == 0);
      check((m[i] == 1.) == ref, "sub sampling mask " + vec(m) + " at " + num(i), "submask");
    }
    double mod = NAN;
    int r = A.GetLogSamplingIntegerRatio(step * ratio, mod);
    check(r == ratio && std::fabs(mod) < 1e-12, "integer ratio", "ratio");
    r = A.GetLogSamplingIntegerRatio(step * (ratio + 0.25), mod);
    check(r == ratio && close(mod, 0.25 * step, 1e-6, 1e-12), "integer ratio modulo", "ratio");
    c.outcome(vec(m));
  });

  H.add("precise", [](Ctx &c) {
    int n = c.pick(std::vector<int>{301, 350, 1200});
    double st = c.pick(std::vector<double>{1e-4, 3e-4, 1e-3});
    double a = c.pick(std::vector<double>{3600., 9500.37});
    double q = c.pick(std::vector<double>{0., 0.01, 0.1});
    bool ask = c.flip();
    c.mine();
    TFloat64List s = logGrid(a, st, n);
    if (q > 0)
      for (double &x : s)
        x = std::round(x / q) * q;
    c.desc << n << " samples from " << a << " step " << st << " rounded to " << q;
    Axis A(s);
    if (!refSorted(s) || refLog(s) != 1)
      throw Skip();
    if (ask)
      A.isSorted();
    A.RecomputePreciseLoglambda();
    check(A.GetSamplesCount() == n, "sample count changed to " + num(A.GetSamplesCount()), "precise/size");
    TFloat64List r = A.GetSamplesVector();
    double e = std::log(r.back() / r.front()) / (n - 1);
    for (int i = 0; i < n; i++) {
      check(std::fabs(r[i] - s[i]) <= 1.01 * q + 1e-6, "sample " + num(i) + " moved from " + num(s[i]) + " to " + num(r[i]), "precise/moved");
      if (i)
        check(close(std::log(r[i] / r[i - 1]), e, 1e-6, 0), "not regular", "precise/regular");
    }
    check(A.isSorted() && A.IsLogSampled() && close(A.GetlogGridStep(), e, 1e-7, 0), "flags after recomputation", "precise/flags");
    c.outcome(num(n) + num(q));
  });
  return H.main(argc, argv);
}
