// C09: index lookup, interval selection, range algebra and masks against
// direct definitions, for every small ordered list and every range on a
// half-integer lattice.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/indexing.h>
#include <RedshiftLibrary/common/mask.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/common/vectorOperations.h>
using namespace NSEpic;
using namespace mc;

static TFloat64List subset(Ctx &c, int n) {
  int m = 1 + c.choose((1 << n) - 1);
  TFloat64List v;
  for (int i = 0; i < n; i++)
    if (m >> i & 1)
      v.push_back(i);
  return v;
}
// the same lattice with ordinary, nearly equal and huge steps (exact in binary)
static void rescale(Ctx &c, TFloat64List &v, std::vector<double *> x) {
  int k = c.choose(3);
  if (!k)
    return;
  auto f = [k](double &y) { y = k == 1 ? 2 + std::ldexp(y, -40) : std::ldexp(y, 40); };
  for (auto &y : v)
    f(y);
  for (auto y : x)
    f(*y);
}
static double lat(Ctx &c, int n) { return -0.5 + 0.5 * c.choose(2 * n + 1); }

int main(int argc, char **argv) {
  Harness H;
  H.add("index", [](Ctx &c) {
    int n = c.thorough ? 8 : 6;
    TFloat64List v = subset(c, n);
    double x = lat(c, n);
    rescale(c, v, {&x});
    c.mine();
    c.desc << "ordered=" << vec(v) << " value=" << x;
    Int32 lo = -7, up = -7;
    bool okl = TFloat64Index::getClosestLowerIndex(v, x, lo);
    bool oku = TFloat64Index::getClosestUpperIndex(v, x, up);
    int rl = -1, ru = -1;
    for (int i = 0; i < (int)v.size(); i++) {
      if (v[i] <= x)
        rl = i;
      if (v[i] >= x && ru < 0)
        ru = i;
    }
    c.step(3);
    check(okl == (rl >= 0), "getClosestLowerIndex found flag wrong", "lower");
    check(oku == (ru >= 0), "getClosestUpperIndex found flag wrong", "upper");
    if (okl)
      check(lo == rl, "lower index " + num(lo) + " expected " + num(rl), "lower");
    if (oku)
      check(up == ru, "upper index " + num(up) + " expected " + num(ru), "upper");
    Int32 k = TFloat64Index::getCloserIndex(v, x);
    check(k >= 0 && k < (int)v.size(), "closest index out of range", "closer");
    for (double y : v)
      check(std::fabs(v[k] - x) <= std::fabs(y - x),
            "closest index " + num(k) + " is not closest", "closer");
    bool there = std::find(v.begin(), v.end(), x) != v.end();
    try {
      Int32 j = TFloat64Index::getIndex(v, x);
      check(there && v[j] == x, "getIndex returned a wrong index", "getIndex");
    } catch (AmzException &) {
      check(!there, "getIndex did not find a present value", "getIndex");
    }
    c.outcome(num(rl) + "/" + num(ru) + "/" + num(k));
  });

  H.add("intervals", [](Ctx &c) {
    int n = c.thorough ? 7 : 6;
    TFloat64List v = subset(c, n);
    double b = lat(c, n), e = lat(c, n), x = lat(c, n);
    if (e < b)
      throw Skip();
    rescale(c, v, {&b, &e, &x});
    c.mine();
    TFloat64Range r(b, e);
    c.desc << "ordered=" << vec(v) << " range=[" << b << "," << e << "] value=" << x;
    // closed: first index >= b, last index <= e
    int cl = -1, ch = -1;
    for (int i = 0; i < (int)v.size(); i++)
      if (v[i] >= b && v[i] <= e) {
        if (cl < 0)
          cl = i;
        ch = i;
      }
    Int32 i0 = -9, i1 = -9;
    c.step(3);
    try {
      r.getClosedIntervalIndices(v, i0, i1);
      check(cl >= 0, "closed interval accepted without any sample inside", "closed");
      check(i0 == cl && i1 == ch, "closed interval [" + num(i0) + "," + num(i1) +
            "] expected [" + num(cl) + "," + num(ch) + "]", "closed");
      c.outcome("c" + num(i0) + "," + num(i1));
    } catch (AmzException &) {
      check(cl < 0, "closed interval refused although samples lie inside", "closed");
      c.outcome("cX");
    }
    // enclosing: last index <= b, first index >= e
    int el = -1, eh = -1;
    for (int i = 0; i < (int)v.size(); i++) {
      if (v[i] <= b)
        el = i;
      if (v[i] >= e && eh < 0)
        eh = i;
    }
    bool ok = el >= 0 && eh >= 0;
    try {
      i0 = i1 = -9;
      r.getEnclosingIntervalIndices(v, i0, i1);
      check(ok, "enclosing interval accepted although the range sticks out", "enclosing");
      check(i0 == el && i1 == eh, "enclosing interval [" + num(i0) + "," + num(i1) +
            "] expected [" + num(el) + "," + num(eh) + "]", "enclosing");
      c.outcome("e" + num(i0) + "," + num(i1));
    } catch (AmzException &) {
      check(!ok, "enclosing interval refused although it exists", "enclosing");
    }
    try {
      i0 = i1 = -9;
      r.getEnclosingIntervalIndices(v, x, i0, i1);
      check(ok && x >= b && x <= e, "enclosing interval (with value) wrongly accepted", "enclosingv");
      check(i0 == el && i1 == eh, "enclosing interval (with value) [" + num(i0) + "," + num(i1) +
            "] expected [" + num(el) + "," + num(eh) + "]", "enclosingv");
    } catch (AmzException &) {
      check(!(ok && x >= b && x <= e), "enclosing interval (with value) refused", "enclosingv");
    }
  });

  H.add("algebra", [](Ctx &c) {
    double a0 = c.choose(6), a1 = c.choose(6), b0 = c.choose(6), b1 = c.choose(6);
    if (a1 < a0 || b1 < b0)
      throw Skip();
    c.mine();
    TFloat64Range A(a0, a1), B(b0, b1), I(-1, -2), U(-1, -2);
    c.desc << A << " " << B;
    bool meet = std::max(a0, b0) <= std::min(a1, b1);
    c.step(4);
    check(TFloat64Range::HasIntersection(A, B) == meet, "HasIntersection wrong", "meet");
    check(TFloat64Range::Intersect(A, B, I) == meet, "Intersect flag wrong", "meet");
    check(TFloat64Range::getUnion(A, B, U) == meet, "getUnion flag wrong", "union");
    if (meet) {
      check(I.GetBegin() == std::max(a0, b0) && I.GetEnd() == std::min(a1, b1), "Intersect wrong", "meet");
      check(U.GetBegin() == std::min(a0, b0) && U.GetEnd() == std::max(a1, b1), "getUnion wrong", "union");
    } else
      check(I.GetBegin() == -1 && U.GetBegin() == -1, "failed intersection changed its output", "meet");
    TFloat64Range A2 = A;
    check(A2.IntersectWith(B) == meet && (A2 == (meet ? I : A)), "IntersectWith wrong", "meet");
    A2 = A;
    check(A2.unionWith(B) == meet && (A2 == (meet ? U : A)), "unionWith wrong", "union");
    check((A == B) == (a0 == b0 && a1 == b1) && (A != B) == !(A == B), "equality wrong", "eq");
    check((A < B) == (a0 < b0 || (a0 == b0 && a1 < b1)), "order wrong", "order");
    for (double t : {2., 0.25, 3.})
      check((A + t) == TFloat64Range(a0 + t, a1 + t) && (A - t) == TFloat64Range(a0 - t, a1 - t) && (A * t) == TFloat64Range(a0 * t, a1 * t) &&
                (A / t) == TFloat64Range(a0 / t, a1 / t) && A.Interpolate(t) == a0 + (a1 - a0) * t,
            "shifted or scaled range wrong", "scale");
    check((A + B) == TFloat64Range(a0 + b0, a1 + b1), "sum of ranges wrong", "scale");
    check(A.GetIsEmpty() == (a0 == a1) && A.GetLength() == a1 - a0, "length/empty wrong", "len");
    for (double v = -1; v <= 6; v += 0.5) {
      double w = A.Clamp(v);
      check(w == std::min(std::max(v, a0), a1), "Clamp wrong", "clamp");
    }
    c.outcome(meet ? num(I.GetBegin()) + num(U.GetEnd()) : "disjoint");
  });

  H.add("join", [](Ctx &c) {
    int n = 1 + c.choose(c.thorough ? 4 : 3), L = 6;
    std::vector<TFloat64Range> rs;
    for (int i = 0; i < n; i++) {
      int k = c.choose(L * (L + 1) / 2); // b<=e pairs
      int b = 0;
      while (k >= L - b) {
        k -= L - b;
        b++;
      }
      rs.push_back(TFloat64Range(b, b + k));
    }
    c.mine();
    for (auto &r : rs)
      c.desc << r;
    auto out = TFloat64Range::joinIntersections(rs);
    c.step();
    auto in = [](std::vector<TFloat64Range> const &v, double x) {
      for (auto &r : v)
        if (r.GetBegin() <= x && x <= r.GetEnd())
          return true;
      return false;
    };
    for (double x = -0.25; x < L; x += 0.25)
      check(in(rs, x) == in(out, x), "joined ranges cover a different set at " + num(x), "join");
    for (size_t i = 1; i < out.size(); i++)
      check(out[i - 1].GetEnd() < out[i].GetBegin(), "joined ranges are not disjoint and ordered", "join");
    c.outcome(num(out.size()) + num(out[0].GetBegin()) + num(out.back().GetEnd()));
  });

  H.add("mask", [](Ctx &c) {
    int n = c.choose(c.thorough ? 8 : 6), m = c.choose(2) ? n : n + 1;
    int a = c.choose(1 << n), b = c.choose(1 << m);
    c.mine();
    CMask A(n), B(m);
    int na = 0, nboth = 0, nb = 0;
    for (int i = 0; i < n; i++)
      A[i] = a >> i & 1, na += a >> i & 1;
    for (int i = 0; i < m; i++)
      B[i] = b >> i & 1, nb += b >> i & 1;
    for (int i = 0; i < std::min(n, m); i++)
      nboth += (a & b) >> i & 1;
    c.desc << "mask " << a << " & " << b << " sizes " << n << "," << m;
    c.step(5);
    check(A.GetUnMaskedSampleCount() == na && A.GetMaskedSampleCount() == n - na, "sample counts wrong", "count");
    double f = A.IntersectAndComputeOverlapFraction(B);
    double ref = n != m ? -1.0 : na == 0 ? 0.0 : double(nboth) / na;
    check(f == ref, "overlap fraction " + num(f) + " expected " + num(ref), "overlap");
    double g = A.CompouteOverlapFraction(B);
    double ref2 = n != m ? -1.0 : na == 0 ? 0.0 : double(nb) / na;
    check(g == ref2, "rate fraction " + num(g) + " expected " + num(ref2), "overlap2");
    CMask C = A, D = A;
    bool ok = C.IntersectWith(B);
    D &= B;
    check(ok == (n == m), "IntersectWith flag wrong", "and");
    for (int i = 0; i < n; i++) {
      int e = n == m ? ((a & b) >> i & 1) : (a >> i & 1);
      check(C[i] == e && D[i] == e, "mask intersection wrong", "and");
      check(A[i] == (a >> i & 1), "operand changed", "and");
    }
    c.outcome(num(f));
  });

  H.add("insertdup", [](Ctx &c) {
    int n = 1 + c.choose(5), pos = c.choose(n), cnt = 1 + c.choose(4);
    int maxdup = std::min(cnt, n - pos);
    int nd = c.choose(maxdup + 1), mode = c.choose(2);
    c.mine();
    c.desc << "size " << n << " pos " << pos << " count " << cnt << " dup " << nd << " mode " << mode;
    TFloat64List d, src;
    for (int i = 0; i < n; i++)
      d.push_back(i);
    for (int i = 0; i < cnt; i++)
      src.push_back(mode ? -1 : 100 + i);
    TFloat64List ref(d.begin(), d.begin() + pos);
    ref.insert(ref.end(), src.begin(), src.end());
    ref.insert(ref.end(), d.begin() + pos + nd, d.end());
    if (mode)
      insertWithDuplicates<Float64>(d, pos, std::size_t(cnt), -1.0, nd);
    else
      insertWithDuplicates<Float64>(d, pos, src, nd);
    c.step();
    check(d == ref, "insertWithDuplicates gave " + vec(d) + " expected " + vec(ref), "insertdup");
    c.outcome(vec(d));
  });
  return H.main(argc, argv);
}
