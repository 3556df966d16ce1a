// C12: peak search.  Every signal over a small value alphabet is searched and
// compared with a definition of "peak" by maximal equal-value runs; selection
// (merit cut, separation, truncation) is checked by its defining conditions.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/flag.h>
#include <RedshiftLibrary/extremum/extremum.h>
using namespace NSEpic;
using namespace mc;

struct Run {
  int s, e;
};
// maximal runs strictly above both neighbours (a missing neighbour counts as
// lower when border peaks are allowed, as higher otherwise)
static std::vector<Run> runs(const TFloat64List &y, int b, int e, bool border) {
  std::vector<Run> r;
  for (int i = b; i <= e;) {
    int j = i;
    while (j + 1 <= e && y[j + 1] == y[i])
      j++;
    bool left = i == b ? border : y[i - 1] < y[i];
    bool right = j == e ? border : y[j + 1] < y[i];
    if (left && right)
      r.push_back({i, j});
    i = j + 1;
  }
  return r;
}

static void oracle(Ctx &c, const TFloat64List &x, const TFloat64List &y, bool invert,
                   bool border, double sep, double cut, int maxn, TFloat64Range xr, bool firstpass) {
  int n = x.size();
  TFloat64List s = y;
  for (auto &v : s)
    v *= invert ? -1 : 1;
  int b = 0, e = n - 1;
  bool rangeOk = true;
  if (!xr.GetIsEmpty()) {
    while (b < n && x[b] < xr.GetBegin())
      b++;
    while (e >= 0 && x[e] > xr.GetEnd())
      e--;
    rangeOk = b <= e;
  }
  while (b < e && std::isnan(s[b]))
    b++;
  while (b < e && std::isnan(s[e]))
    e--;
  CExtremum ex(maxn, sep, cut, invert, border, xr);
  Flag.resetFlag();
  TPointList got;
  bool threw = false;
  try {
    got = ex.Find(x, y, firstpass);
  } catch (AmzException &ee) {
    threw = true;
    if (ee.getMessage().find("enough separated") != std::string::npos)
      throw Violation("peak selection contradicts its own separation check", "separation-throw");
  }
  c.step();
  if (!rangeOk || e - b < 2) {
    check(threw, "search accepted fewer than 3 usable samples", "toofew");
    c.outcome("toofew", false);
    return;
  }
  auto rs = runs(s, b, e, border);
  bool flat = true;
  for (int i = b; i < e; i++)
    flat = flat && s[i] == s[i + 1];
  if (flat)
    return; // an entirely flat signal is rejected elsewhere: no statement
  bool warned = Flag.getBitMask() != 0;
  if (rs.empty()) {
    check(threw == firstpass && got.empty(), "no peak exists: first pass must fail, second pass return none", "nopeak");
    if (!firstpass)
      check(warned, "missing peak not signalled", "nopeak");
    c.outcome("none");
    return;
  }
  check(!threw, "peak search failed although peaks exist", "unexpected-throw");
  // what each returned point is
  std::vector<int> which;
  for (auto &p : got) {
    int k = -1;
    for (int i = b; i <= e; i++)
      if (x[i] == p.X)
        k = i;
    check(k >= 0 && y[k] == p.Y, "returned point (" + num(p.X) + "," + num(p.Y) + ") is not a sample of the signal", "notsample");
    int w = -1;
    for (int j = 0; j < (int)rs.size(); j++)
      if (rs[j].s <= k && k <= rs[j].e)
        w = j;
    check(w >= 0, "returned point at x=" + num(p.X) + " is not a local maximum", "notpeak");
    check(std::abs(2 * k - (rs[w].s + rs[w].e)) <= 1, "plateau peak at x=" + num(p.X) + " is not in the middle of the plateau", "plateau");
    for (int o : which)
      check(o != w, "the same peak is returned twice", "twice");
    which.push_back(w);
  }
  auto Y = [&](int w) { return s[rs[w].s]; };
  auto X = [&](int w) -> double {
    for (size_t i = 0; i < got.size(); i++)
      if (which[i] == w)
        return got[i].X;
    return x[(rs[w].s + rs[w].e) / 2];
  };
  double best = -INFINITY;
  for (int w = 0; w < (int)rs.size(); w++)
    best = std::max(best, Y(w));
  check(!got.empty(), "peaks exist but none is returned", "lost");
  check((int)got.size() <= std::max(maxn, 1), "more peaks than the maximum count", "count");
  check(Y(which[0]) == best, "the best peak is not the first one", "best");
  for (size_t i = 1; i < which.size(); i++)
    check(Y(which[i]) <= Y(which[i - 1]), "peaks are not in decreasing order", "order");
  bool cutOn = cut > 0;
  for (int w : which)
    if (cutOn)
      check(best - Y(w) <= cut, "a returned peak is below the merit cut", "cut");
  auto hi = [&](double v) { return v + (1 + v) * sep / (1 - sep / 2); };
  auto lo = [&](double v) { return v - (1 + v) * sep / (1 + sep / 2); };
  if (sep > 0)
    for (size_t i = 0; i < which.size(); i++)
      for (size_t j = 0; j < i; j++) {
        double a = std::min(X(which[i]), X(which[j])), d = std::max(X(which[i]), X(which[j]));
        check(d - sep / 2 * (1 + d) >= a + sep / 2 * (1 + a) - 1e-9,
              "returned peaks " + num(a) + " and " + num(d) + " are closer than the separation", "separation");
      }
  // completeness: whatever was left out had a reason
  for (int w = 0; w < (int)rs.size(); w++) {
    if (std::find(which.begin(), which.end(), w) != which.end())
      continue;
    if (cutOn && best - Y(w) > cut)
      continue;
    bool shadow = false;
    if (sep > 0)
      for (int o : which) {
        // either middle of an even plateau may stand for the left-out peak
        for (double xx : {x[(rs[w].s + rs[w].e) / 2], x[(rs[w].s + rs[w].e + 1) / 2]})
          if (Y(o) >= Y(w) && xx <= hi(X(o)) + 1e-9 && xx >= lo(X(o)) - 1e-9)
            shadow = true;
      }
    if (shadow)
      continue;
    bool full = (int)got.size() >= maxn;
    bool better = true;
    for (int o : which)
      better = better && Y(o) >= Y(w);
    check(full && better, "peak at x=" + num(X(w)) + " was dropped without a reason", "dropped");
  }
  std::string o;
  for (int w : which)
    o += num(rs[w].s) + ",";
  c.outcome(o + num(rs.size()));
}

int main(int argc, char **argv) {
  Harness H;
  H.add("shape", [](Ctx &c) {
    int n = 3 + c.choose(c.thorough ? 6 : 5);
    int alpha = n <= 6 ? 4 : 3;
    bool border = c.flip(), inv = c.flip(), fp = c.flip();
    TFloat64List x, y;
    for (int i = 0; i < n; i++) {
      x.push_back(0.1 * i);
      y.push_back(c.choose(alpha));
    }
    c.mine();
    c.desc << "y=" << vec(y) << " border=" << border << " invert=" << inv << " firstpass=" << fp;
    oracle(c, x, y, inv, border, -1, -1, 100, TFloat64Range(), fp);
  });
  H.add("nanrange", [](Ctx &c) {
    int n = 3 + c.choose(c.thorough ? 5 : 4);
    int nl = c.choose(3), nr = c.choose(3);
    int lo = c.choose(3), hi = c.choose(3);
    bool border = c.flip();
    TFloat64List x, y;
    for (int i = 0; i < n; i++) {
      x.push_back(0.1 * i);
      y.push_back(i < nl || i >= n - nr ? NAN : c.choose(3));
    }
    c.mine();
    TFloat64Range r = lo == 0 && hi == 0 ? TFloat64Range() : TFloat64Range(0.1 * lo - 0.05, 0.1 * (n - 1 - hi) + 0.05);
    c.desc << "y=" << vec(y) << " border=" << border << " range=" << r;
    oracle(c, x, y, false, border, -1, -1, 100, r, false);
  });
  H.add("select", [](Ctx &c) {
    int np = 1 + c.choose(c.thorough ? 5 : 4); // peaks
    static const std::vector<double> seps = {-1, 0.02, 0.05, 0.11, 0.2};
    static const std::vector<double> cuts = {-1, 0.5, 1, 1.5, 2, 100};
    static const std::vector<int> maxs = {1, 2, 3, 10};
    double sep = c.pick(seps), cut = c.pick(cuts);
    int mx = c.pick(maxs);
    bool edge = c.flip();
    double z0 = c.pick(std::vector<double>{0, 1});
    TFloat64List x, y;
    double cur = z0;
    if (!edge) {
      x.push_back(cur);
      y.push_back(0);
    }
    for (int i = 0; i < np; i++) {
      cur += 0.02 * (1 + z0);
      x.push_back(cur);
      y.push_back(1 + c.choose(4));
      cur += (c.flip() ? 0.06 : 0.02) * (1 + z0);
      x.push_back(cur);
      y.push_back(0);
    }
    if (x.size() < 3)
      throw Skip();
    c.mine();
    c.desc << "x=" << vec(x) << " y=" << vec(y) << " sep=" << sep << " cut=" << cut << " max=" << mx;
    oracle(c, x, y, false, true, sep, cut, mx, TFloat64Range(), true);
  });
  H.add("selectgrid", [](Ctx &c) {
    int n = 6;
    static const std::vector<double> seps = {0.01, 0.1, 0.2, 0.4};
    static const std::vector<double> cuts = {-1, 1, 2};
    static const std::vector<int> maxs = {1, 2, 10};
    double sep = c.pick(seps), cut = c.pick(cuts);
    int mx = c.pick(maxs);
    bool border = c.flip(), log = c.flip();
    TFloat64List x, y;
    for (int i = 0; i < n; i++) {
      x.push_back(log ? exp(0.1 * i) - 1 : 0.1 * i);
      y.push_back(c.choose(c.thorough ? 5 : 4));
    }
    c.mine();
    c.desc << "x=" << vec(x) << " y=" << vec(y) << " sep=" << sep << " cut=" << cut << " max=" << mx << " border=" << border;
    oracle(c, x, y, false, border, sep, cut, mx, TFloat64Range(), false);
  });
  return H.main(argc, argv);
}
