// C10: redshift grids; C14: posterior regularisation.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/common/vectorOperations.h>
#include <RedshiftLibrary/common/zgridparam.h>
#include <RedshiftLibrary/operator/linemodelresult.h>
#include <RedshiftLibrary/operator/logZPdfResult.h>
using namespace NSEpic;
using namespace mc;

static const double EPS = 1.1e-8; // documented tolerance at the ends
// position on the scale on which the grid is regular
static double sc(bool log, double z) { return log ? std::log1p(z) : z; }
static double inv(bool log, double s) { return log ? std::expm1(s) : s; }

// [b,e] grid of step d starting at b (forward) or ending at e (backward)
static void checkPlain(const TFloat64List &g, double b, double e, double d, bool log,
                       bool backward, const char *sig) {
  check(!g.empty(), "empty grid", sig);
  int n = g.size();
  for (int i = 1; i < n; i++)
    check(g[i] > g[i - 1], "grid not strictly increasing: " + vec(g), sig);
  check(g.front() >= b && g.back() <= e, "grid leaves the bounds", sig);
  if (backward)
    check(g.back() == e || close(g.back(), e, 0, 1e-12), "backward grid does not end at the bound", sig);
  else
    check(g.front() == b || close(g.front(), b, 0, 1e-12), "grid does not start at the bound", sig);
  double tol = 4 * EPS;
  for (int i = 0; i < n; i++) {
    double ref = backward ? sc(log, e) - (n - 1 - i) * d : sc(log, b) + i * d;
    check(close(sc(log, g[i]), ref, 1e-10, tol), "node " + num(i) + " is " + num(g[i]) +
          " expected " + num(inv(log, ref)), sig);
  }
  double span = sc(log, e) - sc(log, b);
  // not one more and not one less than fits (a remainder within the tolerance counts as fitting)
  double k = span / d;
  int lo = std::floor(k - 1e-6) + 1, hi = std::floor(k + 1e-6) + 1;
  // the library's own tolerance: 1e-8 in z
  double m = (inv(log, sc(log, b) + std::round(k) * d) - e);
  if (m > 0 && m < 0.9e-8)
    lo = std::round(k) + 1;
  check(n >= lo && n <= std::max(hi, lo) + (m > 0 && m < 2e-8 ? 1 : 0),
        "grid has " + num(n) + " nodes, expected " + num(lo) + ".." + num(hi), sig);
}

// reference merge of a fine grid into a coarse one
static TFloat64List merge(const TFloat64List &coarse, const TFloat64List &fine) {
  TFloat64List r;
  for (double z : coarse)
    if (z < fine.front() - 1e-8)
      r.push_back(z);
  r.insert(r.end(), fine.begin(), fine.end());
  for (double z : coarse)
    if (z > fine.back() + 1e-8)
      r.push_back(z);
  return r;
}
static bool same(const TFloat64List &a, const TFloat64List &b, double tol) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!close(a[i], b[i], 0, tol))
      return false;
  return true;
}

int main(int argc, char **argv) {
  Harness H;
  static const std::vector<double> begins = {0, 0.001, 0.01, 0.37, 1, 2.5};
  static const std::vector<double> steps = {1e-4, 3e-4, 0.001, 0.01, 0.07, 0.5};
  static const std::vector<double> frac = {0, 1e-3, 0.25, 0.5, 0.999, 2e-9, -2e-9};
  H.add("plain", [](Ctx &c) {
    double b = c.pick(begins), d = c.pick(steps);
    bool log = c.flip();
    int k = c.choose(c.thorough ? 400 : 40);
    double f = c.pick(frac);
    int kind = c.choose(4);
    c.mine();
    double e = std::fabs(f) < 1e-8 && f != 0 ? inv(log, sc(log, b) + k * d) + f : inv(log, sc(log, b) + (k + f) * d);
    if (e < b)
      e = b;
    if (e > 25)
      throw Skip();
    TFloat64Range r(b, e);
    c.desc << "[" << num(b) << "," << num(e) << "] step " << d << (log ? " log" : " lin") << " kind " << kind;
    c.step();
    bool backward = kind == 1;
    TFloat64List g;
    if (kind == 0 || kind == 1)
      g = log ? r.SpreadOverLogZplusOneEpsilon(d, backward) : r.SpreadOverEpsilon(d, backward);
    else if (kind == 2)
      g = CZGridParam(r, d).getZGrid(log);
    else
      g = CZGridListParams({CZGridParam(r, d)}).getZGrid(log);
    checkPlain(g, b, e, d, log, backward, "plain");
    // regenerated from its own description
    if (!backward) {
      auto g2 = CZGridParam(TFloat64Range(g), d).getZGrid(log);
      check(same(g, g2, 1e-12), "grid regenerated from its own bounds differs", "idempotent");
    }
    c.outcome(num(g.size()));
  });
  // the exact variants used for wavelength grids
  H.add("exact", [](Ctx &c) {
    double b = c.pick(std::vector<double>{1, 2, 1000, 2400.5}), d = c.pick(std::vector<double>{1e-4, 0.001, 0.01, 0.3});
    bool log = c.flip();
    int k = c.choose(c.thorough ? 200 : 30);
    double f = c.pick(std::vector<double>{0.1, 0.5, 0.9});
    bool back = c.flip();
    c.mine();
    double s0 = log ? std::log(b) : b, s1 = s0 + (k + f) * d, e = log ? std::exp(s1) : s1;
    TFloat64Range r(b, e);
    c.desc << r << " step " << d << (log ? " log" : " lin") << (back ? " backward" : "");
    auto g = log ? r.SpreadOverLog(d, 0., back) : r.SpreadOver(d, back);
    c.step();
    check((int)g.size() == k + 1, "grid has " + num(g.size()) + " nodes, expected " + num(k + 1), "exact");
    for (int i = 0; i <= k; i++) {
      double ref = back ? s1 - (k - i) * d : s0 + i * d;
      check(close(log ? std::log(g[i]) : g[i], ref, 1e-10, 1e-12), "node " + num(i) + " misplaced", "exact");
    }
    c.outcome(num(g.size()));
  });
  H.add("centered", [](Ctx &c) {
    double b = c.pick(begins), d = c.pick(steps);
    bool log = c.flip();
    int k1 = c.choose(6), k2 = c.choose(6);
    double f1 = c.pick(std::vector<double>{0, 0.3, 0.999}), f2 = c.pick(std::vector<double>{0, 0.3, 0.999});
    c.mine();
    double z0 = inv(log, sc(log, b) + (k1 + f1) * d), e = inv(log, sc(log, b) + (k1 + f1 + k2 + f2) * d);
    c.desc << "[" << num(b) << "," << num(e) << "] centre " << num(z0) << " step " << d << (log ? " log" : " lin");
    auto g = CZGridParam(TFloat64Range(b, e), d, z0).getZGrid(log);
    c.step();
    int ic = -1;
    for (int i = 0; i < (int)g.size(); i++)
      if (close(g[i], z0, 0, 1e-14))
        ic = i;
    check(ic >= 0, "centre is not a node: " + vec(g), "centered");
    for (size_t i = 1; i < g.size(); i++)
      check(g[i] > g[i - 1], "centred grid not strictly increasing", "centered");
    check(g.front() >= b && g.back() <= e, "centred grid leaves the bounds", "centered");
    for (int i = 0; i < (int)g.size(); i++)
      check(close(sc(log, g[i]), sc(log, z0) + (i - ic) * d, 1e-9, 4 * EPS), "centred grid node misplaced", "centered");
    check(ic >= std::floor(k1 + f1 - 1e-3) && ic <= std::floor(k1 + f1 + 1e-3), "left half has " + num(ic) + " nodes", "centered");
    int nr = g.size() - 1 - ic;
    check(nr >= std::floor(k2 + f2 - 1e-3) && nr <= std::floor(k2 + f2 + 1e-3), "right half has " + num(nr) + " nodes", "centered");
    auto g2 = CZGridParam(TFloat64Range(g), d, z0).getZGrid(log);
    check(same(g, g2, 1e-12), "centred grid regenerated from its own bounds differs", "idempotent");
    c.outcome(num(ic) + "," + num(nr));
  });
  // one to three refined windows, built as the second pass builds them
  auto mixed = [](Ctx &c, TFloat64List &expect, TZGridListParams &ps, bool &log, std::vector<TFloat64List> &subs, int maxw) {
    log = c.flip();
    int n = 5 + c.choose(2); // coarse nodes
    double d = 0.01, b = c.pick(std::vector<double>{0, 0.5});
    int ratio = c.pick(std::vector<int>{2, 3, 5});
    int nw = 1 + c.choose(maxw);
    bool other = nw > 1 && c.flip(); // the last window has another step
    double e = inv(log, sc(log, b) + (n - 1) * d);
    CZGridParam main(TFloat64Range(b, e), d);
    auto coarse = main.getZGrid(log);
    TFloat64Range full(coarse);
    main = CZGridParam(TFloat64Range(coarse), d); // as COperatorPdfz describes its grid
    ps = {main};
    expect = coarse;
    for (int w = 0; w < nw; w++) {
      int kc = c.choose(n);
      double half = c.pick(std::vector<double>{0.5, 1, 1.6, 2.5}) * d; // in coarse steps
      double z = coarse[kc];
      double hl = log ? (1 - std::exp(-half)) * (1 + z) : half, hr = log ? (std::exp(half) - 1) * (1 + z) : half;
      TFloat64Range win(z - hl, z + hr);
      win.IntersectWith(full);
      int rw = other && w == nw - 1 ? 2 * ratio : ratio; // finer: a window never covers more nodes than it has
      CZGridParam p0(win, d / rw, z);
      auto sub = p0.getZGrid(log);
      CZGridParam p(TFloat64Range(sub), d / rw, z);
      ps.push_back(p);
      subs.push_back(sub);
      c.desc << " window@" << num(z) << "+-" << half << "/" << rw;
      expect = merge(expect, sub);
    }
  };
  H.add("mixed", [mixed](Ctx &c) {
    TFloat64List expect;
    TZGridListParams ps;
    bool log;
    std::vector<TFloat64List> subs;
    mixed(c, expect, ps, log, subs, c.thorough ? 3 : 2);
    c.mine();
    c.step();
    auto g = CZGridListParams(ps).getZGrid(log);
    for (size_t i = 1; i < g.size(); i++)
      check(g[i] > g[i - 1] + 1e-9, "merged grid not strictly increasing or duplicated: " + vec(g), "mixed");
    check(same(g, expect, 2e-8), "merged grid " + vec(g) + " expected " + vec(expect), "mixed");
    // data kept alongside the grid stay aligned with it
    auto grid = ps[0].getZGrid(log);
    CLineModelResult res;
    TFloat64List data = grid; // stands for any per-node quantity
    TFloat64List chi(grid.size());
    for (size_t i = 0; i < grid.size(); i++)
      chi[i] = 1000 + grid[i];
    for (auto sub : subs) {
      TFloat64List before = grid, chib = chi;
      auto [imin, ndup] = CZGridListParams::insertSubgrid(sub, grid);
      insertWithDuplicates<Float64>(chi, imin, sub.size(), NAN, ndup);
      check(chi.size() == grid.size(), "node data and grid have different lengths", "aligned");
      for (size_t i = 0; i < grid.size(); i++) {
        bool inside = grid[i] >= sub.front() - 1e-8 && grid[i] <= sub.back() + 1e-8;
        if (inside)
          check(std::isnan(chi[i]), "a node of the new window kept old data", "aligned");
        else {
          auto it = std::find(before.begin(), before.end(), grid[i]);
          check(it != before.end(), "a node outside the window changed", "aligned");
          double o = chib[it - before.begin()];
          check(chi[i] == o || (std::isnan(o) && std::isnan(chi[i])), "data moved to another node", "aligned");
        }
      }
    }
    check(same(grid, g, 2e-8), "incremental insertion and list construction differ", "mixed");
    c.outcome(num(g.size()) + num(g[1]));
  });
  // ---- C14
  auto regular = [mixed](Ctx &c) {
    TFloat64List expect;
    TZGridListParams ps;
    bool log;
    std::vector<TFloat64List> subs;
    mixed(c, expect, ps, log, subs, c.thorough ? 3 : 2);
    bool fine = c.flip();
    int shape = c.choose(3);
    c.mine();
    CZGridListParams lp(ps);
    auto g = lp.getZGrid(log);
    TFloat64List v;
    for (size_t i = 0; i < g.size(); i++)
      v.push_back(shape == 0 ? -0.5 * std::pow((g[i] - g[0]) / 0.01, 2) : shape == 1 ? -double(i % 3) : (i == g.size() / 2 ? 0 : -1000));
    CLogZPdfResult r(lp, log, v);
    check(r.redshifts == g && r.valProbaLog == v, "posterior constructed with another grid", "construct");
    check(!r.isRegular(), "posterior with refined windows claims to be regular", "regular");
    CLogZPdfResult before = r;
    c.desc << (fine ? " to fine" : " to coarse") << (log ? " log" : " lin");
    c.step();
    bool refused = false;
    try {
      r.convertToRegular(fine);
    } catch (const AmzException &) {
      refused = true;
    }
    bool steps = false; // no single fine step
    for (size_t i = 2; i < ps.size(); i++)
      steps = steps || ps[i].zstep != ps[1].zstep;
    check(refused == (fine && steps), refused ? "conversion refused" : "windows of different steps put on one fine grid", "steps");
    if (refused) {
      check(r.redshifts == before.redshifts && r.valProbaLog == before.valProbaLog && r.zstep == before.zstep, "a refused conversion changed the posterior", "steps");
      c.outcome("refused");
      return;
    }
    double d = fine ? ps[1].zstep : ps[0].zstep;
    check(r.isRegular(), "posterior not regular after conversion", "regular");
    checkPlain(r.redshifts, ps[0].zmin, ps[0].zmax, d, log, false, "regular-grid");
    check(r.zmin.size() == 1 && r.zmax.size() == 1 && r.zstep.size() == 1 && r.zmin[0] == ps[0].zmin &&
              r.zmax[0] == ps[0].zmax && r.zstep[0] == d && std::isnan(r.zcenter[0]),
          "grid description does not describe the regular grid", "description");
    check(r.valProbaLog.size() == r.redshifts.size(), "sizes differ", "regular");
    for (size_t i = 0; i < r.redshifts.size(); i++) {
      double z = r.redshifts[i];
      if (z > g.back() + 1e-12) {
        continue; // beyond the last original node: nothing to interpolate
      }
      size_t k = 0;
      while (k + 2 < g.size() && g[k + 1] < z)
        k++;
      double ref = v[k] + (v[k + 1] - v[k]) * (z - g[k]) / (g[k + 1] - g[k]);
      // the nodes themselves are only equal within the grid tolerance
      double slope = std::fabs((v[k + 1] - v[k]) / (g[k + 1] - g[k]));
      if (k > 0) slope = std::max(slope, std::fabs((v[k] - v[k - 1]) / (g[k] - g[k - 1])));
      if (k + 2 < g.size()) slope = std::max(slope, std::fabs((v[k + 2] - v[k + 1]) / (g[k + 2] - g[k + 1])));
      check(close(r.valProbaLog[i], ref, 1e-9, 1e-9 + slope * 3e-8),
            "value at z=" + num(z) + " is " + num(r.valProbaLog[i]) + " expected " + num(ref), "interpolation");
    }
    // a second conversion changes nothing
    CLogZPdfResult again = r;
    again.convertToRegular(!fine);
    check(again.redshifts == r.redshifts && again.valProbaLog == r.valProbaLog && again.zstep == r.zstep,
          "a regular posterior was changed by conversion", "idempotent");
    c.outcome(num(r.redshifts.size()) + vec(r.valProbaLog));
  };
  auto extend = [](Ctx &c) {
    bool log = c.flip();
    int n = 3 + c.choose(4);
    double b = c.pick(std::vector<double>{0, 0.5}), d = c.pick(std::vector<double>{0.01, 0.03});
    double more = c.pick(std::vector<double>{-1, 0, 0.4, 1, 1.7, 3});
    bool win = c.flip();
    c.mine();
    double e = inv(log, sc(log, b) + (n - 1) * d), ze = inv(log, sc(log, b) + (n - 1 + more) * d);
    TZGridListParams ps{CZGridParam(TFloat64Range(b, e), d)};
    if (win) {
      auto g0 = ps[0].getZGrid(log);
      auto sub = CZGridParam(TFloat64Range(g0[0], g0[2]), d / 2, g0[1]).getZGrid(log);
      ps.push_back(CZGridParam(TFloat64Range(sub), d / 2, g0[1]));
    }
    CZGridListParams lp(ps);
    auto g = lp.getZGrid(log);
    TFloat64List v;
    for (size_t i = 0; i < g.size(); i++)
      v.push_back(-double(i) * 0.5);
    CLogZPdfResult r(lp, log, v);
    c.desc << "n=" << n << " by " << more << " steps" << (log ? " log" : "") << (win ? " refined" : "");
    c.step();
    r.extrapolate_on_right_border(ze);
    check(r.redshifts.size() == r.valProbaLog.size(), "sizes differ", "extend");
    check(r.redshifts.size() >= g.size(), "extension removed nodes", "extend");
    for (size_t i = 0; i < g.size(); i++)
      check(close(r.redshifts[i], g[i], 0, 2e-8) && r.valProbaLog[i] == v[i], "extension changed existing nodes", "extend");
    for (size_t i = g.size(); i < r.redshifts.size(); i++)
      check(r.valProbaLog[i] == v.back() && r.redshifts[i] > r.redshifts[i - 1] && r.redshifts[i] <= ze + 1e-12,
            "extension nodes wrong", "extend");
    int extra = std::max(0, (int)std::floor(more + 1e-6));
    check((int)(r.redshifts.size() - g.size()) == extra, "extension has the wrong length", "extend");
    c.outcome(num(r.redshifts.size()));
  };
  // --set regular|grid
  bool c14 = false;
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]) == "--c14")
      c14 = true;
  if (c14) {
    H.suites.clear();
    H.add("regular", regular);
    H.add("extend", extend);
  }
  return H.main(argc, argv);
}
