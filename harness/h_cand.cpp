// C13: candidate windows, probabilities and ranking.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/common/zgridparam.h>
#include <RedshiftLibrary/operator/pdfz.h>
#include <RedshiftLibrary/statistics/deltaz.h>
#include <RedshiftLibrary/statistics/pdfcandidatesz.h>
#include <RedshiftLibrary/statistics/pdfcandidateszresult.h>
#include <cfloat>
using namespace NSEpic;
using namespace mc;
typedef long double LD;

static LD integ(const TFloat64List &z, const TFloat64List &lp, int a, int b) {
  LD s = 0;
  for (int i = a + 1; i <= b; i++)
    s += (expl(lp[i]) + expl(lp[i - 1])) / 2 * ((LD)z[i] - z[i - 1]);
  return s;
}
static int idx(const TFloat64List &z, double v) {
  for (size_t i = 0; i < z.size(); i++)
    if (z[i] == v)
      return i;
  return -1;
}

// checks common to every ranked list
static void checkRanked(Ctx &c, const TFloat64List &z, const TFloat64List &lp, const PdfCandidatesZResult &r, const char *pre) {
  std::string S(pre);
  std::set<std::string> ids;
  double prev = INFINITY;
  LD total = 0, shared = 0;
  struct W { int a, b; double z, p; };
  std::vector<W> ws;
  for (auto &pr : r.m_ranked_candidates) {
    auto &k = *pr.second;
    check(ids.insert(pr.first).second, "identity used twice: " + pr.first, S + "/id");
    check(k.ValSumProba <= prev, "candidates are not in decreasing order of probability", S + "/order");
    prev = k.ValSumProba;
    check(k.ValSumProba >= 0 && k.ValSumProba <= 1 + 1e-6, "probability " + num(k.ValSumProba), S + "/range");
    check(k.Deltaz > 0 && std::isfinite(k.Deltaz), "uncertainty " + num(k.Deltaz), S + "/deltaz");
    int iz = idx(z, k.Redshift);
    check(iz >= 0, "candidate redshift is not a grid node", S + "/node");
    check(close(k.ValProba, lp[iz], 1e-12, 0), "candidate density is not the posterior at its redshift", S + "/valproba");
    if (std::isnan(k.ValSumProbaZmin)) {
      check(k.ValSumProba == 0, "probability without a window", S + "/window");
      continue;
    }
    int a = idx(z, k.ValSumProbaZmin), b = idx(z, k.ValSumProbaZmax);
    check(a >= 0 && b >= 0 && a < b, "window bounds are not grid nodes", S + "/window");
    check(a <= iz && iz <= b, "window does not contain its candidate", S + "/window");
    check(close(k.ValSumProba, integ(z, lp, a, b), 1e-9, 1e-12), "probability " + num(k.ValSumProba) +
          " is not the integral over the window " + num((double)integ(z, lp, a, b)), S + "/integral");
    ws.push_back({a, b, k.Redshift, k.ValSumProba});
    total += k.ValSumProba;
  }
  std::sort(ws.begin(), ws.end(), [](const W &x, const W &y) { return x.z < y.z; });
  for (size_t i = 1; i < ws.size(); i++) {
    // neighbouring windows are cut inside one cell at most
    check(ws[i - 1].b - ws[i].a <= 1, "windows of candidates at " + num(ws[i - 1].z) + " and " + num(ws[i].z) +
          " overlap by " + num(ws[i - 1].b - ws[i].a) + " cells", S + "/overlap");
    if (ws[i - 1].b - ws[i].a == 1)
      shared += integ(z, lp, ws[i].a, ws[i - 1].b);
  }
  for (size_t i = 2; i < ws.size(); i++)
    check(ws[i - 2].b <= ws[i].a + 1, "windows of non neighbouring candidates overlap", S + "/overlap");
  check(total <= 1 + shared + 1e-6, "probabilities add up to " + num((double)total), S + "/sum");
  check(!ws.empty(), "no candidate has a window", S + "/all-removed");
}

int main(int argc, char **argv) {
  Harness H;
  // window resolution on its own: candidates at lattice positions with given
  // half widths and densities
  H.add("windows", [](Ctx &c) {
    int n = 1 + c.choose(c.thorough ? 5 : 4);
    std::vector<double> pos = {0., 1., 2., 3., 5., 8.};
    std::vector<double> wid = {0.3, 0.8, 2.0};
    if (n >= 4)
      wid = {0.3, 1.1};
    std::vector<int> pi;
    int from = 0;
    for (int i = 0; i < n; i++) {
      int k = c.choose((int)pos.size() - (n - 1 - i) - from);
      pi.push_back(from + k);
      from += k + 1;
    }
    TFloat64List dz, pr;
    for (int i = 0; i < n; i++) {
      dz.push_back(c.pick(wid));
      pr.push_back(-1. - c.choose(3));
    }
    int perm = c.choose(2);
    c.mine();
    TCandidateZbyID cands;
    for (int i = 0; i < n; i++) {
      auto k = std::make_shared<TCandidateZ>();
      k->Redshift = pos[pi[i]];
      k->Deltaz = dz[i] / 3;
      k->ValProba = pr[i];
      cands["C" + num(perm ? n - i : i)] = k;
      c.desc << "(z=" << pos[pi[i]] << " half=" << dz[i] << " logp=" << pr[i] << ") ";
    }
    TFloat64Range full(0., 8.);
    CPdfCandidatesZ op(cands);
    TCandidateZRangebyID rg;
    TStringList dup;
    dup = op.SetIntegrationRanges(full, rg);
    std::set<std::string> rem(dup.begin(), dup.end());
    check(rem.size() == dup.size(), "a candidate is removed twice", "windows/dup-twice");
    check(rg.size() == cands.size(), "a candidate has no window", "windows/missing");
    std::vector<std::pair<double, std::string>> order;
    for (auto &p : cands)
      order.push_back({p.second->Redshift, p.first});
    std::sort(order.begin(), order.end());
    double bestp = -1e9;
    std::set<std::string> bests;
    for (auto &p : cands) {
      if (p.second->ValProba > bestp) {
        bestp = p.second->ValProba;
        bests.clear();
      }
      if (p.second->ValProba == bestp)
        bests.insert(p.first);
    }
    int keptbest = 0;
    for (auto &b : bests)
      keptbest += !rem.count(b);
    check(keptbest > 0, "every candidate of the highest density was removed", "windows/best-removed");
    const TFloat64Range *prevr = nullptr;
    double prevz = 0;
    for (auto &o : order) {
      auto &k = *cands[o.second];
      double lo = std::max(0., k.Redshift - 3 * k.Deltaz), hi = std::min(8., k.Redshift + 3 * k.Deltaz);
      if (rem.count(o.second)) {
        // removed only if it overlaps another, not less dense, candidate beyond the threshold
        bool just = false;
        for (auto &o2 : order) {
          auto &q = *cands[o2.second];
          if (&q == &k || q.ValProba < k.ValProba)
            continue;
          double l2 = std::max(0., q.Redshift - 3 * q.Deltaz), h2 = std::min(8., q.Redshift + 3 * q.Deltaz);
          double ov = std::min(hi, h2) - std::max(lo, l2);
          if (q.Redshift < k.Redshift)
            ov = h2 - lo;
          else
            ov = hi - l2;
          if (ov >= 0.3 * (hi - lo) - 1e-9 || ov >= 0.3 * (h2 - l2) - 1e-9)
            just = true;
        }
        check(just, "candidate " + o.second + " removed although it is not close to a denser one", "windows/unjustified");
        continue;
      }
      const TFloat64Range &r = rg[o.second];
      check(r.GetBegin() >= lo - 1e-12 && r.GetEnd() <= hi + 1e-12, "window larger than the uncertainty asks for, or out of range", "windows/large");
      check(r.GetBegin() <= k.Redshift && k.Redshift <= r.GetEnd() && r.GetBegin() < r.GetEnd(), "window does not contain its candidate", "windows/contain");
      if (prevr)
        check(prevr->GetEnd() <= r.GetBegin() + 1e-12, "windows of candidates at " + num(prevz) + " and " + num(k.Redshift) + " overlap: [" +
              num(prevr->GetBegin()) + "," + num(prevr->GetEnd()) + "] and [" + num(r.GetBegin()) + "," + num(r.GetEnd()) + "]", "windows/overlap");
      prevr = &r;
      prevz = k.Redshift;
    }
    // an isolated candidate keeps its whole window
    for (auto &o : order) {
      auto &k = *cands[o.second];
      double lo = std::max(0., k.Redshift - 3 * k.Deltaz), hi = std::min(8., k.Redshift + 3 * k.Deltaz);
      bool iso = true;
      for (auto &o2 : order) {
        auto &q = *cands[o2.second];
        if (&q == &k)
          continue;
        double l2 = q.Redshift - 3 * q.Deltaz, h2 = q.Redshift + 3 * q.Deltaz;
        if (l2 < hi && h2 > lo)
          iso = false;
      }
      if (iso)
        check(!rem.count(o.second) && close(rg[o.second].GetBegin(), lo, 0, 1e-12) && close(rg[o.second].GetEnd(), hi, 0, 1e-12),
              "isolated candidate does not keep its window", "windows/isolated");
    }
    c.outcome(num(dup.size()) + vec(dup));
  });

  // uncertainty: inverse square root of the parabola coefficient of the log posterior
  H.add("deltaz", [](Ctx &c) {
    int n = 3 + c.choose(c.thorough ? 6 : 5);
    std::vector<double> A = {0., -1., -4., -30.};
    if (n > 5)
      A = {0., -2.};
    TFloat64List z, p;
    bool irr = c.flip();
    for (int i = 0; i < n; i++) {
      z.push_back(1. + 0.01 * i + (irr && i > n / 2 ? 0.02 : 0.));
      p.push_back(c.pick(A));
    }
    int iz = c.choose(n);
    c.mine();
    c.desc << "z=" << vec(z) << " logp=" << vec(p) << " at " << iz;
    double got = CDeltaz().GetDeltaz(z, p, z[iz]);
    double ref = 0.001;
    for (int half : {5, 2}) {
      LD s = 0, s2 = 0;
      for (int i = std::max(0, iz - half); i <= std::min(n - 1, iz + half); i++) {
        LD x = (LD)z[i] - z[iz];
        x *= x;
        s += x * ((LD)p[iz] - p[i]);
        s2 += x * x;
      }
      if (s / s2 > 1e-9L) {
        ref = sqrtl(s2 / s);
        break;
      }
      if (s / s2 > -1e-9L) { // borderline: not decided by rounding
        c.outcome("borderline");
        check(got > 0 && std::isfinite(got), "uncertainty " + num(got), "deltaz/positive");
        return;
      }
    }
    check(close(got, ref, 1e-7, 1e-12), "uncertainty " + num(got) + " expected " + num(ref), "deltaz/value");
    c.outcome(num(got));
  });

  // first pass, through the operator
  H.add("first", [](Ctx &c) {
    int n = 6 + c.choose(c.thorough ? 4 : 3);
    std::vector<double> A = {0., 3., 12.};
    if (n > (c.thorough ? 8 : 7))
      A = {0., 5.};
    bool log = c.flip();
    int maxc = c.pick(std::vector<int>{1, 3, 10});
    double sep = c.pick(std::vector<double>{0., 0.0004, 0.0025});
    double cut = c.pick(std::vector<double>{0., 4.});
    TFloat64List m;
    for (int i = 0; i < n; i++)
      m.push_back(c.pick(A));
    c.mine();
    ChisquareArray a;
    a.zstep = 0.001;
    a.redshifts = CZGridParam(TFloat64Range(1., 1.0 + (log ? 0.00201 : 0.001) * (n - 1) + 1e-6), 0.001).getZGrid(log);
    a.redshifts.resize(n);
    a.chisquares = {m};
    a.zpriors = {TFloat64List(n, 0.)};
    c.desc << "first pass z=" << vec(a.redshifts) << " chi2=" << vec(m) << " max=" << maxc << " sep=" << sep << " cut=" << cut << " log=" << log;
    COperatorPdfz op("marg", sep, cut, maxc, log, "EXT", true);
    std::shared_ptr<PdfCandidatesZResult> r;
    bool flat = *std::min_element(m.begin(), m.end()) == *std::max_element(m.begin(), m.end());
    try {
      r = op.Compute(a);
    } catch (AmzException &e) {
      check(flat, std::string("refused: ") + e.what(), "first/refused");
      c.outcome("flat");
      return;
    }
    check(!flat, "flat posterior accepted", "first/flat");
    check(r->size() >= 1 && r->size() <= maxc, "number of candidates " + num(r->size()), "first/count");
    checkRanked(c, op.m_postmargZResult->redshifts, op.m_postmargZResult->valProbaLog, *r, "first");
    for (int k = 0; k < r->size(); k++) {
      auto &pr = r->m_ranked_candidates[k];
      check(pr.second->Rank == k, "rank", "first/rank");
      check(pr.first.rfind("EXT", 0) == 0 && pr.second->ParentId.empty(), "identity " + pr.first, "first/id");
      c.outcome(num((int)(pr.second->ValSumProba * 100)) + pr.first);
    }
  });

  // second pass: refined windows around first pass candidates
  H.add("second", [](Ctx &c) {
    int nw = 1 + c.choose(2);
    std::vector<double> A = {0., 5., 14.};
    int npk = c.pick(std::vector<int>{1, 2});
    int maxc = c.pick(std::vector<int>{1, 4});
    bool swap = nw == 2 && c.flip();
    double base = 20.;
    // coarse grid of 11 nodes, windows of 5 fine nodes
    std::vector<std::vector<double>> wm(nw);
    for (auto &w : wm)
      for (int i = 0; i < (nw == 2 && !c.thorough ? 4 : 5); i++)
        w.push_back(c.pick(nw == 2 ? std::vector<double>{0., 9.} : A));
    c.mine();
    for (auto &w : wm)
      while (w.size() < 5)
        w.push_back(15.);
    ChisquareArray a;
    a.zstep = 0.01;
    TFloat64Range full(1., 1.1);
    std::vector<double> centers = {1.03, 1.07};
    TZGridListParams zp = {CZGridParam(full, 0.01)};
    for (int w = 0; w < nw; w++) {
      double ce = centers[swap ? 1 - w : w];
      zp.push_back(CZGridParam(TFloat64Range(ce - 0.002, ce + 0.002), 0.001, ce));
    }
    CZGridListParams zl(zp);
    a.redshifts = zl.getZGrid(false);
    a.zgridParams = TZGridListParams(zp.begin() + 1, zp.end());
    TFloat64List m;
    std::vector<std::shared_ptr<TCandidateZ>> parents;
    for (int w = 0; w < nw; w++) {
      auto k = std::make_shared<TCandidateZ>();
      k->Redshift = centers[swap ? 1 - w : w];
      parents.push_back(k);
      a.parentCandidates.push_back({"P" + num(w), k});
    }
    for (double z : a.redshifts) {
      double v = base;
      for (int w = 0; w < nw; w++) {
        int i = std::lround((z - a.zgridParams[w].zmin) / 0.001);
        if (std::fabs(z - a.zgridParams[w].zmin - 0.001 * i) < 1e-7 && i >= 0 && i < 5)
          v = wm[w][i];
      }
      m.push_back(v);
    }
    a.chisquares = {m};
    a.zpriors = {TFloat64List(m.size(), 0.)};
    c.desc << "second pass z=" << vec(a.redshifts) << " chi2=" << vec(m) << " peaks/window=" << npk << " max=" << maxc;
    COperatorPdfz op("marg", 0.0004, 0.0, maxc, false, "SP", true, npk);
    std::shared_ptr<PdfCandidatesZResult> r = op.Compute(a);
    check(r->size() >= 1 && r->size() <= maxc, "number of candidates " + num(r->size()), "second/count");
    checkRanked(c, op.m_postmargZResult->redshifts, op.m_postmargZResult->valProbaLog, *r, "second");
    std::map<std::string, int> per;
    for (int k = 0; k < r->size(); k++) {
      auto &pr = r->m_ranked_candidates[k];
      auto &cd = *pr.second;
      check(cd.Rank == k, "rank", "second/rank");
      int w = -1;
      for (int i = 0; i < nw; i++)
        if (cd.ParentId == "P" + num(i))
          w = i;
      check(w >= 0, "candidate without parent", "second/parent");
      check(cd.ParentObject == parents[w], "wrong parent object", "second/parent");
      check(pr.first.rfind(cd.ParentId + "_SP", 0) == 0, "identity " + pr.first + " of a child of " + cd.ParentId, "second/id");
      check(cd.Redshift >= a.zgridParams[w].zmin - 1e-9 && cd.Redshift <= a.zgridParams[w].zmax + 1e-9,
            "candidate " + num(cd.Redshift) + " outside the window of its parent", "second/inwindow");
      check(++per[cd.ParentId] <= npk, "too many peaks in a window", "second/perwindow");
      c.outcome(num((int)(cd.ValSumProba * 100)) + pr.first);
    }
    // the best node of a window with an interior or border maximum is a candidate unless cut by the count
    if (maxc == 4 && r->size() > 0) {
      // the densest window's best node is always there
      int bi = -1;
      double bm = 1e9;
      int ties = 0;
      for (size_t i = 0; i < m.size(); i++)
        if (m[i] < bm) {
          bm = m[i];
          bi = i;
          ties = 1;
        } else if (m[i] == bm)
          ties++;
      if (ties == 1) {
        bool found = false;
        for (auto &pr : r->m_ranked_candidates)
          found = found || pr.second->Redshift == a.redshifts[bi];
        check(found, "the node of highest posterior is not a candidate", "second/best");
      }
    }
  });
  return H.main(argc, argv);
}
