// C11: the redshift posterior (COperatorPdfz) against an independent long
// double computation.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/common/range.h>
#include <RedshiftLibrary/common/zgridparam.h>
#include <RedshiftLibrary/operator/pdfz.h>
#include <RedshiftLibrary/statistics/pdfcandidateszresult.h>
#include <RedshiftLibrary/statistics/zprior.h>
#include <cfloat>
using namespace NSEpic;
using namespace mc;
typedef long double LD;
typedef std::vector<LD> VLD;
static const double INF = INFINITY;

static LD logInt(const VLD &v, const TFloat64List &z) {
  LD m = -INFINITY;
  for (LD x : v)
    m = std::max(m, x);
  if (m == -INFINITY)
    return -INFINITY;
  LD s = 0;
  for (size_t i = 1; i < z.size(); i++)
    s += (expl(v[i] - m) + expl(v[i - 1] - m)) / 2 * ((LD)z[i] - z[i - 1]);
  return m + logl(s);
}
struct Pdf {
  VLD x, pdf;
  LD ev;
  bool ok;
};
static Pdf refPdf(const TFloat64List &m, const TFloat64List &z, LD cst, const TFloat64List &prior) {
  Pdf r;
  VLD p(prior.begin(), prior.end());
  LD ip = logInt(p, z);
  r.ok = ip != -INFINITY;
  for (size_t i = 0; i < m.size(); i++)
    r.x.push_back(-0.5L * m[i] + p[i] - ip);
  LD ix = logInt(r.x, z);
  r.ok = r.ok && ix != -INFINITY;
  r.ev = cst + ix;
  for (LD x : r.x)
    r.pdf.push_back(x - ix);
  return r;
}
static LD best(const VLD &x) {
  LD m = -INFINITY;
  for (LD v : x)
    m = std::max(m, v);
  return m;
}
static void near(double got, LD ref, LD scale, const std::string &what, const char *sig) {
  if (ref == -INFINITY || ref < -0.4e308L) {
    check(got < -1e300, what + " is " + num(got) + ", expected a vanishing probability", sig);
    return;
  }
  check(std::isfinite(got) && fabsl((LD)got - ref) <= 1e-9L + 1e-14L * (fabsl(ref) + fabsl(scale)),
        what + " is " + num(got) + ", expected " + num(ref), sig);
}

static std::vector<TFloat64List> grids(bool thorough) {
  std::vector<TFloat64List> g = {{0., 0.1}, {1., 1.1, 1.2}, {0., 0.01, 0.5}, {0.5, 0.6, 0.7, 0.8}};
  if (thorough)
    g.push_back({0., 0.2, 0.21, 0.3});
  return g;
}
static std::vector<double> merits(bool th) {
  std::vector<double> m = {3., 0., 3.5, 2000., 1e10, INF};
  if (th) {
    m.push_back(DBL_MAX);
    m.push_back(-4.);
  }
  return m;
}

int main(int argc, char **argv) {
  Harness H;
  // one model, one prior
  H.add("compute", [](Ctx &c) {
    auto z = c.pick(grids(c.thorough));
    std::vector<double> A = merits(c.thorough), P = {0., -7., -INF};
    TFloat64List m, p;
    for (size_t i = 0; i < z.size(); i++) {
      m.push_back(c.pick(A));
      p.push_back(c.pick(P));
    }
    double cst = c.pick(std::vector<double>{0., -123.25});
    c.mine();
    c.desc << "z=" << vec(z) << " chi2=" << vec(m) << " prior=" << vec(p) << " cst=" << cst;
    Pdf r = refPdf(m, z, cst, p);
    TFloat64List got;
    double ev = NAN;
    bool thrown = false;
    try {
      COperatorPdfz::ComputePdf(m, z, cst, p, got, ev);
    } catch (AmzException &e) {
      thrown = true;
    }
    check(thrown == !r.ok, thrown ? "refused a usable chi-square list" : "accepted a chi-square list without any usable value", "compute/refuse");
    if (thrown) {
      c.outcome("refused");
      return;
    }
    near(ev, r.ev, best(r.x), "log evidence", "compute/evidence");
    check(got.size() == z.size(), "posterior size", "compute/size");
    for (size_t i = 0; i < z.size(); i++)
      near(got[i], r.pdf[i], best(r.x), "log posterior at node " + num(i), "compute/value");
    // integral, order, shift invariance straight from the output
    VLD g(got.begin(), got.end());
    if (fabsl(best(r.x)) < 1e12L) // beyond, the normalisation is below the rounding of the log likelihood
      check(fabsl(logInt(g, z)) < 1e-6L, "posterior integrates to " + num(expl(logInt(g, z))), "compute/norm");
    if (c.thorough || z.size() < 4) {
      TFloat64List m2 = m, got2;
      double ev2;
      for (double &x : m2)
        x += 6.;
      COperatorPdfz::ComputePdf(m2, z, cst, p, got2, ev2);
      for (size_t i = 0; i < z.size(); i++)
        check(close(got2[i], got[i], 1e-9, 1e-6 + 1e-15 * (m[i] < INF ? fabs(m[i]) : 0)) || (got[i] < -1e300 && got2[i] < -1e300) ,
              "posterior changes when 6 is added to every chi-square", "compute/shift");
      double worst = 0;
      for (double x : m)
        if (x < INF)
          worst = std::max(worst, fabs(x));
      check(close(ev2, ev - 3., 1e-9, 1e-6 + 1e-15 * worst), "evidence does not follow a constant chi-square shift", "compute/shift");
    }
    std::ostringstream o;
    for (double v : got)
      o << (int)std::max(-50., v) << ",";
    c.outcome(o.str());
  });

  // several models, priors, combination methods, through the public operator
  H.add("combine", [](Ctx &c) {
    bool log = c.flip();
    int nz = c.pick(c.thorough ? std::vector<int>{3, 4} : std::vector<int>{3});
    int nm = 1 + c.choose(2 + (c.thorough && nz == 3));
    std::string method = c.pick(std::vector<std::string>{"marg", "bestChi2", "bestproba"});
    std::vector<double> A = {3., 0., 40., 2000., INF};
    if (nm == 3)
      A = {3., 0., 2000.};
    if (nz == 4)
      A = {3., 0., 40.};
    ChisquareArray a;
    double zstep = log ? 0.01 : 0.1;
    a.redshifts = CZGridParam(TFloat64Range(0.5, log ? 1.5 * std::exp(zstep * (nz - 1)) - 1 + 1e-12 : 0.5 + zstep * (nz - 1)), zstep).getZGrid(log);
    a.zstep = zstep;
    a.cstLog = -11.5;
    if ((int)a.redshifts.size() != nz)
      throw std::runtime_error("grid size");
    for (int k = 0; k < nm; k++) {
      TFloat64List m;
      for (int i = 0; i < nz; i++)
        m.push_back(c.pick(A));
      a.chisquares.push_back(m);
    }
    int pk = c.choose(nm == 1 ? 3 : 4); // redshift priors
    for (int k = 0; k < nm; k++) {
      TFloat64List p(nz, 0.);
      if (pk == 1)
        p[0] = -2.5;
      if (pk == 2)
        p[nz - 1] = -INF;
      if (pk == 3 && k == 0)
        p[1] = 3.;
      a.zpriors.push_back(p);
    }
    int mp = c.choose(nm == 1 ? 2 : 4);
    if (mp == 1)
      a.modelpriors = TFloat64List(nm, 1. / nm);
    if (mp == 2) {
      a.modelpriors = TFloat64List(nm, 0.2 / (nm - 1));
      a.modelpriors[0] = 0.8;
    }
    if (mp == 3) {
      a.modelpriors = TFloat64List(nm, 0.);
      a.modelpriors[nm - 1] = 1.;
    }
    c.mine();
    c.desc << method << " z=" << vec(a.redshifts) << " log=" << log << " priors=" << pk << "/" << mp << " chi2=";
    for (auto &m : a.chisquares)
      c.desc << vec(m);
    const TFloat64List &z = a.redshifts;
    // reference
    bool ok = true;
    std::vector<Pdf> ps;
    for (int k = 0; k < nm; k++) {
      ps.push_back(refPdf(a.chisquares[k], z, a.cstLog, a.zpriors[k]));
      ok = ok && ps.back().ok;
    }
    VLD out(nz, -INFINITY);
    LD marg = -INFINITY, ev = -INFINITY, scale = 0;
    bool flatref = false, maybe = false; // documented restriction of bestproba: may be refused
    if (ok) {
      std::vector<LD> w;
      for (int k = 0; k < nm; k++) {
        LD pr = a.modelpriors.empty() ? 1.0L / nm : (LD)a.modelpriors[k];
        w.push_back(ps[k].ev + logl(pr));
        scale = std::max(scale, fabsl(best(ps[k].x)));
      }
      LD mx = best(w), s = 0;
      for (LD v : w)
        s += expl(v - mx);
      marg = mx + logl(s);
      if (method == "marg") {
        ev = marg;
        for (int i = 0; i < nz; i++) {
          VLD t;
          for (int k = 0; k < nm; k++)
            t.push_back(ps[k].pdf[i] + w[k]);
          LD m0 = best(t), ss = 0;
          if (m0 == -INFINITY)
            continue;
          for (LD v : t)
            ss += expl(v - m0);
          out[i] = m0 + logl(ss) - marg;
        }
      } else if (method == "bestChi2") {
        TFloat64List mn(nz, INF);
        for (int k = 0; k < nm; k++)
          for (int i = 0; i < nz; i++)
            mn[i] = std::min(mn[i], a.chisquares[k][i]);
        Pdf p = refPdf(mn, z, a.cstLog, TFloat64List(nz, 0.));
        out = p.pdf;
        ev = p.ev;
      } else {
        marg = ev = NAN;
        for (int i = 0; i < nz; i++)
          for (int k = 0; k < nm; k++)
            out[i] = std::max(out[i], ps[k].pdf[i]);
        LD m0 = best(out), s2 = 0;
        LD mind = 1e9, maxd = 0;
        for (int i = 1; i < nz; i++) {
          mind = std::min(mind, (LD)z[i] - z[i - 1]);
          maxd = std::max(maxd, (LD)z[i] - z[i - 1]);
        }
        for (LD v : out)
          s2 += expl(v - m0);
        LD n = m0 + logl(s2) + logl((mind + maxd) / 2);
        for (LD &v : out)
          v -= n;
        // trapezoid check of the validity test on a rectangle-rule normalisation
        LD tr = expl(logInt(out, z));
        maybe = fabsl(tr - 1) > 0.0999L;
        if (fabsl(tr - 1) > 0.1001L)
          ok = false;
      }
      bool flat = true;
      for (LD v : out)
        flat = flat && fabsl(v - out[0]) < 1e-12L;
      if (flat) { // flat up to rounding: whether it is bit-exactly flat is not specified
        ok = false;
        maybe = true;
        flatref = true;
      }
    }
    COperatorPdfz op(method, 0.0, 0.0, 10, log);
    bool thrown = false;
    std::string err;
    try {
      op.Compute(a);
    } catch (AmzException &e) {
      thrown = true;
      err = num((int)e.getErrorCode()) + " " + e.what();
    }
    // nodes of exactly zero probability come from infinite chi-squares or
    // priors: such tables may be refused (no candidate window of finite width)
    for (LD v : out)
      maybe = maybe || v == -INFINITY || v < -1e30L;
    if (maybe && thrown) {
      c.outcome("refused: restricted");
      return;
    }
    if (flatref && !thrown) {
      c.outcome("flat by rounding");
      return;
    }
    check(thrown == !ok, thrown ? "refused a usable table, error " + err : "accepted a table that gives no posterior (flat or empty)", "combine/refuse");
    if (thrown) {
      c.outcome("refused");
      return;
    }
    auto &r = *op.m_postmargZResult;
    check(r.redshifts == z, "posterior is not on the chi-square grid", "combine/grid");
    for (int i = 0; i < nz; i++)
      near(r.valProbaLog[i], out[i], scale, method + ": log posterior at node " + num(i), "combine/value");
    VLD g(r.valProbaLog.begin(), r.valProbaLog.end());
    if (method != "bestproba") {
      check(fabsl(logInt(g, z)) < 1e-6L, "posterior integrates to " + num(expl(logInt(g, z))), "combine/norm");
      near(r.valMargEvidenceLog, marg, scale, "marginal evidence", "combine/margev");
      near(r.valEvidenceLog, ev, scale, "evidence", "combine/ev");
    }
    std::ostringstream o;
    o << method;
    for (double v : r.valProbaLog)
      o << (int)(std::max(-50., v) * 10) << ",";
    c.outcome(o.str());
  });

  // inputs that cannot give a posterior
  H.add("refuse", [](Ctx &c) {
    std::string method = c.pick(std::vector<std::string>{"marg", "bestChi2", "bestproba", "nosuch"});
    int nz = 3, nm = 1 + c.choose(2), which = c.choose(nm), pos = c.choose(3);
    int bad = c.choose(15);
    c.mine();
    ChisquareArray a;
    a.zstep = 0.1;
    a.redshifts = CZGridParam(TFloat64Range(0.5, 0.7), 0.1).getZGrid(false);
    for (int k = 0; k < nm; k++) {
      a.chisquares.push_back({5., 1. + k, 6.});
      a.zpriors.push_back({0., 0., 0.});
    }
    static const char *names[] = {"none", "nan chi2", "nan prior", "short chi2", "long chi2", "short prior", "long prior",
                                  "missing prior list", "extra prior list", "no chi2", "grid mismatch", "bad model prior sum",
                                  "short model priors", "all infinite", "flat"};
    c.desc << method << " models=" << nm << " " << names[bad] << " model " << which << " node " << pos;
    auto &m = a.chisquares[which];
    auto &p = a.zpriors[which];
    bool mustThrow = true;
    switch (bad) {
    case 0: mustThrow = method == "nosuch"; break;
    case 1: m[pos] = NAN; break;
    case 2: p[pos] = NAN; mustThrow = method != "bestChi2"; break;
    case 3: m.resize(pos); break;
    case 4: m.resize(nz + 1 + pos, 2.); break;
    case 5: p.resize(pos); break;
    case 6: p.resize(nz + 1 + pos, 0.); break;
    case 7: a.zpriors.pop_back(); break;
    case 8: a.zpriors.push_back({0., 0., 0.}); break;
    case 9: a.chisquares.clear(); a.zpriors.clear(); break;
    case 10: a.redshifts[pos] += 0.001; break;
    case 11: a.modelpriors = TFloat64List(nm, pos == 0 ? 0.1 : pos == 1 ? 0.4 : 2.); mustThrow = method != "bestproba"; break;
    case 12: a.modelpriors = TFloat64List(nm + 1, 1. / (nm + 1)); mustThrow = method != "bestproba"; break;
    case 13: m = {INF, INF, INF}; break;
    case 14: for (auto &x : a.chisquares) x = {4., 4., 4.}; break;
    }
    if (method == "nosuch")
      mustThrow = true;
    COperatorPdfz op(method, 0.0, 0.0, 10, false);
    bool thrown = false;
    int code = -1;
    try {
      op.Compute(a);
    } catch (AmzException &e) {
      thrown = true;
      code = (int)e.getErrorCode();
    }
    // (bestproba refuses posteriors with mass at the ends: see combine)
    if (mustThrow || (bad == 0 && method != "bestproba"))
      check(thrown == mustThrow, std::string(thrown ? "valid input refused" : "accepted: ") + names[bad], std::string("refuse/") + names[bad]);
    if (bad == 14 && method != "nosuch")
      check(code == (int)ErrorCode::FLAT_ZPDF, "flat posterior not reported as FLAT_ZPDF", "refuse/flatcode");
    if (!thrown)
      for (double v : op.m_postmargZResult->valProbaLog)
        check(!std::isnan(v), "NaN in an accepted posterior", "refuse/nan");
    c.outcome(num(code));
  });

  // redshift priors
  H.add("zprior", [](Ctx &c) {
    auto z = c.pick(grids(c.thorough));
    int kind = c.choose(5);
    bool norm = c.flip();
    int n = z.size();
    std::vector<int> sel;
    if (kind == 1 || kind == 2)
      for (int i = 0; i < n; i++)
        sel.push_back(c.choose(kind == 1 ? 2 : 4));
    TFloat64List p1, p2;
    std::vector<double> P = {0., -3., -20., 5.};
    if (kind == 3)
      for (int i = 0; i < n; i++) {
        p1.push_back(c.pick(P));
        p2.push_back(c.pick(P));
      }
    double par = c.pick(std::vector<double>{1e-3, 1., 0.2});
    c.mine();
    CZPrior zp(norm, z);
    VLD ref;
    TFloat64List got;
    c.desc << "prior kind " << kind << " z=" << vec(z) << " norm=" << norm << " par=" << par << " sel=" << vec(sel) << vec(p1) << vec(p2);
    if (kind == 0) {
      got = zp.GetConstantLogZPrior(n);
      ref = VLD(n, 0);
    } else if (kind == 1) {
      TBoolList b;
      for (int s : sel)
        b.push_back(s);
      got = zp.GetStrongLinePresenceLogZPrior(b, par);
      for (int s : sel)
        ref.push_back(s ? 0 : logl(par));
    } else if (kind == 2) {
      got = zp.GetNLinesSNRAboveCutLogZPrior(TInt32List(sel.begin(), sel.end()), par);
      for (int s : sel)
        ref.push_back(s >= 2 ? 0 : logl(par));
    } else if (kind == 3) {
      got = zp.CombineLogZPrior(p1, p2);
      for (int i = 0; i < n; i++)
        ref.push_back((LD)p1[i] + p2[i]);
    } else {
      got = zp.GetEuclidNhaLogZPrior(z, par);
      LD mx = -INFINITY;
      for (double x : z) {
        LD v = -54.7422088727874L * powl(x, 6) + 1203.94994364807L * powl(x, 5) - 10409.6716744981L * powl(x, 4) + 44240.3837462642L * powl(x, 3) - 92914.84430357L * x * x + 79004.76406L * x - 2288.98457865L;
        if (v < 0)
          v = DBL_MIN;
        ref.push_back(logl(v) * par);
        mx = std::max(mx, ref.back());
      }
      for (LD &v : ref)
        v = std::max(v - mx, -logl(1e12L));
    }
    if (norm) {
      LD s = logInt(ref, z);
      for (LD &v : ref)
        v -= s;
    }
    check((int)got.size() == n, "prior size", "zprior/size");
    for (int i = 0; i < n; i++)
      check(fabsl(got[i] - ref[i]) < 1e-8L, "log prior at node " + num(i) + " is " + num(got[i]) + " expected " + num(ref[i]), "zprior/value");
    c.outcome(vec(got));
  });
  return H.main(argc, argv);
}
