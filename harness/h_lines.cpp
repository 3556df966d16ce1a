// C24: line catalogs, line ratio catalogs and amplitude rules.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/line/catalog.h>
#include <RedshiftLibrary/line/catalogsTplRatio.h>
#include <RedshiftLibrary/line/lineRatioCatalog.h>
#include <RedshiftLibrary/line/linetags.h>
#include <RedshiftLibrary/line/regulament.h>
#include <RedshiftLibrary/line/rule2singlelinesamplitude.h>
#include <RedshiftLibrary/line/ruleOIIRatioRange.h>
#include <RedshiftLibrary/line/ruleStrongHigherThanWeak.h>
#include <RedshiftLibrary/line/ruleSuperStrongHighest.h>
#include <RedshiftLibrary/linemodel/elementlist.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <map>
using namespace NSEpic;
using namespace mc;
using ET = CLine::EType;
using EF = CLine::EForce;

static bool same(double a, double b, double rel = 1e-12) { return (std::isnan(a) && std::isnan(b)) || close(a, b, rel, 1e-14); }
template <class F> static bool refused(F f) {
  try {
    f();
  } catch (const AmzException &) {
    return true;
  }
  return false;
}

// ---------------------------------------------------------------- catalogs
struct L {
  int id;
  std::string name, sid, group, vel, prof;
  ET type;
  EF force;
  double pos, nom, off;
  bool fit;
  TAsymParams asym{1.5, 2.5, 0.25};
};
static const std::vector<std::string> PROF = {"SYM", "LOR", "ASYM", "ASYMFIT", "ASYMFIXED", "SYMIGM"};
static TAsymParams asymOf(const L &l) {
  if (l.prof == "ASYMFIXED")
    return l.asym;
  if (l.prof == "ASYM")
    return TAsymParams(1., 4.5, 0.);
  if (l.prof == "ASYMFIT")
    return TAsymParams(2., 2., 0.);
  return TAsymParams();
}
static void cmpLine(const CLine &g, const L &l, const std::string &w) {
  check(g.GetID() == l.id && g.GetName() == l.name && g.GetStrID() == l.sid && g.GetGroupName() == l.group && g.GetVelGroupName() == l.vel,
        w + ": identifier, name or group of line " + l.name + " changed", "attr");
  check(g.GetType() == l.type && g.GetForce() == l.force && g.IsEmission() == (l.type == ET::nType_Emission) && g.IsStrong() == (l.force == EF::nForce_Strong) &&
            g.IsWeak() == (l.force == EF::nForce_Weak),
        w + ": type or force changed", "attr");
  check(g.GetTypeString() == (l.type == ET::nType_Emission ? "Em" : "Abs") && g.GetForceString() == (l.force == EF::nForce_Strong ? "Strong" : "Weak"),
        w + ": type or force name", "attr");
  check(g.GetPosition() == l.pos && g.GetOffset() == l.off && g.GetNominalAmplitude() == l.nom && g.IsOffsetFitEnabled() == l.fit,
        w + ": position, offset or nominal amplitude changed", "attr");
  static const std::map<std::string, TProfile> T = {{"SYM", SYM}, {"LOR", LOR}, {"ASYM", ASYM}, {"ASYMFIT", ASYMFIT}, {"ASYMFIXED", ASYM}, {"SYMIGM", SYMIGM}};
  check(g.GetProfile()->GetName() == T.at(l.prof), w + ": profile of line " + l.name + " is not " + l.prof, "profile");
  TAsymParams p = g.GetAsymParams(), q = asymOf(l);
  check(same(p.sigma, q.sigma) && same(p.alpha, q.alpha) && same(p.delta, q.delta), w + ": asymmetry parameters", "profile");
  check(g.GetProfile()->isAsymFit() == (l.prof == "ASYMFIT") && g.GetProfile()->isAsymFixed() == (l.prof == "ASYM" || l.prof == "ASYMFIXED") &&
            g.GetProfile()->isSymIgm() == (l.prof == "SYMIGM"),
        w + ": profile kind", "profile");
}
static const char *tname(ET t) { return t == ET::nType_Emission ? "E" : "A"; }
static const char *fname(EF f) { return f == EF::nForce_Strong ? "S" : "W"; }
static void addTo(CLineCatalog &c, const L &l) {
  c.AddLineFromParams(l.name, l.pos, tname(l.type), fname(l.force), l.prof, l.asym, l.group, l.nom, l.vel, l.off, l.fit, l.id, l.sid);
}
static void cmpMap(const CLineMap &m, const std::map<int, L> &ref, const std::string &w) {
  check(m.size() == ref.size(), w + ": " + num(m.size()) + " lines instead of " + num(ref.size()), "count/" + w);
  for (auto &[id, l] : ref) {
    auto it = m.find(id);
    check(it != m.end(), w + ": line " + num(id) + " is missing", "count/" + w);
    cmpLine(it->second, l, w);
  }
}
static void catalog(Ctx &c, int nmax, bool wide) {
  CLineCatalog cat(8.0);
  std::map<int, L> ref;
  static const std::vector<std::string> PROFS = c.thorough ? PROF : std::vector<std::string>{"SYM", "ASYM", "ASYMFIT", "SYMIGM"};
  int n = 1 + c.choose(nmax);
  for (int i = 0; i < n; i++) {
    L l;
    l.id = wide ? 10 + i : (c.choose(2) ? 10 + i : 10);
    l.name = i == 0 ? "LyAE" : "line" + std::to_string(i);
    l.type = c.flip() ? ET::nType_Emission : ET::nType_Absorption;
    l.force = c.flip() ? EF::nForce_Strong : EF::nForce_Weak;
    l.group = std::vector<std::string>{undefStr, "g1", "g2"}[c.choose(wide ? 3 : 2)];
    l.prof = wide ? (i == 0 ? "SYM" : "ASYM") : c.pick(PROFS);
    l.pos = i == 0 ? 1215.67 : i == 1 ? 1033.8 : 5000. + i;
    l.nom = 0.5 + i;
    l.off = 10. * i;
    l.fit = i % 2;
    l.vel = "v" + std::to_string(i);
    l.sid = "id_" + std::to_string(i);
    addTo(cat, l);
    ref[l.id] = l;
    c.step();
  }
  cmpMap(cat.GetList(), ref, "list");
  // filters, by value and by name
  const std::vector<std::pair<ET, std::string>> TY = {{ET::nType_All, "no"}, {ET::nType_Emission, "E"}, {ET::nType_Absorption, "A"}};
  const std::vector<std::pair<EF, std::string>> FO = {{EF::nForce_All, "no"}, {EF::nForce_Strong, "S"}, {EF::nForce_Weak, "W"}};
  for (auto &t : TY)
    for (auto &f : FO) {
      std::map<int, L> r;
      for (auto &[id, l] : ref)
        if ((t.first == ET::nType_All || l.type == t.first) && (f.first == EF::nForce_All || l.force == f.first))
          r[id] = l;
      auto m = cat.GetFilteredList(t.first, f.first);
      cmpMap(m, r, "filter");
      cmpMap(cat.GetFilteredList(t.second, f.second), r, "named filter");
      auto g = CLineCatalog::ConvertToGroupList(m);
      std::map<std::string, std::vector<int>> rg;
      for (auto &[id, l] : r)
        rg[l.group == undefStr ? "single_" + l.sid : l.group].push_back(id);
      check(g.size() == rg.size(), "number of groups " + num(g.size()) + " instead of " + num(rg.size()), "groups");
      for (auto &[k, v] : rg) {
        check(g.count(k) && g[k].size() == v.size(), "group " + k, "groups");
        for (size_t i = 0; i < v.size(); i++)
          cmpLine(g[k][i], r.at(v[i]), "group");
      }
    }
  for (auto s : {"Em", "E", "Abs", "X", "e"}) {
    bool known = s[0] == 'E' || s[0] == 'A';
    check(refused([&] { cat.GetFilteredList(s, "no"); }) != known, std::string("type filter ") + s, "unknown");
  }
  for (auto s : {"Strong", "W", "X", "s"}) {
    bool known = s[0] == 'S' || s[0] == 'W';
    check(refused([&] { cat.GetFilteredList("no", s); }) != known, std::string("force filter ") + s, "unknown");
  }
  {
    auto before = ref;
    L bad = ref.begin()->second;
    int k = wide ? 0 : c.choose(3);
    check(refused([&] {
            cat.AddLineFromParams(bad.name, bad.pos, k == 0 ? "X" : "E", k == 1 ? "Z" : "S", k == 2 ? "GAUSS" : "SYM", bad.asym, bad.group, 77., bad.vel, 0, false, bad.id, bad.sid);
          }),
          "a line with unknown type, force or profile is accepted", "unknown");
    cmpMap(cat.GetList(), before, "after refusal");
  }
  // conversions on independent copies
  CLineCatalog copy(cat);
  int what = wide ? 1 : c.choose(4);
  auto r2 = ref;
  if (what == 0) { // asymmetric profiles replaced
    std::string np = c.pick(std::vector<std::string>{"SYM", "ASYMFIT", "ASYMFIXED", "ASYM", "LOR"});
    TAsymParams p(3., 1.25, 0.5);
    copy.setAsymProfileAndParams(np, p);
    for (auto &[id, l] : copy.GetList()) {
      auto &q = r2.at(id);
      if (q.prof == "ASYM" || q.prof == "ASYMFIT" || q.prof == "ASYMFIXED") {
        bool asym = np.compare(0, 4, "ASYM") == 0;
        check(np == "SYM"   ? l.GetProfile()->GetName() == SYM
              : np == "LOR" ? l.GetProfile()->GetName() == LOR
                            : (l.GetProfile()->isAsym() && l.GetProfile()->isAsymFit() == (np == "ASYMFIT")),
              "asymmetric profile not replaced by " + np, "asym");
        if (asym)
          check(same(l.GetAsymParams().sigma, 3.) && same(l.GetAsymParams().alpha, 1.25) && same(l.GetAsymParams().delta, 0.5), "parameters of the new profile", "asym");
      } else
        cmpLine(l, q, "asym");
    }
  } else if (what == 1) { // absorbed profiles
    copy.convertLineProfiles2SYMIGM(nullptr);
    for (auto &[id, l] : r2)
      if (l.type == ET::nType_Emission && (l.name == "LyAE" || l.pos < RESTLAMBDA_LYA))
        l.prof = "SYMIGM";
    cmpMap(copy.GetList(), r2, "igm");
  } else if (what == 2) { // nominal amplitudes
    int id = c.choose(4) + 9;
    bool known = ref.count(id);
    check(refused([&] { copy.setLineAmplitude(id, 42.); }) == !known, "setting the amplitude of line " + num(id), "amplitude");
    if (known)
      r2[id].nom = 42.;
    cmpMap(copy.GetList(), r2, "amplitude");
  } else { // line ratio catalog
    CLineRatioCatalog rc("ratio", cat);
    for (auto &[id, l] : r2)
      l.nom = 0;
    cmpMap(rc.GetList(), r2, "ratio");
    check(rc.getName() == "ratio" && rc.getPrior() == 1 && rc.getIsmIndex() == 0, "ratio catalog defaults", "ratio");
    rc.addVelocity("em_vel", 100);
    check(refused([&] { rc.addVelocity("em_vel", 200); }) && rc.getVelocity("em_vel") == 100, "second velocity of a group accepted", "ratio");
    rc.addVelocity("abs_vel", 300);
    rc.setPrior(0.25);
    rc.setIsmIndex(2);
    int id = ref.begin()->first;
    rc.setLineAmplitude(id, 3.5);
    r2[id].nom = 3.5;
    cmpMap(rc.GetList(), r2, "ratio");
    CLineCatalogsTplRatio all;
    all.addLineRatioCatalog(rc);
    CLineRatioCatalog other("other", cat);
    other.addVelocity("em_vel", 7);
    other.addVelocity("abs_vel", 8);
    all.addLineRatioCatalog(other);
    double e = 0, a = 0;
    check(all.GetCatalogsCount() == 2 && all.GetCatalogName(0) == "ratio" && all.GetCatalogName(1) == "other" && all.GetIsmIndex(0) == 2 && all.GetIsmIndex(1) == 0 &&
              all.getCatalogsPriors() == TFloat64List({0.25, 1}),
          "ratio catalogs: names, indexes or priors", "ratio");
    all.GetCatalogVelocities(0, e, a);
    check(e == 100 && a == 300, "velocities of a ratio catalog", "ratio");
    all.GetCatalogVelocities(1, e, a);
    check(e == 7 && a == 8, "velocities of a ratio catalog", "ratio");
    cmpMap(all.GetRestLinesList(0), r2, "ratio");
  }
  cmpMap(cat.GetList(), ref, "original after conversion of the copy");
  c.outcome(std::to_string(ref.size()) + "/" + std::to_string(what));
}
// copies of one line are deep
static void copies(Ctx &c) {
  L l{1, "a", "ida", "g", "v", c.pick(PROF), c.flip() ? ET::nType_Emission : ET::nType_Absorption, c.flip() ? EF::nForce_Strong : EF::nForce_Weak, 5000, 2, 3, true};
  CLineCatalog cat;
  addTo(cat, l);
  const CLine &o = cat.GetList().at(1);
  CLine k(o), k2;
  L l2 = l;
  l2.id = 2;
  l2.prof = c.pick(PROF);
  addTo(cat, l2);
  k2 = cat.GetList().at(2);
  int how = c.choose(3);
  if (how == 1) {
    k2 = o;
    cmpLine(k2, l, "assignment");
  } else if (how == 2) {
    k2 = CLine(o);
    cmpLine(k2, l, "move");
  } else
    cmpLine(k2, l2, "assignment");
  cmpLine(k, l, "copy");
  k.SetAsymParams(TAsymParams(9, 8, 7));
  k.setNominalAmplitude(55);
  k.DisableOffsetFit();
  k2.SetAsymParams(TAsymParams(5, 5, 5));
  if (c.flip())
    k.setProfileAndParams("LOR", TAsymParams(), 8.);
  k2.EnableOffsetFit();
  c.step();
  cmpLine(cat.GetList().at(1), l, "original after changing the copy");
  cmpLine(cat.GetList().at(2), l2, "original after changing the copy");
  if (l.prof == "ASYMFIT") { // fitted parameters go back to their defaults
    CLine f(o);
    f.SetAsymParams(TAsymParams(9, 8, 7));
    check(same(f.GetAsymParams().sigma, 9), "parameters of a fitted profile not set", "asymfit");
    f.resetAsymFitParams();
    check(same(f.GetAsymParams().sigma, 2.) && same(f.GetAsymParams().alpha, 0.) && same(f.GetAsymParams().delta, 0.), "fitted profile not reset to its defaults", "asymfit");
  }
  c.outcome(l.prof + l2.prof + std::to_string(how));
}
static void detected(Ctx &c, int n) {
  CLineDetectedCatalog cat;
  std::vector<std::pair<double, double>> ref;
  int k = c.choose(n + 1);
  for (int i = 0; i < k; i++) {
    double p = 4000 + 10 * c.choose(3), a = 1 + c.choose(2);
    cat.Add(CLineDetected("d" + std::to_string(i), p, ET::nType_Emission, CLineProfile_ptr(new CLineProfileSYM()), EF::nForce_Weak, a));
    ref.push_back({p, a});
    c.step();
  }
  if (c.flip())
    cat.Sort();
  cat.Sort();
  std::sort(ref.begin(), ref.end());
  check(cat.GetList().size() == ref.size(), "sorting detected lines changes their number", "sort");
  int i = 0;
  for (auto &[id, l] : cat.GetList()) {
    check(id == i && l.GetPosition() == ref[i].first && l.GetAmplitude() == ref[i].second, "detected lines not ordered by position and amplitude", "sort");
    i++;
  }
  c.outcome(std::to_string(k), k > 1);
}

// ---------------------------------------------------------------- rules
struct RL {
  std::string name;
  EF force;
  double nom;
  bool in;
  double amp = NAN, std = NAN;
};
struct El {
  ET type;
  std::vector<RL> l;
  double A, S;
  bool out() const {
    for (auto &x : l)
      if (x.in)
        return false;
    return true;
  }
  void set(double a, double s) {
    for (auto &x : l) {
      bool ok = x.in && !std::isnan(a);
      x.amp = ok ? a * x.nom : NAN;
      if (type == ET::nType_Absorption && x.amp > 1)
        x.amp = 1;
      x.std = ok ? s * x.nom : NAN;
    }
  }
  bool limit(int i, double lim) {
    if (!(l[i].amp > lim))
      return false;
    double a = std::max(0., lim) / l[i].nom;
    for (auto &x : l)
      if (x.in)
        x.amp = a * x.nom;
    return true;
  }
};
using Els = std::vector<El>;
struct World {
  CLineCatalog cat;
  CLineMap lines;
  std::unique_ptr<CLMEltListVector> v;
  std::vector<std::pair<int, int>> idx; // (element, line) of id
};
static std::shared_ptr<const CLSF> lsf() {
  static auto p = LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(1000.));
  return p;
}
static void build(World &w, Els &e) {
  int id = 0;
  for (size_t i = 0; i < e.size(); i++)
    for (size_t k = 0; k < e[i].l.size(); k++, id++) {
      auto &x = e[i].l[k];
      w.cat.AddLineFromParams(x.name, (x.in ? 5000. : 20000.) + 17. * id, tname(e[i].type), fname(x.force), "SYM", TAsymParams(), std::string("g") + char('a' + i), x.nom, "v", 0, false, id,
                              std::to_string(id));
    }
  w.lines = w.cat.GetList();
  static TFloat64List ax = [] {
    TFloat64List a;
    for (int i = 0; i < 400; i++)
      a.push_back(4000 + 10. * i);
    return a;
  }();
  static const CSpectrumSpectralAxis axis(ax);
  CTLambdaRangePtrVector lr{std::make_shared<const TLambdaRange>(4000., 7990.)};
  CSpectraGlobalIndex obs(1);
  w.v.reset(new CLMEltListVector(lr, obs, w.lines, ElementComposition::Default));
  obs.reset();
  for (auto &el : w.v->getElementList()) {
    el->SetLSF(lsf());
    el->prepareSupport(axis, 0., *lr[0]);
  }
  w.v->setGlobalOutsideLambdaRangeFromSpectra();
  obs.reset();
  for (size_t i = 0; i < e.size(); i++) {
    w.v->SetElementAmplitude(i, e[i].A, e[i].S);
    e[i].set(e[i].A, e[i].S);
  }
}
static void cmpEls(World &w, const Els &e, const std::string &what) {
  check(w.v->getNbElements() == (int)e.size(), what + ": number of elements", "elements");
  for (size_t i = 0; i < e.size(); i++)
    for (size_t k = 0; k < e[i].l.size(); k++) {
      double a = w.v->getElementParam()[i]->GetFittedAmplitude(k), s = w.v->getElementParam()[i]->GetFittedAmplitudeStd(k);
      check(same(a, e[i].l[k].amp), what + ": amplitude of " + e[i].l[k].name + " is " + num(a) + " instead of " + num(e[i].l[k].amp), "amp/" + what);
      check(same(s, e[i].l[k].std), what + ": error of " + e[i].l[k].name + " is " + num(s) + " instead of " + num(e[i].l[k].std), "std/" + what);
    }
}
static std::string show(const Els &e) {
  std::string s;
  for (auto &x : e) {
    s += x.type == ET::nType_Emission ? " E(" : " A(";
    for (auto &l : x.l)
      s += l.name + (l.force == EF::nForce_Strong ? "!" : "") + (l.in ? "" : "[out]") + "*" + num(l.nom) + " ";
    s += ")=" + num(x.A) + "+-" + num(x.S);
  }
  return s;
}
static std::pair<int, int> find(const Els &e, const std::string &tag, ET t) {
  for (size_t i = 0; i < e.size(); i++)
    if (e[i].type == t)
      for (size_t k = 0; k < e[i].l.size(); k++)
        if (e[i].l[k].name.find(tag) != std::string::npos)
          return {(int)i, (int)k};
  return {-1, -1};
}
static bool refBalmer(Els &e, const std::string &a, const std::string &b, ET t, double coef) {
  auto [ia, ka] = find(e, a, t);
  auto [ib, kb] = find(e, b, t);
  if (ia < 0 || ib < 0 || ia == ib || e[ia].l.size() > 1 || e[ib].l.size() > 1 || e[ia].out())
    return false;
  double A = e[ia].l[ka].amp, B = e[ib].l[kb].amp;
  if (A <= 0 && B <= 0)
    return false;
  return e[ib].limit(kb, coef * A);
}
static bool refRatio(Els &e, const std::string &a, const std::string &b, ET t, double R) {
  auto [ia, ka] = find(e, a, t);
  auto [ib, kb] = find(e, b, t);
  if (ia < 0 || ib < 0 || ia == ib || e[ia].out() || e[ib].out())
    return false;
  double A = e[ia].l[ka].amp, B = e[ib].l[kb].amp;
  int i1, k1, i2, k2;
  if (std::abs(A) > R * std::abs(B))
    i1 = ia, k1 = ka, i2 = ib, k2 = kb;
  else if (std::abs(B) > R * std::abs(A))
    i1 = ib, k1 = kb, i2 = ia, k2 = ka;
  else
    return false;
  double a1 = e[i1].l[k1].amp, a2 = e[i2].l[k2].amp, s1 = e[i1].l[k1].std, s2 = e[i2].l[k2].std;
  double w1 = s1 != 0 ? 1 / (s1 * s1) : 0, w2 = s2 != 0 ? 1 / (s2 * s2 * R * R) : 0;
  double x = (a1 * w1 + a2 * R * w2) / (w1 + w2);
  e[i1].set(x / e[i1].l[k1].nom, s1 / e[i1].l[k1].nom);
  e[i2].set(x / R / e[i2].l[k2].nom, s2 / e[i2].l[k2].nom);
  return true;
}
static bool refStrong(Els &e, ET t) {
  double m = INFINITY, lim = NAN;
  for (auto &x : e)
    if (x.type == t)
      for (auto &l : x.l)
        if (l.in && l.force == EF::nForce_Strong && l.amp < m)
          m = l.amp, lim = l.amp + l.std;
  bool any = false;
  if (!std::isinf(m))
    for (auto &x : e)
      if (x.type == t)
        for (size_t k = 0; k < x.l.size(); k++)
          if (x.l[k].in && x.l[k].force == EF::nForce_Weak)
            any = x.limit(k, lim) || any;
  return any;
}
static bool refSuper(Els &e, ET t, const std::vector<std::string> &tags) {
  auto tag = [&](const RL &l) { return std::find(tags.begin(), tags.end(), l.name) != tags.end(); };
  double m = -1, lim = NAN;
  for (auto &x : e)
    if (x.type == t)
      for (auto &l : x.l)
        if (l.in && l.force == EF::nForce_Strong && tag(l) && l.amp > m)
          m = l.amp, lim = l.amp + l.std;
  bool any = false;
  if (m != -1)
    for (auto &x : e)
      if (x.type == t)
        for (size_t k = 0; k < x.l.size(); k++)
          if (x.l[k].in && !tag(x.l[k]))
            any = x.limit(k, lim) || any;
  return any;
}
static const TFloat64List AMPS = {1, 0, NAN, 0.3, 4};
// runs a rule twice against the reference
static void run(Ctx &c, Els e, CRule &rule, const std::function<bool(Els &)> &ref, const std::string &what, bool idem) {
  World w;
  build(w, e);
  cmpEls(w, e, what + " before");
  Els before = e;
  rule.Apply(*w.v);
  c.step();
  bool changed = ref(e);
  cmpEls(w, e, what);
  check(rule.GetLogs().size() > 0 || !changed, what + ": a correction is not logged", "log/" + what);
  if (idem) {
    rule.Apply(*w.v);
    cmpEls(w, e, what + " again");
    rule.GetLogs();
  }
  // disabled
  rule.Enabled = false;
  World w2;
  build(w2, before);
  rule.Apply(*w2.v);
  cmpEls(w2, before, what + " disabled");
  std::string o;
  for (auto &x : e)
    for (auto &l : x.l)
      o += num(l.amp) + " ";
  c.outcome(o, changed);
}
static El single(Ctx &c, const std::string &n, EF f, ET t, const TFloat64List &noms, const TFloat64List &stds, bool canBeOut = true) {
  El e;
  e.type = t;
  RL l;
  l.name = n;
  l.force = f;
  l.nom = c.pick(noms);
  l.in = canBeOut ? !c.flip() : true;
  e.A = c.pick(AMPS);
  e.S = c.pick(stds);
  e.l.push_back(l);
  return e;
}
static void balmer(Ctx &c) {
  double coef = c.pick(TFloat64List{0.4, 1.1});
  int shape = c.choose(6); // 0 two lines, 1 A in a pair, 2 B in a pair, 3 both in one element, 4 A absorbs, 5 A missing
  Els e;
  El a = single(c, "Hbeta", EF::nForce_Strong, shape == 4 ? ET::nType_Absorption : ET::nType_Emission, {1, 0.5}, {0.2});
  El b = single(c, "Hgamma", EF::nForce_Weak, ET::nType_Emission, {1, 2}, {0.2});
  RL extra;
  extra.name = "extra";
  extra.force = EF::nForce_Weak;
  extra.nom = 0.7;
  extra.in = !c.flip();
  if (shape == 1)
    a.l.push_back(extra);
  if (shape == 2)
    b.l.push_back(extra);
  if (shape == 3) {
    a.l.push_back(b.l[0]);
    e = {a};
  } else if (shape == 5)
    e = {b};
  else if (c.flip())
    e = {a, b};
  else
    e = {b, a};
  El o = single(c, "other", EF::nForce_Weak, ET::nType_Emission, {1}, {0.2}, false);
  e.push_back(o);
  c.desc << show(e) << " coef " << coef;
  CRule2SingleLinesAmplitude r;
  r.SetUp(true, ET::nType_Emission, "Hbeta", "Hgamma", coef);
  run(c, e, r, [&](Els &x) { return refBalmer(x, "Hbeta", "Hgamma", ET::nType_Emission, coef); }, "decrement", true);
}
static void ratioRange(Ctx &c) {
  double R = c.pick(TFloat64List{2.5, 1.5});
  int shape = c.choose(5); // 0 two elements, 1 A has a companion, 2 one element, 3 B absorbs, 4 companion out of range
  El a = single(c, "[OII]3726", EF::nForce_Strong, ET::nType_Emission, {1, 0.5}, {0.5, 1, 0.1});
  El b = single(c, "[OII]3729", EF::nForce_Strong, shape == 3 ? ET::nType_Absorption : ET::nType_Emission, {1, 2}, {0.5, 0.2, 0});
  RL extra;
  extra.name = "extra";
  extra.force = EF::nForce_Weak;
  extra.nom = 0.7;
  extra.in = shape != 4;
  if (shape == 1 || shape == 4)
    a.l.push_back(extra);
  Els e;
  if (shape == 2) {
    a.l.push_back(b.l[0]);
    e = {a};
  } else if (c.flip())
    e = {a, b};
  else
    e = {b, a};
  c.desc << show(e) << " ratio " << R;
  CRuleRatioRange r;
  r.SetUp(true, ET::nType_Emission, "[OII]3726", "[OII]3729", R);
  Els chk = e;
  run(c, e, r, [&](Els &x) { return refRatio(x, "[OII]3726", "[OII]3729", ET::nType_Emission, R); }, "ratio", false);
  // the corrected ratio satisfies the rule
  World w;
  build(w, chk);
  r.Enabled = true;
  r.Apply(*w.v);
  auto A = find(chk, "[OII]3726", ET::nType_Emission), B = find(chk, "[OII]3729", ET::nType_Emission);
  if (A.first >= 0 && B.first >= 0 && A.first != B.first) {
    double x = w.v->getElementParam()[A.first]->GetFittedAmplitude(A.second), y = w.v->getElementParam()[B.first]->GetFittedAmplitude(B.second);
    if (!std::isnan(x) && !std::isnan(y))
      check(std::abs(x) <= R * std::abs(y) * (1 + 1e-12) && std::abs(y) <= R * std::abs(x) * (1 + 1e-12), "ratio of " + num(x) + " and " + num(y) + " still out of range", "ratio/range");
  }
}
static Els strongWorld(Ctx &c, int n, bool multi, const std::vector<std::string> &names, bool &homo) {
  Els e;
  homo = true;
  int nn = 0;
  for (int i = 0; i < n; i++) {
    El x;
    x.type = i > 0 && c.flip() ? ET::nType_Absorption : ET::nType_Emission;
    int k = multi ? 1 + c.choose(2) : 1;
    EF f0 = c.flip() ? EF::nForce_Strong : EF::nForce_Weak;
    for (int j = 0; j < k; j++) {
      RL l;
      l.name = names[nn++ % names.size()] ;
      l.force = j == 0 ? f0 : (c.flip() ? EF::nForce_Strong : EF::nForce_Weak);
      if (l.force != f0)
        homo = false;
      l.nom = j == 0 ? 1 : 2.;
      l.in = !c.flip();
      x.l.push_back(l);
    }
    bool moot = !multi && !c.thorough && !x.l[0].in;
    x.A = multi ? c.pick(TFloat64List{1, 0.3, 4}) : moot ? 1 : c.pick(AMPS);
    x.S = multi ? 0.25 : moot || (!c.thorough && x.l[0].force != EF::nForce_Strong) ? 0.25 : c.pick(TFloat64List{0.25, 0});
    e.push_back(x);
  }
  return e;
}
static void strongWeak(Ctx &c, bool multi) {
  bool homo;
  Els e = strongWorld(c, multi ? 2 : 3, multi, {"l0", "l1", "l2", "l3", "l4", "l5"}, homo);
  ET t = c.flip() ? ET::nType_Emission : ET::nType_Absorption;
  c.desc << show(e) << " " << tname(t);
  CRuleStrongHigherThanWeak r;
  r.SetUp(true, t);
  run(c, e, r, [&](Els &x) { return refStrong(x, t); }, "strong", homo);
}
static void superStrong(Ctx &c, bool multi) {
  bool homo;
  Els e = strongWorld(c, multi ? 2 : 3, multi, {"l0", "l1", "l2", "l3", "l4", "l5"}, homo);
  ET t = c.flip() ? ET::nType_Emission : ET::nType_Absorption;
  std::vector<std::string> tags = {"l0", "l2", "l9"};
  c.desc << show(e) << " " << tname(t);
  CRuleSuperStrong r;
  r.SetUp(true, t, "l0", "l2", "l9");
  bool pure = true; // no element mixes tagged and other lines
  for (auto &x : e)
    for (auto &l : x.l)
      if ((l.name == "l0" || l.name == "l2") != (x.l[0].name == "l0" || x.l[0].name == "l2"))
        pure = false;
  run(c, e, r, [&](Els &x) { return refSuper(x, t, tags); }, "super", pure);
}
// the whole set of rules, in order
static void regulament(Ctx &c) {
  static const std::vector<std::string> OPT = {"all", "balmerSingle", "ratioRange", "strongWeak", "balmerSingle,strongWeak", "none"};
  std::string opt = c.pick(OPT);
  int set = c.choose(3);
  static const std::vector<std::vector<std::string>> NAMES = {
      {"Halpha", "Hbeta", "Hgamma", "weak"}, {"[OII]3726", "[OII]3729", "Hgamma", "Hdelta"}, {"[CIII]1907", "[CIII]1909", "H8", "H9"}};
  auto &names = NAMES[set];
  Els e;
  for (size_t i = 0; i < names.size(); i++) {
    El x;
    x.type = ET::nType_Emission;
    x.l.push_back({names[i], i < 2 ? EF::nForce_Strong : EF::nForce_Weak, 1., i == 1 ? !c.flip() : true});
    x.A = c.pick(TFloat64List{1, 0.2, 4, 0});
    x.S = 0.3 + 0.1 * i;
    e.push_back(x);
  }
  c.desc << show(e) << " rules " << opt;
  World w;
  build(w, e);
  CRegulament r;
  r.CreateRulesFromJSONFiles();
  r.EnableRulesAccordingToParameters(opt);
  r.EnableLogs(c.flip());
  r.Apply(*w.v);
  c.step();
  bool all = opt == "all", any = false;
  auto on = [&](const char *n) { return all || opt.find(n) != std::string::npos; };
  const ET E = ET::nType_Emission;
  if (on("balmerSingle")) {
    const std::vector<std::tuple<const char *, const char *, double>> B = {{"Halpha", "Hbeta", 1 / 2.86 * 1.1}, {"Hbeta", "Hgamma", 0.47 * 1.1}, {"Hgamma", "Hdelta", 1.1},
                                                                          {"Hdelta", "H8", 1.1},             {"H8", "H9", 1.1},             {"H9", "H10", 1.1},
                                                                          {"H10", "H11", 1.1}};
    for (auto &[a, b, k] : B)
      any = refBalmer(e, a, b, E, k) || any;
  }
  if (on("ratioRange"))
    any = refRatio(e, "[OII]3726", "[OII]3729", E, 2.5) || any;
  if (on("strongWeak"))
    any = refStrong(e, E) || any;
  if (on("ratioRange"))
    any = refRatio(e, "[CIII]1907", "[CIII]1909", E, 2.0) || any;
  cmpEls(w, e, "rules");
  std::string o;
  for (auto &x : e)
    o += num(x.l[0].amp) + " ";
  c.outcome(o, any);
}
// look-up of lines in the elements, for every composition
static void lookup(Ctx &c) {
  static const std::vector<std::string> N = {"Hbeta", "HbetaA", "H8", "[OIII]b"};
  int n = 1 + c.choose(c.thorough ? 4 : 3);
  CLineCatalog cat;
  std::vector<L> ls;
  for (int i = 0; i < n; i++) {
    L l;
    l.id = 7 + 2 * i;
    l.name = c.pick(N);
    l.type = c.flip() ? ET::nType_Emission : ET::nType_Absorption;
    l.force = EF::nForce_Weak;
    std::string g = c.choose(2) ? "g" : undefStr;
    l.group = g == undefStr ? g : g + tname(l.type);
    l.prof = i == 1 ? "ASYMFIT" : "SYM";
    l.pos = 4000 + i;
    l.nom = 1 + i;
    l.off = 3 * i;
    l.fit = false;
    l.vel = "v";
    l.sid = "s" + std::to_string(i);
    ls.push_back(l);
    addTo(cat, l);
  }
  int comp = c.choose(3);
  CLineMap lines = cat.GetList();
  CTLambdaRangePtrVector lr{std::make_shared<const TLambdaRange>(4000., 7990.)};
  CSpectraGlobalIndex obs(1);
  CLMEltListVector v(lr, obs, lines, comp == 0 ? ElementComposition::Default : comp == 1 ? ElementComposition::EmissionAbsorption : ElementComposition::OneLine);
  obs.reset();
  // every line is in exactly one element, with its attributes
  std::map<int, std::pair<int, int>> where;
  for (int i = 0; i < v.getNbElements(); i++) {
    auto &p = v.getElementParam()[i];
    check(p->size() > 0 && v.getElementList()[i]->GetSize() == p->size(), "size of element", "lookup");
    for (int k = 0; k < p->size(); k++) {
      auto &g = p->GetLines()[k];
      check(!where.count(g.GetID()), "a line is in two elements", "lookup");
      where[g.GetID()] = {i, k};
      auto it = std::find_if(ls.begin(), ls.end(), [&](const L &l) { return l.id == g.GetID(); });
      check(it != ls.end(), "unknown line in an element", "lookup");
      cmpLine(g, *it, "element");
      check(p->GetNominalAmplitude(k) == it->nom && p->getLambdaOffset(k) == it->off && std::isnan(p->GetFittedAmplitude(k)) && p->GetElementType() == p->GetLines()[0].GetType() &&
                p->GetSignFactor(k) == (p->IsEmission() ? 1 : -1),
            "attributes of a line in its element", "lookup");
      // companions
      if (comp == 0)
        check(it->group == undefStr ? p->size() == 1 : p->GetLines()[0].GetGroupName() == it->group, "lines of different groups in one element", "lookup");
      if (comp == 1)
        check(p->GetElementType() == it->type, "emission and absorption lines in one element", "lookup");
      if (comp == 2)
        check(p->size() == 1, "several lines in one element", "lookup");
    }
  }
  check(where.size() == ls.size(), "not all lines are in an element", "lookup");
  if (comp == 0) {
    std::map<std::string, std::set<int>> g;
    for (auto &l : ls)
      if (l.group != undefStr)
        g[l.group].insert(where[l.id].first);
    for (auto &[k, s] : g)
      check(s.size() == 1, "a group is split over several elements", "lookup");
  }
  if (comp == 1)
    check(v.getNbElements() <= 2, "more than two elements", "lookup");
  for (int id = 6; id < 16; id++) {
    auto r = v.findElementIndex(id), q = v.getElementList().findElementIndex(id);
    auto x = where.count(id) ? where[id] : std::make_pair(undefIdx, undefIdx);
    check(r == std::pair<Int32, Int32>(x) && q == r, "look-up of line " + num(id), "lookup/id");
  }
  for (auto tag : {"Hbeta", "HbetaA", "H8", "[OIII]", "Ly"})
    for (auto t : {ET::nType_All, ET::nType_Emission, ET::nType_Absorption}) {
      auto r = v.findElementIndex(tag, t);
      std::pair<int, int> x{undefIdx, undefIdx};
      for (int i = 0; i < v.getNbElements() && x.first == undefIdx; i++)
        if (t == ET::nType_All || v.getElementParam()[i]->GetElementType() == t)
          for (int k = 0; k < v.getElementParam()[i]->size(); k++)
            if (v.getElementParam()[i]->GetLineName(k).find(tag) != std::string::npos) {
              x = {i, k};
              break;
            }
      check(r == std::pair<Int32, Int32>(x), std::string("look-up of ") + tag, "lookup/tag");
    }
  for (auto t : {ET::nType_Emission, ET::nType_Absorption}) {
    TInt32List x;
    for (int i = 0; i < v.getNbElements(); i++)
      if (v.getElementParam()[i]->GetElementType() == t)
        x.push_back(i);
    check(v.findElementTypeIndices(t) == x, "elements of a type", "lookup/type");
  }
  std::vector<std::pair<Int32, TInt32List>> asym;
  for (int i = 0; i < v.getNbElements(); i++) {
    TInt32List k;
    for (int j = 0; j < v.getElementParam()[i]->size(); j++)
      if (v.getElementParam()[i]->GetLines()[j].GetID() == 9)
        k.push_back(j);
    if (!k.empty())
      asym.push_back({i, k});
  }
  check(v.getIgmLinesIndices() == asym, "lines with a fitted profile", "lookup/asym");
  c.step();
  c.outcome(std::to_string(comp) + std::to_string(v.getNbElements()) + std::to_string(n));
}
// amplitudes prescribed by line ratio catalogs, and the best one
static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> CAL;
static void ratios(Ctx &c) {
  int n = 1 + c.choose(3), nc = 1 + c.choose(2);
  CLineCatalog cat;
  std::vector<ET> ty;
  for (int i = 0; i < n; i++) {
    ET t = c.flip() ? ET::nType_Emission : ET::nType_Absorption;
    ty.push_back(t);
    cat.AddLineFromParams("l" + std::to_string(i), 1500. + 700 * i, tname(t), "W", "SYM", TAsymParams(), c.flip() ? "g" + std::string(tname(t)) : undefStr, 1, "v", 0, false, 5 - i, "s" + std::to_string(i));
  }
  CLineCatalogsTplRatio all;
  std::vector<std::vector<double>> nom(nc, std::vector<double>(n));
  for (int k = 0; k < nc; k++) {
    CLineRatioCatalog r("r" + std::to_string(k), cat);
    for (int i = 0; i < n; i++) {
      nom[k][i] = k && !c.thorough ? 0.5 + i : c.pick(TFloat64List{1, 0, 2.5});
      r.setLineAmplitude(5 - i, nom[k][i]);
    }
    r.setIsmIndex(k + 1);
    all.addLineRatioCatalog(r);
  }
  bool ism = c.flip();
  CLineMap lines = cat.GetList();
  CTLambdaRangePtrVector lr{std::make_shared<const TLambdaRange>(4000., 7990.)};
  CSpectraGlobalIndex obs(1);
  CLMEltListVector v(lr, obs, lines, c.flip() ? ElementComposition::Default : ElementComposition::EmissionAbsorption);
  obs.reset();
  auto got = all.InitLineCorrespondingAmplitudes(v.getElementParam(), ism, CAL);
  c.step();
  check((int)got.size() == nc, "ratio catalogs: number", "nominal");
  for (int k = 0; k < nc; k++) {
    check((int)got[k].size() == v.getNbElements(), "ratio catalogs: elements", "nominal");
    for (int e = 0; e < v.getNbElements(); e++) {
      auto &p = v.getElementParam()[e];
      check((int)got[k][e].size() == p->size(), "ratio catalogs: lines", "nominal");
      for (int j = 0; j < p->size(); j++) {
        int i = 5 - p->GetLines()[j].GetID();
        double x = nom[k][i] * (ism && ty[i] == ET::nType_Emission ? CAL->GetDustCoeff(k + 1, 1500. + 700 * i) : 1);
        check(same(got[k][e][j], x), "amplitude prescribed for a line is " + num(got[k][e][j]) + " instead of " + num(x), "nominal");
      }
    }
  }
  c.outcome(vec(got[0][0]));
}
static void bestRatio(Ctx &c) {
  int n = 1 + c.choose(3), nc = 1 + c.choose(2);
  CLineCatalog cat;
  for (int i = 0; i < n; i++)
    cat.AddLineFromParams("l" + std::to_string(i), 1500. + 700 * i, "E", "W", "SYM", TAsymParams(), undefStr, 1, "v", 0, false, 5 + 2 * i, "s" + std::to_string(i));
  CLineCatalogsTplRatio all;
  std::vector<std::vector<double>> nom(nc, std::vector<double>(n));
  for (int k = 0; k < nc; k++) {
    CLineRatioCatalog r("r" + std::to_string(k), cat);
    for (int i = 0; i < n; i++) {
      nom[k][i] = c.pick(TFloat64List{1, 0.4, 0});
      r.setLineAmplitude(5 + 2 * i, nom[k][i]);
    }
    all.addLineRatioCatalog(r);
  }
  TInt32List valid;
  TFloat64List a, s;
  for (int i = 0; i < n; i++)
    if (!c.flip()) {
      valid.push_back(i);
      a.push_back(c.pick(TFloat64List{1.7, 0.6, 0}));
      s.push_back(i == 2 && !c.thorough ? 1.3 : c.pick(TFloat64List{0.5, 1.3}));
    }
  c.desc << " nominal";
  for (auto &x : nom)
    c.desc << " " << vec(x);
  c.desc << " amplitudes " << vec(a) << " errors " << vec(s);
  double best = INFINITY;
  std::vector<std::pair<double, double>> fit; // chi2, scale
  for (int k = 0; k < nc; k++) {
    long double X = 0, T = 0, S = 0;
    for (size_t i = 0; i < valid.size(); i++) {
      double m = nom[k][valid[i]], w = 1 / (s[i] * s[i]);
      X += a[i] * m * w;
      T += m * m * w;
      S += a[i] * a[i] * w;
    }
    if (X == 0 || T == 0) {
      fit.push_back({-1, 0});
      continue;
    }
    fit.push_back({double(S - X * X / T), double(X / T)});
    best = std::min(best, fit.back().first);
  }
  TFloat64List corr;
  Int32 idx = undefIdx;
  double r = all.GetBestFit(valid, a, s, corr, idx);
  c.step();
  check(corr.size() == valid.size(), "number of corrected amplitudes is " + num(corr.size()) + " for " + num(valid.size()) + " lines", "best/size");
  if (std::isinf(best)) {
    check(r < 0, "a ratio catalog is selected although none can be scaled", "best/none");
    return;
  }
  check(close(r, best, 1e-9, 1e-12), "best chi2 " + num(r) + " instead of " + num(best), "best/chi2");
  check(idx >= 0 && idx < nc && fit[idx].first >= 0 - 1e-12 && close(fit[idx].first, best, 1e-9, 1e-12), "selected ratio catalog is not the best one", "best/index");
  for (size_t i = 0; i < valid.size(); i++)
    check(close(corr[i], fit[idx].second * nom[idx][valid[i]], 1e-10, 1e-14), "corrected amplitude " + num(corr[i]) + " instead of " + num(fit[idx].second * nom[idx][valid[i]]), "best/amp");
  c.outcome(num(r));
}
int main(int argc, char **argv) {
  auto &ctx = CProcessFlowContext::GetInstance();
  ctx.LoadParameterStore("{\"lineModel\":{\"velocityEmission\":100.0,\"velocityAbsorption\":150.0,\"lineWidthType\":\"combined\"}}");
  TFloat64List l, f;
  for (int i = 0; i <= 140; i++) {
    l.push_back(600 + 30. * i);
    f.push_back(6. - 0.02 * i - (i % 5) * 0.03);
  }
  CAL = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, f), 0., 0.2, 4);
  Harness H;
  H.add("catalog", [](Ctx &c) { catalog(c, c.thorough ? 3 : 2, false); });
  H.add("catalog3", [](Ctx &c) { catalog(c, c.thorough ? 4 : 3, true); });
  H.add("copies", copies);
  H.add("detected", [](Ctx &c) { detected(c, c.thorough ? 6 : 4); });
  H.add("lookup", lookup);
  H.add("decrement", balmer);
  H.add("ratio", ratioRange);
  H.add("strong", [](Ctx &c) { strongWeak(c, false); });
  H.add("strong/groups", [](Ctx &c) { strongWeak(c, true); });
  H.add("super", [](Ctx &c) { superStrong(c, false); });
  H.add("super/groups", [](Ctx &c) { superStrong(c, true); });
  H.add("rules", regulament);
  H.add("ratios", ratios);
  H.add("best", bestRatio);
  return H.main(argc, argv);
}
