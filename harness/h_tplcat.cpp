// C19: every reachable state of a template catalog with two categories, against
// four plain lists of templates per category.
#include "mc.h"
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/spectrum/template/catalog.h>
#include <RedshiftLibrary/spectrum/template/template.h>
#include <RedshiftLibrary/processflow/parameterstore.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <memory>
using namespace NSEpic;
using namespace mc;

typedef std::shared_ptr<CTemplate> P;
static const std::string CAT[2] = {"galaxy", "qso"};
static int MAXN[2] = {2, 1};

struct E { // one stored template: which object, and the original it stands for
  P p;
  int slot = -1, version = -1;
  explicit operator bool() const { return !!p; }
};
typedef std::vector<E> L;

struct Op {
  enum K { ADD, SET, CLEAR1, CLEARALL, RESET, LSF } k;
  int c = 0, o = 0, l = 0, i = 0;
};
static std::vector<Op> OPS;
static const char *KN[] = {"Add", "SetTemplate", "ClearTemplates", "ClearTemplateList", "resetCatalogState", "LSFwidth"};
static std::string show(const Op &p) {
  std::ostringstream s;
  s << KN[p.k];
  if (p.k < Op::RESET)
    s << "(" << CAT[p.c] << (p.o ? ",ortho" : "") << (p.l ? ",log" : "") << "," << p.i << ")";
  return s.str();
}

struct W {
  CTemplateCatalog cat;
  L m[2][2][2]; // category, ortho, log
  bool lsf = false;
  int version = 0;
  std::map<std::pair<int, int>, int> cur; // (category, slot) -> version of the original

  static void trim(L &v) {
    for (auto &e : v)
      if (e)
        return;
    v.clear();
  }
  bool hasOrtho(int c) { return !m[c][1][0].empty() || !m[c][1][1].empty(); }
  void drop(L &v, int i) {
    if (i < (int)v.size())
      v[i] = E();
    trim(v);
  }
  // the variants derived from (o,l)
  std::vector<L *> derived(int c, int o, int l) {
    std::vector<L *> r;
    if (!o)
      r.push_back(&m[c][1][l]);
    if (!o && !l) {
      r.push_back(&m[c][0][1]);
      r.push_back(&m[c][1][1]);
    }
    return r;
  }
  L *parent(int c, int o, int l) { return o ? &m[c][0][l] : l ? &m[c][0][0] : nullptr; }
  E make(int c, int o, int l, int i, bool fresh) {
    E e;
    e.slot = i;
    if (o || l) {
      L *q = parent(c, o, l);
      if (i >= (int)q->size() || !(*q)[i])
        throw NotEnabled(); // only variants of an existing template are made
      e.version = (*q)[i].version;
    } else
      e.version = ++version;
    (void)fresh;
    std::ostringstream n;
    n << CAT[c][0] << i;
    e.p = std::make_shared<CTemplate>(n.str(), CAT[c]);
    return e;
  }
  void select(int o, int l) {
    cat.m_orthogonal = o;
    cat.m_logsampling = l;
  }
  bool apply(const Op &op) { // false when the request had to be refused
    const int c = op.c, o = op.o, l = op.l, i = op.i;
    L &v = m[c][o][l];
    bool had = hasOrtho(c), ok = true;
    switch (op.k) {
    case Op::ADD: {
      if ((int)v.size() >= MAXN[c])
        throw NotEnabled();
      E e = make(c, o, l, v.size(), true);
      select(o, l);
      cat.Add(e.p);
      v.push_back(e);
      break;
    }
    case Op::SET: {
      ok = i >= 0 && (i < (int)v.size() || (v.empty() && i == 0));
      if (!ok && i >= 0 && (o || l))
        if (L *q = parent(c, o, l); i >= (int)q->size() || !(*q)[i])
          throw NotEnabled();
      E e;
      if (ok)
        e = make(c, o, l, i, true);
      else
        e.p = std::make_shared<CTemplate>("x", CAT[c]);
      select(o, l);
      bool thrown = false;
      try {
        cat.SetTemplate(e.p, i);
      } catch (std::exception &) {
        thrown = true;
      }
      check(thrown == !ok, ok ? "a replacement was refused" : "a replacement at an index that does not exist was accepted", "set/refusal");
      if (ok) {
        if (v.empty())
          v.push_back(e);
        else
          v[i] = e;
        for (L *d : derived(c, o, l))
          drop(*d, i);
      }
      break;
    }
    case Op::CLEAR1: {
      if (i < 0 && v.empty())
        throw NotEnabled();
      ok = v.empty() || (i >= 0 && i < (int)v.size());
      bool thrown = false;
      try {
        cat.ClearTemplates(CAT[c], o, l, i);
      } catch (std::exception &) {
        thrown = true;
      }
      check(thrown == !ok, ok ? "clearing a template was refused" : "clearing an index that does not exist was accepted", "clear/refusal");
      if (ok && !v.empty()) {
        drop(v, i);
        for (L *d : derived(c, o, l))
          if (v.empty())
            d->clear();
          else
            drop(*d, i);
      }
      break;
    }
    case Op::CLEARALL:
      cat.ClearTemplateList(CAT[c], o, l);
      if (!v.empty()) {
        v.clear();
        for (L *d : derived(c, o, l))
          d->clear();
      }
      break;
    case Op::RESET:
      cat.resetCatalogState();
      check(!cat.m_orthogonal && !cat.m_logsampling, "resetCatalogState does not select the originals", "reset");
      break;
    case Op::LSF: // what orthogonalisation records after it filled the lists
      if (!hasOrtho(0) && !hasOrtho(1))
        throw NotEnabled();
      cat.m_ortho_LSFWidth = 1.5;
      lsf = true;
      break;
    }
    if (op.k < Op::RESET && had && !hasOrtho(c))
      lsf = false;
    return ok;
  }
  void observe() {
    check(std::isnan(cat.m_ortho_LSFWidth) == !lsf, lsf ? "the recorded LSF width was lost while orthogonalised templates remain"
                                                        : "the recorded LSF width survives the orthogonalised templates", "lsf");
    for (int o = 0; o < 2; o++)
      for (int l = 0; l < 2; l++) {
        select(o, l);
        const CTemplateCatalog &k = cat;
        TTemplateConstRefList all;
        std::string w = std::string(o ? "ortho " : "") + (l ? "log " : "") + "variant: ";
        for (int c = 0; c < 2; c++) {
          L &v = m[c][o][l];
          int nn = 0;
          check(k.GetTemplateCount(CAT[c]) == (int)v.size() && k.GetTemplateCount(CAT[c], o, l) == (int)v.size(),
                w + "wrong count for " + CAT[c] + ": " + std::to_string(k.GetTemplateCount(CAT[c], o, l)) + " for " + std::to_string(v.size()), "count");
          for (int i = 0; i < (int)v.size(); i++) {
            all.push_back(v[i].p);
            check(k.GetTemplate(CAT[c], i, o, l) == v[i].p && k.GetTemplate(CAT[c], i) == v[i].p,
                  w + "index " + std::to_string(i) + " of " + CAT[c] + " is not the template last stored there", "get");
            if (v[i]) {
              nn++;
              // same index, same current original
              check(v[i].slot == i, "harness: slot", "harness");
              if (o || l) {
                L &or_ = m[c][0][0];
                check(i < (int)or_.size() && or_[i] && or_[i].version == v[i].version,
                      w + "a variant of a template that no longer exists is served", "stale");
              }
              check(k.GetTemplateByName({CAT[0], CAT[1], "star"}, v[i].p->GetName(), o, l) == v[i].p &&
                        k.GetTemplateByName({CAT[c]}, v[i].p->GetName()) == v[i].p,
                    w + "lookup by name", "name");
            }
          }
          check(k.GetNonNullTemplateCount(CAT[c]) == nn, w + "wrong non-null count", "nonnull");
          for (int i : {-1, (int)v.size()}) {
            bool t = false;
            try {
              k.GetTemplate(CAT[c], i, o, l);
            } catch (std::exception &) {
              t = true;
            }
            check(t, w + "an index that does not exist is answered", "bounds");
          }
          bool t = false;
          try {
            k.GetTemplateByName({CAT[c], "star"}, "nobody", o, l);
          } catch (const AmzException &) {
            t = true;
          }
          check(t, w + "an unknown name is answered", "name/refusal");
          for (int i = 0; i < MAXN[c]; i++)
            if (i >= (int)v.size() || !v[i]) {
              t = false;
              try {
                k.GetTemplateByName({CAT[c]}, std::string(1, CAT[c][0]) + std::to_string(i));
              } catch (const AmzException &) {
                t = true;
              }
              check(t, w + "a removed template is still found by name", "name/removed");
            }
          auto cl = k.GetCategoryList();
          if (nn)
            check(std::count(cl.begin(), cl.end(), CAT[c]) == 1, w + "category list", "categories");
        }
        TStringList both{CAT[0], "star", CAT[1]};
        check(k.GetTemplateList(both) == all, w + "list over categories", "list");
        auto mut = cat.GetTemplateList(both);
        check(mut.size() == all.size() && std::equal(mut.begin(), mut.end(), all.begin()), w + "mutable list", "list");
        if (o)
          for (int s = 0; s < 2; s++) {
            select(s, !l);
            check(k.GetOrthoTemplateList(both, l) == all, w + "GetOrthoTemplateList", "list/ortho");
          }
        check(k.GetTemplateCount("star", o, l) == 0, "count of an unknown category", "count/unknown");
      }
  }
  std::string canon() {
    std::string s = lsf ? "L" : "-";
    for (auto &c : m)
      for (auto &o : c)
        for (auto &v : o) {
          s += '[';
          for (auto &e : v)
            s += e ? 'T' : '0';
          s += ']';
        }
    return s;
  }
};

int main(int argc, char **argv) {
  Harness H;
  bool th = false;
  for (int i = 1; i + 1 < argc; i++)
    if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough")
      th = true;
  if (th)
    MAXN[0] = 3;
  for (int c = 0; c < 2; c++)
    for (int o = 0; o < 2; o++)
      for (int l = 0; l < 2; l++) {
        OPS.push_back({Op::ADD, c, o, l, 0});
        for (int i = -1; i <= MAXN[c]; i++)
          OPS.push_back({Op::SET, c, o, l, i});
        for (int i = -1; i <= MAXN[c]; i++)
          OPS.push_back({Op::CLEAR1, c, o, l, i});
        OPS.push_back({Op::CLEARALL, c, o, l, 0});
      }
  OPS.push_back({Op::RESET, 0, 0, 0, 0});
  OPS.push_back({Op::LSF, 0, 0, 0, 0});
  // depth larger than the diameter: the search ends when no new state appears
  H.addBfs("catalog", OPS.size(), 40,
           [](const std::vector<int> &h) {
             W w;
             for (int k : h)
               w.apply(OPS[k]);
             w.observe();
             // selecting a variant must not matter for what is stored
             return w.canon();
           },
           [](const std::vector<int> &h) {
             std::string s;
             for (int k : h)
               s += show(OPS[k]) + "; ";
             return s;
           });
  H.add("refuse", [](Ctx &c) {
    c.choose(1);
    c.desc << "template without category";
    CTemplateCatalog k;
    bool t = false;
    try {
      k.Add(std::make_shared<CTemplate>("a", ""));
    } catch (const AmzException &) {
      t = true;
    }
    check(t && k.GetCategoryList().empty(), "a template without category is accepted", "add/category");
    c.outcome("refused");
  });
  // settings and corrections handed to the originals: every template, and only where asked for
  H.add("settings", [](Ctx &c) {
    CTemplateCatalog k;
    auto ps = std::make_shared<CParameterStore>(std::make_shared<CScopeStack>());
    int sel = c.choose(3);
    std::string method = std::vector<std::string>{"zero", "raw", "irregularSamplingMedian"}[sel];
    double win = sel == 1 ? 40 : 75.5;
    bool even = sel == 2;
    ps->Set("templateCatalog.continuumRemoval.method", method);
    ps->Set("templateCatalog.continuumRemoval.medianKernelWidth", win);
    ps->Set("templateCatalog.continuumRemoval.medianEvenReflection", even);
    std::vector<P> all[2];
    int m[2], had[2][2], hole[2];
    bool ism[2], igm[2];
    auto newc = [] { return std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection({1000, 1001, 1002}, {1, 2, 3}), 0., 0.1, 2); };
    auto newm = [] { return std::make_shared<CSpectrumFluxCorrectionMeiksin>(std::vector<MeiksinCorrection>{MeiksinCorrection({1000, 1000.05, 1000.1}, {{1, 1, 1}})}, TFloat64List{2, 3}); };
    static auto oldC = newc(), newC = newc();
    static auto oldM = newm(), newM = newm();
    for (int i = 0; i < 2; i++) {
      m[i] = c.choose(4); // method of the category
      int n = c.choose(i ? 2 : 3);
      ism[i] = c.flip();
      igm[i] = c.flip();
      for (int j = 0; j < n; j++) {
        had[i][j] = c.choose(4);
        auto t = std::make_shared<CTemplate>("t" + std::to_string(j), CAT[i]);
        if (had[i][j] & 1)
          t->m_ismCorrectionCalzetti = oldC;
        if (had[i][j] & 2)
          t->m_igmCorrectionMeiksin = oldM;
        all[i].push_back(t);
      }
      hole[i] = n == 2 && c.flip();
    }
    c.mine();
    for (int i = 0; i < 2; i++) {
      static const char *M[] = {"", "templateFittingSolve", "tplCombinationSolve", "lineModelSolve"};
      if (m[i]) {
        std::string b = CAT[i] + ".redshiftSolver.";
        ps->Set(b + "method", std::string(M[m[i]]));
        b += std::string(M[m[i]]) + (m[i] == 3 ? ".lineModel.continuumFit." : ".");
        ps->Set(b + "ismFit", ism[i]);
        ps->Set(b + "igmFit", igm[i]);
      }
      for (auto &t : all[i])
        k.Add(t);
      if (hole[i])
        k.ClearTemplates(CAT[i], 0, 0, 0);
      c.desc << " " << CAT[i] << " method '" << M[m[i]] << "' templates " << all[i].size() << " ism " << ism[i] << " igm " << igm[i] << (hole[i] ? " first one cleared" : "");
    }
    c.desc << " " << method << " " << num(win) << " " << even;
    k.InitContinuumRemoval(ps);
    k.SetIsmIgmCorrection(ps, newM, newC);
    std::string o;
    for (int i = 0; i < 2; i++)
      for (size_t j = 0; j < all[i].size(); j++) {
        c.step();
        if (hole[i] && !j)
          continue;
        auto t = k.GetTemplate(CAT[i], j);
        check(t == all[i][j], "template", "settings/template");
        check(t->GetContinuumEstimationMethod() == method && t->GetMedianWinsize() == win && t->GetMedianEvenReflection() == even, "continuum settings of template " + num(j) + " of " + CAT[i],
              "settings/continuum");
        bool a = m[i] && ism[i], b = m[i] && igm[i];
        auto ec = had[i][j] & 1 ? oldC : a ? newC : nullptr;
        auto em = had[i][j] & 2 ? oldM : b ? newM : nullptr;
        check(t->m_ismCorrectionCalzetti == ec, "extinction of template " + num(j) + " of " + CAT[i], "settings/ism");
        check(t->m_igmCorrectionMeiksin == em, "absorption of template " + num(j) + " of " + CAT[i], "settings/igm");
        o += (a ? "a" : "-") + std::string(b ? "b" : "-") + num(had[i][j]);
      }
    c.outcome(o, !o.empty());
  });
  return H.main(argc, argv);
}
