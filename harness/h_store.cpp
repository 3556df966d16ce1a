// C03 scopes and parameters, C04 result store, C05 warnings.
#include "mc.h"
#include <RedshiftLibrary/common/flag.h>
#include <RedshiftLibrary/linemodel/linemodelextremaresult.h>
#include <RedshiftLibrary/method/classificationresult.h>
#include <RedshiftLibrary/method/reliabilityresult.h>
#include <RedshiftLibrary/method/solve.h>
#include <RedshiftLibrary/operator/extremaresult.h>
#include <RedshiftLibrary/operator/flagResult.h>
#include <RedshiftLibrary/operator/logZPdfResult.h>
#include <RedshiftLibrary/operator/modelphotvalueresult.h>
#include <RedshiftLibrary/operator/modelspectrumresult.h>
#include <RedshiftLibrary/operator/tplcombinationresult.h>
#include <RedshiftLibrary/operator/tplCombinationExtremaResult.h>
#include <RedshiftLibrary/processflow/autoscope.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/processflow/parameterstore.h>
#include <RedshiftLibrary/processflow/resultstore.h>
#include <map>
#include <optional>
#include <set>
using namespace NSEpic;
using namespace mc;
using ST = ScopeType;
static const std::vector<ST> TY = {ST::UNDEFINED, ST::SPECTRUMMODEL, ST::STAGE, ST::METHOD};
static const char *TN[] = {"undefined", "model", "stage", "method"};
// 0 accepted, 1 library error, 2 other error
template <class F> static int outcomeOf(F f, ErrorCode *ec = nullptr) {
  try {
    f();
  } catch (const AmzException &e) {
    if (ec)
      *ec = e.getErrorCode();
    return 1;
  } catch (const std::exception &) {
    return 2;
  }
  return 0;
}
// ------------------------------------------------------------- scope stack
struct Ref {
  std::vector<std::pair<std::string, int>> s; // name, type
  int level(int t) const {
    for (size_t i = 0; i < s.size(); i++)
      if (t && s[i].second == t)
        return i;
    return -1;
  }
  bool can(int t) const {
    switch (t) {
    case 0:
      return true;
    case 1:
      return level(1) < 0 && level(2) < 0;
    case 2:
      return level(2) < 0 && level(3) < 0;
    default:
      return !s.empty() && s.back().second == 2;
    }
  }
  std::string path(size_t n) const {
    std::string r;
    for (size_t i = 0; i < n; i++)
      r += (i ? "." : "") + s[i].first;
    return r;
  }
  std::string name(const std::string &n) const { return name(n, s.size()); }
  std::string name(const std::string &n, size_t d) const { return d == 0 ? n : path(d) + "." + n; }
  std::string canon() const {
    std::string r;
    for (auto &[n, t] : s)
      r += n + ":" + std::to_string(t) + "/";
    return r;
  }
};
static void observe(const CScopeStack &s, const CScopeStore &st, const Ref &r) {
  check(s.size() == r.s.size() && s.empty() == r.s.empty() && st.getScopeDepth() == r.s.size(), "scope depth", "depth");
  for (size_t i = 0; i < r.s.size(); i++)
    check(s[i] == r.s[i].first && s.at(i) == r.s[i].first && *(s.begin() + i) == r.s[i].first, "name of a scope", "names");
  if (!r.s.empty())
    check(s.front() == r.s.front().first && s.back() == r.s.back().first, "first or last scope", "names");
  check(s.get_current_type() == TY[r.s.empty() ? 0 : r.s.back().second], "type of the current scope", "type");
  for (int t = 1; t < 4; t++) {
    int l = r.level(t);
    check(s.has_type(TY[t]) == (l >= 0), std::string("presence of a ") + TN[t] + " scope", "type");
    if (l >= 0) {
      check((int)s.get_type_level(TY[t]) == l && s.get_type_value(TY[t]) == r.s[l].first, std::string("level or name of the ") + TN[t] + " scope", "type");
      check(st.GetScopedNameAt("n", TY[t]) == r.name("n", l + 1), "scoped name at a type", "name");
    } else
      check(outcomeOf([&] { st.GetScopedNameAt("n", TY[t]); }) > 0, "name in a missing scope type is accepted", "name/missing");
  }
  check(st.GetCurrentScopeName() == r.path(r.s.size()) && st.GetScopedName("n") == r.name("n"), "scoped name " + st.GetScopedName("n") + " instead of " + r.name("n"), "name");
  for (int d = 0; d <= (int)r.s.size() + 1; d++) {
    std::string g, n;
    int o = outcomeOf([&] {
      g = st.getCurrentScopeNameAt(d);
      n = st.GetScopedNameAt("n", d);
    });
    check((o == 0) == (d <= (int)r.s.size()), "scope name at depth " + num(d), "name/depth");
    if (!o)
      check(g == r.path(d) && n == r.name("n", d), "scope name at depth " + num(d) + " is " + g, "name/depth");
  }
}
static const std::vector<std::string> NM = {"a", "b"};
struct W3 {
  std::shared_ptr<CScopeStack> s = std::make_shared<CScopeStack>();
  CScopeStore st{s};
  Ref r;
  void apply(int k) { // 0..7 push type k/2 name k%2, 8 pop
    if (k == 8) {
      if (r.s.empty())
        throw NotEnabled();
      s->pop_back();
      r.s.pop_back();
      return;
    }
    int t = k / 2;
    std::string n = NM[k % 2], m = n;
    bool ok = r.can(t);
    ErrorCode ec = ErrorCode::INTERNAL_ERROR;
    int o = outcomeOf(
        [&] {
          if (k % 2)
            s->push_back(n, TY[t]);
          else
            s->push_back(std::move(m), TY[t]);
        },
        &ec);
    check(o == (ok ? 0 : 1), std::string(ok ? "opening a " : "a misplaced ") + TN[t] + (ok ? " scope is refused" : " scope is accepted"), "push");
    check(ok || ec == ErrorCode::SCOPESTACK_ERROR, "error code of a misplaced scope", "push");
    if (ok)
      r.s.push_back({n, t});
  }
};
static std::string showOp3(int k) { return k == 8 ? "pop" : std::string("push ") + NM[k % 2] + " as " + TN[k / 2]; }
// nested automatic scopes with an exception at any point
static void nest(Ctx &c, const std::shared_ptr<CScopeStack> &s, const CScopeStore &st, Ref &r, int depth, int &steps) {
  for (;;) {
    int what = steps > 0 ? c.choose(4) : 0; // leave, open, throw, catch block
    steps--;
    if (what == 0)
      return;
    if (what == 2)
      throw std::runtime_error("injected");
    Ref before = r;
    if (what == 3) {
      c.desc << " try{";
      try {
        nest(c, s, st, r, depth + 1, steps);
      } catch (const std::exception &) {
        c.desc << " !";
        r = before;
        observe(*s, st, r);
      }
      c.desc << " }";
    } else {
      int t = c.choose(4);
      c.desc << " " << TN[t] << "{";
      bool ok = r.can(t), opened = false;
      try {
        CAutoScope a(s, NM[t % 2], TY[t], false);
        opened = true;
        check(ok, "a misplaced scope is accepted", "push");
        r.s.push_back({NM[t % 2], t});
        observe(*s, st, r);
        nest(c, s, st, r, depth + 1, steps);
        c.desc << " }";
      } catch (const AmzException &) {
        if (!opened) {
          check(!ok, "a scope is refused", "push");
          r = before;
          observe(*s, st, r);
          throw;
        }
        throw;
      }
    }
    r = before;
    c.step();
    observe(*s, st, r);
  }
}
static void autoscope(Ctx &c) {
  auto s = std::make_shared<CScopeStack>();
  CScopeStore st(s);
  Ref r;
  int steps = c.thorough ? 7 : 6;
  std::string o = "done";
  try {
    nest(c, s, st, r, 0, steps);
  } catch (const AmzException &) {
    o = "refused";
  } catch (const std::runtime_error &) {
    o = "thrown";
  }
  observe(*s, st, Ref());
  c.outcome(o);
}
// --------------------------------------------------------------- parameters
// definitions of "x" at the nodes of a small tree, looked up from every scope
static const std::vector<std::string> AT = {"", "a", "b", "a.a", "a.b", "a.b.a"};
using Tree = std::map<std::string, std::string>; // path of x -> json value
static std::string json(const Tree &t, const std::string &pre, bool &any) {
  std::string r;
  auto it = t.find(pre);
  if (it != t.end())
    r += "\"x\":" + it->second, any = true;
  for (auto &n : NM) {
    std::string p = pre.empty() ? n : pre + "." + n;
    if (p.size() > 5)
      continue;
    bool sub = false;
    std::string j = json(t, p, sub);
    if (sub)
      r += (r.empty() ? "" : ",") + ("\"" + n + "\":") + j, any = true;
  }
  return "{" + r + "}";
}
template <class T> static std::string got(const CParameterStore &p, const std::string &n, std::function<T(const std::string &)> f, std::string (*show)(const T &)) {
  std::string r;
  ErrorCode ec = ErrorCode::INTERNAL_ERROR;
  int o = outcomeOf([&] { r = show(f(n)); }, &ec);
  return o == 0 ? r : o == 1 ? (ec == ErrorCode::MISSING_PARAMETER ? "missing" : "error") : "crash";
}
static void params(Ctx &c, int kind) {
  // kind 0 numbers, 1 strings, 2 booleans, 3 lists
  auto s = std::make_shared<CScopeStack>();
  CParameterStore p(s);
  Ref r;
  static const std::vector<std::vector<std::string>> VAL = {
      {"1.5", "2.5", "3.5", "4.5", "5.5", "6.5"}, {"u", "v", "w", "q", "r", "s"}, {"true", "false", "true", "false", "true", "false"}, {"[1,2]", "[3]", "[4,5,6]", "[7,8]", "[9,10]", "[11]"}};
  auto value = [&](int i) { return kind == 1 ? "\"" + VAL[1][i] + "\"" : VAL[kind][i]; };
  bool second = c.flip(); // an earlier document must not shine through
  if (second) {
    Tree all;
    for (size_t i = 0; i < AT.size(); i++)
      all[AT[i]] = value(5 - i);
    bool any = false;
    p.FromString(json(all, "", any));
  }
  Tree t;
  for (size_t i = 0; i < AT.size(); i++)
    if (c.flip())
      t[AT[i]] = value(i);
  bool any = false;
  std::string doc = json(t, "", any);
  p.FromString(doc);
  std::map<std::string, std::string> v; // full name -> plain value
  for (size_t i = 0; i < AT.size(); i++)
    if (t.count(AT[i]))
      v[AT[i].empty() ? "x" : AT[i] + ".x"] = VAL[kind][i];
  if (c.flip()) { // a value set at run time
    std::string n = c.pick(std::vector<std::string>{"x", "a.x", "a.b.x"});
    if (kind == 0) {
      p.Set(n, 0.25);
      v[n] = "0.25";
    } else if (kind == 1) {
      p.Set(n, std::string("z"));
      v[n] = "z";
    } else if (kind == 2) {
      p.Set(n, false);
      v[n] = "false";
    } else {
      p.Set(n, TFloat64List{0.5, 0.75});
      v[n] = "[0.5,0.75]";
    }
    c.desc << " set " << n;
  }
  static const std::vector<std::vector<std::pair<std::string, int>>> SC = {
      {}, {{"a", 1}}, {{"b", 1}}, {{"a", 1}, {"a", 2}}, {{"a", 1}, {"b", 2}}, {{"a", 1}, {"b", 2}, {"a", 3}}, {{"b", 0}, {"a", 1}}, {{"a", 0}, {"b", 0}, {"b", 0}}, {{"a", 2}, {"b", 3}}};
  auto sc = c.pick(SC);
  for (auto &[n, ty] : sc)
    s->push_back(n, TY[ty]);
  r.s = sc;
  c.desc << " " << doc << " in " << r.canon();
  auto look = [&](const std::string &n) { return v.count(n) ? v[n] : std::string("missing"); };
  std::function<std::string(const std::string &)> plain, scoped, listscoped;
  std::function<std::string(const std::string &, int)> atDepth;
  std::function<std::string(const std::string &, ST)> atType;
  auto run = [](std::function<std::string()> f) {
    std::string r;
    ErrorCode ec = ErrorCode::INTERNAL_ERROR;
    int o = outcomeOf([&] { r = f(); }, &ec);
    return o == 0 ? r : o == 1 ? std::string(ec == ErrorCode::MISSING_PARAMETER ? "missing" : "error") : std::string("exception");
  };
  auto fl = [](double d) { return num(d); };
  auto ls = [](const TFloat64List &l) {
    std::string s = "[";
    for (size_t i = 0; i < l.size(); i++)
      s += (i ? "," : "") + num(l[i]);
    return s + "]";
  };
  auto bl = [](bool b) { return std::string(b ? "true" : "false"); };
  for (auto n : {"x", "a.x", "b.x", "a.b.x", "y"}) {
    std::string N = n;
    auto get = [&]() {
      return run([&] { return kind == 0 ? fl(p.Get<Float64>(N)) : kind == 1 ? p.Get<std::string>(N) : kind == 2 ? bl(p.Get<bool>(N)) : ls(p.GetList<Float64>(N)); });
    };
    auto gsc = [&]() {
      return run([&] { return kind == 0 ? fl(p.GetScoped<Float64>(N)) : kind == 1 ? p.GetScoped<std::string>(N) : kind == 2 ? bl(p.GetScoped<bool>(N)) : ls(p.GetListScoped<Float64>(N)); });
    };
    check(get() == look(N), "parameter " + N + " is " + get() + " instead of " + look(N), "get");
    check((kind == 0   ? p.Has<Float64>(N)
           : kind == 1 ? p.Has<std::string>(N)
           : kind == 2 ? p.Has<bool>(N)
                       : p.Has<Float64>(N)) == (v.count(N) > 0),
          "existence of " + N, "has");
    std::string full = r.name(N), x = look(full);
    if (kind == 3 && x == "missing")
      x = look(N); // lists fall back to the document root
    check(gsc() == x, "parameter " + N + " in its scope is " + gsc() + " instead of " + x, "scoped");
    check((kind == 0 ? p.HasScoped<Float64>(N) : kind == 1 ? p.HasScoped<std::string>(N) : kind == 2 ? p.HasScoped<bool>(N) : p.HasScoped<Float64>(N)) == (v.count(full) > 0),
          "existence of " + full, "has");
    for (int d = 0; d <= (int)sc.size(); d++) {
      std::string f2 = r.name(N, d);
      check(p.HasScopedAt<std::string>(N, d) == (v.count(f2) > 0), "existence of " + f2, "has");
      if (kind == 3)
        continue;
      auto g = run([&] { return kind == 0 ? fl(p.GetScopedAt<Float64>(N, d)) : kind == 1 ? p.GetScopedAt<std::string>(N, d) : bl(p.GetScopedAt<bool>(N, d)); });
      check(g == look(f2), "parameter " + N + " at depth " + num(d) + " is " + g + " instead of " + look(f2), "depth");
    }
    for (int ty = 1; ty < 4 && kind != 3; ty++) {
      auto g = run([&] { return kind == 0 ? fl(p.GetScopedAt<Float64>(N, TY[ty])) : kind == 1 ? p.GetScopedAt<std::string>(N, TY[ty]) : bl(p.GetScopedAt<bool>(N, TY[ty])); });
      int l = r.level(ty);
      std::string e = l < 0 ? "exception" : look(r.name(N, l + 1));
      check(g == e, "parameter " + N + " in the " + TN[ty] + " scope is " + g + " instead of " + e, "type");
    }
  }
  c.step();
  c.outcome(doc + r.canon());
}
static void sets(Ctx &c) {
  CParameterStore p(std::make_shared<CScopeStack>());
  static const char *N[] = {"a", "a.b", "c"};
  std::map<std::string, std::string> v;
  int n = c.thorough ? 3 : 2;
  for (int i = 0; i < n; i++) {
    std::string k = N[c.choose(3)];
    int t = c.choose(9);
    c.desc << " " << k << "=" << t;
    switch (t) {
    case 0:
      p.Set(k, 0.1 + i);
      break;
    case 1:
      p.Set(k, Int64(1) << (40 + i));
      break;
    case 2:
      p.Set(k, i == 1);
      break;
    case 3:
      p.Set(k, std::string("text "));
      break;
    case 4:
      p.Set(k, TFloat64List{1. / 3, -1e300});
      break;
    case 5:
      p.Set(k, TInt64List{1, -5});
      break;
    case 6:
      p.Set(k, TBoolList{true, false, true});
      break;
    case 7:
      p.Set(k, TStringList{"u", ""});
      break;
    default:
      p.Set(k, TFloat64Range(1.25, 1e7));
    }
    auto bad = [&] { check(false, std::string("value read back differs for ") + k, "set"); };
    if (t == 0 && p.Get<Float64>(k) != 0.1 + i)
      bad();
    if (t == 1 && p.Get<Int64>(k) != Int64(1) << (40 + i))
      bad();
    if (t == 2 && p.Get<bool>(k) != (i == 1))
      bad();
    if (t == 3 && p.Get<std::string>(k) != "text ")
      bad();
    if (t == 4 && p.GetList<Float64>(k) != TFloat64List{1. / 3, -1e300})
      bad();
    if (t == 5 && p.GetList<Int64>(k) != TInt64List{1, -5})
      bad();
    if (t == 6 && p.GetList<bool>(k) != TBoolList{true, false, true})
      bad();
    if (t == 7 && p.GetList<std::string>(k) != TStringList{"u", ""})
      bad();
    if (t == 8 && !(p.Get<TFloat64Range>(k) == TFloat64Range(1.25, 1e7)))
      bad();
    c.step();
  }
  c.outcome("set");
}
// settings derived from several parameters
static void derived(Ctx &c) {
  static const std::vector<std::string> METH = {"", "templateFittingSolve", "tplCombinationSolve", "lineModelSolve"};
  static const std::vector<std::string> CC = {"tplFit", "tplFitAuto", "fromSpectrum", "noContinuum"};
  struct One {
    int m, ism, igm, fft, ratioIsm, cc, ign;
    double step;
  };
  auto tri = [](int v) { return v == 2; };
  CParameterStore p(std::make_shared<CScopeStack>());
  std::string doc = "{";
  std::vector<std::string> cats = {"galaxy", "qso"};
  std::vector<One> o;
  for (int i = 0; i < 2; i++) {
    One x{};
    x.m = c.choose(4);
    if (i == 1 && !c.thorough && x.m == 2)
      throw Skip();
    bool reduced = i == 1 && !c.thorough;
    if (x.m == 1)
      x.ism = reduced ? 1 : c.choose(3), x.igm = reduced ? 2 : c.choose(3), x.fft = c.choose(3);
    if (x.m == 2)
      x.ism = c.choose(3), x.igm = c.choose(3);
    if (x.m == 3) {
      x.ism = reduced ? 2 : c.choose(3), x.igm = reduced ? 0 : c.choose(3), x.fft = c.choose(3), x.ratioIsm = reduced ? 0 : c.choose(3), x.cc = reduced ? 0 : c.choose(4), x.ign = c.choose(2);
    }
    x.step = i ? 2e-4 : c.pick(TFloat64List{1e-4, 3e-4});
    doc += (i ? ",\"" : "\"") + cats[i] + "\":{\"redshiftStep\":" + num(x.step);
    auto b = [&](const char *n, int v) { return v ? std::string("\"") + n + "\":" + (v == 2 ? "true" : "false") + "," : ""; };
    if (x.m) {
      doc += ",\"redshiftSolver\":{\"method\":\"" + METH[x.m] + "\",\"" + METH[x.m] + "\":{";
      if (x.m < 3)
        doc += b("ismFit", x.ism) + b("igmFit", x.igm) + (x.m == 1 ? b("fftProcessing", x.fft) : "") + "\"dummy\":1";
      else
        doc += "\"lineModel\":{" + b("tplRatioIsmFit", x.ratioIsm) + "\"continuumComponent\":\"" + CC[x.cc] + "\",\"continuumFit\":{" + b("ismFit", x.ism) + b("igmFit", x.igm) +
               b("fftProcessing", x.fft) + "\"ignoreLineSupport\":" + (x.ign ? "true" : "false") + "}}";
      doc += "}}";
    }
    doc += "}";
    o.push_back(x);
  }
  doc += "}";
  p.FromString(doc);
  c.desc << doc;
  std::map<std::string, bool> fft;
  bool any = false;
  double step = DBL_MAX;
  for (int i = 0; i < 2; i++) {
    auto &x = o[i];
    check(p.HasTplIsmExtinction(cats[i]) == (tri(x.ism) || tri(x.ratioIsm)), "dust attenuation needed by " + cats[i], "ism");
    check(p.HasTplIgmExtinction(cats[i]) == tri(x.igm), "intergalactic extinction needed by " + cats[i], "igm");
    check(p.HasFFTProcessing(cats[i]) == tri(x.fft), "FFT needed by " + cats[i], "fft");
    bool ortho = x.m == 3 && x.cc < 2;
    check(p.HasToOrthogonalizeTemplates(cats[i]) == ortho, "orthogonalisation needed by " + cats[i], "ortho");
    check(p.EnableTemplateOrthogonalization(cats[i]) == (ortho && !x.ign), "orthogonalisation enabled for " + cats[i], "ortho");
    if (tri(x.fft))
      any = true, step = std::min(step, x.step);
  }
  check(p.hasToLogRebin(cats, fft) == any, "log rebinning needed", "rebin");
  for (int i = 0; i < 2; i++)
    check(fft[cats[i]] == tri(o[i].fft), "FFT per model", "rebin");
  check(p.getMinZStepForFFTProcessing(fft) == step, "smallest FFT step", "step");
  c.step();
  c.outcome(std::to_string(any) + num(step), any);
}
// ------------------------------------------------------------------ results
using Res = std::shared_ptr<const COperatorResult>;
static Res make(int k) {
  switch (k) {
  case 0:
    return std::make_shared<CClassificationResult>();
  case 1:
    return std::make_shared<CFlagLogResult>(5, TWarningMsgList());
  case 2:
    return std::make_shared<CReliabilityResult>();
  default:
    return std::make_shared<CLogZPdfResult>(CZGridListParams(TZGridListParams{CZGridParam(TFloat64Range(0., 1.), 0.5)}), false);
  }
}
static const char *TYPEN[] = {"CClassificationResult", "CFlagLogResult", "CReliabilityResult", "CLogZPdfResult"};
struct Op4 {
  int k;         // 0 scoped store, 1 store at path, 2 store by full name, 3 template, 4 reset, 5 push, 6 pop, 7 flag
  std::string a; // path / scope
  std::string n;
  int t;
};
static std::vector<Op4> OPS4;
struct W4 {
  std::shared_ptr<CScopeStack> s = std::make_shared<CScopeStack>();
  COperatorResultStore st{s};
  Ref r;
  std::map<std::string, std::pair<Res, int>> g;
  std::map<std::string, std::map<std::string, Res>> t;
  std::vector<std::shared_ptr<CTemplate>> tpl;
  size_t limit = 3;
  explicit W4(bool deep = false) {
    for (auto n : {"t0", "t1"})
      tpl.push_back(std::make_shared<CTemplate>(n, "galaxy"));
    if (deep) { // inside the scopes of a method: deeper scopes, flags, results
      limit = 6;
      for (auto &[n, t] : std::vector<std::pair<std::string, int>>{{"outer", 0}, {"gal", 1}, {"s", 2}, {"m", 3}})
        apply({5, n, "", t});
    }
  }
  void put(const std::string &full, const std::function<void(Res)> &f, int ty) {
    Res x = make(ty);
    bool dup = g.count(full);
    int o = outcomeOf([&] { f(x); });
    check(o == (dup ? 1 : 0), dup ? "a second result under the same name is accepted" : "a result is refused", "store");
    if (!dup)
      g[full] = {x, ty};
  }
  void apply(const Op4 &o) {
    auto join = [](const std::string &p, const std::string &n) { return p.empty() ? n : p + "." + n; };
    switch (o.k) {
    case 0:
      put(r.name(o.n), [&](Res x) { st.StoreScopedGlobalResult(o.n, x); }, o.t);
      break;
    case 1:
      put(join(o.a, o.n), [&](Res x) { st.StoreGlobalResult(o.a, o.n, x); }, o.t);
      break;
    case 2:
      put(o.n, [&](Res x) { st.StoreGlobalResult(o.n, x); }, o.t);
      break;
    case 3: {
      auto &m = t[tpl[o.t]->GetName()];
      std::string full = r.name(o.n);
      Res x = make(0);
      bool dup = m.count(full);
      int q = outcomeOf([&] { st.StoreScopedPerTemplateResult(tpl[o.t], o.n, x); });
      check(q == (dup ? 1 : 0), "per-template storage", "template");
      if (!dup)
        m[full] = x;
      break;
    }
    case 4:
      st.reset();
      g.clear();
      t.clear();
      break;
    case 5:
      if (!r.can(o.t) || r.s.size() >= limit)
        throw NotEnabled();
      s->push_back(o.a, TY[o.t]);
      r.s.push_back({o.a, o.t});
      break;
    case 6:
      if (r.s.empty())
        throw NotEnabled();
      s->pop_back();
      r.s.pop_back();
      break;
    case 7: {
      Flag.resetFlag();
      Flag.warning(WarningCode::PDF_PEAK_NOT_FOUND, std::string("w"));
      std::string full = r.name("warningFlag");
      bool dup = g.count(full);
      int q = outcomeOf([&] { st.StoreScopedFlagResult("warningFlag"); });
      Flag.resetFlag();
      check(q == (dup ? 1 : 0), "storing the flags", "flag");
      if (!dup) {
        auto x = st.GetScopedGlobalResult("warningFlag").lock();
        auto f = std::dynamic_pointer_cast<const CFlagLogResult>(x);
        check(f && f->flagValue == 2 && f->msgList.size() == 1 && f->msgList[0].second == "w", "stored flags", "flag");
        g[full] = {x, 1};
      }
    }
    }
  }
  void observe() {
    for (std::string m : {"", "gal", "star"})
      for (std::string sg : {"", "s", "p"})
        for (std::string me : {"", "m"})
          for (std::string n : {"r", "solveResult", "warningFlag", "m.r", "s.m.r"}) {
            std::string full = m;
            for (auto &p : {sg, me, n})
              if (!p.empty())
                full += (full.empty() ? "" : ".") + p;
            auto it = g.find(full);
            bool has = it != g.end();
            check(st.HasDataset(m, sg, me, n) == has, "existence of " + full, "has");
            check(st.hasSolveResult(m, sg, me) == (g.count(st.buildFullname(m, sg, me, "solveResult")) > 0), "existence of a solver result", "has");
            check(st.buildFullname(m, sg, me, n) == full, "full name", "name");
            std::string ty;
            std::array<const void *, 4> q{};
            int o = outcomeOf([&] {
              ty = st.GetGlobalResultType(m, sg, me, n);
              q[0] = dynamic_cast<const void *>(st.GetClassificationResult(m, sg, me, n).get());
              q[1] = dynamic_cast<const void *>(st.GetFlagLogResult(m, sg, me, n).get());
              q[2] = dynamic_cast<const void *>(st.GetReliabilityResult(m, sg, me, n).get());
              q[3] = dynamic_cast<const void *>(st.GetLogZPdfResult(m, sg, me, n).get());
            });
            check((o == 0) == has, "look-up of " + full, "get");
            if (!has)
              continue;
            check(ty == TYPEN[it->second.second], "type of " + full + " is " + ty, "type");
            for (int i = 0; i < 4; i++)
              check(q[i] == (i == it->second.second ? dynamic_cast<const void *>(it->second.first.get()) : nullptr), "look-up of " + full + " returns another result", "get");
            if (n == "solveResult")
              check(st.GetSolveResult(m, sg, me).lock() == it->second.first, "solver result", "get");
          }
    // from the current scope
    for (std::string n : {"r", "solveResult", "m.r"}) {
      auto it = g.find(r.name(n));
      Res x;
      int o = outcomeOf([&] { x = st.GetScopedGlobalResult(n).lock(); });
      check((o == 0) == (it != g.end()), "look-up of " + n + " from its scope", "scoped");
      if (!o)
        check(x == it->second.first, "look-up from the scope returns another result", "scoped");
      auto all = st.GetScopedPerTemplateResult(n);
      std::map<std::string, Res> ref;
      for (auto &[tn, m] : t)
        if (m.count(r.name(n)))
          ref[tn] = m[r.name(n)];
      check(all.size() == ref.size(), "number of per-template results", "template");
      for (auto &[tn, y] : ref)
        check(all[tn] == y, "per-template result", "template");
      for (auto &tp : tpl) {
        Res z;
        int q = outcomeOf([&] { z = st.GetScopedPerTemplateResult(tp, n).lock(); });
        check((q == 0) == (ref.count(tp->GetName()) > 0), "look-up of a template result", "template");
        if (!q)
          check(z == ref[tp->GetName()], "template result", "template");
      }
    }
    if (r.level(3) >= 0)
      check(st.hasCurrentMethodWarningFlag() == (g.count(r.name("warningFlag", r.level(3) + 1)) > 0), "warning flag of the method", "flag");
    check(st.hasContextWarningFlag() == (g.count("context_warningFlag") > 0) && st.hasInitWarningFlag() == (g.count("init_warningFlag") > 0), "context or init flags", "flag");
  }
  std::string canon() {
    std::string c = r.canon() + "|";
    for (auto &[k, v] : g)
      c += k + ":" + std::to_string(v.second) + ";";
    for (auto &[k, m] : t)
      for (auto &[n, x] : m)
        c += k + "/" + n + ";";
    return c;
  }
};
static std::string show(const Op4 &o) {
  static const char *K[] = {"store here", "store at ", "store as", "store for template", "reset", "enter", "leave", "store flags"};
  return std::string(K[o.k]) + " " + o.a + " " + o.n + " " + std::to_string(o.t);
}
// datasets of redshift candidates
template <class R, class T> static std::shared_ptr<R> cands(int n, std::vector<std::shared_ptr<const T>> &out) {
  TCandidateZbyRank z;
  for (int i = 0; i < n; i++) {
    auto c = std::make_shared<TCandidateZ>();
    c->Redshift = 1 + i;
    z.push_back({"id" + std::to_string(i), c});
  }
  auto r = std::make_shared<R>(z);
  for (int i = 0; i < n; i++)
    out.push_back(r->m_ranked_candidates[i].second);
  return r;
}
static void candidates(Ctx &c) {
  auto s = std::make_shared<CScopeStack>();
  COperatorResultStore st(s);
  int n = 1 + c.choose(3), kind = c.choose(3);
  c.desc << n << " candidates of kind " << kind;
  std::vector<std::shared_ptr<const TExtremaResult>> a;
  std::vector<std::shared_ptr<const TLineModelResult>> b;
  std::vector<std::shared_ptr<const TTplCombinationResult>> t;
  std::vector<std::shared_ptr<const CModelSpectrumResult>> mod, con;
  std::vector<std::shared_ptr<const CLineModelSolution>> sol;
  for (int i = 0; i < n; i++) {
    mod.push_back(std::make_shared<CModelSpectrumResult>());
    con.push_back(std::make_shared<CModelSpectrumResult>());
    sol.push_back(std::make_shared<CLineModelSolution>());
  }
  std::shared_ptr<COperatorResult> r;
  std::set<std::string> sets = {"model_parameters", "model", "PhotometricModel"};
  if (kind == 0) {
    auto x = cands<ExtremaResult>(n, a);
    x->m_savedModelSpectrumResults = mod;
    r = x;
  } else if (kind == 1) {
    auto x = cands<LineModelExtremaResult>(n, b);
    x->m_savedModelSpectrumResults = mod;
    x->m_savedModelContinuumSpectrumResults = con;
    x->m_savedModelFittingResults = sol;
    for (auto d : {"continuum", "fitted_lines", "fp_fitted_lines", "line_mask", "continuum_polynom"})
      sets.insert(d);
    r = x;
  } else {
    auto x = cands<TplCombinationExtremaResult>(n, t);
    x->m_savedModelSpectrumResults = mod;
    r = x;
    sets = {"model_parameters", "model"};
  }
  st.StoreGlobalResult("gal.s.m", "extrema_results", r);
  check(st.getNbRedshiftCandidates("gal", "s", "m") == n, "number of candidates", "cand/number");
  check(outcomeOf([&] { st.getNbRedshiftCandidates("star", "s", "m"); }) == 1, "candidates of a missing result", "cand/number");
  for (std::string d : {"model_parameters", "model", "continuum", "fitted_lines", "fp_fitted_lines", "line_mask", "continuum_polynom", "nothing"}) {
    bool has = sets.count(d);
    check(st.HasCandidateDataset("gal", "s", "m", "extrema_results", d) == has, "existence of dataset " + d, "cand/has");
    check(!st.HasCandidateDataset("star", "s", "m", "extrema_results", d), "dataset of a missing result", "cand/has");
    std::string ty;
    check((outcomeOf([&] { ty = st.GetCandidateResultType("gal", "s", "m", "extrema_results", d); }) == 0) == has, "type of dataset " + d, "cand/type");
    for (int i = 0; i < n && has; i++) {
      c.step();
      if (d == "model" || d == "continuum") {
        auto g = st.GetModelSpectrumResult("gal", "s", "m", "extrema_results", d, i);
        check(g == (d == "model" ? mod : con)[i] && ty == g->getType(), d + " of candidate " + num(i), "cand/get");
      } else if (d == "fitted_lines" || d == "fp_fitted_lines")
        check(st.GetLineModelSolution("gal", "s", "m", "extrema_results", d, i) == sol[i] && ty == sol[i]->getType(), d + " of candidate " + num(i), "cand/get");
      else if (kind == 0)
        check(st.GetExtremaResult("gal", "s", "m", "extrema_results", d, i) == a[i] && a[i]->Redshift == 1 + i && ty == a[i]->getType(), d + " of candidate " + num(i), "cand/get");
      else if (kind == 1)
        check(st.GetLineModelResult("gal", "s", "m", "extrema_results", d, i) == b[i] && b[i]->Redshift == 1 + i && ty == b[i]->getType(), d + " of candidate " + num(i), "cand/get");
      else
        check(st.GetTplCombinationResult("gal", "s", "m", "extrema_results", d, i) == t[i] && t[i]->Redshift == 1 + i && ty == t[i]->getType(), d + " of candidate " + num(i), "cand/get");
    }
  }
  c.outcome(std::to_string(kind) + std::to_string(n));
}
// ----------------------------------------------------------------- warnings
static const std::vector<WarningCode> WC = {WarningCode::AIR_VACUUM_CONVERSION_IGNORED, WarningCode::PDF_PEAK_NOT_FOUND, WarningCode::MULTI_OBS_ARBITRARY_LSF};
class Stub : public CSolve {
public:
  Stub(const std::string &n, const std::vector<int> &w, int fail) : CSolve(n), m_w(w), m_fail(fail) {}
  std::vector<int> m_w;
  int m_fail; // 0 no, 1 library error, 2 other
  std::shared_ptr<CSolveResult> compute() override {
    for (size_t i = 0; i < m_w.size(); i++) {
      if (i % 2)
        Flag.warning(WC[m_w[i]], std::string("message ") + std::to_string(m_w[i]));
      else
        Flag.warning(WC[m_w[i]], "message %d", m_w[i]);
    }
    if (m_fail == 1)
      THROWG(ErrorCode::INTERNAL_ERROR, "injected");
    if (m_fail == 2)
      throw std::runtime_error("injected");
    return std::make_shared<CClassificationRes>();
  }
  struct CClassificationRes : public CSolveResult {
    CClassificationRes() : CSolveResult("stub") {}
  };
};
using Warns = std::vector<int>;
static void cmpFlags(const CFlagLogResult &f, const Warns &w, const std::string &what) {
  int mask = 0;
  for (int i : w)
    mask |= 1 << int(WC[i]);
  check(f.flagValue == mask, what + ": warning mask " + num(f.flagValue) + " instead of " + num(mask), "mask");
  check(f.msgList.size() == w.size(), what + ": " + num(f.msgList.size()) + " warnings instead of " + num(w.size()), "messages");
  for (size_t i = 0; i < w.size(); i++)
    check(f.msgList[i].first == WC[w[i]] && f.msgList[i].second == "message " + std::to_string(w[i]), what + ": warning " + num(i), "messages");
}
// ops: 0-2 warning outside of a stage, 3.. stage k with warnings and outcome, then store-and-reset, new spectrum
static const std::vector<Warns> WS = {{}, {0}, {1}, {2, 1}, {1, 1}};
struct W5 {
  std::map<std::string, Warns> g;
  Warns pend;
  std::string model;
  std::shared_ptr<CScopeStack> s;
  int nops() const { return 3 + 2 * 3 * (int)WS.size() + 3; }
  W5() : s(Context.m_ScopeStack) {
    Context.reset();
    Flag.resetFlag();
  }
  void apply(int k) {
    auto &rs = Context.GetResultStore();
    if (k < 3) {
      Flag.warning(WC[k], std::string("message ") + std::to_string(k));
      pend.push_back(k);
      if (pend.size() > 2)
        throw NotEnabled();
      return;
    }
    k -= 3;
    int ns = 2 * 3 * WS.size();
    if (k < ns) {
      std::string m = k % 2 ? "star" : "galaxy";
      int fail = (k / 2) % 3;
      auto &w = WS[k / 6];
      std::string key = m + ".redshiftSolver.stub.warningFlag";
      if (g.count(key))
        throw NotEnabled();
      Warns x = pend;
      x.insert(x.end(), w.begin(), w.end());
      int o;
      {
        CAutoScope a(s, m, ScopeType::SPECTRUMMODEL, false), b(s, "redshiftSolver", ScopeType::STAGE, false);
        Stub st("stub", w, fail);
        o = outcomeOf([&] { st.Compute(); });
        check(o == fail, "outcome of a stage", "outcome");
        check(s->size() == 2, "scopes of a stage are not closed", "scope");
      }
      check(rs->hasSolveResult(m, "redshiftSolver", "stub") == (fail == 0), "result of a stage stored although it failed, or lost", "result");
      g[key] = x;
      pend.clear();
      return;
    }
    k -= ns;
    if (k == 0) { // flags of a phase outside of the solvers
      if (g.count("init_warningFlag"))
        throw NotEnabled();
      rs->StoreScopedFlagResult("init_warningFlag");
      Flag.resetFlag();
      g["init_warningFlag"] = pend;
      pend.clear();
    } else if (k == 1) {
      Flag.resetFlag();
      pend.clear();
    } else { // next spectrum
      Context.reset();
      g.clear();
    }
  }
  void observe() {
    auto &rs = Context.GetResultStore();
    for (std::string key : {"galaxy", "star", ""}) {
      std::string full = key.empty() ? "init_warningFlag" : key + ".redshiftSolver.stub.warningFlag";
      bool has = key.empty() ? rs->hasInitWarningFlag() : rs->HasDataset(key, "redshiftSolver", "stub", "warningFlag");
      check(has == (g.count(full) > 0), "flags of " + full + (has ? " appear from nowhere" : " are missing"), "has");
      if (has)
        cmpFlags(key.empty() ? *rs->GetFlagLogResult("", "", "", "init_warningFlag") : *rs->GetFlagLogResult(key, "redshiftSolver", "stub", "warningFlag"), g[full], full);
    }
    cmpFlags(CFlagLogResult(Flag.getBitMask(), Flag.getListMessages()), pend, "pending warnings");
  }
  std::string canon() {
    std::string c;
    for (auto &[k, w] : g) {
      c += k + "=";
      for (int i : w)
        c += char('0' + i);
      c += ";";
    }
    for (int i : pend)
      c += char('0' + i);
    return c;
  }
};
static std::string showOp5(int k) {
  if (k < 3)
    return "warning " + std::to_string(k);
  k -= 3;
  if (k < 6 * (int)WS.size()) {
    std::string w;
    for (int i : WS[k / 6])
      w += std::to_string(i);
    return std::string(k % 2 ? "star" : "galaxy") + " stage with warnings [" + w + "] " + ((k / 2) % 3 ? "fails" : "succeeds");
  }
  k -= 6 * (int)WS.size();
  return k == 0 ? "store init flags" : k == 1 ? "reset flags" : "next spectrum";
}
static void codes(Ctx &c) { // every pair of codes
  int a = c.choose(18), b = c.choose(18);
  c.desc << a << " " << b;
  Flag.resetFlag();
  Flag.warning(WarningCode(a), std::string("m"));
  check(Flag.getBitMask() == (1 << a), "bit of a warning", "mask");
  Flag.warning(WarningCode(b), "m%d", b);
  check(Flag.getBitMask() == ((1 << a) | (1 << b)), "bits of two warnings", "mask");
  check(Flag.getListMessages().size() == 2 && Flag.getListMessages()[1].second == "m" + std::to_string(b), "messages", "messages");
  Flag.resetFlag();
  check(Flag.getBitMask() == 0 && Flag.getListMessages().empty(), "flags after reset", "reset");
  c.step();
  c.outcome(a == b ? "same" : "different");
}
int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  std::string which;
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]).rfind("--c0", 0) == 0)
      which = argv[i];
  bool thorough = false;
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]) == "thorough")
      thorough = true;
  Harness H;
  if (which == "--c03") {
    H.addBfs("stack", 9, thorough ? 8 : 6,
             [](const std::vector<int> &h) {
               W3 w;
               for (int k : h)
                 w.apply(k);
               observe(*w.s, w.st, w.r);
               return w.r.canon();
             },
             [](const std::vector<int> &h) {
               std::string s;
               for (int k : h)
                 s += showOp3(k) + "; ";
               return s;
             });
    H.add("autoscope", autoscope);
    H.add("numbers", [](Ctx &c) { params(c, 0); });
    H.add("strings", [](Ctx &c) { params(c, 1); });
    H.add("booleans", [](Ctx &c) { params(c, 2); });
    H.add("lists", [](Ctx &c) { params(c, 3); });
    H.add("set", sets);
    H.add("derived", derived);
  } else if (which == "--c04") {
    for (auto n : {"r", "solveResult", "m.r"})
      OPS4.push_back({0, "", n, n[0] == 's' ? 0 : 3});
    OPS4.push_back({0, "", "r", 2});
    OPS4.push_back({1, "gal.s.m", "r", 0});
    OPS4.push_back({1, "gal.s", "m.r", 2});
    OPS4.push_back({1, "", "s.m.r", 0});
    OPS4.push_back({2, "", "gal.s.m.r", 3});
    OPS4.push_back({2, "", "r", 0});
    OPS4.push_back({3, "", "r", 0});
    OPS4.push_back({3, "", "r", 1});
    OPS4.push_back({4, "", "", 0});
    OPS4.push_back({5, "gal", "", 1});
    OPS4.push_back({5, "star", "", 1});
    OPS4.push_back({5, "s", "", 2});
    OPS4.push_back({5, "m", "", 3});
    OPS4.push_back({6, "", "", 0});
    OPS4.push_back({7, "", "", 0});
    auto deepOps = std::vector<Op4>{{0, "", "r", 3}, {0, "", "solveResult", 0}, {2, "", "gal.s.m.r", 3}, {3, "", "r", 0}, {4, "", "", 0}, {5, "x", "", 0}, {6, "", "", 0}, {7, "", "", 0}};
    deepOps.push_back({1, "outer.gal.s.m", "warningFlag", 1});
    deepOps.push_back({2, "", "context_warningFlag", 1});
    static const auto OPSD = deepOps;
    for (bool deep : {false, true}) {
      auto &ops = deep ? OPSD : OPS4;
      H.addBfs(deep ? "deep" : "store", ops.size(), thorough ? 7 : 5,
               [deep, &ops](const std::vector<int> &h) {
                 W4 w(deep);
                 for (int k : h)
                   w.apply(ops[k]);
                 w.observe();
                 return w.canon();
               },
               [deep, &ops](const std::vector<int> &h) {
                 std::string s = deep ? "inside outer, gal, s, m: " : "";
                 for (int k : h)
                   s += show(ops[k]) + "; ";
                 return s;
               });
    }
    H.add("candidates", candidates);
  } else {
    H.addBfs("flags", W5().nops(), thorough ? 6 : 4,
             [](const std::vector<int> &h) {
               W5 w;
               for (int k : h)
                 w.apply(k);
               w.observe();
               return w.canon();
             },
             [](const std::vector<int> &h) {
               std::string s;
               for (int k : h)
                 s += showOp5(k) + "; ";
               return s;
             });
    H.add("codes", codes);
  }
  return H.main(argc, argv);
}
