// Bounded exhaustive explorer used by every C++ harness in /verif.
//
//  * stateless exploration: a body asks ctx.choose(n) for every decision; the
//    explorer re-runs it for EVERY sequence of answers (depth-first, no
//    sampling, no dropped branch).  A case is identified by its choice list.
//  * explicit-state search: bfs() explores operation histories breadth first
//    over the real object, merging histories whose canonical state is equal.
//
// The choice list / history of the execution in progress is kept in a shared
// mapping, so that the driver can name and replay the case that crashed or hung.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation : std::exception {
  std::string msg, sig;
  Violation(std::string m, std::string s = "") : msg(m), sig(s) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
struct NotEnabled {};
struct Skip {};

inline std::string num(double v) {
  std::ostringstream o;
  o << std::setprecision(17) << v;
  return o.str();
}
template <class V> inline std::string vec(const V &v) {
  std::ostringstream o;
  o << "[";
  bool f = true;
  for (auto const &x : v) {
    if (!f)
      o << ",";
    f = false;
    o << std::setprecision(12) << x;
  }
  o << "]";
  return o.str();
}
inline uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

struct Ctx {
  std::vector<int> path, width;
  size_t pos = 0;
  bool replay = false;
  long leaf = 0;
  int shard = 0, nshards = 1;
  bool thorough = false;
  std::ostringstream desc; // human readable form of the case
  std::string outc;
  bool nontriv = false;
  long steps = 0;

  int choose(int n) {
    if (n <= 0)
      throw std::logic_error("choose(0)");
    if (pos == path.size()) {
      if (replay)
        throw std::logic_error("replay diverged: more choices than recorded");
      path.push_back(0);
      width.push_back(n);
    } else if (pos >= width.size()) {
      width.push_back(n);
    } else if (width[pos] != n)
      throw std::logic_error("exploration diverged: branching changed");
    if (path[pos] >= n)
      throw std::logic_error("replay diverged: choice out of range");
    return path[pos++];
  }
  bool flip() { return choose(2) == 1; }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[choose((int)v.size())];
  }
  // call once every choice of the case is made, before the expensive part
  void mine() {
    if (replay)
      return;
    if ((leaf++) % nshards != shard)
      throw Skip();
  }
  void outcome(const std::string &s, bool nontrivial = true) {
    outc += s;
    outc += '|';
    nontriv = nontriv || nontrivial;
  }
  void step(long n = 1) { steps += n; }
};

// shared record of the execution in progress
struct Cur {
  char suite[64];
  int n;
  int v[4000];
};
inline Cur *&cur() {
  static Cur *c = nullptr;
  return c;
}
inline void setcur(const std::vector<int> &h) {
  Cur *c = cur();
  int n = std::min<size_t>(h.size(), 4000);
  c->n = n;
  for (int i = 0; i < n; i++)
    c->v[i] = h[i];
}

struct Stats {
  long evaluations = 0, states = 0, transitions = 0, nviol = 0, nontrivial = 0;
  long steps = 0;
  bool capped = false;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples, viols;
  std::set<std::string> sigs;
};

inline std::string pathstr(const std::vector<int> &p) {
  std::ostringstream o;
  for (size_t i = 0; i < p.size(); i++)
    o << (i ? "." : "") << p[i];
  return o.str();
}

struct Harness {
  std::string out, replayid, only;
  int shard = 0, nshards = 1;
  bool thorough = false;
  struct Suite {
    std::string name;
    std::function<void(Ctx &)> body;              // stateless
    std::function<void(Harness &, Suite &, Stats &)> custom; // bfs
    std::function<void(const std::vector<int> &)> rerun;
  };
  std::vector<Suite> suites;

  void add(const std::string &n, std::function<void(Ctx &)> b) {
    suites.push_back({n, b, nullptr, nullptr});
  }

  void record(Stats &st, const std::string &suite, const std::vector<int> &p,
              const std::string &msg, const std::string &sig,
              const std::string &desc) {
    st.nviol++;
    std::string s = sig.empty() ? suite : sig;
    // keep the first case of every signature, and at most 40 in all
    if ((st.sigs.insert(s).second && st.viols.size() < 200) ||
        st.viols.size() < 10) {
      st.viols.push_back("{\"case\":" + jstr(suite + ":" + pathstr(p)) +
                         ",\"sig\":" + jstr(s) + ",\"msg\":" + jstr(msg) +
                         ",\"desc\":" + jstr(desc) + "}");
    }
  }

  // one execution; returns false when it was skipped
  bool one(Suite &s, Ctx &c, Stats &st) {
    setcur(c.path);
    try {
      s.body(c);
    } catch (Skip &) {
      return false;
    } catch (Violation &v) {
      record(st, s.name, c.path, v.msg, v.sig, c.desc.str());
    } catch (std::logic_error &e) {
      if (std::string(e.what()).find("diverged") != std::string::npos) {
        std::cerr << "harness error: " << e.what() << " in " << s.name << "\n";
        std::exit(3);
      }
      record(st, s.name, c.path, std::string("unexpected exception: ") + e.what(),
             s.name + "/exception", c.desc.str());
    } catch (std::exception &e) {
      record(st, s.name, c.path, std::string("unexpected exception: ") + e.what(),
             s.name + "/exception", c.desc.str());
    }
    st.evaluations++;
    st.steps += c.steps;
    if (c.nontriv) {
      st.nontrivial++;
      if (st.outcomes.size() < 300000)
        st.outcomes.insert(fnv(s.name + c.outc));
    }
    if (st.samples.size() < 3 || (st.samples.size() < 6 && c.nontriv &&
                                  (st.evaluations & (st.evaluations - 1)) == 0))
      if (!c.desc.str().empty())
        st.samples.push_back(s.name + ": " + c.desc.str().substr(0, 600));
    return true;
  }

  void explore(Suite &s, Stats &st) {
    std::vector<int> path;
    std::vector<int> width;
    long leaf = 0;
    for (;;) {
      Ctx c;
      c.path = path;
      c.width = width;
      c.shard = shard;
      c.nshards = nshards;
      c.leaf = leaf;
      c.thorough = thorough;
      // make the choices visible to the driver while they are being made
      one(s, c, st);
      leaf = c.leaf;
      if (c.pos < c.path.size()) {
        std::cerr << "harness error: exploration diverged (fewer choices) in "
                  << s.name << "\n";
        std::exit(3);
      }
      path = c.path;
      width = c.width;
      while (!path.empty() && path.back() + 1 >= width.back()) {
        path.pop_back();
        width.pop_back();
      }
      if (path.empty())
        break;
      path.back()++;
    }
  }

  // Breadth-first search over histories of operations 0..nops-1.
  // run(hist) builds fresh objects, replays hist, checks every step against
  // the reference, and returns the canonical state; throws NotEnabled when the
  // last operation is not enabled.
  void addBfs(const std::string &name, int nops, int depth,
              std::function<std::string(const std::vector<int> &)> run,
              std::function<std::string(const std::vector<int> &)> describe,
              long cap = 4000000) {
    Suite s;
    s.name = name;
    s.rerun = [run](const std::vector<int> &h) { run(h); };
    s.custom = [=](Harness &H, Suite &S, Stats &st) {
      std::unordered_set<std::string> seen;
      std::deque<std::vector<int>> q;
      std::vector<int> h0;
      auto guard = [&](const std::vector<int> &h, std::string &canon) -> int {
        setcur(h);
        try {
          canon = run(h);
          return 1;
        } catch (NotEnabled &) {
          return 0;
        } catch (Violation &v) {
          H.record(st, S.name, h, v.msg, v.sig, describe(h));
        } catch (std::exception &e) {
          H.record(st, S.name, h, std::string("unexpected exception: ") + e.what(),
                   S.name + "/exception", describe(h));
        }
        return -1;
      };
      std::string c;
      if (guard(h0, c) == 1) {
        seen.insert(c);
        q.push_back(h0);
      }
      while (!q.empty()) {
        std::vector<int> h = q.front();
        q.pop_front();
        if ((int)h.size() >= depth)
          continue;
        for (int op = 0; op < nops; op++) {
          std::vector<int> n = h;
          n.push_back(op);
          std::string cn;
          int r = guard(n, cn);
          if (r == 0)
            continue;
          st.evaluations++;
          st.transitions++;
          st.nontrivial++;
          if (st.samples.size() < 6 && (st.transitions & (st.transitions - 1)) == 0)
            st.samples.push_back(S.name + ": " + describe(n));
          if (r < 0)
            continue;
          if (seen.insert(cn).second) {
            if (st.outcomes.size() < 300000)
              st.outcomes.insert(fnv(S.name + cn));
            if ((long)seen.size() > cap) {
              st.capped = true;
              break;
            }
            q.push_back(n);
          }
        }
        if (st.capped)
          break;
        if (st.nviol > 2000)
          break; // broken beyond doubt
      }
      st.states += seen.size();
    };
    suites.push_back(s);
  }

  int main(int argc, char **argv) {
    std::string curfile;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto nxt = [&]() { return std::string(argv[++i]); };
      if (a == "--out")
        out = nxt();
      else if (a == "--cur")
        curfile = nxt();
      else if (a == "--replay")
        replayid = nxt();
      else if (a == "--only")
        only = nxt();
      else if (a == "--shard") {
        std::string s = nxt();
        sscanf(s.c_str(), "%d/%d", &shard, &nshards);
      } else if (a == "--tier")
        thorough = nxt() == "thorough";
    }
    if (curfile.empty()) {
      cur() = (Cur *)calloc(1, sizeof(Cur));
    } else {
      int fd = open(curfile.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd < 0 || ftruncate(fd, sizeof(Cur)) != 0) {
        perror("cur");
        return 3;
      }
      cur() = (Cur *)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (!replayid.empty())
      return doReplay();
    std::ofstream o(out);
    o << "{\"suites\":[";
    bool first = true;
    int idx = -1;
    for (auto &s : suites) {
      idx++;
      if (!only.empty() && s.name != only)
        continue;
      snprintf(cur()->suite, sizeof cur()->suite, "%s", s.name.c_str());
      cur()->n = 0;
      Stats st;
      if (s.custom) {
        if (idx % nshards != shard)
          continue;
        s.custom(*this, s, st);
      } else
        explore(s, st);
      o << (first ? "" : ",") << "{\"name\":" << jstr(s.name)
        << ",\"evaluations\":" << st.evaluations << ",\"states\":" << st.states
        << ",\"transitions\":" << st.transitions << ",\"steps\":" << st.steps
        << ",\"nontrivial\":" << st.nontrivial << ",\"nviol\":" << st.nviol
        << ",\"capped\":" << (st.capped ? "true" : "false") << ",\"samples\":[";
      for (size_t i = 0; i < st.samples.size(); i++)
        o << (i ? "," : "") << jstr(st.samples[i]);
      o << "],\"violations\":[";
      for (size_t i = 0; i < st.viols.size(); i++)
        o << (i ? "," : "") << st.viols[i];
      o << "],\"outcomes\":[";
      size_t i = 0;
      for (auto h : st.outcomes)
        o << (i++ ? "," : "") << "\"" << std::hex << h << std::dec << "\"";
      o << "]}";
      first = false;
    }
    o << "]}\n";
    o.close();
    return o.fail() ? 3 : 0;
  }

  int doReplay() {
    size_t k = replayid.find(':');
    std::string name = replayid.substr(0, k), rest = replayid.substr(k + 1);
    std::vector<int> p;
    std::stringstream ss(rest);
    std::string t;
    while (std::getline(ss, t, '.'))
      if (!t.empty())
        p.push_back(atoi(t.c_str()));
    for (auto &s : suites)
      if (s.name == name) {
        snprintf(cur()->suite, sizeof cur()->suite, "%s", s.name.c_str());
        std::string desc;
        try {
          if (s.custom)
            s.rerun(p);
          else {
            Ctx c;
            c.path = p;
            // a crash may have been recorded before its last choices were
            // made: those default to 0 exactly as in the exploration
            c.replay = false;
            c.nshards = 1;
            c.thorough = thorough;
            try {
              s.body(c);
            } catch (...) {
              std::cout << "CASE " << c.desc.str() << "\n";
              throw;
            }
            std::cout << "CASE " << c.desc.str() << "\n";
          }
        } catch (Violation &v) {
          std::cout << "REPLAY-VIOLATION " << v.msg << "\n";
          return 1;
        } catch (Skip &) {
          std::cout << "REPLAY-SKIP\n";
          return 0;
        } catch (NotEnabled &) {
          std::cout << "REPLAY-NOTENABLED\n";
          return 0;
        } catch (std::exception &e) {
          std::cout << "REPLAY-VIOLATION unexpected exception: " << e.what() << "\n";
          return 1;
        }
        std::cout << "REPLAY-OK\n";
        return 0;
      }
    std::cerr << "no such suite " << name << "\n";
    return 3;
  }
};

inline void check(bool ok, const std::string &msg, const std::string &sig = "") {
  if (!ok)
    throw Violation(msg, sig);
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (a == b)
    return true;
  if (std::isnan(a) && std::isnan(b))
    return true;
  if (!std::isfinite(a) || !std::isfinite(b))
    return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
} // namespace mc
#endif
