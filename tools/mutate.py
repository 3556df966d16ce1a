#!/usr/bin/env python3
"""Mutation study of the checks (development tool, not a check). Run with a scratch copy mounted as /repo:
     mutate.py LOG N PID[,PID..] FILE...      tries N mutants spread over each FILE
A mutant is reported as caught (by which check), killed by the repository's tests, or SURVIVOR (diff logged)."""
import re, sys, os, subprocess, hashlib, json
R = "/repo/"
RULES = [(r"(?<![<>\-=!])<(?![<=])(?=\s)", "<="), (r"(?<=\s)<=", "<"), (r"(?<![<>\-=!])>(?![>=])(?=\s)", ">="), (r"(?<=\s)>=", ">"),
         (r"==", "!="), (r"!=", "=="), (r" \+ 1\b(?!\.)", ""), (r" - 1\b(?!\.)", ""), (r"(?<=[\w\])]) \+ (?=[\w(])", " - "),
         (r"(?<=[\w\])]) - (?=[\w(])", " + "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"std::max\b", "std::min"), (r"std::min\b", "std::max"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"),
         (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
         (r"(?<=[\w\])]) \* (?=[\w(])", " / "), (r"(?<=[\w\])]) / (?=[\w(])", " * "), (r"\bif \((?!constexpr)(.*)\) \{?$", None),
         (r"= 0;", "= 1;"), (r"\bi = 0\b", "i = 1"), (r"GetBegin\(\)", "GetEnd()"), (r"GetEnd\(\)", "GetBegin()")]
PYR = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" and ", " or "),
       (r" or ", " and "), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bnot ", ""), (r" \+ 1\b", ""), (r" - 1\b", ""),
       (r" in ", " not in "), (r" not in ", " in "), (r"\[0\]", "[-1]"), (r"\bcontinue\b", "pass"), (r"\bbreak\b", "pass"), (r" \+ ", " - "), (r" \* ", " / ")]

def cands(path):
    L = open(R + path).read().split("\n")
    py = path.endswith(".py")
    out = []
    doc = False
    for i, l in enumerate(L):
        s = l.strip()
        if py:
            if s.count('"""') % 2: doc = not doc; continue
            if doc or s.startswith(("#", "import", "from", "def ", "class ", '"""', "raise", "logger", "zlog", "for ")): continue
            rules = PYR
            # delete a statement
            if re.match(r"^\s+[\w\.\[\]\"']+(\(.*\)| [+\-]?= .*)$", l) and not s.startswith(("return", "self.logger")):
                out.append((i, re.match(r"^\s*", l).group(0) + "pass"))
        else:
            if s.startswith(("//", "*", "/*", "#", "Log.", "THROWG", "<<", "Formatter", "template", "using", "namespace", "Flag.")) or "Formatter" in s or "Log.Log" in s: continue
            rules = RULES
            if re.match(r"^\s+[\w\.\->\[\]\(\)]+( [+\-*/]?= .*|\(.*\)|\+\+|--);$", l) and not s.startswith(("return", "break", "throw", "delete")) \
               and not re.match(r"^(auto|const|Float64|Int32|bool|std::|T[A-Z]\w+ ) *", s):
                prev = L[i - 1].strip()
                if prev.endswith((";", "{", "}")) or prev == "" : out.append((i, re.match(r"^\s*", l).group(0) + ";"))
        for a, b in rules:
            for m in re.finditer(a, l):
                if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
                if b is None: n = l[:m.start()] + "if (!(" + m.group(1) + "))" + (" {" if l.endswith("{") else "")
                else: n = l[:m.start()] + b + l[m.end():]
                if n != l: out.append((i, n))
    return L, out

def run(cmd, t, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, "timeout"

def main():
    log = open(sys.argv[1], "a"); n = int(sys.argv[2]); pids = sys.argv[3].split(",")
    base = json.load(open("/opt/vp/BASELINE.json"))
    for f in sys.argv[4:]:
        L, c = cands(f)
        c.sort(key=lambda x: hashlib.md5(("%s%d%s" % (f, x[0], x[1])).encode()).hexdigest())
        src = open(R + f).read()
        seen = set(); done = 0
        for i, new in c:
            if done >= n: break
            if i in seen: continue
            seen.add(i)
            M = list(L); M[i] = new
            open(R + f, "w").write("\n".join(M))
            try:
                res = None
                for p in pids:
                    rc, o = run(["timeout", "900", "bin/check", p, "quick"], 950, cwd="/verif")
                    if rc == 1: res = "caught " + p; break
                    if rc == 2: res = "nobuild" if "error:" in o or "rror" in o else "rc2"; detail = o[-300:]; break
                    if rc != 0: res = "rc%d %s" % (rc, p); break
                if res is None:
                    rc, o = run(["bash", "/opt/vp/test.sh", "/tmp/mut.json"], 600)
                    try: t = json.load(open("/tmp/mut.json"))
                    except Exception: t = dict(passed=[], failed=["?"])
                    if t["failed"] or len(t["passed"]) < 551: res = "test-killed (%d) missed by check" % len(t["failed"])
                    else: res = "SURVIVOR"
                if res.startswith("nobuild"): res += " " + detail.replace("\n", " ")[:200] if False else ""
                else: done += 1
                log.write("%s:%d %s\n   - %s\n   + %s\n" % (f, i + 1, res, L[i].strip(), new.strip())); log.flush()
            finally:
                open(R + f, "w").write(src)
main()
