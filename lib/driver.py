"""Runs the harnesses of one property, replays what they report, writes the evidence."""
import glob, json, os, shutil, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
NSH = vbuild.JOBS


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def read_cur(path):
    try:
        d = open(path, "rb").read()
        suite = d[:64].split(b"\0")[0].decode()
        n = struct.unpack_from("i", d, 64)[0]
        v = struct.unpack_from("%di" % n, d, 68)
        return suite + ":" + ".".join(map(str, v))
    except Exception:
        return None


class Runner:
    """one harness executable (C++ binary or Python script)"""

    def __init__(self, argv, env, name, workdir):
        self.argv, self.env, self.name, self.workdir = argv, env, name, workdir
        os.makedirs(workdir, exist_ok=True)

    def run(self, tier, shards, limit):
        procs = []
        for i in range(shards):
            out = os.path.join(self.workdir, "out-%s-%d.json" % (self.name, i))
            cur = os.path.join(self.workdir, "cur-%s-%d" % (self.name, i))
            log = open(os.path.join(self.workdir, "log-%s-%d" % (self.name, i)), "w")
            for f in (out, cur):
                if os.path.exists(f):
                    os.remove(f)
            p = subprocess.Popen(self.argv + ["--out", out, "--cur", cur, "--shard", "%d/%d" % (i, shards),
                                              "--tier", tier], env=self.env, cwd=self.workdir,
                                 stdout=log, stderr=subprocess.STDOUT)
            procs.append((p, out, cur, log))
        t0 = time.time()
        res = []
        for p, out, cur, log in procs:
            hung = False
            try:
                rc = p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                hung = True
                p.kill()
                rc = p.wait()
            log.close()
            res.append((rc, hung, out, cur, log.name))
        return res

    def replay(self, case, tier, limit=120):
        try:
            p = subprocess.run(self.argv + ["--replay", case, "--tier", tier], env=self.env,
                               cwd=self.workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=limit, errors="replace", text=True)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return "hang", "no answer within %d s" % limit


def make_runners(cfg, b, workdir):
    """build what the check needs"""
    rs = []
    libs = {}
    env = vbuild.env()
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0")
    for h in cfg["harness"]:
        if h.get("py"):
            e = dict(env)
            if "pypath" not in libs:
                if "assert" not in libs:
                    libs["assert"] = b.lib("assert")
                libs["pypath"] = b.python(libs["assert"])
            e["PYTHONPATH"] = libs["pypath"] + ":" + os.path.join(VERIF, "py")
            e["VERIF_BUILD"] = b.dir
            rs.append(Runner([vbuild.VENV_PY, os.path.join(VERIF, "py", h["py"] + ".py")] + h.get("args", []), e,
                             h["py"], workdir))
        else:
            fl = h.get("flavor", "assert")
            if fl not in libs:
                libs[fl] = b.lib(fl)
            exe = b.harness(h["cpp"], fl, libs[fl], h.get("flags", ()))
            rs.append(Runner([exe] + h.get("args", []), env, h["cpp"] + "-" + fl, workdir))
    return rs


def run_check(pid, tier, seed):
    t0 = time.time()
    cfg = CHECKS[pid]
    b = vbuild.Builder(pid)
    workdir = os.path.join(b.dir, "work")
    limit = 780 if tier == "quick" else 6 * 3600
    rdir = os.path.join(VERIF, "build", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*.json")):
        os.remove(f)
    try:
        try:
            runners = make_runners(cfg, b, workdir)
        except vbuild.BuildError as e:
            print("BUILD-ERROR", e)
            return 2
        suites, viols, errors, outcomes = {}, [], [], set()
        for r in runners:
            left = limit - (time.time() - t0)
            for rc, hung, out, cur, log in r.run(tier, cfg.get("shards", NSH), max(30, left)):
                if rc != 0 or hung:
                    tail = open(log, errors="replace").read()[-1500:]
                    case = read_cur(cur)
                    if rc == 3 or not case or case.startswith(":"):
                        errors.append("%s: exit %s %s" % (r.name, rc, tail))
                        continue
                    viols.append((r, dict(case=case, sig=case.split(":")[0] + ("/hang" if hung else "/crash"),
                                          msg=("hang" if hung else "crash (exit %s)" % rc) + ": " + tail,
                                          desc="")))
                    continue
                d = json.load(open(out))
                for s in d["suites"]:
                    t = suites.setdefault(s["name"], dict(evaluations=0, states=0, transitions=0, steps=0,
                                                          nontrivial=0, nviol=0, capped=False, samples=[],
                                                          outcomes=set()))
                    for k in ("evaluations", "states", "transitions", "steps", "nontrivial", "nviol"):
                        t[k] += s[k]
                    t["capped"] |= s["capped"]
                    t["samples"] += s["samples"]
                    t["outcomes"].update(s["outcomes"])
                    for v in s["violations"]:
                        viols.append((r, v))
        # replay, deduplicate, compare with the known findings
        kf = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
        reported, hits, seen = [], {}, set()
        for r, v in viols:
            key = (v["sig"])
            k = match_known(kf, v)
            if k:
                hits.setdefault(k["id"], (k, v))
                continue
            if key in seen or len(reported) >= 8:
                continue
            rc, txt = r.replay(v["case"], tier)
            if rc == 0 and "/hang" in v["sig"]:
                errors.append("a case that timed out finished on replay: " + v["case"])
                continue
            if rc == 0:
                errors.append("not reproduced on replay: %s %s" % (v["case"], v["msg"][:300]))
                continue
            if rc == 3:
                errors.append("replay error: %s %s" % (v["case"], txt[-500:]))
                continue
            seen.add(key)
            f = os.path.join(rdir, "%s-%d.json" % (pid, len(reported) + 1))
            json.dump(dict(property=pid, harness=r.name, case=v["case"], tier=tier, signature=v["sig"],
                           message=v["msg"], input=v["desc"], replay_output=str(txt)[-3000:],
                           how="python3 /verif/bin/replay " + f), open(f, "w"), indent=1)
            reported.append((f, v))
        write_evidence(pid, cfg, tier, seed, suites, reported, hits, errors, time.time() - t0, b.times)
        for k, v in hits.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for k in kf:
            if k["id"] not in hits and not reported:
                print("note: known finding %s was not reproduced" % k["id"])
        tot = sum(s["evaluations"] for s in suites.values())
        print("%s: %d executions, %d suites, %.1f s (build %s)" % (pid, tot, len(suites), time.time() - t0, b.times))
        for f, v in reported:
            print("  case %s: %s" % (v["case"], v["msg"][:400]))
            if v["desc"]:
                print("    input: " + v["desc"][:400])
            print("VIOLATION property=%s replay=%s" % (pid, f))
        for e in errors:
            print("ERROR", e[-1500:])
        if reported:
            return 1
        if errors:
            return 2
        if tot == 0:
            print("ERROR nothing explored")
            return 2
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            b.clean()


def match_known(kf, v):
    for k in kf:
        if k.get("signature") == v["sig"] and ("cases" not in k or v["case"] in k["cases"]):
            return k
    return None


def write_evidence(pid, cfg, tier, seed, suites, reported, hits, errors, wall, times):
    ev = sum(s["evaluations"] for s in suites.values())
    nt = sum(len(s["outcomes"]) for s in suites.values())
    samples = []
    for n, s in suites.items():
        samples += s["samples"][:3]
    cov = {
        "rule": cfg["rule"],
        "samples": samples[:40] or ["(none)"],
        "exhaustive": not any(s["capped"] for s in suites.values()),
        "suites": {n: {"executions": s["evaluations"], "states": s["states"], "transitions": s["transitions"],
                       "checked_steps": s["steps"], "nontrivial_executions": s["nontrivial"],
                       "distinct_observed_outcomes": len(s["outcomes"]), "violating_executions": s["nviol"],
                       "cap_hit": s["capped"]} for n, s in suites.items()},
        "bounds": cfg.get("bounds", ""),
        "known_findings_seen": sorted(hits),
        "build_s": times,
    }
    if errors:
        cov["errors"] = [e[-600:] for e in errors[:10]]
    if cfg["level"] == "model_checking":
        cov["states"] = sum(s["states"] or len(s["outcomes"]) for s in suites.values())
        cov["transitions"] = sum(s["transitions"] or max(s["steps"], s["evaluations"]) for s in suites.values())
        cov["traces_validated_against_impl"] = ev
    cov["evaluations"] = ev
    cov["distinct_nontrivial"] = nt
    d = dict(property=pid, tier=tier, seed=seed, level=cfg["level"], coverage=cov,
             assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(pid, tier, int(os.environ.get("VERIF_SEED", "1"))))
