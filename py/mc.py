"""Bounded exhaustive explorer for the Python side (same command line as harness/mc.h).

A body asks ctx.choose(n) for every decision; the explorer re-runs it for every
sequence of answers, depth first, no sampling and no dropped branch.  A case is
identified by its choice list, which is kept in a shared mapping so that the
driver can name the case that crashed or hung.
"""
import json, mmap, struct, sys, traceback, zlib


class Violation(Exception):
    def __init__(self, msg, sig=""):
        super().__init__(msg)
        self.msg, self.sig = msg, sig


class Skip(Exception):
    pass


class Diverged(BaseException):
    pass


def check(cond, msg, sig=""):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


class Ctx:
    def __init__(self, path, width, leaf, shard, nshards, thorough, replay=False):
        self.path, self.width, self.pos = path, width, 0
        self.leaf, self.shard, self.nshards, self.thorough, self.replay = leaf, shard, nshards, thorough, replay
        self.desc, self.outc, self.nontriv, self.steps = "", [], False, 0

    def choose(self, n):
        if n <= 0:
            raise Diverged("choose(%d)" % n)
        if self.pos == len(self.path):
            if self.replay:
                raise Diverged("replay diverged: more choices than recorded")
            self.path.append(0)
            self.width.append(n)
        elif self.pos >= len(self.width):
            self.width.append(n)
        elif self.width[self.pos] != n:
            raise Diverged("exploration diverged: branching changed")
        if self.path[self.pos] >= n:
            raise Diverged("replay diverged: choice out of range")
        self.pos += 1
        return self.path[self.pos - 1]

    def flip(self):
        return self.choose(2) == 1

    def pick(self, v):
        return v[self.choose(len(v))]

    def mine(self):
        """call when every choice of the case is made"""
        if self.replay:
            return
        self.leaf[0] += 1
        if (self.leaf[0] - 1) % self.nshards != self.shard:
            raise Skip()

    def mine_prefix(self):
        """call when more choices follow during the execution: the choices made
        so far decide which shard explores all their continuations"""
        if self.replay:
            return
        if zlib.crc32(repr(self.path[:self.pos]).encode()) % self.nshards != self.shard:
            raise Skip()

    def outcome(self, s, nontrivial=True):
        self.outc.append(str(s))
        self.nontriv = self.nontriv or nontrivial

    def step(self, n=1):
        self.steps += n


class Harness:
    def __init__(self):
        self.suites = []
        self.cur = None

    def add(self, name, body):
        self.suites.append((name, body))

    def setcur(self, name, path):
        if self.cur is not None:
            p = path[:4000]
            struct.pack_into("64si%di" % len(p), self.cur, 0, name.encode(), len(p), *p)

    def one(self, name, body, c, st):
        self.setcur(name, c.path)
        try:
            body(c)
        except Skip:
            return
        except Violation as v:
            self.record(st, name, c, v.msg, v.sig)
        except Diverged as e:
            print("harness error: %s in %s" % (e, name), file=sys.stderr)
            sys.exit(3)
        except Exception as e:
            self.record(st, name, c, "unexpected exception: " + repr(e) + traceback.format_exc()[-1500:],
                        name + "/exception")
        st["evaluations"] += 1
        st["steps"] += c.steps
        if c.nontriv:
            st["nontrivial"] += 1
            if len(st["outcomes"]) < 300000:
                st["outcomes"].add("%08x%08x" % (zlib.crc32((name + "|".join(c.outc)).encode()),
                                                  zlib.adler32("|".join(c.outc).encode())))
        n = st["evaluations"]
        if c.desc and (len(st["samples"]) < 3 or (len(st["samples"]) < 6 and c.nontriv and n & (n - 1) == 0)):
            st["samples"].append(name + ": " + c.desc[:600])

    def record(self, st, name, c, msg, sig):
        st["nviol"] += 1
        sig = sig or name
        new = sig not in st["sigs"]
        st["sigs"].add(sig)
        if (new and len(st["violations"]) < 200) or len(st["violations"]) < 10:
            st["violations"].append(dict(case=name + ":" + ".".join(map(str, c.path)), sig=sig,
                                         msg=msg[:3000], desc=c.desc[:2000]))

    def explore(self, name, body, st, a):
        path, width, leaf = [], [], [0]
        while True:
            c = Ctx(path, width, leaf, a["shard"], a["nshards"], a["thorough"])
            self.one(name, body, c, st)
            if c.pos < len(path):
                print("harness error: exploration diverged (fewer choices) in " + name, file=sys.stderr)
                sys.exit(3)
            while path and path[-1] + 1 >= width[-1]:
                path.pop()
                width.pop()
            if not path:
                return
            path[-1] += 1

    def main(self):
        a = dict(shard=0, nshards=1, thorough=False)
        out = curf = replay = only = None
        v = sys.argv[1:]
        i = 0
        while i < len(v):
            if v[i] == "--out":
                out = v[i + 1]
            elif v[i] == "--cur":
                curf = v[i + 1]
            elif v[i] == "--replay":
                replay = v[i + 1]
            elif v[i] == "--only":
                only = v[i + 1]
            elif v[i] == "--tier":
                a["thorough"] = v[i + 1] == "thorough"
            elif v[i] == "--shard":
                a["shard"], a["nshards"] = map(int, v[i + 1].split("/"))
            else:
                i -= 1
            i += 2
        if curf:
            f = open(curf, "w+b")
            f.truncate(68 + 4 * 4000)
            f.flush()
            self.cur = mmap.mmap(f.fileno(), 68 + 4 * 4000)
        if replay:
            return self.replay(replay, a)
        res = []
        for name, body in self.suites:
            if only and name != only:
                continue
            st = dict(name=name, evaluations=0, states=0, transitions=0, steps=0, nontrivial=0, nviol=0,
                      capped=False, samples=[], violations=[], outcomes=set(), sigs=set())
            self.explore(name, body, st, a)
            st["outcomes"] = sorted(st["outcomes"])
            del st["sigs"]
            res.append(st)
        json.dump(dict(suites=res), open(out, "w"))
        return 0

    def replay(self, rid, a):
        name, _, rest = rid.partition(":")
        path = [int(x) for x in rest.split(".") if x]
        for n, body in self.suites:
            if n != name:
                continue
            c = Ctx(path, [], [0], 0, 1, a["thorough"], True)
            try:
                body(c)
            except Skip:
                print("skipped")
                return 0
            except Violation as v:
                print("input: %s\nviolation: %s" % (c.desc, v.msg))
                return 1
            except Diverged as e:
                print("harness error: %s" % e)
                return 3
            except Exception:
                print("input: %s" % c.desc)
                traceback.print_exc(file=sys.stdout)
                return 1
            print("input: %s\nheld" % c.desc)
            return 0
        print("no suite " + name)
        return 3
