#!/usr/bin/env python3
"""C02: every short history of spectra, against the result of a fresh process.

For every parameter document a server process loads the calibration and is then
forked for every history, so that each history starts from a library that has
processed nothing; the result of a spectrum (values, ranges, warnings, errors)
must be, bit for bit, the one the same spectrum gives as the first of a run."""
import atexit, os, pickle, shutil, struct, sys, tempfile, zlib
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from mc import Harness, check, Skip
import numpy as np
import pandas as pd
import world as W
from pylibamazed.ProcessFlow import ProcessFlow
from pylibamazed.redshift import CTemplateCatalog, CLog
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader

DIR = None
LAM = np.arange(3650., 6050., 12.)

# --------------------------------------------------------------------- documents
FFT = dict(lineRatioType="rules", fittingMethod="hybrid", useLogLambdaSampling=True, continuumFit={"fftProcessing": True})
MULTI = dict(multiObsMethod="full", lambdaRange={"a": [3700, 4900], "b": [4700, 6000]})
CATALOG = lambda: {"linemeascatalog": {"galaxy": os.path.join(DIR, "linemeas.tsv")},
           "linemeas_catalog_columns": {"galaxy": {"Redshift": "z", "VelocityAbsorption": "va", "VelocityEmission": "ve"}}}
PHOT = dict(photometryTransmissionDir="bands", photometryBand=["u", "r"])
SPECTRUM_LSF = dict(lsf={"lsfType": "fromSpectrumData"})


def docs():
    lm_lsf = W.document({"galaxy": W.model("lm"), "qso": W.model("lm", lineRatioType="rules")}, **SPECTRUM_LSF)
    return {
        # name: (document, configuration, spectra)
        "lm+linemeas": (W.document({"galaxy": W.model("lm", True)}), {}, BASE),
        "lm fft": (W.document({"galaxy": W.model("lm", **FFT)}), {}, BASE + ["logs", "logs2", "logs3"]),
        "lm velocities": (W.document({"galaxy": W.model("lm", velocityFit=True, lineRatioType="rules", fittingMethod="hybrid",
                                                        continuumReestimation="onlyExtrema", continuumComponent="tplFitAuto")}), {}, BASE),
        "lm from spectrum": (W.document({"galaxy": W.model("lm", continuumComponent="fromSpectrum", fittingMethod="svd", lineRatioType="rules")}), {}, BASE),
        "lm two models lsf": (lm_lsf, {}, LSFS),
        "tf two models": (W.document({"galaxy": W.model("tf"), "star": W.model("tf", star=True)}), {}, BASE),
        "tf fft": (W.document({"galaxy": W.model("tf", fftProcessing=True), "star": W.model("tf", star=True)}), {}, BASE + ["logs", "logs2", "logs3"]),
        "tf lsf": (W.document({"galaxy": W.model("tf")}, **SPECTRUM_LSF), {}, LSFS),
        "tc": (W.document({"galaxy": W.model("tc")}), {}, BASE),
        "tf photometry": (W.document({"galaxy": W.model("tf", enablePhotometry=True)}, **PHOT), {}, ["p1", "p2", "nophot", "nan", "flat"]),
        "lm photometry": (W.document({"galaxy": W.model("lm", enablePhotometry=True)}, **PHOT), {}, ["p1", "p2", "nophot", "nan", "flat"]),
        "multiobs": (W.document({"galaxy": W.model("tf"), "qso": W.model("lm")}, **MULTI), {}, ["ab", "ba", "ab2", "anan", "aonly"]),
        "catalog": (W.document({"galaxy": W.model("", True)}), CATALOG(), ["plain", "short", "fine", "unknown", "nan"]),
        "corrected": (W.document({"galaxy": W.model("tf")}, autoCorrectInput=True), {}, ["plain", "short", "nan", "holes"]),
    }


BASE = ["plain", "short", "fine", "nan", "flat"]
LSFS = ["w3", "w8", "r1000", "var", "nolsf", "flat"]


def spectra(name):
    s = {"data": W.spectrum(LAM)}
    if name == "short":
        s = {"data": W.spectrum(np.arange(3890., 5650., 12.), z=2.03, seed=1)}
    elif name == "fine":
        s = {"data": W.spectrum(np.arange(3655., 6080., 9.), z=2.1, seed=2)}
    elif name == "logs":
        s = {"data": W.spectrum(W.logaxis(3650., 6050., .0004), z=2.05, seed=3)}
    elif name == "logs3":  # the samples of logs over a part of its range
        s = {"data": W.spectrum(W.logaxis(3650., 6050., .0004), z=2.05, seed=3)[150:1100].reset_index(drop=True)}
    elif name == "logs2":
        s = {"data": W.spectrum(W.logaxis(3660., 6100., .0005), z=2.08, seed=1)}
    elif name == "nan":
        s["data"].loc[20:40, "flux"] = np.nan
    elif name == "holes":
        s["data"] = W.spectrum(LAM, z=2.08, seed=4)
        s["data"].loc[50:54, "err"] = np.nan
        s["data"].loc[90, "flux"] = np.inf
    elif name == "flat":
        s["data"].loc[:, "err"] = 1e+5
    elif name in ("w3", "w8", "r1000", "var", "nolsf"):
        if name == "w8":
            s = {"data": W.spectrum(np.arange(3700., 6010., 12.), z=2.09, seed=1)}
        if name == "w3":
            s["lsf"] = ("gaussianConstantWidth", pd.DataFrame({"width": [3.]}))
        elif name == "w8":
            s["lsf"] = ("gaussianConstantWidth", pd.DataFrame({"width": [8.]}))
        elif name == "r1000":
            s["lsf"] = ("gaussianConstantResolution", pd.DataFrame({"width": [1000.]}))
        elif name == "var":
            s["lsf"] = ("gaussianVariableWidth", pd.DataFrame({"wave": np.arange(1000., 9000., 500.), "width": 2. + .5 * np.arange(16)}))
    elif name in ("p1", "p2"):
        k = 1. if name == "p1" else 1.4
        s = {"data": W.spectrum(LAM, z=2.06 if k == 1 else 2.09, seed=k - 1),
             "phot": pd.DataFrame({"Name": ["u", "r"], "Flux": [1.1e-17 * k, .8e-17], "Error": [1e-18, 2e-18]})}
    elif name in ("ab", "ba", "ab2", "anan", "aonly"):
        z = 2.09 if name == "ab2" else 2.06
        a, b = W.spectrum(np.arange(3650., 4950., 11.), z=z), W.spectrum(np.arange(4650., 6050., 13.), z=z)
        if name == "anan":
            a.loc[30:35, "flux"] = np.nan
        s = {"obs": {"a": a} if name == "aonly" else {"b": b, "a": a} if name == "ba" else {"a": a, "b": b}}
    return s


# ------------------------------------------------------------------ observation
def canon(x):
    """value that compares equal exactly when the result is the same, NaN included"""
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(canon(v) for v in x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("a",) + tuple(canon(v) for v in x.tolist())
        return ("n", str(x.dtype), x.shape, zlib.crc32(np.ascontiguousarray(x).tobytes()), zlib.adler32(np.ascontiguousarray(x).tobytes()))
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return ("p", canon(x.to_dict("list") if isinstance(x, pd.DataFrame) else x.tolist()))
    if isinstance(x, (float, np.floating)):
        return ("f", struct.pack("d", float(x)))
    if isinstance(x, (int, np.integer, bool, np.bool_, str)) or x is None:
        return (type(x).__name__ if isinstance(x, str) or x is None else "i", x if isinstance(x, str) or x is None else int(x))
    if hasattr(x, "__iter__"):
        return ("l",) + tuple(canon(v) for v in x)
    raise RuntimeError("cannot compare %r" % type(x))


def entries(x, path=""):
    """the leaves of a result, for the message"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from entries(v, path + "/" + str(k))
    elif isinstance(x, (list, tuple)) and x and isinstance(x[0], (dict, list, np.ndarray)):
        for i, v in enumerate(x):
            yield from entries(v, path + "/%d" % i)
    else:
        yield path, canon(x), repr(x if not isinstance(x, np.ndarray) or x.size < 5 else x[:5])


def fingerprint(o):
    return {p: (c, r) for n in ("root_results", "object_results", "errors") for p, c, r in entries(getattr(o, n), n)}


def difference(ref, got):
    out = [k for k in sorted(set(ref) | set(got)) if k not in ref or k not in got or ref[k][0] != got[k][0]]
    return ["%s: alone %s, here %s" % (k, ref.get(k, (0, "absent"))[1][:160], got.get(k, (0, "absent"))[1][:160]) for k in out]


TEMPLATES = []
_add = CTemplateCatalog.Add


def add(self, t):
    TEMPLATES.append(t)
    return _add(self, t)


CTemplateCatalog.Add = add


def calibration_data():
    return [(t.GetName(), canon(np.array(t.GetSpectralAxis().GetSamplesVector().to_numpy(), copy=True)),
             canon(np.array(t.GetFluxAxis().GetSamplesVector().to_numpy(), copy=True))) for t in TEMPLATES]


def flow(name):
    d, cfg, _ = docs()[name]
    return ProcessFlow(dict({"calibration_dir": DIR, "extended_results": True}, **cfg), W.Parameters(d, Checker=W.Free))


# ----------------------------------------------------------------------- servers
def call(f, *a):
    """run f in a forked process; the result, or the reason of its death"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            v = ("ok", f(*a))
        except BaseException as e:
            import traceback
            v = ("raised", repr(e) + traceback.format_exc()[-900:])
        try:
            with os.fdopen(w, "wb") as out:
                pickle.dump(v, out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data and st == 0 else ("died", "signal %d" % (st & 127))


class Server:
    """a process where the calibration of one or several documents is loaded"""
    def __init__(self, names):
        self.req, self.ans = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.req[1]); os.close(self.ans[0])
            i, o = os.fdopen(self.req[0], "rb"), os.fdopen(self.ans[1], "wb")
            flows = {n: flow(n) for n in names}
            while True:
                try:
                    q = pickle.load(i)
                except EOFError:
                    os._exit(0)
                pickle.dump(call(play, flows, q), o)
                o.flush()
        os.close(self.req[0]); os.close(self.ans[1])
        self.o, self.i = os.fdopen(self.req[1], "wb"), os.fdopen(self.ans[0], "rb")

    def stop(self):
        os.kill(self.pid, 9)
        os.waitpid(self.pid, 0)

    def ask(self, history):
        pickle.dump(history, self.o)
        self.o.flush()
        return pickle.load(self.i)


def play(flows, q):
    """q = (history, last): run the history, then each of last as its continuation.
    An element of the history is (document, spectrum)"""
    hist, last = q
    before = calibration_data()
    out, kept = [], []
    for d, s in hist:
        o = W.run(flows[d], s, spectra(s))
        kept.append(o)
        out.append(fingerprint(o))
    same = calibration_data() == before
    still = [difference(a, fingerprint(o)) for a, o in zip(out, kept)]
    cont = [call(lambda d, s: fingerprint(W.run(flows[d], s, spectra(s))), d, s) for d, s in last]
    return out, same, still, cont


SERVERS, REFS = {}, {}


def server(*names):
    if names not in SERVERS:
        SERVERS[names] = Server(names)
    return SERVERS[names]


def alone(d, s):
    if (d, s) not in REFS:
        v = server(d).ask(([(d, s)], []))
        check(v[0] == "ok", lambda: "%s alone: %s" % (s, v[1]), "alone")
        REFS[d, s] = v[1][0][0]
    return REFS[d, s]


def judge(srv, hist, last, c):
    v = srv.ask((hist, last))
    txt = " -> ".join("%s[%s]" % (s, d) for d, s in hist)
    check(v[0] == "ok", lambda: "history %s: %s %s" % (txt, v[0], v[1]), "history/died")
    out, same, still, cont = v[1]
    runs = list(zip(hist, out))
    for x, w in zip(last, cont):
        check(w[0] == "ok", lambda: "history %s -> %s: %s %s" % (txt, x, w[0], w[1]), "history/died")
        runs.append((x, w[1]))
    for n, ((d, s), got) in enumerate(runs):
        ref = alone(d, s)
        diff = difference(ref, got)
        before = " -> ".join("%s[%s]" % (y, x) for x, y in (hist[:n] if n < len(hist) else hist))
        check(not diff, lambda: "document '%s': the result of spectrum '%s' after %s differs from its result in a fresh run:\n%s" %
              (d, s, before or "nothing", "\n".join(diff[:6])), "history/result")
        c.step()
        c.outcome("%s:%s:%d:%s" % (d, s, len(got), sorted(k for k in got if k.startswith("errors") and k.endswith("code"))))
    check(same, lambda: "document %s: the templates are not the same after %s" % (hist[0][0], txt), "history/templates")
    for (d, s), x in zip(hist, still):
        check(not x, lambda: "the result object of %s changed while later spectra were processed (%s):\n%s" % (s, txt, "\n".join(x[:6])), "history/kept")


def setup():
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp(prefix="history")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and (shutil.rmtree(DIR, ignore_errors=True), [s.stop() for s in SERVERS.values()]))
        W.calibration(DIR)


H = Harness()


def histories(c):
    setup()
    d = c.pick(list(docs()))
    names = docs()[d][2]
    a, b = c.pick(names), c.pick(names)
    c.mine_prefix()
    c.desc = "%s: %s, %s, then %s" % (d, a, b, "every spectrum" if c.thorough else "nothing or the first again")
    judge(server(d), [(d, a), (d, b)], [(d, s) for s in (names if c.thorough else ([a] if a != b else []))], c)


H.add("histories", histories)


def mixed(c):
    """several documents in one process, whose calibrations are loaded first"""
    setup()
    pairs = [("lm+linemeas", "tf fft"), ("lm fft", "lm two models lsf"), ("multiobs", "tf photometry"), ("tc", "lm velocities"), ("tf lsf", "lm from spectrum"), ("lm photometry", "catalog")]
    p = c.pick(pairs)
    p = p if c.flip() else (p[1], p[0])
    ab = [(n, s) for n in p for s in docs()[n][2]]
    x = c.choose(len(docs()[p[0]][2]) if c.thorough else 3)
    y = c.choose(len(docs()[p[1]][2]) if c.thorough else 3)
    c.mine_prefix()
    a, b = (p[0], docs()[p[0]][2][x]), (p[1], docs()[p[1]][2][y])
    c.desc = "%s then %s" % (a, b)
    judge(server(*p), [a, b], [a] if not c.thorough else ab, c)


H.add("documents", mixed)

if __name__ == "__main__":
    CLog.GetInstance()
    sys.exit(H.main())
