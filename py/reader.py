"""C06: what a spectrum reader hands to the library, against lists of samples."""
import atexit, itertools, json, os, shutil, sys, tempfile
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import numpy as np, pandas as pd
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
from mc import check, Skip
import world as W
from pylibamazed.ProcessFlow import ProcessFlow
from pylibamazed.redshift import CProcessFlowContext, CFlagWarning, CSpectrum, CSpectrumSpectralAxis, AmzException, WarningCode
from pylibamazed.AbstractSpectrumReader import AbstractSpectrumReader
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader
from pylibamazed.Filter import FilterItem, FilterList
from pylibamazed.Container import Container
from pylibamazed.Exception import APIException
from pylibamazed.Parameters import Parameters
from pylibamazed.ParametersChecker import ParametersChecker

CTX, FLAG = CProcessFlowContext.GetInstance(), CFlagWarning.GetInstance()
H = mc.Harness()


_setid = CSpectrum.setObsID
def setid(self, o):
    self.oid = o
    _setid(self, o)


CSpectrum.setObsID = setid


class NoCheck:
    def __init__(self, *a):
        pass

    def json_schema_check(self, *a):
        pass

    custom_check = check = json_schema_check


class Calibration:
    lsf = {"wave": np.array([3000., 9000.]), "width": np.array([3., 5.])}


def parameters(**kw):
    d = dict(version=2, airVacuumMethod="", multiObsMethod="", spectrumModels=[], lambdaRange=[4000., 6000.],
             lsf={"lsfType": "gaussianConstantWidth", "width": 3.})
    d.update(kw)
    return d


def build(d, cls=AbstractSpectrumReader):
    return cls("s", Parameters(d, Checker=NoCheck), Calibration(), "s")


FORMS = [("arrays", lambda v, p: np.array(v)),
         ("columns", lambda v, p: pd.Series(v)),
         ("columns of a sorted table", lambda v, p: pd.Series(v, index=p)),
         ("columns of different tables", lambda v, p: pd.Series(v, index=p if isinstance(v[0], float) and v[0] < 100 else None)),
         ("columns of a selection", lambda v, p: pd.Series(v, index=[3 + 2 * i for i in range(len(v))]))]


def deliver(r, o, rows, form, others=("flag",)):
    """rows: (wave, flux, error, flag)"""
    f = FORMS[form][1]
    idx = list(reversed(range(len(rows))))
    r.waves.append(f([x[0] for x in rows], idx), o)
    r.fluxes.append(f([x[1] for x in rows], idx), o)
    r.errors.append(f([x[2] for x in rows], idx), o)
    for k in others:
        if k not in r.others:
            r.others[k] = Container()
        r.others[k].append(f([x[3] for x in rows], idx), o)


def accepted(row, flt):
    col = {"Wave": 0, "waves": 0, "Flux": 1, "fluxes": 1, "Err": 2, "errors": 2, "flag": 3}
    for key, ins, val in flt:
        v = row[col[key]]
        ok = {"<": lambda: v < val, ">": lambda: v > val, "<=": lambda: v <= val, ">=": lambda: v >= val,
              "=": lambda: v == val, "!=": lambda: v != val, "in": lambda: v in val, "~in": lambda: v not in val,
              "&": lambda: (v & val) != 0, "~&": lambda: (v & val) == 0, "0&": lambda: v == 0 or (v & val) != 0,
              "^": lambda: (v ^ val) != 0, "~^": lambda: (v ^ val) == 0}[ins]()
        if not ok:
            return False
    return True


def flt_json(flt):
    return [{"key": k, "instruction": i, "value": v} for k, i, v in flt]


def init(r):
    """None or the error of the initialisation"""
    CTX.reset()
    FLAG.resetFlag()
    try:
        r.init()
    except (APIException, AmzException) as e:
        return type(e).__name__ + " " + str(getattr(e, "errCode", "")) + " " + str(e)
    return None


def code(err):
    return err if err is None else next((w for w in ("INVALID_SPECTRUM", "INVALID_NAME", "UNALLOWED_DUPLICATES", "UNSORTED_ARRAY", "INVALID_FILTER_KEY", "LSF_NOT_LOADED", "MERGE", "INVALID_WAVELENGTH_RANGE") if w in err), err)


def got(r, o=""):
    return list(zip(r.get_wave(o).tolist(), r.get_flux(o).tolist(), r.get_error(o).tolist()))


def vacuum(w, method):
    a = CSpectrumSpectralAxis(np.array(w), method)
    return a.GetSamplesVector().to_numpy().tolist()


def warned(w):
    return w in FLAG.getBitMask()


FLTS = [("flag", "<", 4), ("flag", ">", 1), ("flag", "<=", 4), ("flag", ">=", 4), ("flag", "=", 1), ("flag", "!=", 1), ("flag", "in", [0, 6]),
        ("flag", "~in", [1, 4]), ("flag", "&", 5), ("flag", "~&", 5), ("flag", "0&", 6), ("flag", "^", 5), ("flag", "~^", 5),
        ("Wave", ">=", 4500.), ("Wave", "<", 4600.), ("waves", "<=", 4500.), ("Flux", ">", 2.), ("fluxes", "!=", 3.), ("Err", "<=", .3), ("errors", ">", .1)]
FLAGS = [0, 1, 4, 5, 6]


def rows_of(waves, k=0, flags=FLAGS):
    return [(w, 1. + i + 10 * k, .1 * (1 + i + 4 * k), flags[(i + k) % len(flags)]) for i, w in enumerate(waves)]


def algebra(c):
    """every instruction x every small value, over columns of every small integer"""
    ins = c.pick(["<", ">", "<=", ">=", "=", "!=", "in", "~in", "&", "~&", "0&", "^", "~^"])
    n = 16 if c.thorough else 8
    vals = list(range(n)) if "in" not in ins else [[i for i in range(4) if k >> i & 1] for k in range(16)]
    val = c.pick(vals)
    two = c.pick([None] + [(i, v) for i in ("~&", "<", "!=", "0&") for v in range(n)])
    dtype = c.pick(["int64", "uint8", "int32"])
    c.mine()
    c.desc = "flag %s %r%s, %s" % (ins, val, " and %s %r" % two if two else "", dtype)
    flt = [("flag", ins, val)] + ([("flag",) + two] if two else [])
    f = FilterList([FilterItem(*x) for x in flt])
    col = [3, 0, 15, 1, 2] + list(range(15, -1, -1))
    got = f.apply(pd.DataFrame({"flag": np.array(col, dtype), "n": range(len(col))}))
    want = [i for i, v in enumerate(col) if accepted((0, 0, 0, v), flt)]
    c.step()
    check(got["n"].tolist() == want and got["flag"].tolist() == [col[i] for i in want],
          lambda: "keeps %s of %s, expected %s" % (got["flag"].tolist(), col, [col[i] for i in want]), "algebra/" + ins)
    c.outcome("%d" % len(want), 0 < len(want) < len(col))


def mono(c):
    """one observation: filters, forms of delivery, frames"""
    n = c.pick([5, 1])
    form = c.choose(len(FORMS))
    nf = c.choose(3 if c.thorough or form in (0, 3) else 2)
    flt = [c.pick(FLTS) for _ in range(nf)]
    fl = c.choose(2)
    air = c.flip()
    method = c.pick(["", "default", "edlen1953"]) if air or not nf else ""
    c.mine()
    rows = rows_of([4000., 4300., 4500., 4600., 6000.][:n], flags=FLAGS if fl else [4, 0, 6, 5, 1])
    if FORMS[form][0].endswith("different tables") and n == 1:
        raise Skip()
    r = build(parameters(filters=flt_json(flt), airVacuumMethod=method))
    deliver(r, "", rows, form)
    if air:
        r.set_air()
    c.desc = "%d samples as %s, flags %s, filters %s, %s, method '%s'" % (n, FORMS[form][0], [x[3] for x in rows], flt, "air" if air else "vacuum", method)
    err = init(r)
    c.step()
    exp = [x for x in rows if accepted(x, flt)]
    if not exp:
        check(code(err) == "INVALID_SPECTRUM", "no sample is accepted: %s" % err, "mono/empty")
        c.outcome("empty", True)
        return
    check(err is None, "refused: %s" % err, "mono/refused")
    g = got(r)
    waves = [x[0] for x in exp]
    if air:
        m = {"": "morton2000", "default": "morton2000"}.get(method, method)
        waves = vacuum(waves, m)
        check(all(a > b[0] for a, b in zip(waves, exp)), "not converted", "mono/air")
    want = [(w, x[1], x[2]) for w, x in zip(waves, exp)]
    check(g == want, "spectrum %s, expected %s" % (g, want), "mono/samples")
    check(r.get_filtered_others()["flag"].tolist() == [x[3] for x in exp], "extra column %s" % r.get_filtered_others()["flag"].tolist(), "mono/others")
    check(warned(WarningCode.AIR_VACUUM_CONVERSION_IGNORED) == (not air and method != ""), "warning on the ignored conversion", "mono/warning-air")
    tight = not (exp[0][0] <= 4000. and exp[-1][0] >= 6000.)
    check(warned(WarningCode.SPECTRUM_WAVELENGTH_TIGHTER_THAN_PARAM) == tight, "warning on the range is %s for samples from %g to %g" % (not tight, exp[0][0], exp[-1][0]), "mono/warning-range")
    c.outcome("%d samples" % len(exp), nf > 0)


WAVES = {"": [4000., 4300., 6000.], "a": [4000., 4300., 4700.], "b": [4300., 4500., 6000.], "c": [4700., 4300., 6000.], "d": [3900., 4000., 4000.5]}


def multi(c):
    """several observations"""
    names = c.pick([("a", "b"), ("a", "c"), ("a", "b", "c"), ("a", "b", "c", "d"), ("a",), ("b", "d")])
    order = c.pick(list(itertools.permutations(names)))
    pairs = [(0, 0), (1, 1), (2, 3), (4, 2)] + ([(a, b) for a in range(1, 5) for b in range(1, 5)] if c.thorough else [])
    forms = c.pick(pairs)
    flt = c.pick([[]] + [[f] for f in (("flag", "~&", 4), ("flag", "<", 5), ("Wave", "<=", 4500.), ("Wave", ">", 4100.), ("Flux", "!=", 12.), ("flag", "=", 77))])
    mode = c.pick(["merge", "full"])
    air = c.flip()
    c.mine()
    rng = [4000., 6000.] if mode == "merge" else {o: [4000., 5000.] for o in names}
    r = build(parameters(filters=flt_json(flt), multiObsMethod=mode, lambdaRange=rng))
    rows = {}
    for i, o in enumerate(order):
        k = "abcd".index(o)
        rows[o] = rows_of(WAVES[o], k)
        deliver(r, o, rows[o], forms[i % len(forms)])
    if air:
        r.set_air()
    c.desc = "%s of observations %s as %s, filters %s, %s" % (mode, order, [FORMS[f][0] for f in forms], flt, "air" if air else "vacuum")
    err = init(r)
    c.step()
    exp = {o: [x for x in rows[o] if accepted(x, flt)] for o in order}
    conv = (lambda w: vacuum(w, "morton2000")) if air else (lambda w: list(w))
    if (any if mode == "full" else all)(not v for v in exp.values()):
        check(code(err) == "INVALID_SPECTRUM", "an observation has no accepted sample: %s" % err, "multi/empty")
        c.outcome("empty", True)
        return
    if mode == "full":
        unsorted = [o for o in order if [x[0] for x in exp[o]] != sorted(x[0] for x in exp[o])]
        if err is not None:
            check(bool(unsorted), "refused: %s" % err, "multi/refused")
            c.outcome("unsorted", True)
            return
        for o in order:
            want = [(w, x[1], x[2]) for w, x in zip(conv([x[0] for x in exp[o]]), exp[o])]
            check(got(r, o) == want, "observation %s is %s, expected %s" % (o, got(r, o), want), "multi/full")
            check(r.get_spectrum(o).oid == o, "observation id", "multi/id")
            check(r.get_filtered_others(o)["flag"].tolist() == [x[3] for x in exp[o]], "extra column of %s" % o, "multi/others")
        c.outcome("full %s" % [len(exp[o]) for o in order], True)
        return
    allr = [x for o in order for x in exp[o]]
    check(err is None, "refused: %s" % err, "multi/refused")
    g = got(r)
    check(len(g) == len(allr), "%d samples, expected %d" % (len(g), len(allr)), "multi/merge")
    check(all(a[0] < b[0] for a, b in zip(g, g[1:])), "wavelengths not increasing: %s" % [x[0] for x in g], "multi/merge")
    left = [(w, x[1], x[2]) for w, x in zip(conv([x[0] for x in allr]), allr)]
    for x in g:
        m = [y for y in left if y[1:] == x[1:] and abs(y[0] - x[0]) < 1e-8]
        check(len(m) == 1, "sample %s of the merged spectrum belongs to none of those delivered" % (x,), "multi/merge")
        left.remove(m[0])
    c.outcome("merge %d" % len(g), True)


def refused(c):
    """inconsistent deliveries"""
    kind = c.pick(["missing flux", "missing error", "missing extra", "other name", "short flux", "short error", "long error", "short extra", "long extra", "named", "undeclared", "undelivered", "unknown filter", "empty"])
    mode = c.pick(["", "merge", "full"])
    form = c.choose(2)
    which = c.choose(2)
    c.mine()
    names = [""] if mode == "" else ["a", "b"]
    if which and mode == "":
        raise Skip()
    rng = {o: [4000., 5000.] for o in names} if mode == "full" else [4000., 6000.]
    d = parameters(multiObsMethod=mode, lambdaRange=rng)
    if kind == "unknown filter":
        d["filters"] = flt_json([("nothing", "<", 3)])
    r = build(d)
    for k, o in enumerate(names):
        deliver(r, o, rows_of(WAVES[o], k), form)
    o = names[which]
    f = FORMS[form][1]
    expect = "INVALID_SPECTRUM"
    if kind.startswith("missing"):
        {"missing flux": r.fluxes, "missing error": r.errors, "missing extra": r.others["flag"]}[kind].data.pop(o)
    elif kind == "other name":
        r.errors.data["x"] = r.errors.data.pop(o)
    elif kind.startswith("short") or kind.startswith("long"):
        cont = {"flux": r.fluxes, "error": r.errors, "extra": r.others["flag"]}[kind.split()[1]]
        cont.data[o] = f([1., 2.] if kind.startswith("short") else [1., 2., 3., 4.], None)
    elif kind == "named":
        if mode != "":
            raise Skip()
        for cont in (r.waves, r.fluxes, r.errors, r.others["flag"]):
            cont.data["x"] = cont.data.pop("")
        expect = "INVALID_NAME"
    elif kind == "undeclared":
        if mode != "full":
            raise Skip()
        deliver(r, "x", rows_of(WAVES["a"], 2), form)
        expect = "INVALID_NAME"
    elif kind == "undelivered":
        if mode != "full":
            raise Skip()
        for cont in (r.waves, r.fluxes, r.errors, r.others["flag"]):
            cont.data.pop(o)
        expect = "INVALID_NAME"
    elif kind == "unknown filter":
        expect = "INVALID_FILTER_KEY"
    elif kind == "empty":
        if mode == "merge":
            raise Skip()
        for cont in (r.waves, r.fluxes, r.errors, r.others["flag"]):
            cont.data[o] = f([], None)
    c.desc = "%s (%s, %s, observation '%s')" % (kind, mode or "one observation", FORMS[form][0], o)
    try:
        err = init(r)
    except Exception as e:
        err = "%s %s" % (type(e).__name__, e)
    c.step()
    ok = {"INVALID_NAME", "INVALID_SPECTRUM"} if kind.startswith("unde") else {expect}
    check(code(err) in ok, "expected %s, got %s" % (expect, err), "refused/" + kind)
    c.outcome(kind, True)


LSFS = [("gaussianConstantWidth", [3.]), ("gaussianConstantWidth", [7.]), ("gaussianConstantResolution", [900.]), ("gaussianVariableWidth", None), ("gaussianVariableWidth", 1), ("gaussianNISPVSSPSF201707", [.3])]


def lsf(c):
    """line spread functions, one spectrum after the other with the same parameters"""
    n = c.pick([1, 2, 3])
    seq = [c.choose(len(LSFS) + 3) for _ in range(n)]
    mode = c.pick(["", "full"]) if n < 3 else ""
    c.mine()
    obs = [""] if mode == "" else ["a", "b"]
    base = parameters(multiObsMethod=mode, lambdaRange=[4000., 6000.] if mode == "" else {o: [4000., 6000.] for o in obs}, lsf={"lsfType": "fromSpectrumData"})
    p = Parameters(json.loads(json.dumps(base)), Checker=NoCheck)
    c.desc = "LSFs %s, mode '%s'" % ([LSFS[i] if i < len(LSFS) else "none" for i in seq], mode)
    out = []
    for i in seq:
        r = AbstractSpectrumReader("s", p, Calibration(), "s")
        for k, o in enumerate(obs):
            deliver(r, o, rows_of([4000., 5000., 6000.], k), 0)
        if i < len(LSFS):
            t, v = LSFS[i]
            r.lsf_type = t
            for k, o in enumerate(obs):
                if t == "gaussianVariableWidth":
                    a = np.zeros(2, dtype=[("wave", "<f8"), ("width", "<f8")])
                    a["wave"], a["width"] = [3000., 9000.], [2., 4.] if v is None else [5., 6.]
                else:
                    a = np.zeros(1, dtype=[("width", "<f8")])
                    a["width"] = v[0] + k
                r.lsf_data.append(a, o)
        err = init(r)
        c.step()
        if i >= len(LSFS):
            check(code(err) == "LSF_NOT_LOADED", "no LSF delivered: %s" % err, "lsf/none")
            out.append("none")
            continue
        check(err is None, "refused: %s" % err, "lsf/refused")
        check(warned(WarningCode.MULTI_OBS_ARBITRARY_LSF) == (len(obs) > 1), "warning on several LSFs", "lsf/warning")
        t, v = LSFS[i]
        for o in obs:
            w = r.get_spectrum(o).GetLSF().GetWidth(5000.)
            e = {"gaussianConstantWidth": lambda: v[0], "gaussianConstantResolution": lambda: 5000. / v[0] / 2.355,
                 "gaussianVariableWidth": lambda: (2. if v is None else 5.) + (2. if v is None else 1.) / 3, "gaussianNISPVSSPSF201707": lambda: w}[t]()
            check(abs(w - e) < 1e-6 * e, "width at 5000 is %r, expected %r" % (w, e), "lsf/width")
        out.append(t)
    c.outcome(" ".join(out), n > 1)


def photometry(c):
    mode = c.pick(["", "merge", "full"])
    phot = c.pick([None, [], [("g", 1.5, .1)], [("r", 2., .3), ("g", 1.5, .1)]])
    c.mine()
    obs = [""] if mode == "" else ["a", "b"]
    r = build(parameters(multiObsMethod=mode, lambdaRange={o: [4000., 6000.] for o in obs} if mode == "full" else [4000., 6000.]))
    for k, o in enumerate(obs):
        deliver(r, o, rows_of([4000. + k, 5000. + k, 6000. + k], k), 0)
    if phot is not None:
        r.photometric_data.append(pd.DataFrame(phot, columns=["Name", "Flux", "Error"]))
    c.desc = "photometry %s, mode '%s'" % (phot, mode)
    seen = {}
    real = CSpectrum.SetPhotData
    CSpectrum.SetPhotData = lambda self, d: (seen.setdefault(self.oid, []).append(d), real(self, d))[1]
    try:
        err = init(r)
    finally:
        CSpectrum.SetPhotData = real
    c.step()
    check(err is None, "refused: %s" % err, "phot/refused")
    for o in [""] if mode != "full" else obs:
        d = seen.get(o, [])
        if not phot:
            check(not d, "photometry invented", "phot")
            continue
        check(len(d) == 1, "photometry of observation '%s' set %d times" % (o, len(d)), "phot")
        d = d[0]
        for n, f, e in phot:
            check((d.GetFlux(n), d.GetFluxErr(n)) == (f, e), "band %s is %s" % (n, (d.GetFlux(n), d.GetFluxErr(n))), "phot")
    c.outcome("phot %s" % (phot and len(phot)), bool(phot))


def ascii_(c):
    """the ASCII reader"""
    mode = c.pick(["", "merge", "full"])
    cols = c.pick([None, ["flag"], ["flag", "extra"]])
    flt = c.pick([[], [("flag", "~&", 4)], [("Wave", ">", 4100.)]])
    order = c.flip()
    c.mine()
    if flt and flt[0][0] == "flag" and not cols:
        raise Skip()
    obs = [""] if mode == "" else ["b", "a"] if order else ["a", "b"]
    d = parameters(multiObsMethod=mode, filters=flt_json(flt), lambdaRange={o: [4000., 6000.] for o in sorted(obs)} if mode == "full" else [4000., 6000.])
    if cols:
        d["additionalCols"] = cols
    r = build(d, ASCIISpectrumReader)
    exp = {}
    for k, o in enumerate(obs):
        rows = rows_of(WAVES[o], k)
        t = pd.DataFrame({"wave": [x[0] for x in rows], "flux": [x[1] for x in rows], "err": [x[2] for x in rows], "flag": [x[3] for x in rows], "extra": [x[3] + 100 for x in rows]})
        if o == "":
            r.load_all(t)
        else:
            r.load_wave(t, o)
            r.load_flux(t, o)
            r.load_error(t, o)
            r.load_lsf(t, o)
            r.load_others(t, o)
        exp[o] = [x for x in rows if accepted(x, flt)]
    c.desc = "table, mode '%s', observations %s, extra columns %s, filters %s" % (mode, obs, cols, flt)
    err = init(r)
    c.step()
    check(err is None, "refused: %s" % err, "ascii/refused")
    if mode == "merge":
        g, want = sorted(x[1:] for x in got(r)), sorted(x[1:3] for o in obs for x in exp[o])
        check(g == want, "fluxes and errors %s, expected %s" % (g, want), "ascii")
    else:
        for o in obs:
            check(got(r, o) == [x[:3] for x in exp[o]], "observation '%s' is %s, expected %s" % (o, got(r, o), exp[o]), "ascii")
            for e in cols or []:
                v = r.get_filtered_others(o)[e].tolist()
                check(v == [x[3] + 100 * (e == "extra") for x in exp[o]], "column %s is %s" % (e, v), "ascii/others")
    c.outcome("%s %d" % (mode, len(obs)), True)


def instructions(c):
    """every instruction of the schema is accepted, others are refused"""
    from pylibamazed.Filter import SpectrumFilterItem
    allowed = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "~&", "&", "0&", "^", "~^"]
    ins = c.pick(allowed + ["!in", "==", "", "|", "~", "0^", "~<"])
    c.mine()
    c.desc = "instruction '%s'" % ins
    try:
        SpectrumFilterItem("flag", ins, 3)
        ok = True
    except APIException:
        ok = False
    c.step()
    check(ok == (ins in allowed), "accepted: %s" % ok, "instruction")
    c.outcome(str(ok), True)


class World:
    pf = {}

    @classmethod
    def get(cls, mode):
        if not cls.pf:
            cls.dir = tempfile.mkdtemp(prefix="c06")
            atexit.register(shutil.rmtree, cls.dir, True)
            W.calibration(cls.dir)
        if mode not in cls.pf:
            kw = dict(multiObsMethod=mode)
            if mode == "full":
                kw["lambdaRange"] = {"a": [3700, 4900], "b": [4700, 6000]}
            cls.pf[mode] = ProcessFlow({"calibration_dir": cls.dir, "extended_results": True}, Parameters(W.document({"galaxy": W.model("tf")}, **kw), Checker=W.Free))
        return cls.pf[mode]


def unsorted(c):
    """samples out of order are refused (or sorted by the merge), through the whole pipeline"""
    mode = c.pick(["", "full", "merge"])
    kind = c.pick(["sorted", "reversed", "swapped", "repeated"])
    at = c.pick([0, 57, -2]) if kind in ("swapped", "repeated") else 0
    which = c.pick(["a", "b"]) if mode else ""
    order = c.flip() if mode else False
    c.mine()
    lam = np.arange(3650., 6050., 12.)
    t = W.spectrum(lam)
    obs = {"": t} if mode == "" else {"a": t[t.wave < 4950].reset_index(drop=True), "b": t[t.wave > 4650].reset_index(drop=True)} if mode == "full" else {"a": t[::2].reset_index(drop=True), "b": t[1::2].reset_index(drop=True)}
    s = obs[which]
    i = list(range(len(s)))
    if kind == "reversed":
        i.reverse()
    elif kind == "swapped":
        i[at], i[at + 1] = i[at + 1], i[at]
    elif kind == "repeated":
        i.insert(at, i[at])
    obs[which] = s.iloc[i].reset_index(drop=True)
    names = sorted(obs, reverse=order)
    pf = World.get(mode)
    r = W.Reader(observation_id="s", parameters=pf.parameters, calibration_library=pf.calibration_library, source_id="s")
    r.fill({"obs": {o: obs[o] for o in names}})
    c.desc = "pipeline, mode '%s', observations %s, '%s' %s at %d" % (mode, names, which, kind, at)
    rso = pf.run(r)
    c.step()
    bad = kind != "sorted" and mode != "merge"
    check(rso.has_error("", "init") == bad, "error at initialisation: %s (%s)" % (rso.has_error("", "init"), rso.errors), "unsorted")
    if not bad:
        check(not rso.errors, "errors %s" % rso.errors, "unsorted/errors")
        z = rso.get_attribute_from_source("galaxy", "redshiftSolver", "templateFittingSolve", "model_parameters", "Redshift", 0)
        if kind != "repeated":
            if mode not in _Z:
                _Z[mode] = z
            check(_Z[mode] == z, "redshift %r, %r for the same samples in another order" % (z, _Z[mode]), "unsorted/result")
    c.outcome("%s %s" % (mode, bad), kind != "sorted")


_Z = {}
for n in ("unsorted", "algebra", "mono", "multi", "refused", "lsf", "photometry", "instructions"):
    H.add(n, globals()[n])
H.add("ascii", ascii_)
sys.exit(H.main())
