"""C08: results through the loading and writing code, against an own reading of
the specification table.

`made` fills a made-up source of results (every value is unique) and compares
what is loaded, reported by name and written to HDF5 with what was put in;
`real` runs whole pipelines, with stages failing before or after their work, and
compares with the C++ result store, read directly.
"""
import atexit, copy, csv, io, shutil, sys, tempfile, zlib
import h5py
import numpy as np
import pandas as pd
import world as W
from mc import Harness, Skip, check
import pylibamazed.redshift as R
import pylibamazed.CalibrationLibrary as CL
from pylibamazed.AbstractOutput import AbstractOutput
from pylibamazed.Exception import APIException
from pylibamazed.H5Writer import H5Writer
from pylibamazed.Parameters import Parameters
from pylibamazed.Paths import results_specifications_filename
from pylibamazed.PdfHandler import BuilderPdfHandler
import pylibamazed.ProcessFlow as PF
from pylibamazed.ProcessFlow import ProcessFlow
from pylibamazed.redshift import AmzException, ErrorCode

with open(results_specifications_filename) as f:
    SPEC = list(csv.DictReader(f, delimiter="\t"))
for r in SPEC:
    r["ext"] = r["extended_results"].lower() == "true"
STAGES = ["redshiftSolver", "linemeas_catalog_load", "lineMeasSolver", "reliabilitySolver", "subClassifSolver"]
ROOT_STAGES = ["init", "classification", "load_result_store"]


def rows(level):
    out = {}
    for r in SPEC:
        if r["level"] == level:
            out.setdefault(r["dataset"], []).append(r)
    return out


# ------------------------------------------------------------- comparing
def same(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (a != a and b != b)


def norm(v):
    if isinstance(v, (bytes, np.bytes_)):
        return v.decode("utf-8")
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    return repr(v)


def size(v):
    return len(v) if isinstance(v, (np.ndarray, list)) else None


def read(node):
    """what one dataset of the file holds: name -> value"""
    if isinstance(node, h5py.Dataset):
        t = node[()]
        return {n: t[n] for n in t.dtype.names}
    check(not list(node.keys()), lambda: "%s holds %s" % (node.name, list(node.keys())), "h5/nested")
    return {k: v for k, v in node.attrs.items()}


def tree_of(h5, name):
    """{('root', ds): .., ('error', obj, stage): .., ('object', obj, ds): .., ('candidate', obj, rank, ds): ..}"""
    out = {}
    top = h5[name]
    for k in top:
        if k.endswith("_error"):
            out["error", None, k[:-6]] = read(top[k])
        elif k in MODELS:
            for k2 in top[k]:
                if k2 == "candidates":
                    for k3 in top[k][k2]:
                        check(k3.startswith("candidate") and len(k3) == 10, "candidate group " + k3, "h5/group")
                        for k4 in top[k][k2][k3]:
                            out["candidate", k, ord(k3[9]) - 65, k4] = read(top[k][k2][k3][k4])
                elif k2.endswith("_error"):
                    out["error", k, k2[:-6]] = read(top[k][k2])
                else:
                    out["object", k, k2] = read(top[k][k2])
        else:
            out["root", k] = read(top[k])
    return out


MODELS = ["galaxy", "star", "qso"]


def compare(want, got, what, tolerate_empty=True):
    for k in sorted(set(want) | set(got), key=repr):
        if k not in got:
            # a dataset without any value may or may not have a place
            check(not want[k] or all(size(v) == 0 for v in want[k].values()), lambda: "%s: %s is lost (%s)" % (what, k, str(want[k])[:200]), what + "/lost/" + k[-1])
        elif k not in want:
            check(not got[k] and k[0] == "object", lambda: "%s: %s is invented (%s)" % (what, k, str(got[k])[:200]), what + "/invented/" + k[-1])
        else:
            for a in sorted(set(want[k]) | set(got[k])):
                check(a in got[k], lambda: "%s: %s of %s is lost, %r" % (what, a, k, want[k][a]), what + "/lost-attribute")
                check(a in want[k], lambda: "%s: %s of %s is invented, %r" % (what, a, k, got[k][a]), what + "/invented-attribute")
                w, g = want[k][a], got[k][a]
                ok = same(w, g)
                check(ok, lambda: "%s: %s of %s is %s, not %s" % (what, a, k, str(norm(g))[:200], str(norm(w))[:200]), what + "/value")


def write(out, name, excluded=None):
    f = h5py.File(io.BytesIO(), "w")
    w = H5Writer(out)
    if excluded:
        w.excluded_datasets = excluded
    w.write_hdf5(f, name)
    f.flush()
    g = h5py.File(f.id.get_file_image() if False else io.BytesIO(f.id.get_file_image()), "r")
    return tree_of(g, name)


# ------------------------------------------------- through a made-up source
SCALAR = {"model_parameters", "classification", "linemeas_parameters", "warningFlag", "context_warningFlag", "init_warningFlag", "reliability", "PhotometricModel"}
NAMES = {"model_parameters": "a template", "fitted_lines": "group"}


def tag(*k):
    return zlib.crc32(repr(k).encode())


def made_value(r, key, n, special):
    """a value of the declared type, unique"""
    t = tag(r["dataset"], r["name"], *key)
    kind = r["hdf5_type"][0]

    def one(i):
        if kind == "S":
            return ["%s_%d_%d" % (r["name"][:6], t % 1000, i), "", "\u03b1\u03b2 %d" % t, "x" * (20 + i)][special if i == 0 or special == 1 else 0]
        if kind == "i":
            return [int(t % 100000) + i, -1, 0, 2 ** 31 - 1][special if i == 0 else 0]
        return [t / 7. + i, float("nan"), -float("inf"), 0.][special if i == 0 else 0]
    if n is None:
        return one(0)
    v = [one(i) for i in range(n)]
    if kind == "S":
        return np.array(v)
    return np.array(v, dtype=np.int32 if kind == "i" else float)


class Made(AbstractOutput):
    def __init__(self, parameters, content, nb, ext):
        self.content, self.nb = content, nb
        super().__init__(parameters, extended_results=ext)

    def key(self, object_type, stage, method, dataset, attribute, rank, band, obs):
        r = next(x for x in SPEC if x["name"] == attribute and x["dataset"] == dataset)
        if r["level"] == "root":
            return (None, None, dataset, attribute, None, object_type if "<ObjectType>" in attribute else None, "")
        return (object_type, method, dataset, attribute, rank, band, obs or "" if "<ObsID>" in dataset else "")

    def get_attribute_from_source(self, object_type, stage, method, dataset, attribute, rank=None, band_name=None, obs_id=None):
        return self.content[self.key(object_type, stage, method, dataset, attribute, rank, band_name, obs_id)]

    def has_attribute_in_source(self, object_type, stage, method, dataset, attribute, rank=None, band_name=None, obs_id=None):
        self.stages_asked.add((stage, method))
        return self.key(object_type, stage, method, dataset, attribute, rank, band_name, obs_id) in self.content

    stages_asked = set()

    def has_dataset_in_source(self, object_type, stage, method, dataset):
        return any(k[0] == object_type and k[1] == method and k[2].replace("<ObsID>", "") == dataset and k[4] is None for k in self.content)

    def has_candidate_dataset_in_source(self, object_type, stage, method, dataset):
        return any(k[0] == object_type and k[1] == method and k[2] == dataset and k[4] is not None for k in self.content)

    def get_nb_candidates_in_source(self, object_type, stage, method):
        return self.nb[object_type]


OBS2 = {"multiObsMethod": "full", "observationIds": ["1", "2"], "lambdaRange": {"1": [3700, 6000], "2": [3700, 6000]},
        "airVacuumMethod": {"1": "", "2": ""}}
PHOT = dict(photometryTransmissionDir="bands", photometryBand=["u", "r"])
SKIP2 = {"skipSecondPass": True}
CONFIG = {
    # name: models, document options
    "lm": ({"galaxy": W.model("lm")}, {}),
    "lm+meas": ({"galaxy": W.model("lm", True)}, {}),
    "lm skip2": ({"galaxy": W.model("lm", **SKIP2)}, {}),
    "tf,lm": ({"star": W.model("tf", star=True), "galaxy": W.model("lm")}, {}),
    "tc phot": ({"galaxy": W.model("tc")}, PHOT),
    "meas": ({"galaxy": W.model("", True)}, {}),
    "lm+meas,tf 2 obs": ({"galaxy": W.model("lm", True), "star": W.model("tf", star=True)}, OBS2),
    "nothing,tf": ({"qso": W.model(""), "galaxy": W.model("tf")}, {}),
}
PARAMS = {}


def parameters(name):
    if name not in PARAMS:
        models, opt = CONFIG[name]
        PARAMS[name] = Parameters(W.document(models, **opt), Checker=W.Free)
    return PARAMS[name]


CAND = rows("candidate")
OBJ = rows("object")
METH = rows("method")
ROOT = rows("root")
ALTER = ["absent", "size 0", "size 1", "size 3", "special 1", "special 2", "special 3", "first lost", "last lost"]
LEVELS = [("candidate", d) for d in CAND] + [("object", d) for d in OBJ] + [("root", d) for d in ROOT] + [("method", d) for d in METH]


def content_of(p, nb, bands, alter):
    """content of the source, and what must be loaded from it"""
    content, want = {}, {}
    obs = p.get_observation_ids()
    cur = None

    def put(level, r, key, skey, wkey, wname, group, rank=0):
        """key: in the source; wkey, wname: where it must be found"""
        a = alter.get((level, r["dataset"]))
        if a and a[1] is not None and a[1] != skey:
            a = None
        kind = a[0] if a else None
        if kind == "absent":
            return
        rr = group[r["dataset"]]
        if kind == "first lost" and r is rr[0] or kind == "last lost" and r is rr[-1]:
            return
        if r["name"] == "SubType":
            return
        n = None if r["dataset"] in SCALAR else {"size 0": 0, "size 1": 1, "size 3": 3}.get(kind, 2)
        v = made_value(r, key, n, int(kind[-1]) if kind and kind.startswith("special") else 0)
        content[key] = v
        want.setdefault(wkey, {})[wname] = v
    for ds, rs in ROOT.items():
        for r in rs:
            if "<ObjectType>" in r["name"]:
                for m in p.get_spectrum_models():
                    put("root", r, (None, None, ds, r["name"], None, m, ""), m, ("root", ds), r["name"].replace("<ObjectType>", m), ROOT)
            else:
                put("root", r, (None, None, ds, r["name"], None, None, ""), None, ("root", ds), r["name"], ROOT)
    for m in p.get_spectrum_models():
        lm = {"lineMeasSolve": p.get_linemeas_method(m)}
        solver = p.get_redshift_solver_method(m)
        for ds, rs in METH.items():
            for meth in p.get_solve_methods(m):
                for r in rs:
                    put("method", r, (m, meth, ds, r["name"], None, None, ""), m, ("object", m, ds), r["name"].replace("<MethodType>", meth), METH)
        for ds, rs in OBJ.items():
            meth = p.get_linemeas_method(m) if ds.startswith("linemeas") else solver
            if not meth or ds == "reliability":
                continue
            for o in obs if "<ObsID>" in ds else [""]:
                for r in rs:
                    put("object", r, (m, meth, ds, r["name"], None, None, o), o or m, ("object", m, ds.replace("<ObsID>", o)), r["name"], OBJ)
        if not solver:
            continue
        for ds, rs in CAND.items():
            if ds == "PhotometricModel" and not bands:
                continue
            for rank in range(nb[m]):
                for o in obs if "<ObsID>" in ds else [""]:
                    for r in rs:
                        for b in bands if "<BandName>" in r["name"] else [None]:
                            put("candidate", r, (m, solver, ds, r["name"], rank, b, o), rank, ("candidate", m, rank, ds.replace("<ObsID>", o)), b or r["name"], CAND)
    return content, want


def filtered(want, p, ext):
    """what the options keep"""
    out = {}
    for k, v in want.items():
        keep = {}
        for a, x in v.items():
            ds = k[-1]
            for base in ([ds] if any(r["dataset"] == ds for r in SPEC) else [d for d in {r["dataset"] for r in SPEC} if "<ObsID>" in d and ds.startswith(d.replace("<ObsID>", ""))]):
                rs = [r for r in SPEC if r["dataset"] == base and (r["name"] == a or "<" in r["name"])]
                if rs:
                    break
            r = rs[0]
            if r["ext"] and not ext:
                continue
            if k[0] == "candidate" and "Firstpass" in a:
                m = k[1]
                if p.get_linemodel_skipsecondpass(m) or p.get_redshift_solver_method(m) != "lineModelSolve":
                    continue
            keep[a] = x
        if keep:
            out[k] = keep
    return out


def loaded(out, p):
    """what an output object holds"""
    got = {}
    for ds in out.get_available_datasets("root"):
        got["root", ds] = dict(out.get_dataset(None, ds))
    for m in p.get_spectrum_models():
        for ds in out.get_available_datasets("object", m):
            got["object", m, ds] = dict(out.get_dataset(m, ds))
        for ds in out.get_available_datasets("candidate", m):
            for rank in range(len(out.object_results[m][ds])):
                got["candidate", m, rank, ds] = dict(out.get_dataset(m, ds, rank))
    return {k: v for k, v in got.items() if v or k[0] != "candidate"}


LINES = {"LyA": 3, "CIV": 17}


def by_name(out, want, p, c):
    """every value again, asked for by its short name"""
    for k, v in want.items():
        for a, x in v.items():
            ds = k[-1]
            if sum(r["name"] == a for r in SPEC) > 1:
                continue  # the name alone does not say which
            if not any(r["name"] == a and r["dataset"] == ds for r in SPEC):
                continue  # nor does it say of which observation
            if k[0] == "root":
                if ds == "classification":
                    q = "classification." + a
                else:
                    q = a
            elif ds == "warningFlag":
                q = "%s.%s" % (k[1], a)
            elif "LogZPdf" in a or ds in ("fitted_lines", "linemeas") or ds == "PhotometricModel":
                continue
            elif k[0] == "object":
                q = "%s.%s" % (k[1], a)
            else:
                q = "%s.%s.%d" % (k[1], a, k[2])
                if ds == "model_parameters" and k[2] == 0:
                    check(same(out.get_attribute_short("%s.%s" % (k[1], a), LINES), x), lambda: "%s.%s is not that of the first candidate" % (k[1], a), "short/rank0")
            if "<ObsID>" in a:
                continue
            try:
                g = out.get_attribute_short(q, LINES)
            except Exception as e:
                check(False, lambda: "asking for %s: %r" % (q, e), "short/exception")
            check(same(g, x), lambda: "%s is %s, not %s" % (q, str(norm(g))[:200], str(norm(x))[:200]), "short/value")
            c.step()
    # values of a line
    for k, v in want.items():
        for col, first in (("FittedLineID", "FittedLine"), ("LinemeasLineID", "LinemeasLine")):
            if col not in v:
                continue
            for name, i in list(LINES.items()):
                for a, x in v.items():
                    if a.startswith("Linemeas") != col.startswith("Linemeas") or size(x) != size(v[col]):
                        continue
                    q = "%s.%s.%s" % (k[1], name, a) + (".%d" % k[2] if k[0] == "candidate" else "")
                    at = [j for j, y in enumerate(norm(v[col])) if y == i]
                    if len(at) != 1:
                        continue
                    g = out.get_attribute_short(q, LINES)
                    check(same(g, norm(x)[at[0]]), lambda: "%s is %s, not %s" % (q, norm(g), norm(x)[at[0]]), "short/line")
                    c.step()
    for k, e in out.errors.items():
        for s in ROOT_STAGES:
            if k == s:
                check(same(out.get_attribute_short("error.%s.code" % s, LINES), e["code"]), "code of error %s" % s, "short/error")
        for m in p.get_spectrum_models():
            for s in STAGES:
                if k == "%s_%s" % (s, m):
                    for a in e:
                        check(same(out.get_attribute_short("error.%s.%s.%s" % (m, s, a), LINES), e[a]), "%s of error %s" % (a, k), "short/error")


def made(c):
    name = c.pick(list(CONFIG))
    what = c.choose(len(LEVELS) + 1)
    ext = c.flip() if c.thorough or what == len(LEVELS) else True
    ncand = c.choose(4) if c.thorough or what == len(LEVELS) else c.pick([2, 0])
    alter = {}
    errs = 0
    where = None
    if what < len(LEVELS):
        level, ds = LEVELS[what]
        a = c.pick(ALTER)
        where = c.choose(2)
        alter[level, ds] = (a, None)
        if where and level in ("object", "candidate"):
            alter[level, ds] = (a, 1 if level == "candidate" else "2" if "obs" in name else "star")
        elif where:
            raise Skip()
    else:
        errs = c.choose(4)
    second = None
    if c.thorough and what < len(LEVELS):
        w2 = c.choose(len(LEVELS))
        if w2 <= what:
            raise Skip()
        alter[LEVELS[w2]] = (c.pick(ALTER), None)
    c.mine()
    p = parameters(name)
    nb = {m: ncand + (i if ncand else 0) for i, m in enumerate(p.get_spectrum_models())}
    bands = PHOT["photometryBand"] if "phot" in name else []
    content, want = content_of(p, nb, bands, alter)
    # the identifiers of the lines are known ones
    for k, v in list(content.items()):
        if k[3] in ("FittedLineID", "LinemeasLineID") and len(v) and not any(a[0].startswith("special") for a in alter.values()):
            v[:] = ([17, 3, 5] if (k[4] or 0) % 2 else [3, 17, 9])[:len(v)]
    c.desc = "%s, extended %s, %s candidates, %s, errors %d" % (name, ext, nb, alter, errs)
    out = Made(p, content, nb, ext)
    error = {"code": "SOME_CODE", "message": "a message", "line": 12, "filename": "a/b.cpp", "method": "f"}
    es = [[], [(None, "classification")], [(m, s) for m in p.get_spectrum_models() for s in STAGES], [(None, "init")] + [(None, "load_result_store")]][errs]
    for m, s in es:
        out.errors[out.get_error_full_name(m, s)] = dict(error, message="%s of %s" % (s, m), line=-1 if m else 7)
    out.load_all()
    full = filtered(want, p, ext)
    if errs == 3:
        full = {k: v for k, v in full.items() if k[0] == "root"}
    got = loaded(out, p)
    compare(full, got, "load")
    c.step(len(full))
    if errs != 3:
        for m in p.get_spectrum_models():
            check(out.get_nb_candidates(m) == (nb[m] if any(k[0] == "candidate" and k[1] == m for k in full) else 0),
                  lambda: "%d candidates of %s" % (out.get_nb_candidates(m), m), "load/candidates")
        for k, v in full.items():
            if k[0] == "root":
                continue
            for a, x in v.items():
                args = (k[1], k[-1], a) + ((k[2],) if k[0] == "candidate" else ())
                check(out.has_attribute(*args) and same(out.get_attribute(*args), x), lambda: "attribute %s" % (args,), "load/attribute")
        near = {d for _, d in alter} or None
        by_name(out, {k: v for k, v in full.items() if c.thorough or near is None or k[-1] in near}, p, c)
    h5 = write(out, "a spectrum")
    for m, s in es:
        full["error", m, s] = dict(error, message="%s of %s" % (s, m), line=-1 if m else 7)
    compare(full, h5, "file")
    # datasets the user does not want
    if what == len(LEVELS) and not errs:
        for level, ds in (("object", "pdf"), ("candidate", "model_parameters"), ("object", "warningFlag"), ("candidate", "fitted_lines")):
            for m in p.get_spectrum_models():
                compare({k: v for k, v in full.items() if not (k[0] == level and k[1] == m and k[-1] == ds)}, write(out, "x", {m: [ds]}), "excluded")
    c.outcome("%d datasets" % len(full), len(full) > 4)


# ------------------------------------------------------------- whole runs
LAM = np.arange(3650., 6060., 10.)


def spectrum_of(name):
    if "obs" in name:
        return {"obs": {"2": W.spectrum(np.arange(4650., 6050., 13.)), "1": W.spectrum(np.arange(3650., 4950., 11.))}}
    s = {"data": W.spectrum(LAM)}
    if "phot" in name:
        s["phot"] = pd.DataFrame({"Name": ["u", "r"], "Flux": [1.1e-17, .8e-17], "Error": [1e-18, 2e-18]})
    return s


def reliable(m):
    m["stages"].append("reliabilitySolver")
    m["reliabilitySolver"] = {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": "m"}}
    return m


CATALOG = {"linemeascatalog": {"galaxy": "linemeas.tsv"},
           "linemeas_catalog_columns": {"galaxy": {"Redshift": "z", "VelocityAbsorption": "va", "VelocityEmission": "ve"}}}
RULES = dict(lineRatioType="rules", fittingMethod="hybrid")
RUNS = {
    # name: models, document options
    "lm+meas": ({"galaxy": reliable(W.model("lm", True))}, {}),
    "lm rules skip2": ({"galaxy": W.model("lm", skipSecondPass=True, **RULES)}, {}),
    "lm from spectrum+meas": ({"galaxy": W.model("lm", True, continuumComponent="fromSpectrum", **RULES)}, {}),
    "lm nocont,qso tf": ({"qso": W.model("tf"), "galaxy": W.model("lm", continuumComponent="noContinuum", extremaCount=3)}, {}),
    "lm one candidate": ({"galaxy": W.model("lm", extremaCount=1, lineTypeFilter="E", velocityFit=True)}, {}),
    "lm phot": ({"galaxy": W.model("lm", enablePhotometry=True)}, PHOT),
    "tf phot": ({"galaxy": W.model("tf", enablePhotometry=True)}, PHOT),
    "star tf,tc": ({"star": reliable(W.model("tf", star=True)), "galaxy": W.model("tc")}, {}),
    "2 obs lm,tf": ({"galaxy": W.model("lm", True), "qso": W.model("tf", extremaCount=3)}, OBS2),
    "2 obs tc": ({"galaxy": W.model("tc", extremaCount=1)}, OBS2),
    "catalog": ({"galaxy": W.model("", True)}, {}),
}
METHOD = {"lineModelSolve": "CLineModelSolve", "templateFittingSolve": "CTemplateFittingSolve", "tplCombinationSolve": "CTplCombinationSolve",
          "lineMeasSolve": "CLineMeasSolve", "classificationSolve": "CClassificationSolve"}
FAULT = {"at": None}


def failing(real):
    class Solver:
        def Compute(self):
            at = FAULT["at"]
            here = at and at[:2] == (PF.get_scope_spectrum_model(), PF.get_scope_stage())
            if here and at[2] == "before":
                raise APIException(ErrorCode.INTERNAL_ERROR, "made up")
            real().Compute()
            if here:
                raise APIException(ErrorCode.EXTERNAL_LIB_ERROR, "made up too")
    return Solver


class Reliable:
    def __init__(self, m, parameters, calibration):
        self.m = m

    def Compute(self, context):
        if FAULT["at"] and FAULT["at"][:2] == (self.m, "reliabilitySolver"):
            raise APIException(ErrorCode.INTERNAL_ERROR, "no reliability")
        return .25 + len(self.m) / 64.


for k in METHOD.values():
    setattr(PF, k, failing(getattr(PF, k)))
PF.ReliabilitySolve = Reliable
CL.load_reliability_model = lambda *a: {"model": object(), "parameters": {}}
FLOWS = {}
TMP = tempfile.mkdtemp(prefix="verif-out-")
atexit.register(shutil.rmtree, TMP, True)


def flow(name, ext):
    """calibration is loaded once; the switch for extended results is read at each run"""
    if name not in FLOWS:
        if not FLOWS:
            W.calibration(TMP)
        models, opt = RUNS[name]
        cfg = dict(CATALOG, calibration_dir=TMP, extended_results=ext) if name == "catalog" else dict(calibration_dir=TMP, extended_results=ext)
        if name == "catalog":
            cfg["linemeascatalog"] = {"galaxy": TMP + "/linemeas.tsv"}
        pf = ProcessFlow(cfg, Parameters(W.document(copy.deepcopy(models), **opt), Checker=W.Free))
        FLOWS[name] = pf
    pf = FLOWS[name]
    pf.extended_results = ext
    return pf


def plain(x):
    """a value of the library as numbers"""
    t = type(x).__name__
    if t == "CMask":
        return plain(x.getMaskList())
    if hasattr(x, "to_numpy"):
        return list(x)
    if t.startswith("T") and t.endswith("List"):
        return list(x)
    return x


def take(o, path, arg=None):
    """(there is one, the value) of a field of a result"""
    if o is None:
        return False, None
    path = path.split("[")[0]
    for n in path.split("."):
        if not hasattr(o, n):
            return False, None
        o = getattr(o, n)
    if arg is not None:
        if arg not in list(o.keys()):
            return False, None
        return True, list(o.to_numpy(arg)) if hasattr(o, "to_numpy") else o[arg]
    return True, plain(o)


def direct(store, p, name):
    """the results, read from the library itself"""
    want, raw = {}, {}

    def put(key, name, got):
        if got[0]:
            want.setdefault(key, {})[name] = got[1]

    def getter(f, *a):
        try:
            return f(*a)
        except AmzException:
            return None
    for ds, rs in ROOT.items():
        for r in rs:
            if ds == "classification":
                if r["ResultStore_key"] == "warningFlag":
                    put(("root", ds), r["name"], take(getter(store.GetFlagLogResult, ds, ds, ds, "warningFlag"), "flagValue"))
                    continue
                o = getter(store.GetClassificationResult, ds, ds, ds, "solveResult")
                if "<" in r["name"]:
                    for m in p.get_spectrum_models():
                        put(("root", ds), r["name"].replace("<ObjectType>", m), take(o, r["OperatorResult_name"], m))
                else:
                    put(("root", ds), r["name"], take(o, r["OperatorResult_name"]))
            else:
                put(("root", ds), r["name"], take(getter(store.GetFlagLogResult, "", "", "", ds), "flagValue"))
    obs = p.get_observation_ids()
    for m in p.get_spectrum_models():
        rs_method, lm_method = p.get_redshift_solver_method(m), p.get_linemeas_method(m)
        for stage, meth in (("redshiftSolver", rs_method), ("lineMeasSolver", lm_method)):
            if meth:
                put(("object", m, "warningFlag"), meth + "WarningFlags", take(getter(store.GetFlagLogResult, m, stage, meth, "warningFlag"), "flagValue"))
        if rs_method:
            for pre in ("", "firstpass_"):
                o = getter(store.GetLogZPdfResult, m, "redshiftSolver", rs_method, pre + "pdf")
                for ds in (pre + "pdf", pre + "pdf_params"):
                    for r in OBJ[ds]:
                        put(("object", m, ds), r["name"], take(o, r["OperatorResult_name"]))
        if lm_method:
            o = getter(store.GetLineModelSolution, m, "lineMeasSolver", lm_method, "linemeas")
            for ds in ("linemeas", "linemeas_parameters", "linemeas_line_mask"):
                for r in OBJ[ds]:
                    put(("object", m, ds), r["name"], take(o, r["OperatorResult_name"]))
            o = getter(store.GetModelSpectrumResult, m, "lineMeasSolver", lm_method, "linemeas_model")
            for i in obs:
                for r in OBJ["linemeas_model<ObsID>"]:
                    put(("object", m, "linemeas_model" + i), r["name"], take(o, r["OperatorResult_name"], i))
        if not rs_method:
            continue
        a = (m, "redshiftSolver", rs_method, "extrema_results")
        n = getter(store.getNbRedshiftCandidates, *a[:3]) or 0
        for rank in range(n):
            if rs_method == "lineModelSolve":
                o, f = (store.GetLineModelResult(*a, "model_parameters", rank, x) for x in (False, True))
                lines = store.GetLineModelSolution(*a, "fitted_lines", rank)
                both = [("model_parameters", o), ("line_mask", o), ("continuum_polynom", o), ("fitted_lines", lines)]
            elif rs_method == "tplCombinationSolve":
                o, f = store.GetTplCombinationResult(*a, "model_parameters", rank), None
                both = [("model_parameters", o), ("modeltplCombination_parameters", o)]
            else:
                o, f = store.GetExtremaResult(*a, "model_parameters", rank), None
                both = [("model_parameters", o)]
            for ds, x in both:
                for r in CAND[ds]:
                    if r["name"] != "SubType":
                        put(("candidate", m, rank, ds), r["name"], take(f if "Firstpass" in r["name"] else x, r["OperatorResult_name"]))
            for ds in ("model", "continuum"):
                if ds == "continuum" and rs_method != "lineModelSolve":
                    continue
                x = getter(store.GetModelSpectrumResult, *a, ds, rank)
                for i in obs:
                    for r in CAND[ds + "<ObsID>"]:
                        put(("candidate", m, rank, ds + i), r["name"], take(x, r["OperatorResult_name"], i))
            if "phot" in name and rs_method != "tplCombinationSolve":
                x = getter(store.GetModelPhotValueResult, *a, "PhotometricModel", rank)
                for b in PHOT["photometryBand"]:
                    put(("candidate", m, rank, "PhotometricModel"), b, take(x, "m_photValues", b))
            raw[m, rank] = o
        raw[m] = n
    return want, raw


def expected(p, name, at, full, ext, out, pf):
    """what must be there, from the configuration and the failures alone"""
    need = {("root", "context_warningFlag"), ("root", "init_warningFlag")}
    failed = {}
    for m in p.get_spectrum_models():
        rs, lm = p.get_redshift_solver_method(m), p.get_linemeas_method(m)
        f = at[1] if at and at[0] == m else None
        if f:
            failed[m, f] = at[2]
        if rs and not (f == "redshiftSolver" and at[2] == "before"):
            need |= {("object", m, d) for d in ("pdf", "pdf_params", "warningFlag")}
            if ext and rs == "lineModelSolve" and not p.get_linemodel_skipsecondpass(m):
                need |= {("object", m, d) for d in ("firstpass_pdf", "firstpass_pdf_params")}
            for k in range(1):
                need |= {("candidate", m, k, d) for d in ["model_parameters"] + ["model" + o for o in (["2"] if name == "2 obs tc" else p.get_observation_ids())]}
                if rs == "lineModelSolve":
                    need |= {("candidate", m, k, "fitted_lines")}
        if lm and not (rs and f == "redshiftSolver") and not (f == "lineMeasSolver" and at[2] == "before"):
            need |= {("object", m, d) for d in ["linemeas", "linemeas_parameters", "warningFlag"] + ["linemeas_model" + o for o in p.get_observation_ids()]}
    if p.is_a_redshift_solver_used() and not (at and at[1] == "classification" and at[2] == "before") and \
            not (at and at[1] == "redshiftSolver" and sum(bool(p.get_redshift_solver_method(m)) for m in p.get_spectrum_models()) == 1):
        need.add(("root", "classification"))
    for k in sorted(need, key=repr):
        check(k in full, lambda: "%s is not among the results" % (k,), "real/missing/" + k[-1])
    return need


REST = [float(l.split("\t")[0]) for l in W.LINES.split("\n")[1:] if l]


def meaning(p, m, rank, v, spectrum, full, out, c):
    """the entries of one candidate are about the same solution"""
    mp = v["model_parameters"]
    z = mp["Redshift"]
    check(mp["Rank"] == rank, lambda: "candidate %d says it is %s" % (rank, mp["Rank"]), "real/rank")
    check(mp["RedshiftProbaZmin"] <= z <= mp["RedshiftProbaZmax"], lambda: "candidate %g is out of its range" % z, "real/range")
    if rank:
        prev = full["candidate", m, rank - 1, "model_parameters"]
        check(prev["RedshiftProba"] >= mp["RedshiftProba"], lambda: "candidate %d is better than the one before" % rank, "real/order")
    # the pdf at the candidate
    b = BuilderPdfHandler()
    zs = np.array(out.get_pdf_attribute(m, "LogZPdfNativeZGrid", b))
    native = np.array(full["object", m, "pdf"]["LogZPdfNative"])
    check(len(zs) == len(native), lambda: "grid of %d, pdf of %d" % (len(zs), len(native)), "real/grid")
    i = int(np.argmin(abs(zs - z)))
    check(abs(zs[i] - z) < 1e-9, lambda: "redshift %r is not on the grid, %r" % (z, zs[i]), "real/grid")
    check(abs(native[i] - mp["RedshiftLogProbaDensity"]) <= 1e-9 * max(1, abs(native[i])),
          lambda: "density %r at %r, pdf %r" % (mp["RedshiftLogProbaDensity"], z, native[i]), "real/density")
    g = out.get_attribute_short("%s.LogZPdfNative" % m, LINES, BuilderPdfHandler())
    check(same(g, native), "the native pdf asked for by name is another", "real/short-pdf")
    f = full.get(("object", m, "firstpass_pdf"))
    if f:
        g = out.get_attribute_short("%s.FirstpassLogZPdfNative" % m, LINES, BuilderPdfHandler())
        check(same(g, f["FirstpassLogZPdfNative"]), "the first pass pdf asked for by name is another", "real/short-firstpass-pdf")
    # the lines at the redshift
    lines = v.get("fitted_lines")
    if lines:
        lines_at(lines["FittedLineLambda"], lines["FittedLineID"], z, "FittedLine")
        off = [x for x in lines["FittedLineOutsideRange"]] if "FittedLineOutsideRange" in lines else None
        if off:
            for l, o in zip(lines["FittedLineLambda"], off):
                if not 3600 < l < 6100:
                    check(o, "line at %g is said to be in the range" % l, "real/outside")
    # the model and its distance to the spectrum
    chi2, n = 0., 0
    for o, df in (spectrum["obs"].items() if "obs" in spectrum else [("", spectrum["data"])]):
        if "model" + o not in v and p.get_redshift_solver_method(m) == "tplCombinationSolve":
            continue  # made from the first observation
        k = v["model" + o]
        lam, flux = np.array(k["ModelLambda"]), np.array(k["ModelFlux"])
        inside = df[(df.wave >= 3700) & (df.wave <= 6000)]
        check(len(lam) == len(df) and abs(lam - df.wave.to_numpy()).max() < 1e-8 if len(lam) == len(df) else len(lam) == len(inside) and
              abs(lam - inside.wave.to_numpy()).max() < 1e-8, lambda: "wavelengths of the model of %r are not those of the spectrum: %s, %s" % (o, (len(lam), lam[:2], lam[-2:]), (len(inside), inside.wave.to_numpy()[[0, -1]])), "real/model-axis")
        sel = (lam >= 3700) & (lam <= 6000)
        chi2 += float((((flux[sel] - inside.flux.to_numpy()) / inside.err.to_numpy()) ** 2).sum())
        n += sel.sum()
    # the reduced chi2 is that of the model
    method = p.get_redshift_solver_method(m)
    if method != "lineModelSolve" and "ContinuumLeastSquare" in mp:
        ls = mp["ContinuumLeastSquare"] - (mp["ContinuumLeastSquarePhot"] if "ContinuumLeastSquarePhot" in mp else 0)
        if method == "templateFittingSolve" or "2" not in [k[5:] for k in v] :
            check(abs(ls - chi2) <= 1e-6 * abs(chi2), lambda: "least square %r, that of the model is %r" % (ls, chi2), "real/least-square")
    elif method == "lineModelSolve":
        ls = mp["LeastSquare"] - (mp["ContinuumLeastSquarePhot"] if "ContinuumLeastSquarePhot" in mp and mp["ContinuumLeastSquarePhot"] > 0 else 0)
        if "ContinuumLeastSquarePhot" in mp or "PhotometricModel" not in v:
            check(abs(ls - chi2) <= 1e-2 * abs(chi2), lambda: "least square %r, that of the model is %r" % (ls, chi2), "real/least-square")
    # the fluxes in the bands are those of the continuum
    if "PhotometricModel" in v:
        k = v["continuum"] if "continuum" in v else None
        lam, flux = [np.array(v["continuum"][x] if k else v["model"][y]) for x, y in (("BestContinuumLambda", "ModelLambda"), ("BestContinuumFlux", "ModelFlux"))]
        x = np.arange(4000., 5200., 50.)
        f = np.interp(x, lam, flux) * x * x / 2.99792458e18
        for band, (mid, wid) in (("u", (4500, 250)), ("r", (4900, 150))):
            t = np.exp(-((x - mid) / wid) ** 2)
            w = t / x
            g = float(np.trapz(f * w, x) / np.trapz(w, x))
            check(abs(g / v["PhotometricModel"][band] - 1) < .05, lambda: "flux in %s is %g, %g from the continuum" % (band, v["PhotometricModel"][band], g), "real/photometry")
    return chi2


def lines_at(lam, ids, z, what):
    for l, i in zip(lam, ids):
        if l == l and l >= 0:
            check(abs(l / (1 + z) - REST[i]) < 1e-3 * REST[i], lambda: "%s %d is at %g, its rest wavelength at %g is %g" % (what, i, l, z, REST[i]), "real/line")


def real(c):
    name = c.pick(list(RUNS))
    models = list(RUNS[name][0])
    places = [None]
    for m in models:
        st = RUNS[name][0][m]["stages"]
        places += [(m, s, w) for s in st for w in ("before", "after") if s != "reliabilitySolver" or w == "before"]
    if any("redshiftSolver" in x["stages"] for x in RUNS[name][0].values()):
        places += [("classification", "classification", w) for w in ("before", "after")]
    at = c.pick(places)
    ext = c.flip()
    c.mine()
    c.desc = "%s, %s, extended %s" % (name, "no failure" if not at else "%s of %s fails %s its work" % (at[1], at[0], at[2]), ext)
    pf = flow(name, ext)
    p = pf.parameters
    FAULT["at"] = at
    sp = spectrum_of(name)
    out = W.run(pf, "plain", sp)
    FAULT["at"] = None
    store = pf.process_flow_context.GetResultStore()
    for k, e in out.errors.items():
        if not (e["message"].startswith("made up") or e["message"].startswith("no reliability") or e["code"] in ("STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE", "NO_CLASSIFICATION")):
            check(False, "unexpected error %s: %s" % (k, e), "real/error")
    want, raw = direct(store, p, name)
    full = filtered(want, p, ext)
    expected(p, name, at, full, ext, out, pf)
    for m in models:
        if p.get_reliability_enabled(m) and (not at or at[0] != m or at[1] == "lineMeasSolver"):
            full["object", m, "reliability"] = {"Reliability": .25 + len(m) / 64.}
        if p.is_tplratio_catalog_needed(m) and raw.get(m) and not (at and at[:2] == (m, "redshiftSolver")):
            for rank in range(raw[m]):
                mp = full["candidate", m, rank, "model_parameters"]
                mp["SubType"] = {"tplA": "A", "tplB": "B"}.get(mp["LinesRatioName"], "")
    compare(full, loaded(out, p), "real")
    c.step(len(full))
    for m in models:
        for rank in range(raw.get(m, 0)):
            v = {k[3]: x for k, x in full.items() if k[0] == "candidate" and k[1] == m and k[2] == rank}
            chi2 = meaning(p, m, rank, v, sp, full, out, c)
            c.desc += "; %s %d: %g %g" % (m, rank, chi2, v["model_parameters"].get("LeastSquare", 0))
        lm = full.get(("object", m, "linemeas"))
        if lm:
            lines_at(lm["LinemeasLineLambda"], lm["LinemeasLineID"], full["object", m, "linemeas_parameters"]["LinemeasRedshift"], "LinemeasLine")
    cl = full.get(("root", "classification"))
    if cl and "Type" in cl:
        ev = {m: cl[m + "LogEvidence"] for m in models if m + "LogEvidence" in cl}
        check(cl["Type"] == max(ev, key=ev.get), lambda: "type %s, %s" % (cl["Type"], ev), "real/type")
    by_name(out, full, p, c)
    h5 = write(out, "a spectrum")
    for k in out.errors:
        for m in models:
            for s in STAGES:
                if k == "%s_%s" % (s, m):
                    full["error", m, s] = dict(out.errors[k])
        if k in ROOT_STAGES:
            full["error", None, k] = dict(out.errors[k])
    check(sum(k[0] == "error" for k in full) == len(out.errors), lambda: "errors %s" % list(out.errors), "real/errors")
    compare(full, h5, "real file")
    c.outcome("%d datasets" % len(full), len(full) > 4)


H = Harness()
for f in (made, real):
    H.add(f.__name__, f)
if __name__ == "__main__":
    sys.exit(H.main())
