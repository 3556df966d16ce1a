"""C01: the Python orchestration under every assignment of failures to its stages.

The real ProcessFlow, Parameters, ResultStoreOutput, scope stack and C++ context
run; what a stage computes is replaced by a stand-in that records the call and
succeeds or fails as the explorer decides.
"""
import copy, json, os, shutil, sys, tempfile
import numpy as np
import mc
from mc import check
import pylibamazed.redshift as R
from pylibamazed import CalibrationLibrary as CL, Reliability, ResultStoreOutput as RSO, SubType
from pylibamazed.Parameters import Parameters
from pylibamazed.ProcessFlow import ProcessFlow
from pylibamazed.Exception import APIException
from pylibamazed.redshift import AmzException, CProcessFlowContext, ErrorCode

CTX = CProcessFlowContext.GetInstance()
# the specification file of the results does not change: parse it once
import pandas
_read, _parsed = pandas.read_csv, {}


def read_csv(f, *a, **k):
    key = (str(f), repr(a), repr(sorted(k.items())))
    if not str(f).endswith("results_specifications.csv") and "specification" not in str(f):
        return _read(f, *a, **k)
    if key not in _parsed:
        _parsed[key] = _read(f, *a, **k)
    return _parsed[key].copy()


pandas.read_csv = read_csv
TMP = tempfile.mkdtemp(prefix="verif-flow-")
import atexit
atexit.register(shutil.rmtree, TMP, True)
STAGES = ["redshiftSolver", "lineMeasSolver", "reliabilitySolver", "subClassifSolver"]


class Free:
    def __init__(self, p):
        pass

    def json_schema_check(self, v):
        pass

    def custom_check(self):
        pass


def corrections():
    lam = R.TFloat64List([float(x) for x in range(200, 1300)])
    flux = R.VecTFloat64List([R.TFloat64List([0.9] * 1100) for _ in range(7)])
    cur = R.VecMeiksinCorrection()
    cur.append(R.MeiksinCorrection(lam, flux))
    cur.append(R.MeiksinCorrection(lam, flux))
    mei = R.CSpectrumFluxCorrectionMeiksin(cur, [1.5, 2.0, 2.5])
    l2 = [float(x) for x in range(100, 25000, 100)]
    cal = R.CSpectrumFluxCorrectionCalzetti(R.CalzettiCorrection(l2, [0.5] * len(l2)), 0.0, 0.1, 2)
    return mei, cal


MEI, CAL = corrections()


class World:
    """one execution: what was called, and what the explorer decides"""
    cur = None

    def __init__(self, c):
        self.c, self.calls, self.json, self.lm = c, [], None, {}
        self.kinds = 3
        World.cur = self

    # 0 works, 1 library error, 2 other error
    def fault(self, what):
        k = self.decide(what)
        if k == 1:
            raise APIException(ErrorCode.INTERNAL_ERROR, "injected in " + what)
        if k == 2:
            raise ValueError("injected in " + what)

    def decide(self, what):
        k = self.c.choose(self.kinds)
        if k:
            self.c.desc += " %s %s;" % (what, "fails" if k == 1 else "breaks")
        self.faults[what] = k
        return k


def path():
    return [CTX.m_ScopeStack[i] for i in range(CTX.m_ScopeStack.size())] if hasattr(
        CTX.m_ScopeStack, "__getitem__") else None


def where():
    try:
        m = CTX.GetCurrentCategory()
    except AmzException:
        m = None
    try:
        s = CTX.GetCurrentStage()
    except AmzException:
        s = None
    return m, s


def called(method):
    w = World.cur
    m, s = where()
    w.calls.append((m, s, method))
    return w, m, s


def solver(method):
    def Compute(self):
        w, m, s = called(method)
        if method == "lineMeasSolve":
            w.lm[m] = copy.deepcopy(w.json[m]) if w.json else None
        w.fault("%s/%s" % (m, s))
    return Compute


for cls, meth in (("CLineModelSolve", "lineModelSolve"), ("CTemplateFittingSolve", "templateFittingSolve"),
                  ("CTplCombinationSolve", "tplCombinationSolve"), ("CLineMeasSolve", "lineMeasSolve"),
                  ("CClassificationSolve", "classificationSolve")):
    getattr(R, cls).Compute = solver(meth)


def reliability(self, source):
    w, m, s = called("reliability")
    w.fault("%s/%s" % (m, s))
    return "reliability of " + m


def subtype(self, context):
    w, m, s = called("subtype")
    w.fault("%s/%s" % (m, s))
    return ["sub0 of " + m, "sub1 of " + m]


Reliability.ReliabilitySolve.Compute = reliability
SubType.SubType.Compute = subtype
ZREF = {"galaxy": 0.5, "star": 1.5, "qso": 2.5}


def attribute(self, object_type, stage, method, dataset, attribute, rank=None, band_name=None, obs_id=None):
    w = World.cur
    if attribute == "Redshift":
        w.calls.append((object_type, where()[1], "load"))
        w.fault("%s/linemeas_catalog_load" % object_type)
    return {"Redshift": ZREF[object_type], "VelocityAbsorption": 100 * ZREF[object_type],
            "VelocityEmission": 200 * ZREF[object_type]}[attribute]


REAL_LOAD = RSO.ResultStoreOutput.load_all
REAL_ATTR = RSO.ResultStoreOutput.get_attribute_from_source
RSO.ResultStoreOutput.get_attribute_from_source = lambda self, ot, st, me, ds, at, rank=None, band_name=None, obs_id=None: (
    attribute(self, ot, st, me, ds, at, rank) if ds == "model_parameters" and rank == 0
    else REAL_ATTR(self, ot, st, me, ds, at, rank, band_name, obs_id))


def load_all(self):
    w = World.cur
    w.calls.append((None, where()[1], "load_all"))
    w.fault("/load_result_store")
    if w.real_load:
        REAL_LOAD(self)


RSO.ResultStoreOutput.load_all = load_all
REAL_LPS = CProcessFlowContext.LoadParameterStore


def lps(self, js):
    World.cur.json = json.loads(js)
    return REAL_LPS(self, js)


CProcessFlowContext.LoadParameterStore = lps


def calib_load(self, calibs="all"):
    self.meiksin, self.calzetti = MEI, CAL
    self.templates_catalogs = {"all": R.CTemplateCatalog()}
    for m in self.parameters.get_spectrum_models():
        self.line_catalogs[m] = {x: R.CLineCatalog(10.0) for x in ("lineModelSolve", "lineMeasSolve")}
        if World.cur.models[m]["rel"] == 1:
            self.reliability_models[m] = object()
            self.reliability_parameters[m] = {}


CL.CalibrationLibrary.load_all = calib_load


def document(models):
    d = {"version": 2, "multiObsMethod": "", "lambdaRange": [5000, 5010], "airVacuumMethod": "", "autoCorrectInput": False,
         "continuumRemoval": {"method": "zero", "medianKernelWidth": 3, "medianEvenReflection": True},
         "templateCatalog": {"continuumRemoval": {"method": "zero", "medianKernelWidth": 3, "medianEvenReflection": True}},
         "lsf": {"lsfType": "gaussianConstantWidth", "width": 2.0}, "ebmv": {"start": 0, "step": 0.1, "count": 2}, "smoothWidth": 0,
         "spectrumModels": list(models)}
    for m, x in models.items():
        st = []
        s = {"redshiftRange": [0, 1], "redshiftStep": 1e-3, "redshiftSampling": "log", "stages": st}
        if x["rs"]:
            st.append("redshiftSolver")
            meth = {"LMrules": "lineModelSolve", "LMtpl": "lineModelSolve", "TF": "templateFittingSolve", "TC": "tplCombinationSolve"}[x["rs"]]
            s["redshiftSolver"] = {"method": meth}
            if meth == "lineModelSolve":
                s["redshiftSolver"][meth] = {"lineModel": {"lineRatioType": "tplRatio" if x["rs"] == "LMtpl" else "rules",
                                                           "continuumComponent": "noContinuum", "velocityEmission": 1,
                                                           "velocityAbsorption": 2, "skipSecondPass": False,
                                                           "lya": {"profile": "asym"}}}
            else:
                s["redshiftSolver"][meth] = {"ismFit": False, "igmFit": False, "fftProcessing": False}
        if x["lm"]:
            st.append("lineMeasSolver")
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {
                "velocityEmission": 3, "velocityAbsorption": 4, "lya": {"profile": "asym"}, "continuumComponent": "noContinuum"}}}
        if x["rel"]:
            st.append("reliabilitySolver")
            s["reliabilitySolver"] = {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": "m"}}
        d[m] = s
    return d


class Reader:
    source_id = "s1"

    def __init__(self, kind):
        self.kind = kind

    def init(self):
        w = World.cur
        if self.kind == 1:
            raise APIException(ErrorCode.INVALID_SPECTRUM, "injected in init")
        if self.kind == 2:
            raise KeyError("injected in init")
        lam = np.linspace(4999, 5011, 13)
        if self.kind == 3:  # rejected by the C++ initialisation
            lam = np.linspace(6999, 7011, 13)
        s = R.CSpectrum(R.CSpectrumSpectralAxis(lam, ""), R.CSpectrumFluxAxis_withError(np.ones(13), np.full(13, 0.5)))
        s.SetName("s1")
        CTX.addSpectrum(s)
        args = R.TLSFGaussianConstantWidthArgs(CTX.LoadParameterStore(json.dumps(w.doc)))
        s.SetLSF(R.CLSFFactory.GetInstance().Create("gaussianConstantWidth", args))


# every configuration of one spectrum model
FULL = [dict(rs=rs, lm=lm, rel=rel) for rs in ("LMrules", "LMtpl") for lm in ("", "pipe") for rel in (0, 1, 2)] + \
       [dict(rs="TF", lm="", rel=rel) for rel in (0, 1, 2)] + [dict(rs="TC", lm="", rel=0), dict(rs="", lm="", rel=0),
                                                             dict(rs="", lm="alone", rel=0)]
SHORT = [dict(rs="LMtpl", lm="pipe", rel=1), dict(rs="LMrules", lm="", rel=0), dict(rs="", lm="", rel=0),
         dict(rs="", lm="alone", rel=0), dict(rs="TF", lm="", rel=1)]


def config(models, missing=()):
    cfg = {"calibration_dir": TMP, "extended_results": True}
    alone = [m for m, x in models.items() if x["lm"] == "alone"]
    if alone:
        cfg["linemeascatalog"], cfg["linemeas_catalog_columns"] = {}, {}
        for m in alone:
            f = os.path.join(TMP, "lm-%s%s.tsv" % (m, "-none" if m in missing else ""))
            if not os.path.exists(f):
                with open(f, "w") as h:
                    h.write("ProcessingID\tz\tva\tve\nother\t9\t9\t9\n")
                    if m not in missing:
                        h.write("s1\t%s\t%s\t%s\n" % (ZREF[m], 100 * ZREF[m], 200 * ZREF[m]))
            cfg["linemeascatalog"][m] = f
            cfg["linemeas_catalog_columns"][m] = {"Redshift": "z", "VelocityAbsorption": "va", "VelocityEmission": "ve"}
    return cfg


def enabled(x):
    e = set()
    if x["rs"]:
        e.add("redshiftSolver")
    if x["lm"]:
        e.add("lineMeasSolver")
    if x["rel"]:
        e.add("reliabilitySolver")
    if x["rs"] == "LMtpl":
        e.add("subClassifSolver")
    return e


METHOD = {"LMrules": "lineModelSolve", "LMtpl": "lineModelSolve", "TF": "templateFittingSolve", "TC": "tplCombinationSolve"}
CONSEQ = "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE"


def expected(models, init, faults):
    """the documented dependencies, written as a table"""
    err, calls = {}, []

    def own(k, stage):
        f = faults.get(k, 0)
        if f:
            m = k.split("/")[0]
            err[(m or None, stage)] = ("INTERNAL_ERROR" if f == 1 else "PYTHON_API_ERROR", "injected in " + k)
        return f == 0

    if init:
        err[(None, "init")] = None
        for m, x in models.items():
            for s in enabled(x):
                err[(m, s)] = (CONSEQ, "init")
        return err, calls
    for m, x in models.items():
        e = enabled(x)
        if "redshiftSolver" in e:
            calls.append((m, "redshiftSolver", METHOD[x["rs"]]))
            if not own(m + "/redshiftSolver", "redshiftSolver"):
                for s in e - {"redshiftSolver"}:
                    err[(m, s)] = (CONSEQ, "redshiftSolver")
                continue
            if "subClassifSolver" in e:
                calls.append((m, "subClassifSolver", "subtype"))
                own(m + "/subClassifSolver", "subClassifSolver")
            if x["rel"] == 1:
                calls.append((m, "reliabilitySolver", "reliability"))
                own(m + "/reliabilitySolver", "reliabilitySolver")
            if x["lm"] == "pipe":
                calls.append((m, "linemeas_catalog_load", "load"))
                if not own(m + "/linemeas_catalog_load", "linemeas_catalog_load"):
                    err[(m, "lineMeasSolver")] = (CONSEQ, "linemeas_catalog_load")
                    continue
        if x["lm"]:
            calls.append((m, "lineMeasSolver", "lineMeasSolve"))
            own(m + "/lineMeasSolver", "lineMeasSolver")
    users = [m for m, x in models.items() if x["rs"]]
    if users:
        if all((m, "redshiftSolver") in err for m in users):
            err[(None, "classification")] = ("NO_CLASSIFICATION", "")
        else:
            calls.append(("classification", "classification", "classificationSolve"))
            f = faults.get("classification/classification", 0)
            if f:
                err[(None, "classification")] = ("INTERNAL_ERROR" if f == 1 else "PYTHON_API_ERROR", "injected")
    calls.append((None, "load_result_store", "load_all"))
    own("/load_result_store", "load_result_store")
    return err, calls


def show(models):
    return " ".join("%s[%s%s%s]" % (m, x["rs"] or "-", "+" + x["lm"] if x["lm"] else "", "+rel" + str(x["rel"]) if x["rel"] else "")
                    for m, x in models.items())


INITCODE = {1: "INVALID_SPECTRUM", 2: "PYTHON_API_ERROR", 4: "INVALID_PARAMETER"}


def build(c, models, w, missing=()):
    w.models, w.doc = models, document(models)
    w.faults = {}
    w.calls = []
    kinds = set(x["lm"] for x in models.values())
    refused = "alone" in kinds and "pipe" in kinds  # a catalog of redshifts and a sequential measurement
    try:
        pf = ProcessFlow(config(models, missing), Parameters(copy.deepcopy(w.doc), Checker=Free))
    except AmzException as e:
        check(refused and e.getErrorCode() == ErrorCode.INCOHERENT_CONFIG_OPTIONS, lambda: "configuration refused: %s" % e.getMessage(), "config")
        c.outcome("refused")
        raise mc.Skip()
    except Exception as e:
        raise mc.Violation("configuration: %r" % e, "config")
    check(not refused, "incoherent configuration accepted", "config")
    return pf


def spectrum(c, pf, models, w, init):
    w.faults, w.calls, w.json, w.lm = {}, [], None, {}
    try:
        rso = pf.run(Reader(init if init < 4 else 0))
    except Exception as e:
        raise mc.Violation("the run itself fails: %r" % e, "run")
    check(CTX.m_ScopeStack.size() == 0, "scopes left open after the run", "scope")
    err, calls = expected(models, init, w.faults)
    got = w.calls
    check(sorted(map(str, got)) == sorted(map(str, calls)), lambda: "executed %s instead of %s; errors %s" % (got, calls, {k: v["message"] for k, v in rso.errors.items()}), "executed")
    for m in models:  # a stage runs after the one it depends on
        seq = [x[1] for x in got if x[0] == m]
        if "redshiftSolver" in seq:
            check(seq[0] == "redshiftSolver", "a stage of %s runs before its redshift solver" % m, "order")
        if "linemeas_catalog_load" in seq and "lineMeasSolver" in seq:
            check(seq.index("linemeas_catalog_load") < seq.index("lineMeasSolver"), "lines measured before their settings", "order")
    if any(x[2] == "classificationSolve" for x in got):
        i = [x[2] for x in got].index("classificationSolve")
        check(all(x[1] != "redshiftSolver" for x in got[i:]), "classification before a redshift solver", "order")
    # the report
    for m in [None] + list(models):
        for s in ["init", "classification", "load_result_store"] if m is None else STAGES + ["linemeas_catalog_load"]:
            e = err.get((m, s))
            has = rso.has_error(m, s)
            if s == "linemeas_catalog_load" and (m, s) not in err and init:
                continue  # belongs to the initialisation
            check(has == ((m, s) in err), lambda: "%s of %s: %s" % (s, m, "reported as failed (%s)" % rso.get_error(m, s)
                                                                    if has else "failure not reported"), "report/" + s)
            if not has:
                continue
            g = rso.get_error(m, s)
            check(set(g) >= {"code", "message", "line", "filename", "method"}, "content of an error", "report/content")
            if (m, s) == (None, "init"):
                check(init not in INITCODE or g["code"] == INITCODE[init], lambda: "code of the init error: %s" % g, "report/code")
                continue
            check(g["code"] == e[0], lambda: "code of %s of %s: %s instead of %s" % (s, m, g["code"], e[0]), "report/code")
            check(e[1] in g["message"], lambda: "message of %s of %s: %s" % (s, m, g["message"]), "report/message")
    check(len([k for k in rso.errors if not k.startswith("linemeas_catalog_load") or not init]) == len(err),
          lambda: "errors %s" % sorted(rso.errors), "report/extra")
    # what the stages produced
    for m, x in models.items():
        r = rso.object_results[m]
        ok = lambda s: any(k[:2] == (m, s) for k in got) and not w.faults.get("%s/%s" % (m, s))
        check(("reliability" in r and r["reliability"].get("Reliability") == "reliability of " + m) == ok("reliabilitySolver"),
              lambda: "reliability of %s: %s" % (m, r.get("reliability")), "stored")
        sub = [y.get("SubType") for y in r.get("model_parameters", [])]
        check((sub == ["sub0 of " + m, "sub1 of " + m]) == ok("subClassifSolver") and (sub == [] or ok("subClassifSolver")),
              lambda: "sub-types of %s: %s" % (m, sub), "stored")
        if m in w.lm:
            p = w.lm[m]
            lmp = p["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
            check((p.get("redshiftref"), lmp["velocityAbsorption"], lmp["velocityEmission"]) ==
                  (ZREF[m], 100 * ZREF[m], 200 * ZREF[m]), lambda: "settings of the line measurement of %s: %s" % (m, p), "settings")
            if x["rs"][:2] == "LM":
                q = p["redshiftSolver"]["lineModelSolve"]["lineModel"]
                check((q["velocityEmission"], q["velocityAbsorption"]) == (1, 2), "settings of the redshift solver changed", "settings")
    store = CTX.GetResultStore()
    check(all(store.HasDataset("", "", "", k) for k in ("context_warningFlag", "init_warningFlag")), "context or init warnings lost", "flags")
    check("context_warningFlag" in rso.root_results or not (init or w.real_load) or w.faults.get("/load_result_store"),
          "warnings are not reported", "flags")
    c.step()
    c.outcome("%s %s" % (sorted(map(str, err.items())), got))


def flow(c):
    w = World(c)
    w.real_load = False
    a = FULL[c.choose(len(FULL))]
    b = (FULL if c.thorough else SHORT)[c.choose(len(FULL if c.thorough else SHORT))]
    models = {"galaxy": a, "star": b}
    if c.flip():
        models = {"star": b, "galaxy": a}
    c.mine_prefix()
    c.desc = show(models) + ":"
    pf = build(c, models, w)
    if not c.thorough:
        n = len(w.c.path)
        w.decide = lambda what: decide2(w, what)
    spectrum(c, pf, models, w, 0)


def decide2(w, what):
    # the second model: works or fails
    k = w.c.choose(3 if what.startswith("galaxy") else 2)
    if k:
        w.c.desc += " %s %s;" % (what, "fails" if k == 1 else "breaks")
    w.faults[what] = k
    return k


def single(c):
    """one spectrum model, two with the real loading of the results, three"""
    w = World(c)
    n = 1 + c.choose(3)
    if n == 1:
        w.real_load = c.flip()
        models = {"galaxy": c.pick(FULL)}
    elif n == 2:
        w.real_load = True
        w.kinds = 2
        models = {"galaxy": c.pick(SHORT), "star": c.pick(SHORT)}
    else:
        w.real_load = False
        w.kinds = 2
        few = SHORT if c.thorough else [SHORT[1], SHORT[2], SHORT[4]]
        models = {"galaxy": c.pick(few), "star": c.pick(few), "qso": c.pick(few)}
    c.mine_prefix()
    c.desc = show(models) + ":"
    spectrum(c, build(c, models, w), models, w, 0)


def init(c):
    w = World(c)
    w.real_load = True
    models = {"galaxy": FULL[c.choose(len(FULL))], "star": FULL[c.choose(len(FULL))]}
    kind = 1 + c.choose(4)
    c.mine()
    alone = [m for m in models if models[m]["lm"] == "alone"]
    if kind == 4 and not alone:
        raise mc.Skip()
    c.desc = show(models) + ": init failure %d" % kind
    spectrum(c, build(c, models, w, alone if kind == 4 else ()), models, w, kind)


def sequence(c):
    """a run of several spectra: what one does leaves no trace in the next"""
    w = World(c)
    w.real_load = False
    models = c.pick([{"galaxy": SHORT[0], "star": SHORT[3]}, {"galaxy": SHORT[1], "star": SHORT[4]}, {"galaxy": SHORT[0], "star": SHORT[0]}])
    n = 3 if c.thorough else 2
    inits = [c.choose(4) for _ in range(n)]
    c.mine_prefix()
    c.desc = show(models) + ": init %s" % inits
    pf = build(c, models, w)
    budget = [0]

    def decide(what):  # at most one failing stage per spectrum
        k = c.choose(3) if budget[0] else 0
        if k:
            budget[0] = 0
            c.desc += " %s %s;" % (what, "fails" if k == 1 else "breaks")
        w.faults[what] = k
        return k
    w.decide = decide
    for i in inits:
        budget[0] = 1
        spectrum(c, pf, models, w, i)
        c.desc += " |"


H = mc.Harness()
H.add("flow", flow)
H.add("single", single)
H.add("init", init)
H.add("sequence", sequence)
sys.exit(H.main())
