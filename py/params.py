#!/usr/bin/env python3
"""C07: parameter documents -- conversion, checks, derived settings, completeness.

Every base document combined with every pair of edits (set or remove a setting)
is converted, checked and extended by the library and compared with tables of
the settings written from the documentation; documents with any one setting
removed are then really processed, so that a document that is accepted is one
the library can run."""
import atexit, copy, csv, os, shutil, sys, tempfile, warnings
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
warnings.simplefilter("ignore")
from mc import Harness, check, Skip
import numpy as np
import pandas as pd
import world as W, v1
from pylibamazed.Parameters import Parameters
from pylibamazed.ParametersChecker import ParametersChecker
from pylibamazed.ParametersConverter import ParametersConverterSelector
from pylibamazed.ParametersExtender import ParametersExtender
from pylibamazed.ProcessFlow import ProcessFlow
from pylibamazed.Exception import APIException
from pylibamazed.redshift import CFlagWarning
from pylibamazed import Paths

WARN = []
_native = CFlagWarning.warning


def _warning(self, code, message):
    WARN.append((code.name, message))


CFlagWarning.warning = _warning  # whoever warns from Python goes through the class
DEL = object()


# --------------------------------------------------------------------- documents
def lm(**kw):
    m = W.model("lm", **kw)
    m["redshiftSolver"]["lineModelSolve"]["lineModel"].pop("polynomialDegree")
    return m


def doc(m, **kw):
    d = W.document({"galaxy": m}, **kw)
    if "lineMeasSolver" in m:
        l = d["galaxy"]["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
        for k in ("velocityEmission", "velocityAbsorption"):
            l.pop(k, None)
    return d


def lmmeas():
    d = doc(W.model("lm", True))
    d["galaxy"]["redshiftSolver"]["lineModelSolve"]["lineModel"].pop("polynomialDegree")
    return d


PHOT = dict(photometryTransmissionDir="bands", photometryBand=["u", "r"])
DOCS = {
    "lm tplratio": doc(lm()),
    "lm rules": doc(lm(lineRatioType="rules", fittingMethod="hybrid")),
    "lm meas": lmmeas(),
    "lm nocont": doc(lm(continuumComponent="noContinuum")),
    "lm fromspec": doc(lm(continuumComponent="fromSpectrum", continuumReestimation="always", fittingMethod="hybrid", lineRatioType="rules")),
    "lm velfit": doc(lm(velocityFit=True)),
    "lm skip2": doc(lm(skipSecondPass=True)),
    "lm phot": doc(lm(enablePhotometry=True), **PHOT),
    "lm ismratio": doc(lm(tplRatioIsmFit=True, continuumComponent="noContinuum")),
    "lm lyaigm": doc(lm(lya={"profile": "igm"})),
    "lm fft": doc(lm(lineRatioType="rules", fittingMethod="hybrid", useLogLambdaSampling=True, continuumFit={"fftProcessing": True})),
    "tf": doc(W.model("tf")),
    "tf nocont": doc(W.model("tf", spectrum={"component": "noContinuum"})),
    "tf cont": doc(W.model("tf", spectrum={"component": "continuum"})),
    "tf phot": doc(W.model("tf", enablePhotometry=True), **PHOT),
    "tc": doc(W.model("tc")),
    "tc cont": doc(W.model("tc", spectrum={"component": "continuum"})),
    "tf air": doc(W.model("tf"), airVacuumMethod="peckreeder1972", lsf={"lsfType": "gaussianNISPVSSPSF201707", "sourceSize": 0.1}),
}


def paths(d, p=()):
    for k, v in d.items():
        yield p + (k,)
        if isinstance(v, dict):
            yield from paths(v, p + (k,))


def edit(d, p, value):
    """d with the setting p set (sections created) or removed"""
    x = d
    for k in p[:-1]:
        if not isinstance(x.get(k), dict):
            if value is DEL:
                return d
            x[k] = {}
        x = x[k]
    if value is DEL:
        x.pop(p[-1], None)
    else:
        x[p[-1]] = copy.deepcopy(value)
    return d


def g(d, p, default=None):
    for k in p.split("/"):
        if not isinstance(d, dict) or k not in d:
            return default
        d = d[k]
    return d


def differences(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                out.append("%s/%s: %s" % (p, k, "lost" if k in a else "added"))
            else:
                out += differences(a[k], b[k], p + "/" + str(k))
        return out
    return [] if a == b and type(a) == type(b) else ["%s: %r became %r" % (p, a, b)]


def scramble(x):
    """overwrite everything reachable"""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            x[k] = "scrambled"
        x["scrambled"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("scrambled")


# --------------------------------------------------------------------- conversion
M = ("galaxy",)
Z = M + ("redshiftSolver",)
L = Z + ("lineModelSolve", "lineModel")
T = Z + ("templateFittingSolve",)
C = Z + ("tplCombinationSolve",)
S = M + ("lineMeasSolver", "lineMeasSolve", "lineModel")
ENUMS = [(L + ("lineWidthType",), ["combined", "instrumentDriven", "velocityDriven"]), (L + ("lineRatioType",), ["tplRatio", "rules", "tplCorr"]),
         (L + ("rules",), ["all", "no", "strongWeak", "balmerSingle", "ratioRange"]),
         (L + ("continuumComponent",), ["fromSpectrum", "tplFit", "tplFitAuto", "noContinuum"]),
         (L + ("continuumReestimation",), ["no", "onlyextrema", "always"]), (L + ("pdfCombination",), ["bestChi2", "marg"]),
         (L + ("secondPass", "continuumFit"), ["fromFirstPass", "retryAll", "reFitFirstPass"]), (L + ("fittingMethod",), ["individual", "svd", "hybrid", "lbfgsb"]),
         (L + ("secondPassLcFittingMethod",), [-1, "-1", "svdlc", "svdlcp2"]), (L + ("lineTypeFilter",), ["E", "A", "no"]), (L + ("lineForceFilter",), ["W", "S", "no"]),
         (S + ("lineWidthType",), ["combined", "instrumentDriven", "velocityDriven"]), (S + ("rules",), ["all", "no", "strongWeak", "balmerSingle", "ratioRange"]),
         (S + ("continuumComponent",), ["fromSpectrum", "tplFit", "tplFitAuto", "noContinuum"]),
         (T + ("spectrum", "component"), ["raw", "noContinuum", "continuum", "all"]), (T + ("interpolation",), ["lin", "preComputedFineGrid"]),
         (T + ("pdfCombination",), ["bestChi2", "marg"]), (C + ("spectrum", "component"), ["raw", "noContinuum", "continuum", "all"]),
         (C + ("interpolation",), ["lin", "preComputedFineGrid"]), (M + ("redshiftSampling",), ["lin", "log"]),
         (("continuumRemoval", "method"), ["zero", "irregularSamplingMedian", "raw"]), (("templateCatalog", "continuumRemoval", "method"), ["zero", "irregularSamplingMedian", "raw"]),
         (("airVacuumMethod",), ["", "default", "morton2000", "edlen1953", "edlen1966", "peckreeder1972", "ciddor1996"]),
         (("multiObsMethod",), ["", "merge", "full"]), (("lsf", "lsfType"), ["gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016",
                                                      "gaussianNISPVSSPSF201707", "fromSpectrumData", "gaussianVariableWidth"])]
EXTRA = [(("lsf", "gaussianVariableWidthFileName"), ["lsf.fits"]), (("lsf", "width"), [3.]), (("lsf", "sourceSize"), [.1]), (("additionalCols",), [["Wave2", "Flags"]]),
         (("filters",), [[{"key": "Err", "instruction": ">", "value": 0}]]), (("lambdaRange",), [{"a": [3700, 4000], "b": [1, 2]}, [3000., 7000.]]),
         (M + ("reliabilitySolver",), [{"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": "model.onnx"}}]),
         (("photometryBand",), [["u", "r"], []]), (("photometryTransmissionDir",), ["bands"]), (L + ("tplRatio", "priors", "betaA"), [0, 2.5]),
         (L + ("continuumFit", "priors", "catalogDirPath"), ["priors"])]
OLD = sorted({r["old_name"] for r in csv.DictReader(open(Paths.v1_to_treed_filename)) if r["old_name"]})
USER = [M + ("templateDir",), L + ("lineCatalog",), L + ("tplRatioCatalog",), S + ("lineCatalog",), L + ("tplRatio", "priors", "catalogDirPath"),
        ("photometryTransmissionDir",), ("photometryBand", 0), ("additionalCols", 0), ("lambdaRange", 0), ("lsf", "gaussianVariableWidthFileName")]


def given_back(c, d):
    raw = v1.to_v1(d)
    want = {k: v for k, v in d.items() if k != "version"}
    stages = want.get("galaxy", {}).get("stages", [])
    before = copy.deepcopy(raw)
    conv = ParametersConverterSelector().get_converter(1)
    need = [s for s, k, sec in (("lineMeasSolver", "linemeas_method", "LineMeasSolve"), ("reliabilitySolver", "enable_reliability", "reliability_model"))
            if s in stages and sec not in raw.get("galaxy", {})]
    try:
        got = conv().convert(raw)
    except APIException as e:
        check(need, lambda: "conversion refused: %s" % e, "convert/refused")
        c.outcome("refused")
        return
    except Exception as e:
        check(False, lambda: "conversion failed: %r" % e, "convert/failed")
    check(raw == before, lambda: "the conversion modified the document: %s" % differences(before, raw), "convert/modified")
    if need:
        c.outcome("accepted without its section")
        return
    diff = differences(want, got)
    check(not diff, lambda: "conversion: %s" % "; ".join(diff[:6]), "convert/differs")
    scramble(got)
    check(raw == before, lambda: "the converted document shares data with the original: %s" % differences(before, raw), "convert/shared")
    c.outcome("given back")


def convert(c):
    """version 1 -> tree, every value of every enumerated setting, every setting removed"""
    name = c.pick(list(DOCS))
    d = copy.deepcopy(DOCS[name])
    kind = c.choose(3)
    if kind == 0:
        p, vals = c.pick(ENUMS + EXTRA)
        v = c.pick(vals)
        c.mine()
        section = g(d, "/".join(p[:-1])) if len(p) > 1 else d
        if not isinstance(section, dict) and len(p) > 2:
            raise Skip()
        edit(d, p, v)
        if p[-1] == "reliabilitySolver":
            d["galaxy"]["stages"].append(p[-1])
        c.desc = "%s, %s = %r" % (name, "/".join(p), v)
    elif kind == 1:
        ps = [p for p in paths(d) if p[0] not in ("version", "spectrumModels") and p != M and p[-1] not in ("stages", "method") and p not in (Z, M + ("lineMeasSolver",))]
        p = c.pick(ps)
        q = c.pick([None] + ps if c.thorough else [None])
        c.mine()
        edit(d, p, DEL)
        if q:
            edit(d, q, DEL)
        c.desc = "%s without %s%s" % (name, "/".join(p), " and " + "/".join(q) if q else "")
    else:
        # names given by the user, called as the settings and values of version 1
        p = c.pick(USER)
        old = c.pick(OLD)
        c.mine()
        if len(p) > 2 and g(d, "/".join(p[:-1])) is None:
            raise Skip()
        if p[-1] == 0:
            edit(d, p[:-1], {old: [1, 2]} if p[0] == "lambdaRange" else ["x", old])
        else:
            edit(d, p, old)
        c.desc = "%s, %s named %r" % (name, "/".join(map(str, p)), old)
    given_back(c, d)


def convert2(c):
    """version 2: the sections of the models lose their prefix, nothing else changes"""
    name = c.pick(list(DOCS))
    names = c.pick([["galaxy"], ["galaxy", "star"], ["my galaxy", "qso", "g"]])
    prefixed = [c.flip() for _ in names]
    c.mine()
    base = DOCS[name]
    want = {k: v for k, v in base.items() if k != "galaxy"}
    want["spectrumModels"] = names
    raw = copy.deepcopy(want)
    for i, (n, p) in enumerate(zip(names, prefixed)):
        m = copy.deepcopy(base["galaxy"])
        m["redshiftStep"] = i + .5
        raw["spectrumModel_" + n if p else n] = m
        want = dict(want, **{n: copy.deepcopy(m)})
    c.desc = "%s, models %s" % (name, [k for k in raw if k.replace("spectrumModel_", "") in names])
    before = copy.deepcopy(raw)
    got = ParametersConverterSelector().get_converter(2)().convert(raw)
    diff = differences(want, got)
    check(not diff, lambda: "conversion: %s" % diff[:6], "convert2/differs")
    check(raw == before, "the conversion modified the document", "convert2/modified")
    c.outcome("converted")


# --------------------------------------------------------------------- rules
DL = {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": "m"}}
EDITS = [(("photometryTransmissionDir",), "bands"), (("photometryTransmissionDir",), DEL), (("photometryBand",), ["u"]), (("photometryBand",), []), (("photometryBand",), DEL),
         (("filters",), [{"key": "Err", "instruction": ">", "value": 0}]), (("filters",), [{"key": "Flags", "instruction": ">", "value": 0}]),
         (("filters",), [{"key": "Err", "value": 0}]), (("filters",), {}), (("filters",), []), (("additionalCols",), ["Flags"]),
         (("lsf",), DEL), (("lsf", "lsfType"), "gaussianConstantWidth"), (("lsf", "lsfType"), "gaussianVariableWidth"), (("lsf", "lsfType"), "gaussianNISPVSSPSF201707"),
         (("lsf", "lsfType"), "fromSpectrumData"), (("lsf", "lsfType"), "gaussianNISPSIM2016"), (("lsf", "lsfType"), "gaussianConstantResolution"),
         (("lsf", "width"), 3.), (("lsf", "resolution"), 1000), (("lsf", "resolution"), DEL), (("lsf", "sourceSize"), 0), (("lsf", "gaussianVariableWidthFileName"), "f"),
         (("ebmv",), DEL), (("continuumRemoval",), DEL), (("continuumRemoval", "method"), "zero"), (("continuumRemoval", "medianKernelWidth"), DEL),
         (("continuumRemoval", "medianKernelWidth"), 0), (("continuumRemoval", "medianEvenReflection"), DEL), (("continuumRemoval", "medianEvenReflection"), False),
         (("templateCatalog",), DEL), (("templateCatalog", "continuumRemoval"), DEL), (("templateCatalog", "continuumRemoval", "method"), "irregularSamplingMedian"),
         (("templateCatalog", "continuumRemoval", "medianKernelWidth"), DEL), (("templateCatalog", "continuumRemoval", "medianEvenReflection"), DEL),
         (("templateCatalog", "continuumRemoval", "medianEvenReflection"), False),
         (M + ("templateDir",), DEL), (M + ("lineMeasDzHalf",), DEL), (M + ("lineMeasDzHalf",), 0), (M + ("lineMeasRedshiftStep",), DEL), (M + ("lineMeasRedshiftStep",), .1),
         (M + ("stages",), ["redshiftSolver"]), (M + ("stages",), ["redshiftSolver", "lineMeasSolver"]), (M + ("stages",), ["redshiftSolver", "reliabilitySolver"]), (M + ("stages",), []),
         (M + ("lineMeasSolver",), DEL), (M + ("lineMeasSolver",), W.line_meas()), (M + ("reliabilitySolver",), DL),
         (Z + ("method",), "lineModelSolve"), (Z + ("method",), "templateFittingSolve"), (Z + ("method",), "tplCombinationSolve"), (Z + ("method",), ""),
         (Z + ("lineModelSolve",), DEL), (T, DEL), (C, DEL), (T, W.template_fitting()), (C, {"ismFit": True, "igmFit": False, "spectrum": {"component": "raw"}}),
         (T + ("ismFit",), False), (T + ("ismFit",), True), (T + ("enablePhotometry",), True), (T + ("enablePhotometry",), False), (T + ("photometry",), DEL), (T + ("fftProcessing",), True),
         (T + ("spectrum", "component"), "noContinuum"), (T + ("spectrum", "component"), "raw"), (C + ("ismFit",), False), (C + ("spectrum", "component"), "all"),
         (L + ("lineRatioType",), "rules"), (L + ("lineRatioType",), "tplRatio"), (L + ("lineRatioType",), "tplCorr"), (L + ("rules",), DEL), (L + ("improveBalmerFit",), False),
         (L + ("improveBalmerFit",), True), (L + ("tplRatioCatalog",), DEL), (L + ("tplRatioIsmFit",), DEL), (L + ("tplRatioIsmFit",), False), (L + ("firstPass", "tplRatioIsmFit"), DEL),
         (L + ("continuumReestimation",), DEL), (L + ("continuumReestimation",), "no"), (L + ("continuumReestimation",), "always"), (L + ("fittingMethod",), "hybrid"),
         (L + ("continuumComponent",), "fromSpectrum"), (L + ("continuumComponent",), "tplFit"), (L + ("continuumComponent",), "tplFitAuto"), (L + ("continuumComponent",), "noContinuum"),
         (L + ("continuumFit",), DEL), (L + ("continuumFit", "fftProcessing"), True), (L + ("continuumFit", "fftProcessing"), False), (L + ("continuumFit", "ismFit"), False),
         (L + ("enablePhotometry",), True), (L + ("enablePhotometry",), False), (L + ("photometry",), DEL), (L + ("photometry",), {"weight": 0}), (L + ("skipSecondPass",), True),
         (L + ("skipSecondPass",), False), (L + ("secondPass",), DEL), (L + ("secondPass", "continuumFit"), DEL), (L + ("extremaCount",), 3), (L + ("firstPass", "extremaCount"), 1),
         (L + ("firstPass", "extremaCount"), 9), (L + ("lya", "profile"), "igm"), (L + ("lya", "profile"), "asym"), (L + ("lya", "asymProfile"), DEL), (L + ("useLogLambdaSampling",), DEL),
         (L + ("useLogLambdaSampling",), True), (L + ("velocityFit",), True), (L + ("velocityFit",), False), (L + ("emVelocityFitMin",), DEL), (L + ("absVelocityFitStep",), DEL),
         (S + ("rules",), DEL), (S + ("lineRatioType",), "tplRatio"), (S + ("lineRatioType",), "rules"), (S + ("fittingMethod",), "lbfgsb"), (S + ("velocityFit",), DEL),
         (S + ("velocityFit",), True), (S + ("emVelocityFitMin",), 10), (S + ("emVelocityFitMax",), 10), (S + ("absVelocityFitMin",), 10), (S + ("absVelocityFitMax",), 10),
         (S + ("lya", "asymProfile"), DEL), (S + ("lya", "profile"), "igm")]


def rules(d):
    """what the checks of a document (tree) must say: settings whose absence (or
    value) is an error, and settings nothing uses; each a list of words"""
    err, unused = [], []

    def rule(need, have, words, warn=True):
        if need and not have:
            err.append(words)
        elif have and not need and warn:
            unused.append(words)
    models = d.get("spectrumModels", [])
    G = lambda p: g(d, p)
    Q = {}
    for m in models:
        meth = g(d, m + "/redshiftSolver/method") or None
        stages = g(d, m + "/stages", [])
        Q[m] = meth, stages, m + "/redshiftSolver/lineModelSolve/lineModel/", m + "/redshiftSolver/templateFittingSolve/", m + "/redshiftSolver/tplCombinationSolve/"
    photo = any((meth == "lineModelSolve" and G(l + "enablePhotometry")) or (meth == "templateFittingSolve" and G(t + "enablePhotometry"))
                or (meth == "tplCombinationSolve" and G(k + "enablePhotometry")) for meth, _, l, t, k in Q.values())
    rule(photo, G("photometryTransmissionDir") is not None, ["photometryTransmissionDir"])
    rule(photo, bool(G("photometryBand")), ["photometryBand"])
    f = g(d, "filters", [])
    if not isinstance(f, list) or any(set(x) != {"key", "instruction", "value"} for x in f):
        err.append(["filters"])
    elif any(x["key"] not in ["Wave", "Flux", "Err"] + (G("additionalCols") or []) for x in f):
        err.append(["filter", "key"])
    rule(any(q[0] == "lineModelSolve" or "lineMeasSolver" in q[1] or q[0] == "templateFittingSolve" and G(q[3] + "igmFit")
             or q[0] == "tplCombinationSolve" and G(q[4] + "igmFit") for q in Q.values()), G("lsf") is not None, ["lsf"])
    t = G("lsf/lsfType")
    for key, types in (("width", ["gaussianConstantWidth"]), ("sourceSize", ["gaussianNISPVSSPSF201707", "GaussianNISPSIM201707"]), ("resolution", ["gaussianConstantResolution"]),
                       ("gaussianVariableWidthFileName", ["gaussianVariableWidth"])):
        rule(t in types, G("lsf/" + key) is not None, ["lsf", key])
    tcomp = any(G(x + "spectrum/component") not in (None, "raw") for q in Q.values() for x in q[3:])
    lcomp = any(G(q[2] + "continuumComponent") in ("fromSpectrum", "tplFitAuto") or G(q[2] + "continuumReestimation") not in (None, "no", "never") for q in Q.values())
    rule(tcomp or lcomp, G("continuumRemoval") is not None, ["continuumRemoval"])
    rule(tcomp, G("templateCatalog/continuumRemoval") is not None, ["templateCatalog", "continuumRemoval"])
    for sec in "continuumRemoval", "templateCatalog/continuumRemoval":
        for k in "medianKernelWidth", "medianEvenReflection":
            rule(G(sec + "/method") == "irregularSamplingMedian", G(sec + "/" + k) is not None, ["continuumRemoval", k])
    for m, (meth, stages, l, t, k) in Q.items():
        meas = "lineMeasSolver" in stages
        lmeth = G(m + "/lineMeasSolver/method") if meas else None
        s = m + "/lineMeasSolver/lineMeasSolve/lineModel/"
        rule(meas, G(m + "/lineMeasSolver") is not None, ["lineMeasSolver"])
        rule(lmeth is not None, G(m + "/lineMeasDzHalf") is not None, ["lineMeasDzHalf"])
        rule(lmeth is not None, G(m + "/lineMeasRedshiftStep") is not None, ["lineMeasRedshiftStep"])
        rule(G(s + "lineRatioType") == "rules", G(s + "rules") is not None, ["lineMeasSolve", "rules"])
        rule(G(s + "fittingMethod") == "lbfgsb", G(s + "velocityFit") is not None, ["lineMeasSolve", "velocityFit"])
        for p in "emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax":
            rule(G(s + "velocityFit"), G(s + p) is not None, ["lineMeasSolve", p])
        if lmeth == "lineMeasSolve":
            rule(G(s + "lya/profile") == "asym", G(s + "lya/asymProfile") is not None, ["lineMeasSolve", "asymProfile"])
        rule("reliabilitySolver" in stages, G(m + "/reliabilitySolver") is not None, ["reliabilitySolver"])
        z = m + "/redshiftSolver/"
        rule(meth == "templateFittingSolve", G(z + "templateFittingSolve") is not None, ["templateFittingSolve"])
        rule(G(t + "ismFit"), G("ebmv") is not None, ["ebmv"], False)
        rule(G(t + "enablePhotometry"), G(t + "photometry/weight") is not None, ["templateFittingSolve", "photometry", "weight"])
        if G(t + "fftProcessing") and G(t + "enablePhotometry"):
            err.append(["fft", "photometry"])
        rule(meth == "tplCombinationSolve", G(z + "tplCombinationSolve") is not None, ["tplCombinationSolve"])
        rule(G(k + "ismFit"), G("ebmv") is not None, ["ebmv"], False)
        rule(meth == "lineModelSolve", G(z + "lineModelSolve") is not None, ["lineModelSolve"])
        ratio, comp = G(l + "lineRatioType"), G(l + "continuumComponent")
        if G(l + "improveBalmerFit") and ratio != "rules":
            unused.append(["improveBalmerFit"])
        for p in "emVelocityFitMin", "emVelocityFitMax", "emVelocityFitStep", "absVelocityFitMin", "absVelocityFitMax", "absVelocityFitStep":
            rule(G(l + "velocityFit"), G(l + p) is not None, [p], False)
        rule(ratio == "rules", G(l + "rules") is not None, ["lineModelSolve", "rules"])
        tr = ratio in ("tplRatio", "tplCorr")
        rule(tr, G(l + "tplRatioCatalog") is not None, ["tplRatioCatalog"])
        rule(tr, G(l + "tplRatioIsmFit") is not None, ["lineModelSolve", "tplRatioIsmFit"])
        rule(comp == "fromSpectrum", G(l + "continuumReestimation") is not None, ["continuumReestimation"])
        tpl = comp in ("tplFit", "tplFitAuto")
        if G(l + "continuumFit/fftProcessing") and G(l + "enablePhotometry"):
            err.append(["fft", "photometry"])
        rule(G(l + "enablePhotometry"), G(l + "photometry/weight") is not None, ["lineModelSolve", "photometry", "weight"])
        rule(tpl, G(l + "continuumFit") is not None, ["continuumFit"], False)
        rule(G(l + "continuumFit/ismFit"), G("ebmv") is not None, ["ebmv"], False)
        rule(G(l + "skipSecondPass") is False, G(l + "secondPass") is not None, ["secondPass"])
        rule(G(l + "secondPass") is not None and tpl, G(l + "secondPass/continuumFit") is not None, ["secondPass", "continuumFit"], False)
        rule(tr, G(l + "firstPass/tplRatioIsmFit") is not None, ["firstPass", "tplRatioIsmFit"])
        a, b = G(l + "extremaCount"), G(l + "firstPass/extremaCount")
        if a and b and b < a:
            err.append(["extremaCount"])
        if meth == "lineModelSolve":
            rule(G(l + "lya/profile") == "asym", G(l + "lya/asymProfile") is not None, ["lineModelSolve", "asymProfile"])
        rule(tpl and G(l + "continuumFit/fftProcessing"), G(l + "useLogLambdaSampling") is not None, ["useLogLambdaSampling"])
        rule(meth in ("templateFittingSolve", "tplCombinationSolve") or (meth == "lineModelSolve" and tpl), G(m + "/templateDir") is not None, ["templateDir"])
    return err, unused


def says(msg, words):
    return all(w.lower() in msg.lower() for w in words)


RULES = ["lm tplratio", "lm fromspec", "lm meas", "lm phot", "lm fft", "tf phot", "tf nocont", "tc"]


def edited(c, bases, depth):
    name = c.pick(bases)
    d = copy.deepcopy(DOCS[name])
    es, i = [], -1
    for _ in range(depth):
        k = c.choose(len(EDITS) - i)  # 0: no further edit
        if k == 0:
            break
        i += k
        es.append(EDITS[i])
    c.mine()
    for p, v in es:
        edit(d, p, v)
    c.desc = name + "".join(", %s %s" % ("/".join(p).replace("galaxy/", ""), "removed" if v is DEL else "= %r" % (v,)) for p, v in es)[:400]
    return d


def verdict(c):
    """two edits: refused for a reason that exists, or accepted with exactly the warnings due"""
    judge(c, edited(c, RULES if not c.thorough else list(DOCS), 2))


def pair(c, one=None):
    """two spectrum models of different documents, in both orders, and an edit"""
    names = list(DOCS)
    a, b = c.pick(names), c.pick(names if c.thorough or one is None else RULES)
    some = c.thorough or one is None and a in RULES and b in RULES  # with changes
    edits = [(p, v) for p, v in EDITS if p[0] in ("continuumRemoval", "templateCatalog", "ebmv", "lsf", "photometryBand", "photometryTransmissionDir")
             and len(p) < 3] if not c.thorough else EDITS
    p, v = c.pick([((), None)] + (edits if some else []))
    second = c.flip() if p and p[0] == M[0] else False
    c.mine()
    d, o = copy.deepcopy(DOCS[a]), copy.deepcopy(DOCS[b])
    for k, x in o.items():
        if k not in d:
            d[k] = x
        elif isinstance(x, dict) and k not in M:
            for k2, x2 in x.items():
                d[k].setdefault(k2, x2)
    d["qso"] = o["galaxy"]
    d["spectrumModels"] = ["galaxy", "qso"]
    if p:
        edit(d, ("qso",) + p[1:] if second else p, v)
    c.desc = "galaxy of '%s', qso of '%s', %s %s%s" % (a, b, "/".join(p), "removed" if v is DEL else repr(v)[:100], " (qso)" if second else "")
    return d


def models(c):
    """the settings that several spectrum models require together"""
    judge(c, pair(c))


def models_extend(c):
    """and those derived from several spectrum models"""
    extended(c, pair(c, True))


def judge(c, d):
    err, unused = rules(d)
    before = copy.deepcopy(d)
    WARN.clear()
    try:
        ParametersChecker(d).custom_check()
        refused = None
    except APIException as e:
        refused = str(e)
    except Exception as e:
        check(False, lambda: "checking failed: %r" % e, "rules/failed")
    check(d == before, lambda: "checking modified the document: %s" % differences(before, d), "rules/modified")
    if refused is not None:
        check(err, lambda: "refused (%s), nothing is missing" % refused, "rules/refused")
        check(any(says(refused, w) for w in err), lambda: "refused with %r, but what is wrong is %s" % (refused, err), "rules/reason")
        c.outcome("refused " + refused[:90])
        return
    check(not err, lambda: "accepted without %s" % err, "rules/accepted")
    left = [m for n, m in WARN if n == "UNUSED_PARAMETER"]
    for w in sorted(unused, key=lambda w: -len(w)):
        k = [m for m in left if says(m, w)]
        # the shortest message: "lsf" is also part of "lsf width"
        check(k, lambda: "no warning that %s is unused; warned: %s" % (w, [m for _, m in WARN]), "rules/no-warning")
        left.remove(min(k, key=len))
    check(not left, lambda: "warned about %s, unused: %s" % (left, unused), "rules/warning")
    c.outcome("accepted, %d warnings" % len(unused))


# --------------------------------------------------------------------- derived settings
DEFAULT = {"method": "default", "medianKernelWidth": -1, "medianEvenReflection": True}


def derived(d):
    w = copy.deepcopy(d)
    G = lambda p: g(d, p)
    ms = d.get("spectrumModels", [])
    comps = [G(m + "/redshiftSolver/" + s + "/spectrum/component") for m in ms for s in ("templateFittingSolve", "tplCombinationSolve")]
    tcomp = any(x not in (None, "raw") for x in comps)
    lm = [m + "/redshiftSolver/lineModelSolve/lineModel/" for m in ms]
    lcomp = any(G(l + "continuumComponent") in ("fromSpectrum", "tplFitAuto") or G(l + "continuumReestimation") not in (None, "no", "never") for l in lm)
    if not (tcomp or lcomp):
        w["continuumRemoval"] = dict(DEFAULT)
    if not tcomp:
        w.setdefault("templateCatalog", {})["continuumRemoval"] = dict(DEFAULT)
    for sec in "continuumRemoval", "templateCatalog/continuumRemoval":
        if G(sec + "/method") != "irregularSamplingMedian":
            edit(w, tuple(sec.split("/")) + ("medianKernelWidth",), -1)
            edit(w, tuple(sec.split("/")) + ("medianEvenReflection",), True)
    for l in lm:
        p = tuple(l.strip("/").split("/"))
        if G(l + "fittingMethod") != "hybrid" or G(l + "continuumReestimation") is None or G(l + "continuumComponent") in ("tplFit", "tplFitAuto", "noContinuum"):
            edit(w, p + ("continuumReestimation",), "no")
        if not (G(l + "continuumComponent") in ("tplFit", "tplFitAuto") and G(l + "continuumFit/fftProcessing")):
            edit(w, p + ("useLogLambdaSampling",), False)
    return w


def extend(c):
    """derived settings, a function of the document alone"""
    extended(c, edited(c, RULES if not c.thorough else list(DOCS), 1 if not c.thorough else 2))


def extended(c, d):
    before = copy.deepcopy(d)
    want = derived(d)
    ext = ParametersExtender()
    for again in range(2):
        got = ext.extend(d)
        check(d == before, lambda: "extending modified the document: %s" % differences(before, d), "extend/modified")
        diff = differences(want, got)
        for m in d["spectrumModels"]:
            if g(d, m + "/redshiftSolver/lineModelSolve/lineModel") is None:
                # a section of a method that is not there may or may not be made up
                diff = [x for x in diff if "lineModelSolve" not in x and not x.endswith("/redshiftSolver: lost") and not x.endswith("/redshiftSolver: added")]
        check(not diff, lambda: "derived settings%s: %s" % (" (second time)" if again else "", diff[:6]), "extend/differs" + ("-again" if again else ""))
        for a, b in (("continuumRemoval", "templateCatalog/continuumRemoval"),):
            x, y = g(got, a), g(got, b)
            check(x is not y or x is None, "both continuum removal sections are one object", "extend/shared")
        scramble(got)
        check(d == before, lambda: "the extended document shares data with the original: %s" % differences(before, d), "extend/aliased")
    ext = ParametersExtender()
    diff = [x for x in differences(want, ext.extend(d)) if "lineModelSolve" not in x and "/redshiftSolver:" not in x]
    check(not diff, lambda: "derived settings depend on an earlier document: %s" % diff[:6], "extend/history")
    c.outcome("extended %d" % len(differences(before, want)))


# --------------------------------------------------------------------- completeness
DIR = None
LAM = np.arange(3650., 6050., 12.)


def calibration():
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, DIR, True)
        W.calibration(DIR)
    return DIR


def spectrum(name):
    s = {"data": W.spectrum(LAM)}
    if "fft" in name:
        s = {"data": W.spectrum(W.logaxis(3650., 6050., .0025))}
    if "phot" in name:
        s["phot"] = pd.DataFrame({"Name": ["u", "r"], "Flux": [1.1e-17, .8e-17], "Error": [1e-18, 2e-18]})
    return s


def process(raw, name):
    """None if refused, else (errors, results, warnings of the checks)"""
    WARN.clear()
    try:
        p = Parameters(copy.deepcopy(raw))
    except APIException as e:
        return "refused: " + str(e)[:150], None, None
    warned = [m for n, m in WARN if n == "UNUSED_PARAMETER"]
    pf = ProcessFlow({"calibration_dir": calibration(), "extended_results": True}, p)
    o = W.run(pf, "plain", spectrum(name))
    errs = {k: str(v)[:250] for k, v in o.errors.items()}
    res = {}
    if not errs:
        for m in raw.get("spectrumModels", raw.get("objects")):
            st = p.get_redshift_solver_method(m)
            for a in ("Redshift", "RedshiftUncertainty", "RedshiftProba"):
                for r in range(o.get_nb_candidates(m) if hasattr(o, "get_nb_candidates") else 1):
                    res[m, a, r] = o.get_attribute_from_source(m, "redshiftSolver", st, "model_parameters", a, r)
    return errs, res, warned


def raw_of(d, version):
    if version == 1:
        return v1.to_v1(d)
    d = copy.deepcopy(d)
    return {("spectrumModel_" + k if k in d["spectrumModels"] else k): v for k, v in d.items() if k not in ("smoothWidth",)} | {"smoothWidth": 0.0}


QUICK = ["lm rules", "lm meas", "lm lyaigm", "tf phot", "tc", "lm nocont"]


def complete(c):
    """without any one setting: refused, or really usable"""
    version = 1 + c.choose(2)
    name = c.pick(list(DOCS) if c.thorough else QUICK)
    raw = raw_of(DOCS[name], version)
    ps = [None] + list(paths(raw))
    p = c.pick(ps)
    c.mine()
    c.desc = "version %d of %s without %s" % (version, name, "/".join(p) if p else "nothing")
    if p:
        edit(raw, p, DEL)
    try:
        errs, res, warned = process(raw, name)
    except Exception as e:
        check(False, lambda: "accepted, then failed: %r" % e, "complete/%s/failed" % (p[-1] if p else ""))
    if isinstance(errs, str):
        check(p, lambda: "the complete document is %s" % errs, "complete/refused")
        c.outcome(errs)
        return
    check(not errs, lambda: "accepted, then errors: %s" % errs, "complete/%s/error" % (p[-1] if p else ""))
    c.outcome("run")


def unused(c):
    """a setting reported as unused does not change the result"""
    d, name = None, c.pick(["lm tplratio", "lm rules", "lm nocont", "tf", "tc"])
    p, v = c.pick([(("photometryTransmissionDir",), "bands"), (("photometryBand",), ["u", "r"]), (("lsf", "width"), 40.), (("lsf", "sourceSize"), .1),
                   (("continuumRemoval", "medianKernelWidth"), 40), (("continuumRemoval",), {"method": "irregularSamplingMedian", "medianKernelWidth": 50, "medianEvenReflection": True}),
                   (("continuumRemoval",), {"method": "zero"}),
                   (("templateCatalog", "continuumRemoval"), {"method": "irregularSamplingMedian", "medianKernelWidth": 50, "medianEvenReflection": True}),
                   (M + ("templateDir",), "templates/s"), (M + ("lineMeasDzHalf",), .5), (M + ("lineMeasRedshiftStep",), .5),
                   (T, W.template_fitting(ismFit=False)), (L + ("rules",), "no"), (L + ("rules",), "strongWeak"), (L + ("improveBalmerFit",), False),
                   (L + ("tplRatioCatalog",), "none"), (L + ("tplRatioIsmFit",), True), (L + ("firstPass", "tplRatioIsmFit"), True), (L + ("continuumReestimation",), "always"),
                   (L + ("continuumReestimation",), "onlyextrema"), (L + ("photometry",), {"weight": 3.}), (L + ("useLogLambdaSampling",), True), (T + ("photometry",), {"weight": 3.}),
                   (L + ("emVelocityFitMin",), 1.), (L + ("secondPass",), {"halfWindowSize": .1, "continuumFit": "retryAll"})])
    c.mine()
    d = edit(copy.deepcopy(DOCS[name]), p, v)
    c.desc = "%s with %s = %r" % (name, "/".join(p), v)
    WARN.clear()
    try:
        Parameters(raw_of(d, 2))
    except APIException:
        c.outcome("refused", False)
        return
    if not [m for n, m in WARN if n == "UNUSED_PARAMETER" and p[-1] in m]:
        c.outcome("not reported", False)
        return
    errs, res, warned = process(raw_of(d, 2), name)
    errs0, res0, _ = process(raw_of(edit(copy.deepcopy(d), p, DEL), 2), name)
    if isinstance(errs0, str):
        c.outcome("required by the schema", False)
        return
    check(errs == errs0 == {}, lambda: "errors %s with the setting, %s without" % (errs, errs0), "unused/errors")
    check(res == res0 and res, lambda: "reported as unused (%s), but the results are %s with and %s without it" % (warned, res, res0), "unused/used")
    c.outcome("same")


H = Harness()
for f in (convert, convert2, verdict, models, extend, models_extend, complete, unused):
    H.add(f.__name__, f)
sys.exit(H.main())
