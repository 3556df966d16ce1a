"""A small complete world for end-to-end runs: calibration files, parameter
documents and spectra, all made up here."""
import copy, json, os
import numpy as np
import pandas as pd

_read, _parsed = pd.read_csv, {}


def read_csv(f, *a, **k):
    """the specification file of the results does not change: parse it once"""
    key = (str(f), repr(a), repr(sorted(k.items())))
    if "specification" not in str(f):
        return _read(f, *a, **k)
    if key not in _parsed:
        _parsed[key] = _read(f, *a, **k)
    return _parsed[key].copy()


pd.read_csv = read_csv
from pylibamazed.Parameters import Parameters
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader


class Free:
    """no validation: the documents are made for the run"""
    def __init__(self, p):
        pass

    def json_schema_check(self, v):
        pass

    def custom_check(self):
        pass


LINES = """WaveLength	Name	Type	Force	Profile	AmplitudeGroupName	AmplitudeGroupValue	DispersionVelocityGroupName	WaveLengthOffset	EnableFitWaveLengthOffset
1216.03	LyAE	E	S	ASYM	-1	1	Em1	0.0	FALSE
1549.48	CIV	E	S	SYM	-1	1	Em1	0.0	FALSE
1640.42	HeII	E	W	SYM	-1	1	Em1	0.0	FALSE
1908.73	CIII	E	S	SYM	-1	1	Em1	0.0	FALSE
1402.00	SiIV	A	S	SYM	-1	1	Abs1	0.0	FALSE
"""
RATIOS = {"tplA": ((5, 3, 1, 2, .2), 300., 400., "A"), "tplB": ((1, 1, 1, 4, .1), 200., 300., "B")}


def calibration(d):
    def put(path, text):
        p = os.path.join(d, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def table(x, *cols):
        return "\n".join(" ".join("%.9e" % v for v in r) for r in zip(x, *cols)) + "\n"
    lam = np.arange(700., 6700., 4.)
    put("templates/g/galaxy/young.dat", table(lam, 2e-17 * (lam / 1500.) ** -1.5 * (1 + .1 * np.sin(lam / 37))))
    put("templates/g/galaxy/old.dat", table(lam, 1e-17 * (lam / 1500.) ** .5 * (1 + .15 * np.cos(lam / 53)) * (1 + .3 * (lam > 1300))))
    put("templates/g/qso/blue.dat", table(lam, 3e-17 * (lam / 1500.) ** -2. * (1 + .12 * np.cos(lam / 41))))
    lam = np.arange(3000., 7200., 4.)
    put("templates/s/star/K.dat", table(lam, 1e-17 * (1 + .2 * np.sin(lam / 61.)) * (lam / 5000.) ** .3))
    lam = 1000. + .05 * np.arange(6000)
    for z, k in ((2.0, 1.), (2.5, 1.3)):
        put("igm/IGM_variation_curves_meiksin_v3.1/Meiksin_Var_curves_%s.txt" % z,
            table(lam, *[np.where(lam < 1215.67, np.exp(-k * .12 * (i + 1) * (1 + .2 * np.sin(lam / 9))), 1.) for i in range(7)]))
    lam = np.arange(100., 10000., 25.)
    put("ism/SB_calzetti.dl1.txt", "lambda flux\n" + table(lam, 2.659 * (-2.156 + 1.509e4 / lam) / 4.5 + 2))
    put("linecatalogs/lines.tsv", LINES)
    for n, (amp, ev, av, sub) in RATIOS.items():
        rows = [l.split("\t")[:3] for l in LINES.split("\n")[1:] if l]
        put("ratios/%s.tsv" % n, "WaveLength\tName\tType\tNominalAmplitude\n" + "".join("\t".join(r) + "\t%s\n" % a for r, a in zip(rows, amp)))
        put("ratios/%s.json" % n, json.dumps({"asym_params": {"profile": "ASYMFIXED", "sigma": 2.0, "alpha": 1.5, "delta": 0.0},
                                              "velocities": {"em_vel": ev, "abs_vel": av}, "sub_type": sub}))
    x = np.arange(4000., 5200., 50.)
    put("bands/u.csv", "lambda,u\n" + "".join("%g,%g\n" % (a, np.exp(-((a - 4500) / 250) ** 2)) for a in x))
    put("bands/r.csv", "lambda,r\n" + "".join("%g,%g\n" % (a, np.exp(-((a - 4900) / 150) ** 2)) for a in x))
    with open(os.path.join(d, "linemeas.tsv"), "w") as f:
        f.write("ProcessingID\tz\tva\tve\n" + "".join("%s\t%s\t%s\t%s\n" % r for r in
                [("plain", 2.05, 200, 150), ("short", 2.1, 250, 100), ("lsf", 2.05, 210, 160), ("logs", 2.08, 150, 120), ("fine", 2.02, 100, 90)]))


ASYM = {"profile": "asym", "asymProfile": {"switchFixedToFit": False, "switchFitToFixed": False, "asymFitMin": 0, "asymFitMax": 4,
                                            "asymFitStep": 1, "widthFitMin": 1, "widthFitMax": 4, "widthFitStep": 1,
                                            "deltaFitMin": 0, "deltaFitMax": 0, "deltaStepMax": 1}}
PRIORS = {"betaA": 1, "betaTE": 1, "betaZ": 1, "catalogDirPath": ""}


def line_model(**kw):
    d = {"lineCatalog": "linecatalogs/lines.tsv", "lineTypeFilter": "no", "lineForceFilter": "no", "fittingMethod": "individual",
         "lineWidthType": "combined", "velocityEmission": 200, "velocityAbsorption": 300, "velocityFit": False, "ampOffsetFit": False,
         "lbdaOffsetFit": False, "pdfCombination": "marg", "emVelocityFitMin": 100, "emVelocityFitMax": 300, "emVelocityFitStep": 100,
         "absVelocityFitMin": 150, "absVelocityFitMax": 350, "absVelocityFitStep": 100, "lya": copy.deepcopy(ASYM), "extremaCountB": 0,
         "hAlphaPrior": -1, "lineRatioType": "tplRatio", "rules": "all", "improveBalmerFit": True, "tplRatioCatalog": "ratios",
         "tplRatioIsmFit": False, "continuumComponent": "tplFit", "continuumReestimation": "no",
         "continuumFit": {"negativeThreshold": -5.0, "nullThreshold": 3, "fftProcessing": False, "ismFit": True, "igmFit": True, "count": 1,
                          "ignoreLineSupport": False, "priors": dict(PRIORS)},
         "useLogLambdaSampling": False, "skipSecondPass": False, "extremaCount": 2, "extremaCutProbaThreshold": -1,
         "pdf": {"margAmpCorr": False, "bestZOption": "maxIntProba"},
         "firstPass": {"fittingMethod": "individual", "largeGridStepRatio": 4, "tplRatioIsmFit": False, "multipleContinuumFitDisable": True, "extremaCount": 2},
         "secondPass": {"halfWindowSize": 0.002, "continuumFit": "reFitFirstPass"}, "secondPassLcFittingMethod": -1, "strongLinesPrior": 0.001,
         "nOfZPriorStrength": -1, "tplRatio": {"priors": dict(PRIORS)}, "nSigmaSupport": 8, "enablePhotometry": False, "photometry": {"weight": 1.0},
         "polynomialDegree": 2}
    cf = kw.pop("continuumFit", {})
    d.update(kw)
    d["continuumFit"].update(cf)
    return d


def template_fitting(**kw):
    d = {"fftProcessing": False, "overlapThreshold": 1.0, "interpolation": "lin", "extremaCount": 2, "igmFit": True, "ismFit": True,
         "pdfCombination": "marg", "enablePhotometry": False, "photometry": {"weight": 1.0}, "spectrum": {"component": "raw"}}
    d.update(kw)
    return d


def line_meas():
    return {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {
        "ampOffsetFit": False, "lbdaOffsetFit": False, "continuumComponent": "noContinuum", "lineCatalog": "linecatalogs/lines.tsv",
        "lineTypeFilter": "E", "lineForceFilter": "no", "nSigmaSupport": 8, "lineWidthType": "combined", "fittingMethod": "hybrid",
        "polynomialDegree": 2, "velocityFit": False, "lineRatioType": "rules", "rules": "no", "improveBalmerFit": True,
        "velocityEmission": 100, "velocityAbsorption": 100, "lya": copy.deepcopy(ASYM)}}}


def model(kind, linemeas=False, star=False, **kw):
    """one spectrum model section; kind: lm, tf, tc or ''"""
    d = {"redshiftRange": [0., 0.02] if star else [2.0, 2.12], "redshiftStep": 0.001, "redshiftSampling": "lin" if star else "log",
         "templateDir": "templates/s" if star else "templates/g", "stages": []}
    if kind:
        d["stages"].append("redshiftSolver")
        m, s = {"lm": ("lineModelSolve", lambda: {"lineModel": line_model(**kw)}), "tf": ("templateFittingSolve", lambda: template_fitting(**kw)),
                "tc": ("tplCombinationSolve", lambda: {"overlapThreshold": 1.0, "interpolation": "lin", "extremaCount": 2, "igmFit": True,
                                                       "ismFit": True, "pdfCombination": "marg", "spectrum": {"component": "raw"}, **kw})}[kind]
        d["redshiftSolver"] = {"method": m, m: s()}
    if linemeas:
        d["stages"].append("lineMeasSolver")
        d["lineMeasSolver"] = line_meas()
        d["lineMeasDzHalf"] = 0.001
        d["lineMeasRedshiftStep"] = 0.0005
    return d


def document(models, **kw):
    d = {"version": 2, "multiObsMethod": "", "lambdaRange": [3700, 6000], "smoothWidth": 0.0,
         "templateCatalog": {"continuumRemoval": {"method": "zero", "medianKernelWidth": 75, "medianEvenReflection": True}},
         "ebmv": {"start": 0, "step": 0.1, "count": 3},
         "continuumRemoval": {"method": "irregularSamplingMedian", "medianKernelWidth": 150, "medianEvenReflection": True},
         "airVacuumMethod": "", "lsf": {"lsfType": "gaussianConstantResolution", "resolution": 1000.},
         "extremaRedshiftSeparation": 0.01, "autoCorrectInput": False, "spectrumModels": list(models)}
    d.update(copy.deepcopy(models))
    d.update(kw)
    return d


def spectrum(lam, z=2.06, seed=0, err=1e-18):
    """deterministic spectrum with continuum, lines and a pseudo noise"""
    lam = np.asarray(lam, float)
    r = lam / (1 + z)
    f = 1.5e-17 * (r / 1500.) ** -1. * (1 + .1 * np.sin(r / 37 + seed))
    f = np.where(r < 1215.67, f * .8, f)
    for l, a in ((1216.03, 2e-17), (1549.48, 8e-18), (1908.73, 1e-17)):
        f = f + a * (1 + .3 * seed) * np.exp(-.5 * ((r - l) / 1.6) ** 2)
    i = np.arange(lam.size)
    f = f + err * .7 * np.sin(i * 12.9898 + 78.233 * seed) * np.cos(i * 4.1414)
    return pd.DataFrame({"wave": lam, "flux": f, "err": np.full(lam.size, err)})


def logaxis(a, b, step):
    n = int(np.log(b / a) / step)
    return np.exp(np.log(a) + np.arange(n + 1) * step)


class Reader(ASCIISpectrumReader):
    """the ASCII reader, for one or several named observations and an LSF of its own"""
    def fill(self, s):
        for o, df in (s["obs"].items() if "obs" in s else [("", s["data"])]):
            self.waves.append(df.wave, o)
            self.fluxes.append(df.flux, o)
            self.errors.append(df.err, o)
            if "lsf" in s:
                self.lsf_type, data = s["lsf"]
                self.lsf_data.append(data, o)
        if "phot" in s:
            self.load_photometry(s["phot"])
        return self


def run(pf, name, s, reader=Reader):
    r = reader(observation_id=name, parameters=pf.parameters, calibration_library=pf.calibration_library, source_id=name)
    return pf.run(r.fill(s))
