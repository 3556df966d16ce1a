"""Version-1 documents: the names of the settings before the tree of version 2.

`to_v1` writes a treed document the way version 1 does; converting the result
must give the treed document back.  The table is written from the two sets of
schemas and from the names the library reads."""
import copy

KEYS = {  # version 2 -> version 1, where they differ
    "multiObsMethod": "multiobsmethod", "lambdaRange": "lambdarange", "extremaRedshiftSeparation": "extremaredshiftseparation",
    "autoCorrectInput": "autocorrectinput", "airVacuumMethod": "airvacuum_method", "additionalCols": "additional_cols", "lsf": "LSF",
    "lsfType": "LSFType", "sourceSize": "sourcesize", "gaussianVariableWidthFileName": "GaussianVariablewidthFileName",
    "redshiftRange": "redshiftrange", "redshiftStep": "redshiftstep", "redshiftSampling": "redshiftsampling", "templateDir": "template_dir",
    "lineMeasDzHalf": "linemeas_dzhalf", "lineMeasRedshiftStep": "linemeas_redshiftstep",
    "fftProcessing": "fftprocessing", "enablePhotometry": "enablephotometry", "extremaCount": "extremacount", "igmFit": "igmfit",
    "ismFit": "ismfit", "pdfCombination": "pdfcombination", "lineModel": "linemodel", "firstPass": "firstpass", "secondPass": "secondpass",
    "absVelocityFitMax": "absvelocityfitmax", "absVelocityFitMin": "absvelocityfitmin", "absVelocityFitStep": "absvelocityfitstep",
    "emVelocityFitMax": "emvelocityfitmax", "emVelocityFitMin": "emvelocityfitmin", "emVelocityFitStep": "emvelocityfitstep",
    "ampOffsetFit": "ampoffsetfit", "lbdaOffsetFit": "lbdaoffsetfit", "continuumComponent": "continuumcomponent",
    "continuumFit": "continuumfit", "continuumReestimation": "continuumreestimation", "nOfZPriorStrength": "euclidnhaemittersStrength",
    "extremaCountB": "extremacountB", "extremaCutProbaThreshold": "extremacutprobathreshold", "fittingMethod": "fittingmethod",
    "hAlphaPrior": "haprior", "lineCatalog": "linecatalog", "lineForceFilter": "lineforcefilter", "lineTypeFilter": "linetypefilter",
    "lineWidthType": "linewidthtype", "nSigmaSupport": "nsigmasupport", "secondPassLcFittingMethod": "secondpasslcfittingmethod",
    "skipSecondPass": "skipsecondpass", "strongLinesPrior": "stronglinesprior", "tplRatioIsmFit": "tplratio_ismfit",
    "tplRatioCatalog": "tplratio_catalog", "tplRatio": "tplratio", "useLogLambdaSampling": "useloglambdasampling",
    "velocityAbsorption": "velocityabsorption", "velocityEmission": "velocityemission", "velocityFit": "velocityfit",
    "ignoreLineSupport": "ignorelinesupport", "negativeThreshold": "negativethreshold", "nullThreshold": "nullthreshold",
    "catalogDirPath": "catalog_dirpath", "largeGridStepRatio": "largegridstepratio",
    "multipleContinuumFitDisable": "multiplecontinuumfit_disable", "asymFitMax": "asymfitmax", "asymFitMin": "asymfitmin",
    "asymFitStep": "asymfitstep", "deltaFitMax": "deltafitmax", "deltaFitMin": "deltafitmin", "deltaStepMax": "deltafitstep",
    "widthFitMax": "widthfitmax", "widthFitMin": "widthfitmin", "widthFitStep": "widthfitstep", "margAmpCorr": "margampcorr",
    "bestZOption": "bestzoption", "halfWindowSize": "halfwindowsize", "polynomialDegree": "polynomialdegree",
    "templateFittingSolve": "TemplateFittingSolve", "tplCombinationSolve": "TplcombinationSolve", "lineModelSolve": "LineModelSolve",
    "lineMeasSolve": "LineMeasSolve"}
VALUES = {  # per setting, the values whose spelling changed
    "lsfType": {"gaussianConstantWidth": "GaussianConstantWidth", "gaussianConstantResolution": "GaussianConstantResolution",
                "gaussianNISPSIM2016": "GaussianNISPSIM2016", "gaussianNISPVSSPSF201707": "GaussianNISPVSSPSF201707",
                "fromSpectrumData": "FROMSPECTRUMDATA", "gaussianVariableWidth": "GaussianVariableWidth"},
    "airVacuumMethod": {"morton2000": "Morton2000", "edlen1953": "Edlen1953", "edlen1966": "Edlen1966",
                        "peckreeder1972": "Peckreeder1972", "ciddor1996": "Ciddor1996"},
    "method": {"irregularSamplingMedian": "IrregularSamplingMedian", "templateFittingSolve": "TemplateFittingSolve",
               "tplCombinationSolve": "TplcombinationSolve", "lineModelSolve": "LineModelSolve", "lineMeasSolve": "LineMeasSolve"},
    "lineWidthType": {"instrumentDriven": "instrumentdriven", "velocityDriven": "velocitydriven"},
    "lineRatioType": {"tplRatio": "tplratio", "tplCorr": "tplcorr"},
    "rules": {"strongWeak": "strongweak", "balmerSingle": "balmersingle", "ratioRange": "ratiorange"},
    "continuumComponent": {"fromSpectrum": "fromspectrum", "tplFit": "tplfit", "tplFitAuto": "tplfitauto", "noContinuum": "nocontinuum"},
    "pdfCombination": {"bestChi2": "bestchi2"}, "interpolation": {"preComputedFineGrid": "precomputedfinegrid"},
    "component": {"noContinuum": "nocontinuum"}, "bestZOption": {"maxIntProba": "maxintproba"},
    "continuumFit": {"fromFirstPass": "fromfirstpass", "retryAll": "retryall", "reFitFirstPass": "refitfirstpass"}}


def rename(x):
    if isinstance(x, dict):
        return {KEYS.get(k, k): copy.deepcopy(v) if k == "lambdaRange" else rename(v) if isinstance(v, dict) else
                VALUES.get(k, {}).get(v, v) if isinstance(v, str) else copy.deepcopy(v) for k, v in x.items()}
    return x


def to_v1(doc):
    models = doc.get("spectrumModels", [])
    out = {}
    for k, v in doc.items():
        if k == "version":
            continue
        if k == "spectrumModels":
            out["objects"] = list(v)
        elif k in models:
            out[k] = model(v)
        else:
            out.update(rename({k: v}))
    return out


def model(m):
    d = copy.deepcopy(m)
    stages, out = d.pop("stages", []), {}
    z, l, r = d.pop("redshiftSolver", {}), d.pop("lineMeasSolver", {}), d.pop("reliabilitySolver", {})
    out["method"] = rename({"method": z.pop("method", "")})["method"]
    out["linemeas_method"] = "LineMeasSolve" if "lineMeasSolver" in stages else ""
    out["enable_reliability"] = "reliabilitySolver" in stages
    if r:
        out["reliability_model"] = r["deepLearningSolver"]["reliabilityModel"]
    l.pop("method", None)
    out.update(rename(z))
    out.update(rename(l))
    out.update(rename(d))
    return out
