// C26: evaluation of the line model at a redshift is independent of the
// evaluations made before, and returns the chi-square of the model it leaves.
#include "mc.h"
#include <RedshiftLibrary/common/defaults.h>
#include <RedshiftLibrary/common/exception.h>
#include <RedshiftLibrary/line/catalog.h>
#include <RedshiftLibrary/line/catalogsTplRatio.h>
#include <RedshiftLibrary/line/lineRatioCatalog.h>
#include <RedshiftLibrary/linemodel/abstractfitter.h>
#include <RedshiftLibrary/linemodel/continuummanager.h>
#include <RedshiftLibrary/linemodel/linemodelfitting.h>
#include <RedshiftLibrary/linemodel/linemodelsolution.h>
#include <RedshiftLibrary/linemodel/lineratiomanager.h>
#include <RedshiftLibrary/linemodel/templatesfitstore.h>
#include <RedshiftLibrary/operator/templatefitting.h>
#include <RedshiftLibrary/processflow/autoscope.h>
#include <RedshiftLibrary/processflow/context.h>
#include <RedshiftLibrary/processflow/inputcontext.h>
#include <RedshiftLibrary/spectrum/LSFFactory.h>
#include <RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h>
#include <RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h>
#include <RedshiftLibrary/spectrum/template/catalog.h>
#include <map>
using namespace NSEpic;
using namespace mc;

static std::shared_ptr<CSpectrumFluxCorrectionCalzetti> CAL;
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> IGM;
static void tables() {
  TFloat64List l, f;
  for (int i = 0; i <= 400; i++) {
    l.push_back(100 + 25. * i);
    f.push_back(2.659 * (-2.156 + 1.509e4 / l.back()) / 4.5 + 2);
  }
  CAL = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, f), 0., 0.1, 3);
  TFloat64List ml;
  for (int i = 0; i < 6000; i++)
    ml.push_back(1000. + 0.05 * i);
  std::vector<MeiksinCorrection> mcv;
  for (int z = 0; z < 2; z++) {
    std::vector<TFloat64List> v;
    for (int j = 0; j < 7; j++) {
      TFloat64List g;
      for (double x : ml)
        g.push_back(x < 1215.67 ? std::exp(-(1 + .3 * z) * .12 * (j + 1) * (1 + .2 * std::sin(x / 9))) : 1.);
      v.push_back(g);
    }
    mcv.push_back(MeiksinCorrection(ml, v));
  }
  IGM = std::make_shared<CSpectrumFluxCorrectionMeiksin>(mcv, TFloat64List{2.0, 2.5, 3.0});
}

// ---------------------------------------------------------------- worlds
struct World {
  std::string method = "lineModelSolve", cont = "noContinuum", ratio = "rules", rules = "all", fit = "individual", first = "individual", lya = "fixed";
  bool ampOff = false, lbdaOff = false, velfit = false, ism = false, reest = false;
  int nobs = 1, count = 1, lines = 0, degree = 2;
  bool multi1 = true; // a single continuum in the first pass
  bool switchFit = false, switchFixed = false;
  std::string name() const {
    std::string s = method + " " + cont + " " + ratio + (ratio == "rules" ? "/" + rules : "") + " " + fit + " first:" + first + " lya:" + lya;
    s += std::string(ampOff ? " ampOffset" : "") + (lbdaOff ? " lbdaOffset" : "") + (velfit ? " velocityFit" : "") + (ism ? " ismFit" : "") + (reest ? " reestimation" : "");
    return s + " obs:" + num(nobs) + " continua:" + num(count) + (multi1 ? "" : "(both passes)") + " lines:" + num(lines) + (switchFit ? " fixed->fit" : "") + (switchFixed ? " fit->fixed" : "");
  }
};
static const char *B(bool b) { return b ? "true" : "false"; }
static std::string json(const World &w) {
  std::string lm = std::string("{\"lineTypeFilter\":\"no\",\"lineForceFilter\":\"no\",\"fittingMethod\":\"") + w.fit +
                   "\",\"lineWidthType\":\"combined\",\"velocityEmission\":200.0,\"velocityAbsorption\":300.0,\"velocityFit\":" + B(w.velfit) +
                   ",\"ampOffsetFit\":" + B(w.ampOff) + ",\"lbdaOffsetFit\":" + B(w.lbdaOff) +
                   ",\"emVelocityFitMin\":100.0,\"emVelocityFitMax\":300.0,\"emVelocityFitStep\":100.0,\"absVelocityFitMin\":150.0,\"absVelocityFitMax\":350.0,"
                   "\"absVelocityFitStep\":100.0,\"lya\":{\"profile\":\"" +
                   (w.lya == "igm" ? "igm" : "asym") + "\",\"asymProfile\":{\"switchFixedToFit\":" + B(w.switchFit) + ",\"switchFitToFixed\":" + B(w.switchFixed) +
                   ",\"asymFitMin\":0.0,\"asymFitMax\":4.0,\"asymFitStep\":2.0,\"widthFitMin\":1.0,\"widthFitMax\":4.0,\"widthFitStep\":1.5,"
                   "\"deltaFitMin\":0.0,\"deltaFitMax\":0.0,\"deltaStepMax\":1.0}},\"hAlphaPrior\":-1.0,\"lineRatioType\":\"" +
                   w.ratio + "\",\"rules\":\"" + w.rules + "\",\"improveBalmerFit\":true,\"tplRatioIsmFit\":" + B(w.ism) + ",\"continuumComponent\":\"" + w.cont +
                   "\",\"continuumReestimation\":\"no\",\"continuumFit\":{\"negativeThreshold\":-5.0,\"nullThreshold\":3.0,\"fftProcessing\":false,\"ismFit\":true,"
                   "\"igmFit\":true,\"count\":" +
                   num(w.count) +
                   ",\"ignoreLineSupport\":false,\"priors\":{\"betaA\":1.0,\"betaTE\":1.0,\"betaZ\":1.0,\"catalogDirPath\":\"\"}},\"useLogLambdaSampling\":false,"
                   "\"firstPass\":{\"fittingMethod\":\"" +
                   w.first + "\",\"tplRatioIsmFit\":false,\"multipleContinuumFitDisable\":" + B(w.multi1) +
                   "},\"tplRatio\":{\"priors\":{\"betaA\":1.0,\"betaTE\":1.0,\"betaZ\":1.0,\"catalogDirPath\":\"\"}},\"nSigmaSupport\":8.0,\"enablePhotometry\":false,"
                   "\"polynomialDegree\":" +
                   num(w.degree) + "}";
  bool meas = w.method == "lineMeasSolve";
  std::string range = "[3700.0,6000.0]", obs;
  if (w.nobs == 2)
    range = "{\"a\":[3700.0,5000.0],\"b\":[4800.0,6000.0]}", obs = "\"multiObsMethod\":\"full\",";
  else
    obs = "\"multiObsMethod\":\"\",";
  std::string stage = meas ? "lineMeasSolver" : "redshiftSolver";
  return "{" + obs + "\"lambdaRange\":" + range +
         ",\"smoothWidth\":0.0,\"templateCatalog\":{\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75.0,\"medianEvenReflection\":true}},"
         "\"continuumRemoval\":{\"method\":\"irregularSamplingMedian\",\"medianKernelWidth\":150.0,\"medianEvenReflection\":true},"
         "\"ebmv\":{\"start\":0.0,\"step\":0.1,\"count\":3},\"airVacuumMethod\":\"\",\"autoCorrectInput\":false,\"lsf\":{\"lsfType\":\"gaussianConstantResolution\",\"resolution\":1000.0},"
         "\"extremaRedshiftSeparation\":0.01,\"spectrumModels\":[\"galaxy\"],\"galaxy\":{\"redshiftRange\":[0.0,4.0],\"redshiftStep\":0.001,\"redshiftSampling\":\"log\","
         "\"stages\":[\"" +
         stage + "\"],\"" + stage + "\":{\"method\":\"" + w.method + "\",\"" + w.method + "\":{\"lineModel\":" + lm + "}}}}";
}
static CLineCatalog lineCatalog(const World &w) {
  CLineCatalog c(8.);
  int id = 0;
  auto add = [&](const std::string &n, double pos, const char *t, const char *f, const std::string &prof, const std::string &group, double amp, const std::string &vel, bool off = false) {
    TAsymParams a = prof == "ASYM" ? TAsymParams(1., 4.5, 0.) : prof == "ASYMFIT" ? TAsymParams(2., 2., 0.) : prof == "ASYMFIXED" ? TAsymParams(2., 1.5, 0.) : TAsymParams();
    c.AddLineFromParams(n, pos, t, f, prof, a, group, amp, vel, 0., off, id, n + "_" + std::to_string(id), prof == "SYMIGM" ? IGM : nullptr);
    ++id;
  };
  std::string lya = w.lya == "igm" ? "SYMIGM" : w.lya == "fit" ? "ASYMFIT" : w.lya == "fixed" ? "ASYMFIXED" : "SYM";
  if (w.lines == 0) {
    add("LyAE", 1216.03, "E", "S", lya, undefStr, 1, "Em1", w.lbdaOff);
    add("CIV", 1549.48, "E", "S", "SYM", undefStr, 1, "Em1", w.lbdaOff);
    add("CIVa", 1546.00, "A", "W", "SYM", undefStr, 1, "Abs1");
    add("HeII", 1640.42, "E", "W", "SYM", "he", 0.5, "Em1");
    add("CIII", 1908.73, "E", "S", "SYM", "he", 1, "Em1");
    add("SiIV", 1402.00, "A", "S", "SYM", undefStr, 1, "Abs1");
  } else if (w.lines == 1) { // blends of emission and absorption
    add("LyAE", 1216.03, "E", "S", lya, undefStr, 1, "Em1");
    add("a", 1549.00, "E", "S", "SYM", undefStr, 1, "Em1", w.lbdaOff);
    add("b", 1550.50, "A", "W", "SYM", undefStr, 1, "Abs1", w.lbdaOff);
    add("c", 1552.00, "E", "W", "SYM", undefStr, 1, "Em1");
    add("d", 1553.50, "E", "S", "SYM", "g", 0.7, "Em1");
    add("e", 1640.00, "E", "W", "SYM", "g", 1, "Em1");
    add("f", 1402.00, "A", "S", "SYM", undefStr, 1, "Abs1");
  } else { // only emission
    add("LyAE", 1216.03, "E", "S", lya, undefStr, 1, "Em1");
    add("CIV", 1549.48, "E", "S", "SYM", undefStr, 1, "Em1", w.lbdaOff);
    add("CIVb", 1552.0, "E", "W", "SYM", undefStr, 1, "Em1");
    add("CIII", 1908.73, "E", "S", "SYM", undefStr, 1, "Em1");
  }
  return c;
}
static std::shared_ptr<CSpectrum> spectrum(const World &w, double b, double e, double step, int seed, const std::string &id) {
  TFloat64List x, f, s;
  int i = 0;
  for (double l = b; l <= e; l += step, i++) {
    double r = l / 3.06, y = 1.5 * std::pow(r / 1500., -1.) * (1 + .1 * std::sin(r / 37 + seed));
    if (r < 1215.67)
      y *= .8;
    if (w.cont == "noContinuum")
      y = 0;
    for (auto [p, a] : {std::pair(1216.03, 2.), std::pair(1549.48, .8), std::pair(1908.73, 1.), std::pair(1402., -.5)})
      y += a * std::exp(-.5 * std::pow((r - p) / 1.6, 2));
    x.push_back(l);
    f.push_back(y + .07 * std::sin(i * 12.9898 + 78.233 * seed) * std::cos(i * 4.1414));
    s.push_back(.1 * (1 + .3 * std::sin(i * 1.7)));
  }
  auto sp = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f, CSpectrumNoiseAxis(s)));
  sp->SetName("s");
  sp->setObsID(id);
  sp->SetLSF(LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(1000.)));
  return sp;
}

static const TFloat64List Z{2.06, 2.5, 2.0, 0.5};
struct Scope {
  std::unique_ptr<CAutoScope> a, b, c;
  Scope(const World &w) {
    auto &s = Context.m_ScopeStack;
    a = std::make_unique<CAutoScope>(s, "galaxy", ScopeType::SPECTRUMMODEL, false);
    b = std::make_unique<CAutoScope>(s, w.method == "lineMeasSolve" ? "lineMeasSolver" : "redshiftSolver", ScopeType::STAGE, false);
    c = std::make_unique<CAutoScope>(s, w.method, ScopeType::METHOD, false);
  }
  ~Scope() { c.reset(), b.reset(), a.reset(); }
};
static std::shared_ptr<COperatorTemplateFittingBase> TF;
static std::shared_ptr<CTemplatesFitStore> STORE;
static std::map<double, std::vector<CTplModelSolution>> BEST;

static void setup(const World &w) {
  static std::string current;
  if (current == json(w) + w.lya + num(w.lines))
    return;
  Context.reset();
  STORE.reset();
  TF.reset();
  Context.LoadParameterStore(json(w));
  if (w.nobs == 2) {
    Context.addSpectrum(spectrum(w, 3650, 5100, 6., 0, "a"));
    Context.addSpectrum(spectrum(w, 4700, 6100, 5., 1, "b"));
  } else
    Context.addSpectrum(spectrum(w, 3650, 6100, 5., 0, ""));
  tables();
  Context.setfluxCorrectionMeiksin(IGM);
  Context.setfluxCorrectionCalzetti(CAL);
  auto cat = std::make_shared<CTemplateCatalog>();
  for (int k = 0; k < 2; k++) {
    TFloat64List l, f;
    for (double x = 700; x < 6700; x += 4) {
      l.push_back(x);
      f.push_back(k ? std::pow(x / 1500., .5) * (1 + .15 * std::cos(x / 53)) * (x > 1300 ? 1.3 : 1) : 2 * std::pow(x / 1500., -1.5) * (1 + .1 * std::sin(x / 37)));
    }
    cat->Add(std::make_shared<CTemplate>(k ? "old" : "young", "galaxy", CSpectrumSpectralAxis(l), CSpectrumFluxAxis(f)));
  }
  Context.setTemplateCatalog(cat);
  auto lines = lineCatalog(w);
  Context.setLineCatalog("galaxy", w.method, std::make_shared<CLineCatalog>(lines));
  auto ratios = std::make_shared<CLineCatalogsTplRatio>();
  for (int k = 0; k < 2; k++) {
    CLineRatioCatalog r(k ? "tplB" : "tplA", lines);
    for (auto &[id, l] : lines.GetList())
      r.setLineAmplitude(id, k ? 1. + (id == 3) * 3 : 5. - id * .7);
    r.addVelocity("em_vel", k ? 200. : 300.);
    r.addVelocity("abs_vel", k ? 300. : 400.);
    r.setPrior(0.5);
    if (w.lya == "fixed" || w.lya == "fit")
      r.setAsymProfileAndParams(w.lya == "fit" ? "ASYMFIT" : "ASYMFIXED", TAsymParams(2., k ? 1.5 : 2.5, 0.));
    ratios->addLineRatioCatalog(r);
  }
  Context.setLineRatioCatalogCatalog("galaxy", ratios);
  Context.Init();
  current = json(w) + w.lya + num(w.lines);
  if (w.cont == "tplFit") { // as COperatorLineModel::PrecomputeContinuumFit
    Scope s(w);
    TFloat64List zs = Z;
    std::sort(zs.begin(), zs.end());
    TF = std::make_shared<COperatorTemplateFitting>(zs);
    STORE = std::make_shared<CTemplatesFitStore>(zs);
    auto tc = Context.GetTemplateCatalog();
    double snr = 0;
    for (auto &t : tc->GetOrthoTemplateList(TStringList{"galaxy"}, true)) {
      auto r = std::dynamic_pointer_cast<CTemplateFittingResult>(TF->Compute(t, 0.9, "preComputedFineGrid", true, true));
      for (size_t i = 0; i < zs.size(); i++) {
        snr = std::max(snr, r->SNR[i]);
        STORE->Add(t->GetName(), r->FitEbmvCoeff[i], r->FitMeiksinIdx[i], zs[i], r->ChiSquare[i], r->ChiSquarePhot[i], r->FitAmplitude[i], r->FitAmplitudeError[i],
                   r->FitAmplitudeSigma[i], r->FitDtM[i], r->FitMtM[i], r->LogPrior[i], r->SNR[i]);
      }
    }
    STORE->setSNRMax(snr);
  }
}

// ---------------------------------------------------------------- operations
struct Op {
  double z;
  int pass;
  double ev, av;
  bool log;
  int after = 0; // what is asked of the model afterwards
};
static std::string str(const Op &o) {
  static const char *A[] = {"", "+mask", "+linesRemoved", "+reload", "+queries"};
  return "fit(z=" + num(o.z) + ",pass" + num(o.pass) + ",vel=" + num(o.ev) + "/" + num(o.av) + (o.log ? ",final" : "") + ")" + A[o.after];
}
struct Res {
  std::string error;
  std::vector<std::pair<std::string, std::vector<double>>> v;
  double chi2 = NAN, sum = NAN;
  bool finite = true;
};
static std::unique_ptr<CLineModelFitting> make(const World &w) {
  auto f = std::make_unique<CLineModelFitting>(TF ? TF : std::make_shared<COperatorTemplateFitting>(Z), w.method == "lineMeasSolve" ? ElementComposition::OneLine : ElementComposition::Default);
  if (w.cont != "tplFit")
    f->setContinuumComponent(w.cont);
  else {
    f->setContinuumComponent("tplFit");
    f->getContinuumManager()->SetFitContinuum_FitStore(STORE);
  }
  f->m_lineRatioManager->SetLeastSquareFastEstimationEnabled(0);
  return f;
}
template <class T> static void put(Res &r, const std::string &n, const T &l) { r.v.push_back({n, std::vector<double>(l.begin(), l.end())}); }
static Res fit(CLineModelFitting &f, const World &w, const Op &o) {
  Res r;
  CLineModelSolution sol;
  CTplModelSolution cont;
  try {
    f.setPassMode(o.pass);
    f.SetVelocityEmission(o.ev);
    f.SetVelocityAbsorption(o.av);
    f.SetAbsLinesLimit(1.0);
    r.chi2 = f.fit(o.z, sol, cont, w.reest ? 1 : 0, o.log);
  } catch (const AmzException &e) {
    r.error = e.what();
    return r;
  }
  put(r, "chi2", TFloat64List{r.chi2});
  put(r, "amplitudes", sol.Amplitudes);
  put(r, "amplitude uncertainties", sol.AmplitudesUncertainties);
  put(r, "SNR", sol.SNR);
  put(r, "residual RMS", sol.ResidualRMS);
  put(r, "continuum flux", sol.CenterContinuumFlux);
  put(r, "continuum uncertainty", sol.CenterContinuumFluxUncertainty);
  put(r, "widths", sol.Sigmas);
  put(r, "fluxes", sol.Flux);
  put(r, "flux uncertainties", sol.FluxUncertainty);
  put(r, "direct fluxes", sol.FluxDirectIntegration);
  put(r, "direct flux uncertainties", sol.FluxDirectIntegrationUncertainty);
  put(r, "wavelengths", sol.LambdaObs);
  put(r, "line velocities", sol.Velocity);
  put(r, "offsets", sol.Offset);
  put(r, "elements", sol.ElementId);
  put(r, "outside", sol.OutsideLambdaRange);
  put(r, "degrees", TFloat64List{double(sol.nDDL), double(sol.NLinesAboveSnrCut)});
  put(r, "LyA", TFloat64List{sol.LyaWidthCoeff, sol.LyaAlpha, sol.LyaDelta, double(sol.LyaIgm)});
  put(r, "velocities", TFloat64List{sol.EmissionVelocity, sol.AbsorptionVelocity, sol.Redshift});
  put(r, "OII and Ha", TFloat64List{sol.snrHa, sol.lfHa, sol.snrHa_DI, sol.lfHa_DI, sol.snrOII, sol.lfOII, sol.snrOII_DI, sol.lfOII_DI});
  put(r, "polynomial", sol.continuum_pCoeff0);
  put(r, "polynomial", sol.continuum_pCoeff1);
  put(r, "polynomial", sol.continuum_pCoeff2);
  put(r, "continuum", TFloat64List{cont.tplAmplitude, cont.tplAmplitudeError, cont.tplAmplitudeSigma, cont.tplEbmvCoeff, double(cont.tplMeiksinIdx), cont.tplRedshift, cont.tplMerit, cont.tplDtM,
                                   cont.tplMtM, cont.tplLogPrior, double(cont.tplName == "old"), double(cont.tplName == "young")});
  put(r, "continuum polynomial", cont.pCoeffs);
  put(r, "fit velocities", TFloat64List{f.GetVelocityEmission(), f.GetVelocityAbsorption()});
  put(r, "scale margin", TFloat64List{f.getScaleMargCorrection()});
  put(r, "continuum chi2", TFloat64List{f.getLeastSquareContinuumMerit()});
  put(r, "fast continuum chi2", TFloat64List{f.getLeastSquareContinuumMeritFast()});
  r.sum = 0;
  for (auto &i : f.getSpectraIndex()) {
    (void)i;
    auto &m = f.getSpectrumModel();
    put(r, "model flux", m.GetModelSpectrum().GetFluxAxis().GetSamplesVector());
    put(r, "model continuum", m.GetModelContinuum().GetSamplesVector());
    put(r, "observed flux", m.getSpcFluxAxis().GetSamplesVector());
    auto &sp = f.getSpectrum();
    auto &x = sp.GetSpectralAxis();
    int b = x.GetIndexAtWaveLength(f.getLambdaRange().GetBegin()), e = x.GetIndexAtWaveLength(f.getLambdaRange().GetEnd());
    for (int k = b; k < e; k++) {
      double d = (m.getSpcFluxAxis()[k] - m.GetModelSpectrum().GetFluxAxis()[k]) / sp.GetFluxAxis().GetError()[k];
      r.sum += d * d;
    }
  }
  f.getSpectraIndex().reset();
  if (w.cont == "tplFit")
    r.sum += f.getContinuumManager()->getFitSum();
  switch (o.after) {
  case 1:
    f.getOutsideLinesMask();
    f.getOutsideLinesSTD(1);
    f.getOutsideLinesSTD(2);
    break;
  case 2:
    f.getSpectrumModel().GetObservedSpectrumWithLinesRemoved(CLine::EType::nType_Emission);
    f.getSpectrumModel().GetObservedSpectrumWithLinesRemoved(CLine::EType::nType_All);
    break;
  case 3:
    f.LoadModelSolution(f.GetModelSolution(1));
    f.refreshAllModels();
    break;
  case 4:
    f.getCumulSNRStrongEL();
    f.getLinesAboveSNR();
    f.GetModelSolution(0);
    f.GetModelNonZeroElementsNDdl();
    break;
  }
  return r;
}
static void compare(const Res &a, const Res &b, const std::string &w, const std::string &sig) {
  check(a.error == b.error, w + ": error '" + a.error + "' after the history, '" + b.error + "' alone", sig + "/error");
  check(a.v.size() == b.v.size(), w + ": number of results", sig);
  for (size_t i = 0; i < a.v.size(); i++) {
    auto &[n, x] = a.v[i];
    auto &y = b.v[i].second;
    check(x.size() == y.size(), w + ": number of " + n, sig + "/" + n);
    for (size_t k = 0; k < x.size(); k++)
      check((std::isnan(x[k]) && std::isnan(y[k])) || x[k] == y[k], w + ": " + n + "[" + num(k) + "] is " + num(x[k]) + " after the history and " + num(y[k]) + " alone", sig + "/" + n);
  }
}
static const Res &alone(const World &w, const Op &o) {
  static std::map<std::string, Res> C;
  static std::string cur;
  std::string k = w.name();
  if (cur != k)
    C.clear(), cur = k;
  Op p = o;
  p.after = 0;
  auto it = C.find(str(p));
  if (it == C.end())
    it = C.emplace(str(p), fit(*make(w), w, p)).first;
  return it->second;
}

static std::vector<World> worlds(const Ctx &c) {
  std::vector<World> v;
  World w;
  auto add = [&](World x) { v.push_back(x); };
  for (std::string cont : {"noContinuum", "fromSpectrum", "tplFit"})
    for (std::string ratio : {"rules", "tplRatio"})
      for (std::string lya : {"fixed", "fit", "igm"}) {
        w = World();
        w.cont = cont, w.ratio = ratio, w.lya = lya;
        w.fit = lya == "fixed" ? "hybrid" : "individual";
        w.count = cont == "tplFit" ? 2 : 1;
        w.ism = ratio == "tplRatio" && lya == "igm" && cont != "noContinuum";
        add(w);
      }
  for (std::string fit : {"svd", "svdlc", "svdlcp2", "ones"})
    for (int lines : {0, 1}) {
      w = World();
      w.cont = fit.substr(0, 5) == "svdlc" ? "tplFit" : lines ? "fromSpectrum" : "noContinuum";
      w.fit = fit, w.lines = lines;
      w.rules = lines ? "no" : "all";
      add(w);
    }
  for (std::string fit : {"hybrid", "svd"})
    for (int k = 0; k < 4; k++) {
      w = World();
      w.method = "lineMeasSolve";
      w.fit = fit, w.lines = 1 + k % 2;
      w.cont = k < 2 ? "noContinuum" : "fromSpectrum";
      w.rules = "no";
      w.lya = k % 2 ? "fixed" : "fit";
      w.ampOff = k > 0, w.lbdaOff = k != 1, w.velfit = false;
      w.degree = k % 3;
      add(w);
    }
  w = World(), w.cont = "fromSpectrum", w.reest = true, w.fit = "hybrid";
  add(w);
  w.lines = 1, w.lya = "fit";
  add(w);
  w = World(), w.nobs = 2, w.fit = "individual";
  add(w);
  w.cont = "tplFit", w.ratio = "tplRatio", w.lya = "fit";
  add(w);
  w = World(), w.cont = "tplFit", w.count = 2, w.multi1 = false, w.first = "hybrid";
  add(w);
  w.ratio = "tplRatio", w.switchFit = true;
  add(w);
  w.lya = "fit", w.switchFit = false, w.switchFixed = true;
  add(w);
  w = World(), w.cont = "fromSpectrum", w.ratio = "tplCorr", w.lya = "fixed";
  add(w);
  return v;
}
static std::vector<Op> ops(const World &w, bool thorough) {
  std::vector<Op> v;
  bool meas = w.method == "lineMeasSolve";
  for (double z : Z) {
    v.push_back({z, meas ? 3 : 2, 200, 300, true});
    v.push_back({z, meas ? 3 : 2, 150, 250, false});
    if (!meas)
      v.push_back({z, 1, 200, 300, false});
  }
  (void)thorough;
  return v;
}
static void histories(Ctx &c, int n) {
  static const auto W = worlds(c);
  World w = W[c.choose(W.size())];
  auto O = ops(w, c.thorough);
  std::vector<Op> h;
  for (int i = 0; i < n; i++) {
    h.push_back(O[c.choose(O.size())]);
    if (i + 1 < n)
      h.back().after = (i == 0) ? c.choose(n == 2 ? 5 : 1) : 0;
  }
  c.mine();
  setup(w);
  Scope scope(w);
  c.desc << w.name() << ":";
  for (auto &o : h)
    c.desc << " " << str(o);
  auto f = make(w);
  std::string t;
  int nt = 0;
  for (auto &o : h) {
    Res r = fit(*f, w, o);
    c.step();
    compare(r, alone(w, o), str(o), "history");
    t += r.error.empty() ? "ok " : r.error.substr(0, 40) + " ";
    nt += r.error.empty();
  }
  c.outcome(t, nt > 1);
}
static void chi2(Ctx &c) { // chi-square of the model that is left
  static const auto W = worlds(c);
  World w = W[c.choose(W.size())];
  auto O = ops(w, c.thorough);
  Op o = O[c.choose(O.size())];
  o.log = true;
  c.mine();
  setup(w);
  Scope scope(w);
  c.desc << w.name() << ": " << str(o);
  Res r = fit(*make(w), w, o);
  c.step();
  if (!r.error.empty()) {
    c.outcome(r.error.substr(0, 60), false);
    return;
  }
  check(close(r.chi2, r.sum, 1e-9, 1e-9), "chi-square returned is " + num(r.chi2) + ", that of the model returned is " + num(r.sum), "chi2");
  c.outcome("ok", true);
}

static void reload(Ctx &c) { // a saved solution is brought back after other fits
  static const auto W = [&] {
    std::vector<World> v;
    for (auto &w : worlds(c))
      if (w.method == "lineMeasSolve")
        v.push_back(w);
    return v;
  }();
  World w = W[c.choose(W.size())];
  auto O = ops(w, c.thorough);
  Op o = O[c.choose(O.size())], o2 = O[c.choose(O.size())];
  o.log = true, o2.after = c.choose(5);
  c.mine();
  setup(w);
  Scope scope(w);
  c.desc << w.name() << ": " << str(o) << ", " << str(o2) << ", the first one's solution again";
  auto f = make(w);
  auto models = [&] {
    std::vector<double> v;
    for (auto &i : f->getSpectraIndex()) {
      (void)i;
      auto &s = f->getSpectrumModel().GetModelSpectrum().GetFluxAxis().GetSamplesVector();
      v.insert(v.end(), s.begin(), s.end());
    }
    f->getSpectraIndex().reset();
    return v;
  };
  CLineModelSolution sol;
  CTplModelSolution cont;
  std::vector<double> M;
  try {
    f->setPassMode(o.pass);
    f->SetVelocityEmission(o.ev);
    f->SetVelocityAbsorption(o.av);
    f->SetAbsLinesLimit(1.0);
    f->fit(o.z, sol, cont, w.reest ? 1 : 0, true);
    M = models();
  } catch (const AmzException &e) {
    c.outcome(std::string("refused ") + e.what(), false);
    return;
  }
  fit(*f, w, o2);
  c.step();
  f->LoadModelSolution(sol);
  f->refreshAllModels();
  auto N = models();
  check(M.size() == N.size(), "size of the model", "reload");
  for (size_t k = 0; k < M.size(); k++)
    check(close(M[k], N[k], 1e-10, 1e-12), "model[" + num(k) + "] is " + num(N[k]) + ", was " + num(M[k]) + " when the solution was saved", "reload");
  c.step();
  c.outcome("ok", true);
}

int main(int argc, char **argv) {
  CProcessFlowContext::GetInstance();
  Harness H;
  H.add("pairs", [](Ctx &c) { histories(c, 2); });
  H.add("chi2", chi2);
  H.add("reload", reload);
  H.add("triples", [](Ctx &c) {
    if (!c.thorough)
      throw Skip();
    histories(c, 3);
  });
  return H.main(argc, argv);
}
