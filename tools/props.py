"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "causal_effect_bandits/"
ARMS, BAND, DATA, PAR, SCM = (P + f + ".py" for f in (
    "arms", "bandits", "data", "parameters", "scm"))
EX, NL, PAPER, PLOT = (P + f + ".py" for f in (
    "example_scm", "nonlinear_utils", "paper_utils", "plotting_utils"))

ROWS = []


def prop(id_, title, statement, over, text, why, mech, observe, technique,
         note, state=()):
  assert len(title) <= 80, title
  files = []
  for _, w in mech:
    f = w.split(":")[0]
    if f not in files:
      files.append(f)
  ROWS.append((dict(
      id=id_, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(
          files=files,
          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
          mechanism=[dict(name=n, where=w) for n, w in mech],
          observe_at=observe, hook_needed=None)),
      technique, note))


STATELESS = ("stateless exhaustive exploration of the real code: every answer "
             "of the environment enumerated by a choice-tree explorer")
SEQ = ("exhaustive enumeration of operation sequences on the real objects "
       "against a reference model")
LAW = ("exhaustive enumeration of every random outcome with its exact "
       "probability on the real code")
CFG = ("exhaustive bounded exploration of configurations and inputs on the "
       "real code against an independent reference")

# --------------------------------------------------------------- bandits
prop(
    "C01", "A certified best arm really is separated, and is certified at once",
    "A bandit run with the uniform or the LUCB algorithm ends with a certified "
    "winner in a round if and only if, after that round, the cost-scaled upper "
    "confidence bound of the arm with the lowest cost-scaled variance estimate "
    "lies strictly below every other arm's cost-scaled lower bound plus the "
    "allowed suboptimality; the one arm returned is that arm. "
    "While any arm's bound is infinite or any estimate is nan, nothing is "
    "certified (LUCB makes its first judgement after its second round).",
    ["histories", "configurations", "inputs"],
    "every history of per-arm intervals and estimates (including infinite, nan, "
    "zero-width, tied ones), any number of arms, costs, tolerance, limits and "
    "both ways of supplying data",
    "bandits_test.py runs a few seeds on one linear model with identical "
    "costs and error_tol=0; ties, nan, unequal costs, tolerances and the round "
    "in which a run should have stopped are never checked.",
    [("end condition", f"{BAND}:BAIBanditAlgorithm._check_fixed_conf_end_condition"),
     ("uniform loop", f"{BAND}:UniformAlgorithm.run"),
     ("LUCB loop", f"{BAND}:LUCBAlgorithm.run")],
    ["BanditData.best_arm", "the number of rounds run", "arm.ci", "arm.var_est"],
    STATELESS,
    "Every sequence of arm answers over an alphabet of intervals that realises "
    "every order, tie and special value is fed to the real run loops up to a "
    "depth; longer histories and intervals outside the alphabet's orders are "
    "extrapolated. Trusts the scripted arm and generator stand-ins, which have "
    "the documented arm interface.",
    [("ci, var_est", "interval and estimate an arm reports", f"{ARMS}:VarianceEstimatorArm")])

prop(
    "C02", "Successive elimination removes exactly the dominated arms, for good",
    "In each round successive elimination samples every surviving arm, and then "
    "eliminates exactly the arms whose cost-scaled lower bound is at least the "
    "smallest cost-scaled upper bound among the surviving arms with the lowest "
    "estimate, never the best arm itself. "
    "An eliminated arm is never sampled nor returned again. The run ends once "
    "one arm survives, and returns it.",
    ["histories", "configurations", "inputs"],
    "every history of intervals and estimates of every arm, any number of arms, "
    "costs, tolerances and limits, with shared or freshly generated data",
    "The only test runs two instances of one linear model to completion; it "
    "reaches a handful of elimination orders and no ties, zero-width, "
    "infinite or nan intervals.",
    [("elimination loop", f"{BAND}:SuccessiveEliminationAlgorithm.run")],
    ["BanditData.samples_by_arm", "BanditData.best_arm", "calls of arm.update"],
    STATELESS,
    "As C01: all histories over the alphabet up to the depth, on the real run "
    "method; the oracle recomputes the surviving set from the answers alone.",
    [("surviving arms", "arms still sampled", f"{BAND}:SuccessiveEliminationAlgorithm.run")])

prop(
    "C03", "LUCB samples exactly the leader and its strongest challenger",
    "In every round after the first, LUCB samples two distinct arms: an arm with "
    "the lowest cost-scaled variance estimate (with the highest upper bound among "
    "those tied), and an arm with the lowest cost-scaled lower bound among the "
    "arms that do not share the lowest estimate (among all others when all are "
    "tied). While some arm has no estimate or a nan estimate, any two distinct "
    "arms may be sampled, and choosing never fails nor changes an arm.",
    ["histories", "configurations", "inputs"],
    "every joint state of the arms (fresh, unfit, nan, tied, zero-width, "
    "infinite), every tie-breaking outcome and every history of a run",
    "The tests only check the arm that finally wins on one model; which pair is "
    "sampled is never observed, and ties or nan never arise.",
    [("selection", f"{BAND}:LUCBAlgorithm.select_arms"),
     ("bounds", f"{BAND}:BAIBanditAlgorithm.collect_bounds")],
    ["select_arms()", "BanditData.samples_by_arm"],
    STATELESS,
    "All joint states of 2-4 arms over a ten-letter alphabet for the selection "
    "itself, with every tie-break answer enumerated, plus all bounded runs.")

prop(
    "C04", "The returned history is exactly what the arms reported",
    "For every arm and round, the returned history holds the lower bound, upper "
    "bound and estimate the arm reported at the end of that round, multiplied by "
    "the arm's cost, and the number of units it was given in that round (zero "
    "when it was not sampled). All series are equally long, and the cumulative "
    "sample count of a round is the total number of units given to all arms up "
    "to it.",
    ["histories", "configurations", "inputs"],
    "every run of the three algorithms: histories, arm counts, costs, units per "
    "round, limits, data modes, including rounds that sample only some arms; "
    "a dataset, if given, has enough rows for the run",
    "No test looks at the returned series at all.",
    [("bookkeeping", f"{BAND}:UniformAlgorithm.run"),
     ("bookkeeping", f"{BAND}:LUCBAlgorithm.run"),
     ("bookkeeping", f"{BAND}:SuccessiveEliminationAlgorithm.run"),
     ("result", f"{BAND}:BanditData")],
    ["BanditData.lcb_by_arm", "BanditData.ucb_by_arm",
     "BanditData.var_est_by_arm", "BanditData.samples_by_arm",
     "BanditData.cum_samples"],
    STATELESS,
    "All bounded histories of the real runs; the record is compared entry by "
    "entry with the log kept by the scripted arms.")

prop(
    "C05", "The sample limit is honoured and the best arms so far are returned",
    "No round starts once the total number of units used exceeds the sample "
    "limit, and a run never stops for its budget earlier than that. A run that "
    "stops for its budget returns exactly the arms (still in play) whose "
    "cost-scaled estimate is the lowest. With no limit given, only certification "
    "ends a run.",
    ["histories", "configurations", "inputs"],
    "every history, limit (0, exact multiples, in between, none), arm count, "
    "units per round, confidence setting and data mode, for each algorithm; a "
    "dataset, if given, has enough rows for the run",
    "The budget branch runs in one test with one limit; boundary limits, ties at "
    "the limit and eliminated arms at the limit are never reached.",
    [("budget branch", f"{BAND}:UniformAlgorithm.run"),
     ("budget branch", f"{BAND}:LUCBAlgorithm.run"),
     ("budget branch", f"{BAND}:SuccessiveEliminationAlgorithm.run")],
    ["BanditData.cum_samples", "BanditData.best_arm"],
    STATELESS,
    "All bounded histories on the real runs with limits below, on and above "
    "every round boundary. A run that does not stop within the horizon is cut "
    "there, so unlimited runs are judged only as far as the horizon.")

prop(
    "C06", "Each arm reads the shared dataset in order, with no gap or repeat",
    "When a run is given a dataset, the t-th update of each arm receives exactly "
    "the t-th block of units-per-round consecutive rows of it, whatever the "
    "algorithm and whichever other arms were sampled. Without a dataset each "
    "round's data come from the data generator in a batch of units-per-round "
    "rows, not handed to the same arm twice.",
    ["histories", "configurations", "schedules"],
    "every sampling schedule of the three algorithms, every arm kind "
    "(CLT, chi-squared, finite-sample, bootstrap), block sizes and stages of "
    "fitting",
    "Tests compare final answers on one seed; which rows an arm consumed is not "
    "observed, and bootstrap arms are not run under a bandit.",
    [("stable order", f"{BAND}:UniformAlgorithm.run"),
     ("stable order", f"{BAND}:LUCBAlgorithm.run"),
     ("stable order", f"{BAND}:SuccessiveEliminationAlgorithm.run"),
     ("unit counter", f"{ARMS}:VarianceEstimatorArm.get_num_units")],
    ["data passed to arm.update", "data passed to the nuisance parameter",
     "arm.get_num_units()"],
    STATELESS,
    "All bounded schedules with scripted arms, plus real arms of every kind "
    "whose rows carry identities, with every fit/unfit answer enumerated.",
    [("units consumed", "how far an arm has read", f"{ARMS}:VarianceEstimatorArm.get_num_units")])

prop(
    "C07", "The error budget is split over arms; bad bandit parameters rejected",
    "In every update of every run an arm is asked for an interval at error "
    "probability equal to the run's error probability divided by the number of "
    "arms, including after arms were eliminated. "
    "A bandit can be constructed exactly when the error probability is in (0,1), "
    "the allowed suboptimality is nonnegative, the confidence (if any) is in "
    "(0,1) and a confidence or a finite limit is given.",
    ["histories", "configurations", "inputs"],
    "every round of every run, arm count, error probability, and the whole grid "
    "of boundary, invalid and special constructor arguments",
    "No test observes the error probability handed to an arm, and none "
    "constructs a bandit with invalid parameters.",
    [("union bound", f"{BAND}:UniformAlgorithm.run"),
     ("union bound", f"{BAND}:LUCBAlgorithm.run"),
     ("union bound", f"{BAND}:SuccessiveEliminationAlgorithm.run"),
     ("validation", f"{BAND}:BAIBanditAlgorithm.__init__")],
    ["delta passed to arm.update", "ValueError from constructors"],
    STATELESS,
    "All bounded histories on the real runs plus the full constructor grid.")

prop(
    "C08", "Resetting a bandit or an arm is the same as starting afresh",
    "After a reset, a bandit and all its arms behave exactly as newly built ones: "
    "the arms show no pulls, no units, no estimates, the initial interval and an "
    "unfit nuisance parameter, and any later run or update gives the same result "
    "as on fresh objects. This holds however often and at whatever point the "
    "reset happens.",
    ["histories", "configurations"],
    "every script of runs, single updates and resets, for each algorithm, mixes "
    "of arm kinds, data modes and outcomes of the has-enough-samples gate",
    "arms_test.py resets one arm once and looks at a few attributes; no bandit "
    "is ever reset and run again.",
    [("bandit reset", f"{BAND}:BAIBanditAlgorithm.reset"),
     ("arm reset", f"{ARMS}:VarianceEstimatorArm.reset"),
     ("arm reset", f"{ARMS}:SampleSplittingArm.reset"),
     ("arm reset", f"{ARMS}:BootstrapArm.reset")],
    ["BanditData of the run after reset", "arm.ci, var_est, ate, num_pulled, "
     "get_num_units()", "rows passed to the nuisance parameter"],
    SEQ,
    "All scripts of the listed shapes with real arms, run side by side with "
    "fresh objects under the same random answers.",
    [("folds, counters", "data and counters an arm accumulates", f"{ARMS}:SampleSplittingArm")])

prop(
    "C09", "Sample splitting loses nothing, mixes nothing and stays balanced",
    "After every update of a sample-splitting arm, each row the arm has ever "
    "received is in exactly one of the training and evaluation folds, and no row "
    "is in both. The two folds differ only by the rounding of each split, and "
    "with stable splits a row never changes fold and each batch is itself split "
    "in half. The caller's data are not modified.",
    ["histories", "inputs", "schedules"],
    "every sequence of batch sizes, every random split, both split modes, every "
    "pattern of the has-enough-samples gate, with and without resets",
    "One test checks the fold sizes after a couple of updates with one seed; "
    "row identity and the non-stable mode are untested.",
    [("splitting", f"{ARMS}:SampleSplittingArm.update"),
     ("k-fold", f"{DATA}:ExpData.k_fold"),
     ("append", f"{DATA}:ExpData.append")],
    ["rows passed to NuisanceParameter.fit and calculate_score"],
    STATELESS,
    "All sequences of batches up to the depth with every permutation drawn by "
    "the split enumerated (small batches) or its canonical representatives.")

prop(
    "C10", "Estimates are cross-fitted: mean and variance of held-out scores",
    "After each update the arm's effect and variance estimates are the mean and "
    "the variance of the scores of the evaluation fold alone, computed by a "
    "nuisance parameter fit on the training fold alone. Until the nuisance "
    "parameter has enough data the arm reports the interval (0, infinity), an "
    "infinite variance and no effect. A nan score is reported as an error, not "
    "as an interval.",
    ["histories", "inputs", "configurations"],
    "every sequence of batches, splits, score values (ties, zeros, nan, "
    "infinite) and gate outcomes, for each interval algorithm",
    "The tests use one real nuisance parameter and compare intervals to loose "
    "numeric expectations; which fold was used for what is not visible to them.",
    [("update", f"{ARMS}:SampleSplittingArm.update")],
    ["arm.var_est", "arm.ate", "arm.ci", "rows seen by fit / calculate_score"],
    STATELESS,
    "All bounded histories on real arms with a recording nuisance parameter "
    "whose scores are enumerated.")

prop(
    "C11", "Confidence intervals follow their documented formulas",
    "The interval an arm reports is the one its chosen method prescribes for the "
    "evaluation scores, the error probability and the update number: the "
    "normal-approximation interval, the chi-squared interval, or the "
    "finite-sample confidence-sequence interval including its nuisance width and "
    "burn-in; the lower end is never negative. An update with an unknown "
    "method or invalid finite-sample parameters is an error.",
    ["inputs", "histories", "configurations"],
    "every score vector over an alphabet, sample size, error probability, round "
    "number, method and parameter setting",
    "Tests check only that intervals shrink or cover on one seed; formulas, "
    "boundaries of burn-in, single units and validation are not covered.",
    [("intervals", f"{ARMS}:SampleSplittingArm.update"),
     ("width of the nuisance error", f"{PAR}:AIPW.calculate_cs_width")],
    ["arm.ci", "ValueError from update"],
    CFG,
    "All score vectors and histories in the bounds on the real arm, compared "
    "with a separately written reference; scipy's quantile functions are "
    "trusted.")

prop(
    "C12", "An arm's counters and error handling are consistent in every history",
    "An arm's number of pulls is the number of successful updates since "
    "construction or reset and its number of units the rows received in them; "
    "the interval returned by an update is the one the arm then shows. "
    "An update of an estimating arm at an error probability outside (0,1) is "
    "rejected and leaves the arm, its name, cost and nuisance parameter exactly "
    "as they were.",
    ["histories", "configurations"],
    "every sequence of successful updates, resets and updates at invalid error probabilities up to a depth, for "
    "every kind of arm",
    "Tests perform a fixed short sequence on one kind of arm; rejected updates "
    "are never followed by further operations.",
    [("base update", f"{ARMS}:VarianceEstimatorArm.update"),
     ("sample splitting", f"{ARMS}:SampleSplittingArm.update"),
     ("bootstrap", f"{ARMS}:BootstrapArm.update")],
    ["arm.num_pulled", "arm.get_num_units()", "arm.ci", "return of update"],
    SEQ,
    "All operation sequences to the depth for every arm kind; the model is a "
    "pair of counters plus the last interval.",
    [("num_pulled, num_units", "life-cycle counters", f"{ARMS}:VarianceEstimatorArm")])

prop(
    "C13", "Bootstrap arms replicate within their fold and report fold estimates",
    "For each replicate a bootstrap arm fits the nuisance parameter on a random "
    "subsample of the training fold and takes the variance of the scores of the "
    "rest of that fold; its interval consists of the order statistics at half "
    "the error probability from each end of the replicate variances. The number of "
    "replicates is the one requested, else four over the error probability rounded "
    "up. The reported effect and variance are those of the evaluation fold's scores "
    "under a fit on the whole training fold; while unfit the arm reports the "
    "interval (0, infinity), an infinite variance and no effect.",
    ["inputs", "histories", "schedules"],
    "every batch sequence, every random split and subsample, replicate count, "
    "score alphabet and gate outcome",
    "The bootstrap arm's test checks only that the interval covers on one seed.",
    [("bootstrap", f"{ARMS}:BootstrapArm.update"),
     ("subsampling", f"{DATA}:ExpData.subsample")],
    ["arm.ci, var_est, ate", "rows seen by fit / calculate_score"],
    STATELESS,
    "All random answers enumerated for small folds. A replicate whose held-out "
    "part is empty has no variance (nan percentile); such executions are "
    "excluded and listed in DESIGN.md.")

# ------------------------------------------------------------ parameters
prop(
    "C14", "AIPW scores are the clipped, doubly robust augmented score",
    "For any response and propensity predictors the augmented inverse-propensity "
    "score of each unit is the difference of predicted responses plus the "
    "inverse-propensity weighted residual of the arm it took, with propensities "
    "clipped to the overlap bounds, regardless of row order or the other units. "
    "Its expectation is the true effect whenever either the response or the "
    "propensity predictions are the true ones. Each predictor is trained on "
    "exactly its own columns.",
    ["inputs", "configurations"],
    "all small discrete models, predictors and datasets over alphabets "
    "(extreme propensities, all-treated data, any column count), exact "
    "expectation over the whole outcome space",
    "Tests check the mean score on one linear model with tolerance; clipping, "
    "double robustness and column use are not isolated.",
    [("training", f"{PAR}:AIPW.fit"), ("features", f"{PAR}:AIPW.transform"),
     ("score", f"{PAR}:AIPW._phi")],
    ["calculate_score()", "arrays passed to the predictors"],
    CFG,
    "All combinations inside the bounds on the real class with predictors "
    "injected; double robustness is checked as an exact finite expectation.")

prop(
    "C15", "No score is computed before there are enough units of each kind",
    "A nuisance parameter says it has enough samples exactly when, since its "
    "construction or last reset, it was given a dataset with at least the required "
    "number of units in each treatment group (for the linear-regression "
    "parameter: any unit at all). Data that fall short never raise an error "
    "and leave earlier scores as they were; until the first adequate fit all scores "
    "are nan (zero for the linear-regression parameter). Data with the wrong number of covariates are rejected.",
    ["inputs", "histories", "configurations"],
    "all small treatment patterns, thresholds, and sequences of fits of "
    "different sizes and resets for each parameter class",
    "Tests never fit on too little or one-sided data.",
    [("gate", f"{PAR}:AIPW.fit"), ("gate", f"{PAR}:FrontDoorLinearFiniteZ.fit"),
     ("gate", f"{PAR}:LinearParameterBinaryTreatment.fit"),
     ("gate", f"{PAR}:AIPW.has_enough_samples")],
    ["has_enough_samples()", "fit()"],
    CFG,
    "Every treatment pattern up to the size bound, on the real classes.")

prop(
    "C16", "Front-door scores follow the documented front-door formula",
    "For any fitted mediator table, response coefficients and treatment model, "
    "each unit's front-door score equals the documented three-term formula "
    "summed over the whole support of the mediator, for mediators of any "
    "dimension, any numeric type of the treatment, and any order of rows. Its "
    "expectation is the true effect whenever the mediator table is the true "
    "one, or both the response and the treatment model are.",
    ["inputs", "configurations"],
    "all small datasets over treatment, mediator and response alphabets, mediator "
    "dimensions, data types and fitted values",
    "One test compares mean scores on one model with a scalar binary mediator.",
    [("score", f"{PAR}:FrontDoorLinearFiniteZ._phi"),
     ("features", f"{PAR}:FrontDoorLinearFiniteZ.transform"),
     ("training", f"{PAR}:FrontDoorLinearFiniteZ.fit")],
    ["calculate_score()"],
    CFG,
    "The oracle is the formula of the class documentation, evaluated separately, "
    "and, for its expectation, the effect computed by intervening on an "
    "enumerated population; overlap bounds and smoothing are then out of reach.")

prop(
    "C17", "The conditional table is a smoothed conditional distribution",
    "After a fit the conditional probability table has, for each observed "
    "conditioning value, the empirical conditional frequencies with those below "
    "the minimum probability (one over the number of support points times the "
    "allowed ratio to uniform, a ratio of at least one) raised to it and the excess taken evenly from the "
    "others, every row being a probability vector over exactly the supports observed in that fit. "
    "Predictions return the tabulated value for each row, zero for values not "
    "in that fit, neither depends on earlier fits nor changes anything.",
    ["inputs", "histories", "configurations"],
    "all small samples over multi-dimensional alphabets, all sequences of fits "
    "and predictions, and the range of ratio parameters",
    "data_test.py fits the table on one small sample.",
    [("fit", f"{DATA}:TabularCPD.fit"), ("predict", f"{DATA}:TabularCPD.predict")],
    ["predict()", "x_support(), z_support(), support_size()", "str()"],
    CFG,
    "All samples within the size bound, on the real class, against a reference "
    "computed with exact fractions.",
    [("table", "conditional probabilities by value", f"{DATA}:TabularCPD")])

prop(
    "C18", "Linear parameters' scores recover the documented linear quantities",
    "The linear-treatment parameter and the linear-regression parameter fit the "
    "(ridge or group-wise) least-squares solution of exactly the data given, and "
    "the score of each unit is the documented function of that solution and of "
    "the unit alone. In the training data of the linear-regression parameter the "
    "mean score is the ridge coefficient of the treatment.",
    ["inputs", "configurations"],
    "all small designs including collinear, one-sided and constant ones, "
    "dimensions and regularisation strengths",
    "Tests use one well-conditioned random design.",
    [("binary treatment", f"{PAR}:LinearParameterBinaryTreatment.fit"),
     ("regression", f"{PAR}:LinearRegressionParameter.fit"),
     ("scores", f"{PAR}:LinearRegressionParameter._phi")],
    ["calculate_score()"],
    CFG,
    "All designs in the bounds against normal equations solved separately.")

prop(
    "C19", "Nuisance confidence widths follow their formula and stay real",
    "The nuisance-error width used by finite-sample intervals is the documented "
    "function of the fitting data, error probability, noise scale and "
    "mixture hyperparameter, computed on the data of the last fit. For any data, "
    "including collinear covariates, it is a positive real number or infinity "
    "(never complex or nan), and it does not grow as the error probability "
    "grows.",
    ["inputs", "configurations"],
    "all small datasets (degenerate ones included), error probabilities, noise "
    "scales and mixture parameters for the AIPW and front-door parameters",
    "No test calls it on more than one dataset.",
    [("AIPW width", f"{PAR}:AIPW.calculate_cs_width"),
     ("front-door width", f"{PAR}:FrontDoorLinearFiniteZ.calculate_cs_width")],
    ["calculate_cs_width()"],
    CFG,
    "All datasets and parameters in the bounds against a reference formula.")

prop(
    "C20", "A refit or reset nuisance parameter remembers nothing",
    "A nuisance parameter's scores and error width depend only on the data of its "
    "last adequate fit: after any history of fits, scorings and resets, one more "
    "adequate fit gives the same scores as a new object fit on the same data (up to "
    "the solver's tolerance where it is warm-started). A reset one behaves as new, "
    "scoring changes nothing, and a unit's score does not depend on the order of "
    "the rows.",
    ["histories", "configurations"],
    "every sequence of fits on different data (also too small ones), scores and "
    "resets, for every parameter class",
    "Tests fit each object once.",
    [("reset", f"{PAR}:AIPW.reset"), ("reset", f"{PAR}:FrontDoorLinearFiniteZ.reset"),
     ("reset", f"{PAR}:LinearRegressionParameter.reset"),
     ("reset", f"{PAR}:LinearParameterBinaryTreatment.reset")],
    ["calculate_score()", "has_enough_samples()"],
    SEQ,
    "All operation sequences to the depth for every class, compared with fresh "
    "objects; scikit-learn estimators are trusted to be deterministic.")

prop(
    "C21", "Telling a parameter the truth makes it the generating model",
    "After a parameter is told the true generator it has enough samples, its "
    "scores are those of the true response and propensity models (propensities "
    "clipped to the overlap bounds), whatever it was fit on or told before, and "
    "a later fit or reset behaves as on a new object. A generator the parameter "
    "cannot express is rejected without any change.",
    ["histories", "configurations", "inputs"],
    "all generators over coefficient alphabets, all preceding histories of fits "
    "and resets, all following ones",
    "Tests call it once on a parameter that has just been fit.",
    [("truth", f"{PAR}:AIPW.set_to_truth"),
     ("truth", f"{PAR}:LinearParameterBinaryTreatment.set_to_truth")],
    ["calculate_score()", "has_enough_samples()"],
    SEQ,
    "All histories to the depth and generators in the bounds.")

# ------------------------------------------------------------------ data
prop(
    "C22", "Datasets split, subsample, append and index without losing alignment",
    "Splitting into folds or subsampling partitions the rows of a dataset, keeps "
    "each unit's covariates, treatment and response together, gives parts of "
    "the documented sizes and draws every partition equally likely. Appending "
    "puts the new rows after the old ones in order, or, when rejected, changes "
    "nothing; indexing selects the same rows of every column. Inconsistent "
    "lengths and arguments are rejected, and no part is changed by later appends.",
    ["inputs", "histories", "schedules"],
    "all sizes, fold counts, fractions, missing columns, random outcomes and "
    "operation sequences up to bounds",
    "data_test.py splits and appends two or three fixed datasets.",
    [("folds", f"{DATA}:ExpData.k_fold"), ("subsample", f"{DATA}:ExpData.subsample"),
     ("append", f"{DATA}:ExpData.append"), ("index", f"{DATA}:ExpData.__getitem__"),
     ("validation", f"{DATA}:ExpData.__init__")],
    ["cov, exp, rsp of results", "len()", "ValueError"],
    LAW,
    "Every permutation answer enumerated on the real class with exact "
    "probabilities; sizes bounded.")

prop(
    "C23", "Covariate selectors pick exactly the requested columns",
    "A covariate selector returns a dataset with exactly the requested covariate "
    "columns in the requested order, and the same treatments and responses, "
    "without changing its input or remembering anything between calls. Selecting "
    "commutes with appending, splitting and slicing.",
    ["inputs", "histories", "configurations"],
    "all small dataset shapes, index sets and boolean masks (also empty, "
    "repeated, negative or array-valued) and call sequences",
    "data_test.py applies each selector once.",
    [("identity", f"{DATA}:get_identity_fn"),
     ("removal", f"{DATA}:get_remove_coordinates_fn"),
     ("mask", f"{DATA}:get_coordinate_mask_fn")],
    ["cov, exp, rsp of the result and of the input"],
    CFG,
    "All masks and index sets up to the width bound.")

# ------------------------------------------------------------------- scm
prop(
    "C24", "A structural model samples each variable once from its own parents",
    "Generating data from a structural model evaluates every variable exactly "
    "once, on the values just generated for its own parents in their declared "
    "order; the dataset's covariates are the declared covariates' columns in "
    "the declared order and its treatment and response are the declared "
    "variables. Inconsistent model declarations are rejected.",
    ["programs", "configurations", "inputs"],
    "every directed acyclic graph on up to four variables, variable orders, "
    "covariate lists, dimensions and sample sizes",
    "No test covers the structural model module at all.",
    [("generate", f"{SCM}:SCM.generate"), ("validation", f"{SCM}:SCM.__init__")],
    ["generated ExpData", "arguments passed to each conditional distribution"],
    CFG,
    "All graphs to four variables with recognisable deterministic equations.")

prop(
    "C25", "The computed treatment effect is the effect of intervening",
    "The treatment effect a structural model reports is the mean response when "
    "the treatment is set to one minus that when it is set to zero, all other "
    "mechanisms unchanged. The model afterwards generates exactly as "
    "before, also when a mechanism raised an error meanwhile.",
    ["programs", "inputs", "fault_sequences"],
    "every directed acyclic graph on up to four variables, choice of treatment and "
    "response, mechanism styles, and every mechanism call as failure point",
    "No test covers interventions.",
    [("do-effect", f"{SCM}:SCM.compute_treatment_effect")],
    ["compute_treatment_effect()", "generate() afterwards"],
    CFG,
    "All graphs to four variables; every single-failure point is injected.")

prop(
    "C26", "Conditional-distribution blocks have exactly their stated laws",
    "Each building block for structural models produces, for every parent value, "
    "exactly its stated conditional law: the mean given by its coefficients or "
    "functions, Gaussian noise of the stated mean and covariance independent "
    "over units, a Bernoulli whose probability is the logistic of its score, or "
    "the selected branch of a categorical switch. Blocks do not modify their "
    "parents' values, and mismatched arguments are rejected.",
    ["inputs", "configurations"],
    "all parent dimensions, numeric types, coefficient shapes, sample sizes and "
    "random outcomes within bounds",
    "No test covers these functions.",
    [("normal", f"{SCM}:normal_cpd"), ("noise", f"{SCM}:add_gaussian_noise"),
     ("transformed normal", f"{SCM}:transformed_normal_cpd"),
     ("structural", f"{SCM}:structural_equation_with_noise"),
     ("logistic", f"{SCM}:logistic_bernoulli_cpd"),
     ("linear logistic", f"{SCM}:logistic_linear_bernoulli_cpd"),
     ("switch", f"{SCM}:categorical_conditioning"),
     ("constant", f"{SCM}:deterministic_cpd")],
    ["returned samples"],
    LAW,
    "Exact laws by enumerating Bernoulli answers and replacing Gaussian draws by "
    "two-point draws of the same mean and covariance; shape of the Gaussian "
    "itself is numpy's.")

prop(
    "C27", "The linear generator draws from the joint law it advertises",
    "The linear data generator draws standard normal covariates, treatments that are "
    "Bernoulli with logistic propensity in the covariates, and responses linear "
    "in treatment and covariates plus exactly the supplied noise, one draw per "
    "unit; its advertised effect and coefficients are those used. Wrongly "
    "shaped coefficients or noise are rejected.",
    ["inputs", "configurations"],
    "all dimensions, coefficient alphabets, sample sizes, noise models and "
    "treatment outcomes within bounds",
    "Tests use the generator as an oracle; its law is never checked.",
    [("generator", f"{DATA}:LinearDataGenerator.generate"),
     ("validation", f"{DATA}:LinearDataGenerator.__init__"),
     ("base", f"{DATA}:DataGenerator.generate")],
    ["generated ExpData", "tau, beta, gamma"],
    LAW,
    "Exact enumeration of treatment draws given the covariates; the default "
    "noise's moments, whose source a refactoring may change, are checked on a "
    "large fixed-seed sample as a secondary test.")

# ------------------------------------------------------------------ paper
prop(
    "C28", "Section 5 experiments build the arms the paper describes",
    "A Section 5 experiment offers exactly the front-door estimator and one "
    "back-door estimator for each choice, per mediator chain, of adjusting for "
    "the upstream or the downstream variable; each arm sees exactly the "
    "columns of its chosen variables, costs the sum of their costs, and is named "
    "after them. Arms use independent nuisance parameters and the requested "
    "interval method and parameters, and the bandits built on them run on data "
    "from the experiment's model.",
    ["configurations", "inputs"],
    "all numbers of chains, variable dimensions, cost vectors and interval "
    "methods within bounds, for both experiments",
    "No test covers the experiment builders; the notebook is run by hand.",
    [("arms", f"{PAPER}:generate_example_from_cpd"),
     ("5.1", f"{PAPER}:get_section_5_1_example"),
     ("5.2", f"{PAPER}:get_section_5_2_example")],
    ["the model and arm list returned", "data reaching each nuisance parameter"],
    CFG,
    "All configurations in the bounds with recognisable constant mechanisms.")

prop(
    "C29", "A seed determines an experiment; random functions are functions",
    "Building a Section 5 experiment twice from the same seed gives "
    "identical models whatever random numbers were drawn in between, and "
    "different seeds different ones. A generated random function returns the "
    "same value for the same point whenever and with whatever other points it is "
    "evaluated, its output components are distinct functions, and it has the "
    "requested dimensions.",
    ["configurations", "histories", "inputs"],
    "all dimensions, seeds and batchings within bounds, all interleavings of "
    "constructions and evaluations",
    "No test covers the random instances.",
    [("5.1 CPDs", f"{PAPER}:get_section_5_1_cpds"),
     ("5.2 CPDs", f"{PAPER}:get_section_5_2_cpds"),
     ("random function", f"{NL}:generate_random_nd_function")],
    ["CPD outputs on fixed parents", "function values"],
    CFG,
    "All bounded configurations and histories; a finite set of seeds.")

prop(
    "C30", "Example models' advertised moments are those of their data",
    "The back-door and front-door example models generate data whose treatment "
    "effect, response variance and conditional probabilities are "
    "exactly those they advertise, for every random instance.",
    ["inputs", "configurations"],
    "all instances from a set of seeds, exact law over all outcomes of small "
    "samples",
    "No test covers the example models.",
    [("back-door", f"{EX}:back_door_scm"), ("front-door", f"{EX}:frontdoor_scm")],
    ["generated ExpData", "the advertised parameter object"],
    LAW,
    "Exact moments by enumeration with Gaussian noise replaced by two-point "
    "noise of equal variance; falls back to a large fixed-seed sample if draws "
    "cannot be enumerated.")

prop(
    "C31", "Plots show what the run recorded",
    "Plotting a bandit run draws, for each requested arm under its own name, the "
    "recorded intervals and estimates of that arm at the recorded cumulative "
    "sample counts, with no point invented or taken from another "
    "arm, and changes neither the record nor the arms.",
    ["inputs", "configurations"],
    "all small records over an interval alphabet (infinite and zero-width ones "
    "included), subsets and orders of arms and numbers of skipped rounds",
    "No test covers plotting.",
    [("bandit plot", f"{PLOT}:plot_bandit_results"),
     ("surface plot", f"{PLOT}:plot_3d_function")],
    ["artists on the matplotlib axes"],
    CFG,
    "All bounded records, read back from the artists of the real matplotlib "
    "axes.")

prop(
    "C32", "Softmax is a stable probability vector",
    "Softmax of any finite vector is, to rounding, the exactly normalised vector "
    "of exponentials, with no overflow for entries of any magnitude; a "
    "two-dimensional array is normalised column by column, and the "
    "input is not changed.",
    ["inputs"],
    "all vectors and matrices over an alphabet from very negative to very large "
    "values up to a length",
    "No test calls it.",
    [("softmax", f"{PAPER}:softmax"), ("softmax", f"{NL}:softmax")],
    ["return value"],
    CFG,
    "All vectors in the bounds against an exactly summed reference.")

prop(
    "C33", "Section 5 models are the paper's, and every estimator is identified",
    "The Section 5 models have the paper's causal graph (each V_i drives the "
    "treatment and Z_i, the treatment drives Z_0, every Z drives the response), "
    "so each offered back-door arm adjusts for a set that satisfies the back-door "
    "criterion and the front-door arm for one that satisfies the front-door "
    "criterion. V_i is standard normal; Z_i, the log-odds of treatment "
    "and the response mean are sums of one term per parent (linear ones in 5.1) "
    "with noise of constant variance; the mediator takes the same at most ten values "
    "under treatment and control. The effect of treatment in 5.1 is not negative.",
    ["configurations", "inputs"],
    "all numbers of chains and variable dimensions within bounds, seeds, parent "
    "values on a grid and every random outcome",
    "No test covers the Section 5 models; an estimator of a different effect "
    "runs without any error.",
    [("5.1 CPDs", f"{PAPER}:get_section_5_1_cpds"),
     ("5.2 CPDs", f"{PAPER}:get_section_5_2_cpds"),
     ("examples", f"{PAPER}:generate_example_from_cpd")],
    ["the model's parents and CPDs", "covariates reaching each nuisance parameter"],
    LAW,
    "Every path of the graph and every random outcome at grid points; Gaussian noise is "
    "replaced by two-point noise of equal moments, so normality itself "
    "is not judged.")

# ------------------------------------------------- end-to-end guarantees
prop(
    "C34", "If every interval holds the truth, the certified arm is near the best",
    "When every interval an arm reports contains its true cost-scaled value "
    "throughout a run, a run that ends by certificate (uniform, LUCB) or with one "
    "surviving arm (successive elimination) returns an arm whose true cost-scaled "
    "value exceeds the smallest by no more than the allowed suboptimality (zero "
    "for successive elimination), and successive elimination never eliminates all "
    "of the truly best arms.",
    ["histories", "configurations", "inputs"],
    "every history of intervals containing the truth, and estimates in them, "
    "over a grid; any number of arms, costs, tolerance",
    "The guarantee concerns every history of intervals; the tests run a few seeds "
    "of one model with equal costs, where the best arm is clear.",
    [("end condition", f"{BAND}:BAIBanditAlgorithm._check_fixed_conf_end_condition"),
     ("elimination", f"{BAND}:SuccessiveEliminationAlgorithm"),
     ("LUCB", f"{BAND}:LUCBAlgorithm"),
     ("uniform", f"{BAND}:UniformAlgorithm")],
    ["run records", "best_arm"],
    STATELESS,
    "All answers of 2-3 arms over 2 rounds, coarser grids beyond; every run of the "
    "real algorithm is judged against the true values.")

prop(
    "C35", "A run without a limit ends once the intervals have become narrow",
    "A run with no sample limit ends: if from its n_i-th update on each arm's interval "
    "contains its true cost-scaled value and is narrower than half the smallest "
    "gap between true values, and no two estimates tie, the uniform and successive elimination "
    "algorithms stop within max n_i rounds and LUCB within 2 + sum of (n_i - 1) "
    "rounds, and the arm returned is the truly best one.",
    ["histories", "configurations", "schedules"],
    "every history of wide intervals before the narrow ones, every n_i and every "
    "tie-break within bounds",
    "Liveness: a test that passes ended on its own seeds; an algorithm that starves "
    "an arm or never re-checks only hangs on other histories.",
    [("LUCB selection", f"{BAND}:LUCBAlgorithm.select_arms"),
     ("elimination", f"{BAND}:SuccessiveEliminationAlgorithm.select_arms"),
     ("end condition", f"{BAND}:BAIBanditAlgorithm._check_fixed_conf_end_condition"),
     ("loop", f"{BAND}:BAIBanditAlgorithm.run")],
    ["rounds until the run ends", "best_arm"],
    STATELESS,
    "2-3 arms with all answers, up to 5 arms with a deviation bound; a run still going "
    "two rounds past its bound is stopped and reported.")

prop(
    "C36", "Algorithms run on one dataset see the same estimates, round for round",
    "On one dataset, what an arm reports after its n-th update does not depend on "
    "the algorithm that sampled it, nor on which other arms were sampled in "
    "between. When each arm's interval only ever shrinks and no two bounds tie, "
    "the uniform algorithm stops after as many rounds as successive elimination "
    "(having used at least as many samples), and all three algorithms return the "
    "same arm.",
    ["histories", "configurations", "schedules"],
    "every table of nested intervals over a grid; every kind of arm, fresh or "
    "shared with a reset, all orders of the three algorithms",
    "The tests run each algorithm alone; a comparison of algorithms on one dataset "
    "(what the package is for) is nowhere tested.",
    [("reset", f"{BAND}:BAIBanditAlgorithm.reset"),
     ("run", f"{BAND}:BAIBanditAlgorithm.run"),
     ("splitting", f"{ARMS}:SampleSplittingArm.update"),
     ("elimination", f"{BAND}:SuccessiveEliminationAlgorithm")],
    ["run records of three algorithms on the same data"],
    STATELESS,
    "All nested tables for 2-3 arms and 2-3 updates, deviation-bounded "
    "beyond; real arms use 24-30 units per round.")

prop(
    "C37", "Objects are independent, and only numpy's seeded stream matters",
    "What an arm, bandit, nuisance parameter, dataset, data generator, SCM or table "
    "reports depends only on the calls made on that object (and on the objects given "
    "to it) and on numpy's seeded global stream: not on other objects that exist, "
    "were used before or are used in between, not on defaults shared between "
    "instances, on the hash seed, the time zone or Python's random module.",
    ["schedules", "histories", "configurations"],
    "interleavings of the steps of two tasks over every class of the package, "
    "every task after a history of another one completed or abandoned, "
    "and in new interpreters",
    "A test builds its own objects once; state hidden in a class, a default "
    "argument or a module only shows when two objects are used together.",
    [("arms", f"{ARMS}:SampleSplittingArm"),
     ("parameters", f"{PAR}:AIPW"),
     ("data", f"{DATA}:ExpData"),
     ("scm", f"{SCM}:SCM"),
     ("functions", f"{NL}:generate_random_nd_function"),
     ("examples", f"{PAPER}:generate_example_from_cpd")],
    ["everything the objects report"],
    "exhaustive exploration of interleavings of operation sequences on the real "
    "objects against each sequence run alone in its own process",
    "Pairs of 70 tasks with at most two switches (all interleavings for tasks of one "
    "kind); histories of one earlier task; two further interpreters.")


prop(
    "C38", "Random functions are draws of the Gaussian process they name",
    "generate_random_nd_function returns a function from (n, dim) points to "
    "(n, out_dim) values whose components are posterior means of independent draws of "
    "the Gaussian process with the given kernel, observed with noise level alpha at "
    "n_points evenly spaced points per axis from min_x to max_x: with a kernel of "
    "fixed hyperparameters, each component is a combination of the kernel columns of "
    "exactly those points with the coefficients' second moments the prior implies. The "
    "value at a point does not depend on which other points are evaluated with it, and "
    "points outside of the range are allowed.",
    ["inputs", "configurations"],
    "ranges, kernels, noise levels, numbers of points, dimensions, component counts and "
    "seeds from alphabets",
    "No test calls it; Section 5.2 instances silently lose their nonlinearity if the "
    "range, the number of points or the noise level is mishandled.",
    [("functions", f"{NL}:generate_random_nd_function")],
    ["values of the returned function"],
    CFG,
    "All combinations in the bounds; kernel expansion test exact, second moments of 200 "
    "seeded components within wide margins.")


prop(
    "C39", "Calls leave alone what they were given and what they returned",
    "No call changes the objects it was given: datasets, covariate, treatment and "
    "response arrays, coefficient vectors and matrices, dimension and index lists, lists "
    "of parents, noise and model outputs, and lists of arms keep their values, order, "
    "shape and number type through fits, scores, splits, selections, draws, plots, arm "
    "updates, whole runs and resets - in every memory layout, and also when the call "
    "fails. (A dataset changes by being the object append is called on; a bandit drives "
    "its arms, and a nuisance parameter the models it was built from.) What a call has "
    "returned - scores, splits, samples, generated datasets, intervals, the history of a "
    "run - is not changed by any later call on the same or another object.",
    ["histories", "inputs", "configurations"],
    "sequences of fits, scores, updates, resets and runs over shared datasets; array "
    "layouts; every public function",
    "The tests build fresh data for each call and never look at it again. All arms read "
    "one dataset, so a write to it by one of them silently corrupts the others, depending "
    "on the order of the calls.",
    [("data", f"{DATA}:ExpData"),
     ("parameters", f"{PAR}:AIPW"),
     ("arms", f"{ARMS}:SampleSplittingArm"),
     ("bandits", f"{BAND}:BAIBanditAlgorithm"),
     ("scm", f"{SCM}:SCM"),
     ("blocks", f"{SCM}:categorical_conditioning")],
    ["values of the inputs and of earlier results"],
    "exhaustive exploration of operation sequences on the real objects with snapshots of "
    "every input and earlier result compared after every step",
    "Sequences to depth 3 (thorough 4), six array layouts, every class and public "
    "function of the library.")


def main():
  with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in ROWS:
      f.write(json.dumps(p) + "\n")
  checks = []
  for p, tech, note in ROWS:
    i = p["id"]
    checks.append(dict(
        property=i,
        quick_cmd=f"/opt/venv/bin/python -m mc.run {i}",
        thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python -m mc.run {i}",
        evidence_file=f"evidence/{i}.json",
        technique=tech, level="model_checking", level_note=note))
  man = dict(
      version=1,
      setup_cmd="/opt/venv/bin/python -c 'import mc.env'",
      checks=checks, not_applicable=[],
      notes="No hooks in /repo: the explorer drives the real code through its "
      "public API and by replacing numpy's random draws at run time.")
  with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


if __name__ == "__main__":
  main()
