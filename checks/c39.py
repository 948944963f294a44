"""Calls leave what they were given, and what they returned earlier, alone."""
import itertools

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
import numpy as np

from mc import arm_world as aw
from mc import bandit_world as bw
from mc import env
from mc import nuisance
from mc.explorer import Harness
from mc.util import require
from sklearn import gaussian_process
from causal_effect_bandits import arms
from causal_effect_bandits import data
from causal_effect_bandits import example_scm
from causal_effect_bandits import nonlinear_utils
from causal_effect_bandits import paper_utils
from causal_effect_bandits import parameters
from causal_effect_bandits import plotting_utils
from causal_effect_bandits import scm

ASSUMPTIONS = []


def snap(x, deep=0):
  """Everything a caller can see of an input or a result."""
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return ("objects", x.shape, [snap(v, deep + 1) for v in x.ravel()])
    return ("array", x.dtype.str, x.shape, x.tobytes())
  if isinstance(x, data.ExpData):
    return ("data", len(x), x.n_units, x.n_features, snap(x.cov), snap(x.exp),
            snap(x.rsp))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, [snap(v, deep + 1) for v in x])
  if isinstance(x, dict):
    return ("dict", [(snap(k), snap(v, deep + 1)) for k, v in x.items()])
  if isinstance(x, arms.VarianceEstimatorArm):
    return ("arm", id(x), x.name, x.cost)
  if isinstance(x, gaussian_process.kernels.Kernel):
    return ("kernel", repr(sorted(x.get_params().items(), key=str)))
  if hasattr(x, "best_arm"):
    return ("history", [snap(getattr(x, f)) for f in (
        "lcb_by_arm", "ucb_by_arm", "var_est_by_arm", "samples_by_arm",
        "cum_samples", "best_arm")])
  if x is None or isinstance(x, (int, float, str, bool, np.generic)):
    return (type(x).__name__, repr(x))
  return ("object", id(x))


def short(s):
  s = str(s)
  return s if len(s) < 300 else s[:300] + "..."


class Watch:
  """Objects whose value must stay what it is now."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.items = []

  def add(self, what, x):
    self.items.append((what, x, snap(x)))
    return x

  def check(self, after):
    for what, x, was in self.items:
      now = snap(x)
      require(self.ctx, now == was,
              lambda what=what, x=x, was=was: f"{what} was changed by {after}: "
              f"it is now {short(x)}")
    self.ctx.step(1)


# Layouts of the arrays that are handed over. `keep` collects whatever the array
# is a view of, so that writes beyond its edges are seen as well.
def lay(a, kind, keep):
  a = np.array(a)
  if kind == "float32":
    return a.astype(np.float32)
  if kind == "int":
    return np.round(a).astype(np.int64)
  if kind == "fortran":
    return np.asfortranarray(a)
  if kind == "view":
    big = np.full((2 * len(a) + 3,) + a.shape[1:], 7, dtype=a.dtype)
    keep.append(big)
    v = big[2:2 + 2 * len(a):2]
    v[...] = a
    return v
  if kind == "reversed":
    big = a[::-1].copy()
    keep.append(big)
    return big[::-1]
  return a


LAYOUTS = ("plain", "float32", "int", "fortran", "view", "reversed")


def dataset(dim, n1, n0, salt, layout, keep):
  d = nuisance.dataset(dim, n1, n0, salt, rich=layout != "int")
  out = data.ExpData(
      *[lay(a, layout if not (i == 1 and layout == "float32") else "int", keep)
        for i, a in enumerate((d.cov, d.exp, d.rsp))])
  return out


# --- single calls -----------------------------------------------------------

def calls():
  """name -> function(lay, keep) -> (function, its inputs)."""
  out = {}

  def reg(f):
    out[f.__name__] = f
    return f

  r = np.random.RandomState(5)
  p1, p2 = r.randn(4, 2) * 3, r.randn(4, 3) * 3
  b1, b2 = np.array([1.0, -2.0]), np.array([3.0, 1.0, -1.0])
  m12, m32 = r.randn(2, 2), r.randn(3, 2)
  cov2 = np.array([[2.0, 1.0], [1.0, 3.0]])

  @reg
  def normal_cpd(L):
    return (lambda *a: scm.normal_cpd(list(a[:2]), list(a[2:4]), 1.0, 2.0),
            [L(p1), L(p2), L(b1), L(b2)])

  @reg
  def normal_cpd_lists(L):
    return (scm.normal_cpd, [[L(p1), L(p2)], [L(b1), L(b2)], 1.0, 2.0])

  @reg
  def normal_cpd_wide(L):
    return (scm.normal_cpd, [[L(p1), L(p2)], [L(m12), L(m32)],
                             L(np.array([1.0, 2.0])), L(cov2)])

  @reg
  def add_gaussian_noise(L):
    return (scm.add_gaussian_noise, [L(p1[:, 0]), 1.0, 2.0])

  @reg
  def add_gaussian_noise_column(L):
    return (scm.add_gaussian_noise, [L(p1[:, :1]), L(np.array([1.0])), 2.0])

  @reg
  def add_gaussian_noise_wide(L):
    return (scm.add_gaussian_noise, [L(p1), L(np.array([1.0, 2.0])), L(cov2)])

  @reg
  def transformed_normal_cpd(L):
    return (scm.transformed_normal_cpd,
            [[L(p1), L(p2)], [L(b1), L(b2)], [np.tanh, lambda v: v], 0.0, 1.0])

  @reg
  def transformed_normal_cpd_wide(L):
    return (scm.transformed_normal_cpd,
            [[L(p1), L(p2)], [L(m12), L(m32)], [lambda v: v, np.tanh],
             L(np.array([0.0, 5.0])), L(cov2)])

  @reg
  def structural_equation(L):
    return (scm.structural_equation_with_noise,
            [[L(p1), L(p2)], lambda v: v[:, 0], 0.0, 1.0])

  @reg
  def structural_equation_wide(L):
    return (scm.structural_equation_with_noise,
            [[L(p1)], lambda v: v, L(np.array([4.0, 5.0])), L(cov2)])

  @reg
  def logistic_bernoulli(L):
    params = L(p1[:, 0])
    return (lambda ps, out: scm.logistic_bernoulli_cpd(ps, lambda q: out),
            [[L(p1), L(p2)], params])

  @reg
  def logistic_linear(L):
    return (scm.logistic_linear_bernoulli_cpd,
            [[L(p1), L(p2)], [L(b1), L(b2)]])

  def conditioning(idx):
    def f(L):
      ps = [L(p1), L(p2)]
      ps.insert(idx, L(np.array([0.0, 1.0, 1.0, 0.0])))
      return (scm.categorical_conditioning,
              [ps, idx, [lambda n, q: np.zeros(n), lambda n, q: q[0][:n]]])
    f.__name__ = f"categorical_conditioning_{idx}"
    return f
  for i in range(3):
    reg(conditioning(i))

  @reg
  def deterministic(L):
    return (scm.deterministic_cpd, [3, L(np.array([2.0, 2.0, 2.0]))])

  for mod in (nonlinear_utils, paper_utils):
    def soft(L, mod=mod):
      return (mod.softmax, [L(p1[:, 0])])
    soft.__name__ = "softmax_" + mod.__name__.split(".")[-1]
    reg(soft)

  def selector(make, arg, name):
    def f(L):
      a = arg(L)

      def use(a, cov, exp, rsp):
        fn = make(a) if a is not None else make()
        d = data.ExpData(cov, exp, rsp)
        was = snap(d)
        res = fn(d), fn(d)
        if snap(d) != was:
          raise Changed("the dataset")
        return res
      return use, [a, L(p2), L(np.array([0, 1, 1, 0])), L(p1[:, 0])]
    f.__name__ = name
    return reg(f)

  selector(data.get_identity_fn, lambda L: None, "identity")
  for i in (0, 1, -1):
    selector(data.get_remove_coordinates_fn, lambda L, i=i: i, f"remove_{i}")
  for idx in ([0], [2, 0], [1, 1, 2], []):
    selector(data.get_coordinate_mask_fn, lambda L, idx=idx: list(idx),
             f"mask_{idx}")

  @reg
  def random_function(L):
    def use(kernel, x):
      f = nonlinear_utils.generate_random_nd_function(
          2, 2, kernel=kernel, n_points=3, seed=1, alpha=0.5)
      return f(x), f(x)
    return use, [gaussian_process.kernels.RBF(0.7), L(p1)]

  @reg
  def tabular(L):
    def use(x, z, q):
      t = data.TabularCPD(3)
      t.fit(x, z)
      first = t.predict(q, z)
      t.fit(x[:3], z[:3])
      return first, t.x_support(), t.z_support(), t.predict(q, z)
    return use, [L(np.array([0.0, 1.0, 2.0, 0.0])),
                 L(np.array([[1.0, 3.0], [2.0, 0.0], [1.0, 3.0], [0.0, 0.0]])),
                 L(np.array([2.0, 1.0, 0.0, 0.0]))]

  @reg
  def linear_generator(L):
    def use(beta, gamma, noise):
      g = data.LinearDataGenerator("g", 2, beta, 2.0, lambda n: noise, gamma)
      return [g.generate(4), g.tau, np.array(g.beta), np.array(g.gamma),
              g.generate(4)]
    return use, [L(b1), L(b1 / 2), L(p1[:, 0])]

  def truth(kind):
    def f(L):
      def use(beta, gamma, cov, exp, rsp):
        g = data.LinearDataGenerator("g", 2, beta, 2.0, np.random.randn, gamma)
        p = nuisance.make(kind, 2)
        p.set_to_truth(g)
        return p.calculate_score(data.ExpData(cov, exp, rsp)), p.reset()
      return use, [L(b1), L(b1 / 2), L(p1), L(np.array([0, 1, 1, 0])),
                   L(p2[:, 0])]
    f.__name__ = "truth_" + kind
    return f
  for kind in ("aipw-linear", "linear-binary"):
    reg(truth(kind))

  @reg
  def known_models(L):
    class Known:
      """A model that hands out its own arrays."""

      def __init__(self, mu, prob):
        self.mu, self.prob = mu, prob

      def fit(self, x, y):
        pass

      def predict(self, x):
        return self.mu

      def predict_proba(self, x):
        return self.prob

    def use(mu, prob, cov, exp, rsp):
      p = parameters.AIPW(2, Known(mu, prob), Known(mu, prob), min_units=1)
      p.fit(data.ExpData(cov, exp, rsp))
      d = data.ExpData(cov, exp, rsp)
      return p.calculate_score(d), p.calculate_score(d)
    return use, [L(p2[:, 1]), L(np.array([[0.99, 0.01], [0.5, 0.5], [0.0, 1.0],
                                          [0.7, 0.3]])), L(p1),
                 L(np.array([0, 1, 1, 0])), L(p2[:, 0])]

  for name in ("get_section_5_1_example", "get_section_5_2_example"):
    def paper(L, name=name):
      def use(z_dim, v_dim):
        gen, arm_list, *algs = getattr(paper_utils, name)(
            z_dim, v_dim, 3, 1.0, 2.0, 3.0, 2, 60, 20)
        d = gen.generate(40)
        w = snap(d), snap(arm_list)
        r = algs[0].run(d)
        if (snap(d), snap(arm_list)) != w:
          raise Changed("the dataset or the list of arms")
        return r
      # the dimensions are documented as lists
      return use, [[1, 2, 1], [0, 1, 2]]
    paper.__name__ = name
    reg(paper)

  @reg
  def structural_model(L):
    parents = {"A": [], "X": ["A"], "Y": ["X", "A"]}
    a, x = L(p1), L(np.array([0, 1, 1, 0]))
    y = L(p2[:, 0])
    cpds = {"A": lambda n, q: a, "X": lambda n, q: x, "Y": lambda n, q: y}

    def use(names, parents, cpds, cov, *drawn):
      m = scm.SCM("m", names, parents, cpds, cov, "X", "Y")
      return m.generate(4), m.compute_treatment_effect(4), m.generate(4)
    return use, [["A", "X", "Y"], parents, cpds, ["A", "Y"], a, x, y]

  @reg
  def plot(L):
    arm_list = [arms.VarianceEstimatorArm(n, None, None) for n in "ab"]

    def use(arm_list, low, up, est, cum, best):
      from causal_effect_bandits import bandits  # pylint: disable=g-import-not-at-top
      h = bandits.BanditData(low, up, est, {a: [1, 1] for a in arm_list}, cum,
                             best)
      for skip in (0, 1, 2):
        plotting_utils.plot_bandit_results(plt.figure().add_subplot(), arm_list,
                                           h, skip)
      plt.close("all")
    return use, [arm_list, {a: [-1.0, 0.5] for a in arm_list},
                 {a: [np.inf, 4.0] for a in arm_list},
                 {a: [2.0, np.inf] for a in arm_list}, [2, 4], arm_list[:1]]

  return out


class Changed(Exception):
  """An intermediate object of a call was changed by it."""


CALLS = calls()


def single(ctx, cfg):
  """One call, twice, on arrays of one layout."""
  keep = []
  fn, args = CALLS[cfg["call"]](lambda a: lay(a, cfg["layout"], keep))
  w = Watch(ctx)
  for i, a in enumerate(args):
    w.add(f"argument {i} of {cfg['call']} ({cfg['layout']} arrays)", a)
  for k in keep:
    w.add(f"memory around an argument of {cfg['call']}", k)
  for t in range(2):
    np.random.seed((env.SEED * 77 + t) % 2**32)
    try:
      res = fn(*args)
    except Changed as e:
      require(ctx, False, f"{e} was changed by {cfg['call']}")
    w.check(f"call {t + 1} of {cfg['call']}")
    w.add(f"the result of call {t + 1} of {cfg['call']}", res)
    ctx.state(cfg["call"], cfg["layout"], t)
  w.check("inspection")
  ctx.outcome(cfg["call"])


# --- histories of one object ------------------------------------------------

def attempt(fn, *args):
  """A call that fails must not change anything either."""
  try:
    return fn(*args)
  except Exception as e:  # pylint: disable=broad-except
    return f"{type(e).__name__}"


def parameter(ctx, cfg):
  """Fits, scores and resets of one nuisance parameter."""
  w, keep = Watch(ctx), []
  dim = cfg["dim"]
  sets = {k: w.add(f"dataset {k}", dataset(dim, n1, n0, s, cfg["layout"], keep))
          for k, n1, n0, s in (("A", 5, 5, 0), ("B", 4, 6, 3), ("C", 1, 2, 1))}
  for k in keep:
    w.add("memory around a dataset", k)
  p = nuisance.make(cfg["kind"], dim)
  done = []
  for t in range(cfg["depth"]):
    op = cfg["first"] if t == 0 else OPS[ctx.choose(len(OPS), label="op")]
    done.append(op)
    np.random.seed((env.SEED * 7 + t) % 2**32)
    res = None
    if op.startswith("fit"):
      attempt(p.fit, sets[op[-1]])
    elif op.startswith("score"):
      res = attempt(p.calculate_score, sets[op[-1]])
    elif op == "transform":
      res = attempt(p.transform, sets["A"])
    elif op == "width":
      res = attempt(p.calculate_cs_width, 0.1, 0.5, 0.2)
    else:
      p.reset()
    w.check(f"{op} after {done[:-1]} ({cfg['kind']}, {cfg['layout']} arrays)")
    if res is not None:
      w.add(f"the result of {op} after {done[:-1]} ({cfg['kind']})", res)
    ctx.state(cfg["kind"], cfg["layout"], dim, done)
  ctx.outcome(cfg["kind"], done[0])


OPS = ("fit A", "fit B", "fit C", "score A", "score B", "transform", "width",
       "reset")


def arm(ctx, cfg):
  """Updates and resets of one real arm reading views of one dataset."""
  w, keep = Watch(ctx), []
  whole = w.add("the dataset", dataset(2, 20, 22, 0, cfg["layout"], keep))
  for k in keep:
    w.add("memory around the dataset", k)
  idx = [1, 0]
  w.add("the index list of the selector", idx)
  sel = {"identity": data.get_identity_fn(),
         "mask": data.get_coordinate_mask_fn(idx)}[cfg["sel"]]
  if cfg["ci"] == "boot":
    a = arms.BootstrapArm("a", nuisance.make(cfg["kind"], 2), sel,
                          n_bootstraps=2, stable_splits=cfg["stable"])
  else:
    a = arms.SampleSplittingArm(
        "a", nuisance.make(cfg["kind"], 2), sel, ci_algorithm=aw.CI[cfg["ci"]],
        stable_splits=cfg["stable"], burn_in=2)
  at, done = 0, []
  for t in range(cfg["depth"]):
    op = ("whole", "next", "same", "reset")[ctx.choose(4, label="op")]
    done.append(op)
    np.random.seed((env.SEED * 7 + t) % 2**32)
    res = None
    if op == "reset":
      a.reset()
    else:
      if op == "whole":
        batch = whole
      elif op == "next" or at == 0:
        batch = w.add(f"batch {t}", whole[at:at + 10])
        at += 10
      else:
        batch = w.add(f"batch {t}", whole[at - 10:at])
      res = attempt(a.update, batch, 0.1)
    w.check(f"{op} after {done[:-1]} ({cfg['kind']}, {cfg['ci']} arm)")
    w.add(f"what {op} returned", res)
    ctx.state(cfg["kind"], cfg["ci"], cfg["stable"], cfg["sel"], done)
  ctx.outcome(cfg["kind"], cfg["ci"])


class Gen(data.DataGenerator):

  def generate(self, n):
    raise AssertionError("the run was given its data")


def bandit(ctx, cfg):
  """Runs and resets of several bandits over one list of arms, one dataset."""
  w, keep = Watch(ctx), []
  whole = w.add("the dataset", dataset(2, 40, 40, 0, cfg["layout"], keep))
  for k in keep:
    w.add("memory around the dataset", k)
  arm_list = [
      arms.SampleSplittingArm(
          f"a{i}", nuisance.make(k, 2), data.get_identity_fn(),
          ci_algorithm=aw.CI["clt"], cost=1.0 + i)
      for i, k in enumerate(cfg["kinds"])]
  w.add("the list of arms", arm_list)
  kw = dict(sample_limit=cfg["limit"], units_per_round=8, error_prob=0.4)
  if cfg["order"]:
    arm_list.reverse()
    w.items[-1] = ("the list of arms", arm_list, snap(arm_list))
  done = []
  for t in range(cfg["depth"]):
    alg = ("uniform", "lucb", "se")[ctx.choose(3, label="algorithm")]
    b = bw.ALGS[alg](arm_list, Gen("none"), **kw)
    b.reset()
    done.append(alg)
    np.random.seed((env.SEED * 7 + t) % 2**32)
    res = attempt(b.run, whole)
    w.check(f"a run of {alg} after {done[:-1]}")
    w.add(f"the history of run {t} ({alg})", res)
    b.reset()
    w.check(f"the reset after {done}")
    ctx.state(cfg["kinds"], cfg["limit"], cfg["layout"], done)
  ctx.outcome(cfg["kinds"], cfg["limit"])


def parts(ctx, cfg):
  """Splits, samples, pieces and appends of datasets derived from each other."""
  w, keep = Watch(ctx), []
  base = dataset(2, 3, 3, 0, cfg["layout"], keep)
  other = w.add("the appended dataset", dataset(2, 2, 1, 1, cfg["layout"], keep))
  for k in keep:
    w.add("memory around a dataset", k)
  live = [base]
  w.add("the dataset", base)
  done = []
  for t in range(cfg["depth"]):
    target = live[ctx.choose(min(len(live), 3), label="which")]
    op = ("fold", "sample", "slice", "mask", "select", "append",
          "print")[ctx.choose(7, label="op")]
    done.append(op)
    np.random.seed((env.SEED * 7 + t) % 2**32)
    new = []
    if op == "fold":
      new = target.k_fold(2)
    elif op == "sample":
      new = list(target.subsample(0.5))
    elif op == "slice":
      new = [target[:], target[1:3]]
    elif op == "mask":
      new = [target[np.arange(len(target)) % 2 == 0]]
    elif op == "select":
      new = [data.get_identity_fn()(target),
             data.get_coordinate_mask_fn([1, 0])(target)]
    elif op == "print":
      str(target)
    else:
      # append is documented to change its object, and only that one
      w.items = [i for i in w.items if i[1] is not target]
      target.append(other)
    w.check(f"{op} after {done[:-1]}")
    if op == "append":
      w.add("an appended dataset", target)
    for d in new:
      if all(d is not o for o in live):
        w.add(f"a piece from {op} in step {t}", d)
        live.insert(1, d)
    ctx.state(cfg["layout"], done, [len(d) for d in live])
  ctx.outcome(done[0])


def harnesses(tier):
  big = tier == "thorough"
  singles = [dict(call=c, layout=l) for c in CALLS for l in LAYOUTS]
  slow = ("aipw-boosting", "aipw-kernel")
  params = []
  for kind in nuisance.KINDS:
    for layout in LAYOUTS:
      if not (kind == "linear-regression" or layout == "plain" or
              kind != "aipw-boosting" or big):
        continue
      depth = 4 if big and kind not in slow else 3
      for op in OPS:
        for dim in (1, 2) if layout == "plain" or big else (2,):
          params.append(dict(kind=kind, layout=layout, depth=depth, dim=dim,
                             first=op))
  arm_cfgs = []
  for kind in ("aipw-linear", "aipw-tree", "frontdoor", "linear-binary",
               "linear-regression"):
    for ci in ("clt", "chi2", "boot") + (
        ("finite",) if kind.startswith(("aipw", "front")) else ()):
      for stable in (True, False):
        for sel in ("identity", "mask"):
          for layout in ("plain", "view") + (("fortran", "int") if big else ()):
            if layout == "plain" or kind == "aipw-linear" or big:
              arm_cfgs.append(dict(kind=kind, ci=ci, stable=stable, sel=sel,
                                   layout=layout, depth=4 if big else 3))
  bandits_cfgs = [
      dict(kinds=k, limit=l, order=o, layout=lay_, depth=3 if big else 2)
      for k in (("linear-binary", "aipw-linear"),
                ("linear-regression", "frontdoor", "linear-binary"))
      for l in (10, 40, 100) for o in (False, True) for lay_ in LAYOUTS]
  return [
      Harness("calls", single, singles,
              rule="every function x every memory layout of its arrays, called "
              "twice"),
      Harness("parameters", parameter, params,
              rule="every sequence of fits, scores, widths and resets on three "
              "datasets up to the depth, every class and layout"),
      Harness("arms", arm, arm_cfgs,
              rule="every sequence of updates (new rows, the same rows, all rows) "
              "and resets up to the depth"),
      Harness("bandits", bandit, bandits_cfgs,
              rule="every sequence of algorithms over one list of arms and one "
              "dataset"),
      Harness("datasets", parts,
              [dict(layout=l, depth=4 if big else 3) for l in LAYOUTS],
              rule="every sequence of operations on a dataset and its pieces"),
  ]
