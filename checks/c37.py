"""Objects are independent: no hidden state is shared, only numpy's stream."""
import hashlib
import itertools
import json
import multiprocessing
import os
import random as pyrandom
import subprocess
import sys
import traceback

import numpy as np

from mc import arm_world as aw
from mc import bandit_world as bw
from mc import env
from mc import nuisance
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import arms
from causal_effect_bandits import bandits
from causal_effect_bandits import data
from causal_effect_bandits import example_scm
from causal_effect_bandits import nonlinear_utils
from causal_effect_bandits import paper_utils
from causal_effect_bandits import parameters
from causal_effect_bandits import scm

ASSUMPTIONS = []

# A task builds its own objects and uses them; it yields what it observed
# between its steps. Before each step numpy's global generator is seeded as a
# function of the task and the step, so that nothing but hidden shared state
# can make it depend on what other tasks do in between.


def of(d):
  return [np.asarray(d.cov), np.asarray(d.exp), np.asarray(d.rsp)]


def simple(n, salt, dim=1):
  r = np.random.RandomState(1000 * salt + n + dim)
  z = r.randint(0, 2, (n, dim)) * 1.0
  x = np.arange(n) % 2
  r.shuffle(x)
  return data.ExpData(z, x, z.sum(1) + (1 + salt) * x + r.randn(n))


def t_param(kind, v):
  p = nuisance.make(kind, 1 + v)
  yield [p.has_enough_samples()]
  p.fit(simple(14 + 4 * v, v, 1 + v))
  yield [p.has_enough_samples(), p.calculate_score(simple(6, 3, 1 + v))]
  p.fit(simple(20, v + 5, 1 + v))
  p.fit(simple(12, v + 2, 1 + v))
  yield [p.calculate_score(simple(6, 3, 1 + v)), width(p)]
  p.reset()
  yield [p.has_enough_samples(), p.calculate_score(simple(4, 1, 1 + v))]


def width(p):
  try:
    return p.calculate_cs_width(0.1, 0.5, 0.2)
  except NotImplementedError:
    return "none"


def default_parameter(kind, dim):
  return {
      "aipw": lambda: parameters.AIPW(dim, *default_models()),
      "aipw-linear": lambda: parameters.AIPWLinearLogistic(n_features=dim),
      "aipw-kernel": lambda: parameters.AIPWKernelRidgeLogistic(dim),
      "aipw-boosting": lambda: parameters.AIPWKernelGradientBoosting(dim),
      "frontdoor": lambda: parameters.FrontDoorLinearFiniteZ(dim),
      "linear-binary": lambda: parameters.LinearParameterBinaryTreatment(dim),
      "linear-regression": lambda: parameters.LinearRegressionParameter(dim),
  }[kind]()


def default_models():
  from sklearn import linear_model  # pylint: disable=g-import-not-at-top
  return linear_model.Ridge(), linear_model.LogisticRegression()


def t_defaults(kind, v):
  """Constructed with every default."""
  p = default_parameter(kind, 1)
  yield [p.has_enough_samples()]
  p.fit(simple(60 + 10 * v, v))
  yield [p.has_enough_samples()]
  yield [p.calculate_score(simple(5, 2))]


def t_arm(kind, v):
  sel = data.get_coordinate_mask_fn([v])
  if kind == "boot":
    a = arms.BootstrapArm(f"b{v}", nuisance.make("linear-binary", 1), sel,
                          n_bootstraps=2 + v)
  else:
    ci, split = kind.split("-")
    a = arms.SampleSplittingArm(
        f"a{v}", nuisance.make("aipw-linear", 1), sel, ci_algorithm=aw.CI[ci],
        cost=1.0 + v, stable_splits=split == "stable", burn_in=2 + 3 * v,
        sub_gscale=1.0 + v, eta_sub_gscale=0.5 + v, tau_bound=1.0 + v,
        rho=0.1 * (v + 1))
  look = lambda: [a.ci, a.var_est, a.ate, a.num_pulled, a.get_num_units(),
                  a.name, a.cost]
  yield look()
  a.update(simple(20 + 4 * v, v, 2), 0.1 * (v + 1))
  yield look()
  a.update(simple(30, v + 1, 2), 0.1)
  yield look()
  a.reset()
  yield look()


def t_run(alg, v):
  gen = example_scm.back_door_scm()[0]
  arm_list = [
      arms.SampleSplittingArm(
          f"r{i}", nuisance.make("linear-binary", 1),
          data.get_identity_fn() if v else data.get_coordinate_mask_fn([0]),
          ci_algorithm=arms.CIAlgorithm.CLT, cost=1.0 + i * (1 + v))
      for i in range(2 + v)]
  b = bw.ALGS[alg](arm_list, gen, error_prob=0.1 + 0.1 * v, sample_limit=99,
                   units_per_round=20 + 2 * v)
  yield [b.error_prob]
  for _ in range(2):
    r = b.run(gen.generate(200) if v else None)
    out = [r.cum_samples, [a.name for a in r.best_arm]]
    for a in arm_list:
      out += [r.lcb_by_arm[a], r.ucb_by_arm[a], r.var_est_by_arm[a],
              r.samples_by_arm[a]]
    yield out
    b.reset()


def t_defaults_run(alg, v):
  cls = bw.ALGS[alg]
  a = [bw.arms.SampleSplittingArm(f"d{i}", parameters.AIPWLinearLogistic(1),
                                  data.get_identity_fn(),
                                  arms.CIAlgorithm.CLT) for i in range(2)]
  b = cls(a, data.LinearDataGenerator("lin", 1, np.array([1.0 + v]), 1.0),
          confidence=0.1)
  yield [b.error_prob, b.error_tol, b.confidence, b.sample_limit,
         b.units_per_round]
  yield [x.ci for x in a]


def t_data(kind, v):
  del kind
  d = simple(6 + v, v, 2)
  parts = d.k_fold(2 + v)
  yield [of(p) for p in parts]
  a, b = d.subsample(0.5)
  yield [of(a), of(b)]
  a.append(simple(3, 4, 2))
  parts[0].append(parts[1])
  yield [of(a), of(b), of(d), [of(p) for p in parts]]


def t_selectors(kind, v):
  del kind
  d = simple(4, v, 3)
  fns = [data.get_identity_fn(), data.get_remove_coordinates_fn(v),
         data.get_coordinate_mask_fn([2 - v, v])]
  yield [of(f(d)) for f in fns]
  yield [of(f(simple(3, v + 1, 3))) for f in fns]


def t_cpt(kind, v):
  del kind
  t = data.TabularCPD(1.5 + v)
  x = np.arange(8) % (2 + v)
  z = np.array([[i // (1 + v) % 3, i % 2] for i in range(8)])
  t.fit(x, z)
  q = [np.arange(4) % 3, np.array([[i % 3, i // 2 % 2] for i in range(4)])]
  yield [t.predict(*q)]
  t.fit(x[:5], z[:5] + v)
  yield [t.predict(*q)]
  yield [t.predict(q[0], q[1] + v)]


def t_linear(kind, v):
  del kind
  g = data.LinearDataGenerator(
      "g", 1 + v, np.arange(1.0, 2 + v), 0.5 + v,
      **(dict(gamma=np.ones(1 + v)) if v else {}))
  yield [g.tau, g.beta, g.gamma]
  yield of(g.generate(3))
  yield of(g.generate(2 + v))


def t_scm(kind, v):
  del kind
  parents = {"A": [], "X": ["A"], "Y": ["X", "A"]}
  cpds = {
      "A": lambda n, p: np.random.randn(n, 1 + v),
      "X": lambda n, p: scm.logistic_linear_bernoulli_cpd(p, [np.ones(1 + v)]),
      "Y": lambda n, p: scm.normal_cpd(
          [p[0][:, None], p[1]], [np.array([2.0 + v]), np.ones(1 + v)], v, 1.0),
  }
  m = scm.SCM("m", list("AXY"), parents, cpds, ["A"], "X", "Y")
  yield of(m.generate(4))
  yield [m.compute_treatment_effect(6)]
  yield of(m.generate(3)) + [sorted(parents), sorted(cpds)]


def t_blocks(kind, v):
  del kind
  p = [np.ones((3, 2)) * (1 + v), np.arange(3)[:, None] * 1.0]
  b = [np.array([1.0, 2.0]), np.array([1.0 + v])]
  yield [scm.normal_cpd(p, b, 0.0, 1.0 + v),
         scm.add_gaussian_noise(np.arange(3.0), 1.0, 2.0)]
  yield [scm.transformed_normal_cpd(p, b, [np.sin, np.cos], 0.0, 1.0),
         scm.logistic_bernoulli_cpd(p, lambda q: q[0].sum(1) - 2 - v)]
  yield [scm.structural_equation_with_noise(
      p, lambda q: q[:, :2] * (2 + v), np.zeros(2), np.eye(2)),
         scm.categorical_conditioning(
             [np.array([0, 1, 1])] + p, 0,
             [lambda n, q: np.zeros(n) + v, lambda n, q: q[0][:n]])]


def t_example(kind, v):
  del v
  out = getattr(example_scm, kind)()
  gen, rest = out[0], out[1:]
  yield [[np.asarray(x) for x in rest if np.isscalar(x)], of(gen.generate(5))]
  yield of(gen.generate(4)) + [gen.compute_treatment_effect(20)]


def t_paper(kind, v):
  m = 1 + v
  build = getattr(paper_utils, kind)
  gen, arm_list, *algs = build([1] * (m + 1), [0] + [1] * m, 3 + v, 1.0 + v,
                               2.0, 3.0, m, 100 + v, 10 + v, bool(v))
  yield [[a.name for a in arm_list], [a.cost for a in arm_list]]
  d = gen.generate(30)
  yield of(d)
  yield [[a.update(d, 0.1), a.ate, a.var_est] for a in arm_list[:2]] + [
      [b.sample_limit, b.units_per_round, b.error_prob] for b in algs]


def t_function(kind, v):
  f = nonlinear_utils.generate_random_nd_function(
      1, 1 + v, seed=None if kind == "none" else 4 + v, n_points=5)
  q = np.linspace(-1, 1, 4)[:, None]
  yield [f(q)]
  yield [f(q[1:] + v), f(q)]


TASKS = (
    [(t_param, k) for k in nuisance.KINDS] +
    [(t_defaults, k) for k in ("aipw-linear", "aipw-kernel", "aipw-boosting",
                               "frontdoor", "linear-binary",
                               "linear-regression")] +
    [(t_arm, k) for k in ("clt-stable", "chi2-resplit", "finite-stable",
                          "boot")] +
    [(t_run, k) for k in ("uniform", "lucb", "se")] +
    [(t_defaults_run, k) for k in ("uniform", "lucb", "se")] +
    [(t, "") for t in (t_data, t_selectors, t_cpt, t_linear, t_scm, t_blocks)] +
    [(t_example, k) for k in ("back_door_scm", "frontdoor_scm")] +
    [(t_paper, k) for k in ("get_section_5_1_example",
                            "get_section_5_2_example")] +
    [(t_function, k) for k in ("seed", "none")])

FULL = [(t, k, v) for t, k in TASKS for v in (0, 1)]


def label(task):
  return f"{task[0].__name__[2:]}:{task[1]}:{task[2]}"


def canon(x):
  if isinstance(x, np.ndarray) and x.dtype != object:
    return (x.shape, [repr(v) for v in x.ravel().tolist()])
  if isinstance(x, (list, tuple)):
    return [canon(v) for v in x]
  if isinstance(x, np.generic):
    return repr(x.item())
  return repr(x)


class Runner:

  def __init__(self, task, who=0):
    self.task = task
    self.gen = task[0](task[1], task[2])
    self.seen = []
    self.done = False
    self.salt = int(hashlib.md5(label(task).encode()).hexdigest()[:6], 16)

  def step(self):
    np.random.seed((env.SEED * 31337 + self.salt * 17 + len(self.seen)) % 2**32)
    try:
      self.seen.append(canon(next(self.gen)))
    except StopIteration:
      self.done = True


_alone = {}


def solo(task):
  r = Runner(task)
  while not r.done:
    r.step()
  return r.seen


def alone(task):
  return _alone[label(task)]


def pristine(tasks):
  """What each task observes in a process that has run nothing else."""
  procs = []
  mp = multiprocessing.get_context("fork")
  todo = list(tasks)[::-1]

  def job(conn, task):
    sys.stdout = open(os.devnull, "w")
    try:
      conn.send((True, solo(task)))
    except Exception:  # pylint: disable=broad-except
      conn.send((False, traceback.format_exc()[-600:]))
    os._exit(0)

  while todo or procs:
    while todo and len(procs) < 8:
      t = todo.pop()
      ours, theirs = mp.Pipe()
      p = mp.Process(target=job, args=(theirs, t), daemon=True)
      p.start()
      theirs.close()
      procs.append((p, ours, t))
    p, conn, t = procs.pop(0)
    ok, out = conn.recv()
    p.join()
    _alone[label(t)] = out if ok else [out]


def process(ctx, cfg):
  """The same tasks in a new interpreter with another hash seed."""
  code = ("import sys, json\nfrom checks import c37\n"
          "out = {c37.label(t): c37.solo(t) for t in c37.FULL}\n"
          "print('\\nRESULT ' + json.dumps(out))\n")
  e = dict(os.environ, PYTHONHASHSEED=str(cfg["hash"]), TZ=cfg["tz"])
  r = subprocess.run([sys.executable, "-c", code], cwd=env.VERIF, env=e,
                     capture_output=True, text=True)
  require(ctx, "RESULT " in r.stdout,
          lambda: f"a task fails in a process of its own: {r.stderr[-800:]}")
  out = json.loads(r.stdout.split("RESULT ", 1)[1])
  for t in FULL:
    got, want = out[label(t)], json.loads(json.dumps(alone(t)))
    require(ctx, got == want,
            lambda: f"{label(t)} gives {str(got)[:400]} in another process "
            f"(hash seed {cfg['hash']}) and {str(want)[:400]} in this one")
    ctx.state(label(t), cfg["hash"])
  ctx.outcome(len(out))


def compare(ctx, r, how):
  want = alone(r.task)
  for t, (a, b) in enumerate(zip(r.seen, want)):
    require(ctx, a == b,
            lambda: f"step {t + 1} of {label(r.task)} gives {str(a)[:300]} "
            f"{how}, and {str(b)[:300]} when nothing else runs")


def interleave(ctx, cfg):
  """Two tasks, every interleaving of their steps."""
  rs = [Runner(t) for t in cfg["tasks"]]
  sched = []
  while not all(r.done for r in rs):
    live = [i for i, r in enumerate(rs) if not r.done]
    i = live[0]
    if len(live) == 2:
      # going on with the same task is the default; a switch is a deviation
      last = sched[-1] if sched else 0
      i = last if ctx.choose(2, cfg["dev"], "switch") == 0 else 1 - last
    sched.append(i)
    rs[i].step()
    ctx.state([(label(r.task), len(r.seen), r.done) for r in rs])
  ctx.note(("".join(map(str, sched)), [label(t) for t in cfg["tasks"]]))
  for i, r in enumerate(rs):
    compare(ctx, r, f"interleaved {sched} with {label(rs[1 - i].task)}")
  ctx.outcome(*[str(r.seen)[:2000] for r in rs])


def after(ctx, cfg):
  """A task after a history of other tasks, some abandoned half-way."""
  np.random.seed(env.SEED)
  hist = []
  for t in cfg["before"]:
    r = Runner(t)
    # 0: completed
    stop = ctx.choose(3, label="abandoned") if cfg["cut"] else 0
    n = 0
    while not r.done and (stop == 0 or n < stop):
      r.step()
      n += 1
    hist.append(r)
  pyrandom.seed(99)
  np.random.seed(12345)
  np.random.randn(3)
  r = Runner(cfg["task"])
  while not r.done:
    r.step()
  compare(ctx, r, f"after {[label(x.task) for x in hist]}")
  for h in hist:  # what the earlier tasks saw must not change either
    compare(ctx, h, "first")
  ctx.state(label(cfg["task"]), [label(t) for t in cfg["before"]])
  ctx.outcome(str(r.seen)[:2000])
  ctx.note((label(cfg["task"]), [label(t) for t in cfg["before"]]))


def streams(ctx, cfg):
  """No step leaves the global random stream where it is known beforehand."""
  runs = []
  for shift in (0, 5000):
    r = Runner(cfg["task"])
    r.salt += shift
    states = []
    while not r.done:
      r.step()
      s = np.random.get_state()
      states.append((hash(s[1].tobytes()), s[2]))
    runs.append(states)
    ctx.step(len(states))
  for i, (a, b) in enumerate(zip(*runs)):
    require(ctx, a != b,
            lambda: f"{label(cfg['task'])}: after step {i}, the global random "
            "stream is the same whatever it was before: it has been reseeded")
    ctx.state(label(cfg["task"]), i)
  ctx.outcome(label(cfg["task"]))


SLOW = (t_paper, t_function)


def harnesses(tier):
  big = tier == "thorough"
  full = FULL
  pristine(full)
  pairs, singles = [], []
  for a, b in itertools.combinations_with_replacement(full, 2):
    related = a[0] is b[0] or {a[0], b[0]} <= {t_param, t_defaults, t_arm,
                                               t_run, t_paper}
    slow = a[0] in SLOW or b[0] in SLOW
    same = a[:2] == b[:2]
    if big or same or related and not slow and a[2] != b[2]:
      pairs.append(dict(tasks=(a, b), dev=not (same or big)))
  for t in full:
    for b in full:
      if t[0] in SLOW and b[0] in SLOW and t[0] is not b[0] and not big:
        continue
      singles.append(dict(task=t, before=(b,),
                          cut=big or t[0] is b[0] or t[2] == b[2] == 0))
  return [
      Harness("interleavings", interleave, pairs, bound=2,
              rule="one execution = one interleaving of the steps of two tasks "
              "on their own objects (all interleavings of tasks of one kind and in "
              "the thorough tier; otherwise all with at most `bound` switches)"
              "; every observation must equal the task's own when run alone"),
      Harness("histories", after, singles,
              rule="one task after another one, completed or abandoned after "
              "one or two steps"),
      Harness("streams", streams, [dict(task=t) for t in full],
              rule="every task from two streams; the stream after each step"),
      Harness("processes", process,
              [dict(hash=h, tz=z) for h, z in ((1, "UTC"), (77, "Asia/Tokyo"))],
              rule="every task in a new interpreter with another hash seed and "
              "time zone"),
  ]
