"""The algorithms are comparable on one dataset."""
import contextlib
import math

import numpy as np

from mc import arm_world as aw
from mc import bandit_world as bw
from mc import env
from mc import nuisance
from mc import real_world as rw
from mc import rng
from mc import truth_world as tw
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import arms

ASSUMPTIONS = []
INF = math.inf
ALGS = ("uniform", "lucb", "se")

# ------------------------------------------------- nested intervals, no ties


class Sequence:
  """The interval every arm has after its n-th update; decided lazily."""

  def __init__(self, ctx, cfg):
    self.ctx, self.cfg = ctx, cfg
    self.table = {}

  def letter(self, i, pull):
    key = (i, pull)
    if key not in self.table:
      self.table[key] = self.ctx.pick(self.options(i, pull),
                                      dev=self.cfg["dev"], label="nested")
    return self.table[key]

  def options(self, i, pull):
    tag = (i + 1) / 16  # no two arms share a bound or an estimate
    top = self.cfg["grid"]
    if pull == 1:
      lo, hi = 0, top
      wide = [(0.0, INF, INF)]
    else:
      l, _, u = self.letter(i, pull - 1)
      lo = max(0, math.ceil(l - tag))
      hi = top if math.isinf(u) else int(round(u - tag))
      wide = []
    out = []
    if pull >= self.cfg["depth"]:
      return [(v + tag,) * 3 for v in range(lo, hi + 1)]
    for l in range(lo, hi + 1):
      for u in range(hi, l - 1, -1):
        for e in sorted({l, u}):
          out.append((l + tag, e + tag, u + tag))
    return wide + out


class NestedWorld(tw.TruthWorld):

  def __init__(self, ctx, cfg, seq):
    super().__init__(ctx, cfg)
    self.seq = seq

  def alphabet(self, i, pull):
    return [self.seq.letter(i, pull)]


def nested(ctx, cfg):
  k, u = cfg["k"], cfg["u"]
  seq = Sequence(ctx, cfg)
  # the root fixes the first answer of arm 0
  opts = seq.options(0, 1)
  j, n = cfg["part"]
  seq.table[0, 1] = ctx.pick(opts[j::n], label="nested")
  got = {}
  for alg in ALGS:
    w = NestedWorld(ctx, dict(
        alg=alg, k=k, u=u, truth=[0.0] * k, limit=None, stable=True,
        costs=cfg["costs"], halt=True, rng_dev=True,
        horizon=2 * k * cfg["depth"] + 2), seq)
    w.run()
    require(ctx, not w.halted,
            lambda: f"{alg} did not stop although every interval is a point "
            f"after {cfg['depth']} updates: {seq.table}")
    pulls = [sum(e["arm"] == i for e in w.events) for i in range(k)]
    got[alg] = (w.best(), pulls, w)
  t_u, t_s = max(got["uniform"][1]), max(got["se"][1])
  why = lambda: ", ".join(
      f"{a}: {got[a][0]} after {got[a][1]} updates" for a in ALGS) + (
          f"; intervals {seq.table}, costs {cfg['costs']}")
  require(ctx, len({tuple(got[a][0]) for a in ALGS}) == 1,
          lambda: "the algorithms disagree on the best arm, though every "
          "interval contains the next ones of its arm: " + why())
  require(ctx, t_u == t_s,
          lambda: f"uniform sampling stopped after {t_u} rounds, elimination "
          f"after {t_s}, on intervals that only shrink: " + why())
  require(ctx, max(got["lucb"][1]) >= 1 and len(got["se"][0]) == 1, why)
  ctx.outcome(got["se"][0], t_u, got["se"][1], got["lucb"][1])
  ctx.note((got["se"][0], t_u, got["se"][1], got["lucb"][1]))


# ------------------------------------------------- real arms, one dataset


class Keyed:
  """Choices made while an arm updates depend on the arm and the update only."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.memo = {}
    self.key = None
    self.n = 0
    self.stats = ctx.stats

  def at(self, key):
    self.key, self.n = key, 0

  def choose(self, n, dev=False, label=""):
    if self.key is None:
      return self.ctx.choose(n, dev, label)
    k = (self.key, self.n, label, n)
    self.n += 1
    if k not in self.memo:
      self.memo[k] = self.ctx.choose(n, True, label)
    return self.memo[k]


def trace_arm(arm, i, log, keyed, salt):
  """Records what the arm reports after each update."""
  update = arm.update

  def wrapper(new_data, delta):
    t = len(log[i]) + 1
    state = np.random.get_state()
    np.random.seed((env.SEED * 77003 + salt * 1009 + i * 101 + t) % 2**32)
    keyed.at((i, t))
    try:
      out = update(new_data, delta)
    finally:
      keyed.at(None)
      np.random.set_state(state)
    log[i].append([repr(float(v)) for v in (
        arm.ci[0], arm.ci[1], arm.var_est, arm.ate, arm.num_pulled,
        arm.get_num_units())])
    return out

  arm.update = wrapper


def recording_arms(ctx, cfg, keyed):
  return [
      rw.make_arm(ctx, kind, i, scale,
                  lambda ids: keyed.choose(2, True, "enough") == 0)
      for i, (kind, scale) in enumerate(zip(cfg["kinds"], cfg["scales"]))
  ]


def real_arms(ctx, cfg, keyed):
  del ctx, keyed
  out = []
  for i, kind in enumerate(cfg["etas"]):
    sel = aw.data.get_coordinate_mask_fn([i % 2])
    out.append(arms.SampleSplittingArm(
        f"arm{i}", nuisance.make(kind, 1), sel,
        ci_algorithm=aw.CI[cfg["ci"]], cost=1.0 + i / 4,
        stable_splits=cfg["splits"], sub_gscale=0.5, burn_in=6))
  return out


def dataset(cfg, n):
  if "kinds" in cfg:
    return aw.rows(0, n)
  r = np.random.RandomState(env.SEED + 5)
  z = np.c_[r.randint(0, 3, n), r.randint(0, 2, n)] * 1.0
  x = (r.rand(n) < 0.5).astype(int)
  return aw.data.ExpData(z, x, z @ [1.0, 3.0] + x + r.randn(n))


def same_sequences(ctx, cfg):
  keyed = Keyed(ctx)
  build = recording_arms if "kinds" in cfg else real_arms
  logs, arm_list = {}, None
  k = len(cfg.get("kinds") or cfg.get("etas"))
  u = cfg["u"]
  all_data = dataset(cfg, cfg["limit"] + (k + 2) * u)
  for alg in cfg["order"]:
    if arm_list is None or not cfg["shared"]:
      arm_list = build(ctx, cfg, keyed)
    else:
      for a in arm_list:
        a.reset()
        if "update" in vars(a):
          del a.update
    log = [[] for _ in arm_list]
    for i, a in enumerate(arm_list):
      trace_arm(a, i, log, keyed, cfg["salt"])
    bandit = bw.ALGS[alg](arm_list, rw.Gen(), error_prob=0.4,
                          sample_limit=cfg["limit"], units_per_round=u)
    np.random.seed(3)
    with rng.controlled(keyed, dev=True) if cfg.get("splits_chosen") else (
        contextlib.nullcontext()):
      res = bandit.run(all_data)
    for i, a in enumerate(arm_list):
      c = a.cost
      sampled = [t for t, s in enumerate(res.samples_by_arm[a]) if s]
      hist = [[repr(float(x[a][t])) for x in (
          res.lcb_by_arm, res.ucb_by_arm, res.var_est_by_arm)]
              for t in sampled]
      want = [[repr(c * float(v)) for v in e[:3]] for e in log[i]]
      require(ctx, hist == want,
              lambda: f"{alg}: the history of arm {i} is {hist}, the arm "
              f"reported {want}")
    logs[alg] = log
    ctx.state(alg, str(log))
  for alg in ALGS:
    for i in range(k):
      a, b = logs["uniform"][i], logs[alg][i]
      m = min(len(a), len(b))
      require(ctx, a[:m] == b[:m],
              lambda: f"the first {m} updates of arm {i} report {a[:m]} in a "
              f"uniform run and {b[:m]} in a {alg} run on the same data")
  ctx.outcome([len(x) for a in ALGS for x in logs[a]])
  ctx.note({a: [len(x) for x in logs[a]] for a in ALGS})


def harnesses(tier):
  big = tier == "thorough"
  full, dev = [], []
  for costs in ([1.0, 1.0], [2.0, 0.5]):
    full.append(dict(k=2, u=1, grid=2, depth=3, costs=costs, dev=False))
    full.append(dict(k=2, u=3, grid=4, depth=2, costs=costs, dev=False))
  full.append(dict(k=3, u=2, grid=2 + big, depth=2, costs=[1.0, 0.5, 2.0],
                   dev=False))
  for k, g, d in ((2, 4, 5), (3, 2, 4), (4, 2, 3), (5, 2, 3)):
    dev.append(dict(k=k, u=1, grid=min(g, 2) if big else g, depth=d, costs=[1.0] * k, dev=True))
  dev.append(dict(k=3, u=2, grid=3 - big, depth=3 + big, costs=[4.0, 1.0, 0.5], dev=True))
  kinds, etas = [], []
  for ks, sc in (
      (("clt-stable", "clt-resplit"), (1.0, 3.0)),
      (("chi2-stable", "chi2-resplit", "clt-stable"), (1.0, 2.0, 9.0)),
      (("finite-stable", "finite-resplit", "clt-stable"), (1.0, 4.0, 2.0)),
      (("boot", "clt-stable"), (1.0, 3.0)),
  ):
    for shared in (False, True):
      for order in (("uniform", "lucb", "se"), ("se", "lucb", "uniform"),
                    ("lucb", "se", "uniform")):
        for u in (2, 3, 30):
          if "boot" in ks and u < 30:
            continue
          kinds.append(dict(kinds=ks, scales=sc, shared=shared, order=order,
                            u=u, limit=len(ks) * u * 4 - 1, salt=u,
                            splits_chosen=u < 4))
  for ks in (("linear-binary", "aipw-linear", "linear-binary"),
             ("aipw-linear", "frontdoor", "aipw-linear"),
             ("aipw-boosting", "aipw-tree", "aipw-kernel")):
    for ci in ("clt", "chi2"):
      for splits in (True, False):
        for shared in (False, True):
          for salt in range(3 if big else 1):
            for order in (("uniform", "lucb", "se"), ("se", "lucb", "uniform")):
              etas.append(dict(etas=ks, ci=ci, splits=splits, shared=shared,
                               order=order, u=24, limit=24 * 3 * 6 - 1,
                               salt=salt))
  rule = ("one execution = unlimited runs of all three algorithms on one table "
          "of intervals, where an arm's interval contains its later ones. ")
  return [
      Harness("nested-all", nested, tw.parts(full, 6),
              rule=rule + "Every table over the grid."),
      Harness("nested-long", nested, tw.parts(dev, 6), bound=2 + big,
              rule=rule + "By default an interval stays as it was."),
      Harness("recorded-arms", same_sequences, kinds, bound=1 + big,
              rule="the three algorithms over real arms with recording "
              "nuisance parameters, fresh or shared with a reset; splits and "
              "gate outcomes are functions of arm and update, every choice "
              "with at most `bound` deviations"),
      Harness("real-parameters", same_sequences, etas,
              rule="the same with the package's nuisance parameters; splits "
              "drawn from a stream that depends on arm and update only"),
  ]
