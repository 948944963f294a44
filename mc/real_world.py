"""Bandit algorithms over the real arms with recording nuisance parameters."""
import numpy as np

from mc import arm_world as aw
from mc import env
from mc import rng
from mc.bandit_world import ALGS
from mc.explorer import Violation
from causal_effect_bandits import arms
from causal_effect_bandits import data


class Gen(data.DataGenerator):
  """Issues identified rows; can be rewound."""

  def __init__(self, start=0):
    super().__init__("gen")
    self.next = start

  def generate(self, n_samples):
    d = aw.rows(self.next, n_samples)
    self.next += n_samples
    return d


class ScaledEta(aw.RecordingEta):
  """Scores spread by a factor, so that the arms differ."""

  def __init__(self, ctx, scale, **kw):
    super().__init__(ctx, **kw)
    self.scale = scale
    self.log = []

  def fit(self, d):
    super().fit(d)
    self.log.append(("fit", self.calls[-1][1]))

  def score(self, i, fitted):
    # depends on how often it was fit since the last reset: a forgotten reset
    # of eta shows up in every number
    return self.scale * super().score(i, fitted) * (1 + 0.125 * self.nfits)


def make_arm(ctx, kind, i, scale, gate=None):
  eta = ScaledEta(ctx, scale, scores="c", min_fit=2, enough=gate)
  if kind == "boot":
    return arms.BootstrapArm("arm%d" % i, eta, aw.transformer, n_bootstraps=2)
  ci, stable = kind.split("-")
  return arms.SampleSplittingArm(
      "arm%d" % i, eta, aw.transformer, ci_algorithm=aw.CI[ci],
      cost=1.0 + i / 2, stable_splits=stable == "stable", burn_in=4,
      sub_gscale=0.5, tau_bound=0.5)


def history(result, arm_list):
  def row(m):
    return [[repr(float(v)) for v in m[a]] for a in arm_list]
  return dict(
      lcb=row(result.lcb_by_arm), ucb=row(result.ucb_by_arm),
      est=row(result.var_est_by_arm), samples=row(result.samples_by_arm),
      cum=[int(c) for c in result.cum_samples],
      best=sorted(arm_list.index(a) for a in result.best_arm))


def system(ctx, cfg, gate=None):
  arm_list = [
      make_arm(ctx, kind, i, scale, gate)
      for i, (kind, scale) in enumerate(zip(cfg["kinds"], cfg["scales"]))
  ]
  gen = Gen()
  alg = ALGS[cfg["alg"]](
      arm_list, gen, error_prob=0.4, sample_limit=cfg["limit"],
      units_per_round=cfg["u"])
  return arm_list, gen, alg


def run(ctx, cfg, sys_, all_data, seed=0):
  """One run with a fixed random stream."""
  arm_list, gen, alg = sys_
  np.random.seed((env.SEED * 1000 + seed) % 2**32)
  with rng.controlled(ctx, only=()):
    res = alg.run(all_data)
  return history(res, arm_list)
