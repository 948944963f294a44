"""BootstrapArm: replicates, percentile interval and reported estimates."""
import itertools
import math

import numpy as np

from mc import arm_world as aw
from mc import rng
from mc.explorer import Harness, Prune
from mc.util import close, require
from causal_effect_bandits import arms


def body(ctx, cfg):
  eta = aw.RecordingEta(
      ctx, scores=cfg["scores"], min_fit=1,
      enough=(lambda ids: ctx.choose(2, label="enough") == 0)
      if cfg.get("gate") else None)
  arm = arms.BootstrapArm("b", eta, aw.transformer, n_bootstraps=cfg["b"],
                          stable_splits=cfg["stable"])
  deltas = cfg["delta"]
  if not isinstance(deltas, tuple):
    deltas = (deltas,) * len(cfg["sizes"])
  total = 0
  eta.possible = False
  with rng.controlled(ctx, max_branch=cfg.get("max_branch", 4096)):
    for size, delta in zip(cfg["sizes"], deltas):
      b = cfg["b"] or math.ceil(4 / delta)
      eta.calls.clear()
      eta.possible = eta.possible or size >= 2
      out = arm.update(aw.rows(total, size), delta)
      ctx.step()
      total += size
      calls = list(eta.calls)
      require(ctx, repr(tuple(map(float, out))) == repr(
          tuple(map(float, arm.ci))), "the returned interval is not arm.ci")
      require(ctx, calls and calls[0][0] == "fit", "eta was not fit first")
      train = calls[0][1]
      if not eta.enough:
        require(ctx, tuple(arm.ci) == (0, math.inf) and
                arm.var_est == math.inf and np.isnan(arm.ate),
                lambda: f"an unfit bootstrap arm reports {arm.ci}, "
                f"{arm.var_est}, {arm.ate}")
        continue
      # replicates: a fit on part of the training fold, scored on the rest
      reps = []
      ev = sorted(set(range(total)) - set(train))
      last_fit = None
      final = []
      for c in calls:
        if c[0] == "fit":
          last_fit = c[1]
        elif c[0] == "score":
          if not c[1] or not last_fit:
            raise Prune()  # an empty replicate: nothing to resample
          (final if set(c[1]) & set(ev) else reps).append((c, last_fit))
      require(ctx, len(reps) == b,
              lambda: f"{len(reps)} bootstrap replicates instead of {b}")
      vs = []
      for (_, out_ids, used), f in reps:
        require(ctx, sorted(out_ids + f) == sorted(train),
                lambda: f"a replicate was fit on {f} and evaluated on "
                f"{out_ids}; the training fold is {train}")
        vs.append(np.var([eta.score(i, used) for i in out_ids]))
      vs.sort()
      lo = vs[math.floor(delta / 2 * b + 1e-12)]
      hi = vs[math.ceil((1 - delta / 2) * b - 1e-12) - 1]
      require(ctx, close(arm.ci, (lo, hi)),
              lambda: f"interval {arm.ci}; the replicate variances are {vs}, "
              f"delta={delta}")
      require(ctx, arm.ci[0] <= arm.ci[1], "the interval is inverted")
      for c, f in final:
        require(ctx, sorted(c[1]) == ev and sorted(f) == sorted(train),
                lambda: f"estimates come from rows {c[1]} with eta fit on {f};"
                f" the folds are {train} and {ev}")
      require(ctx, final, "the evaluation fold was not used")
      s = np.array([eta.score(i, train) for i in ev])
      require(ctx, close(arm.ate, s.mean()) and close(arm.var_est, s.var()),
              lambda: f"reported effect {arm.ate} and variance {arm.var_est};"
              f" the evaluation fold gives {s.mean()}, {s.var()}")
      require(ctx, arm.get_num_units() == total,
              lambda: f"get_num_units() is {arm.get_num_units()} of {total}")
      ctx.state(cfg["b"], delta, total, tuple(sorted(train)),
                tuple(round(v, 9) for v in vs))
      ctx.outcome(round(lo, 9), round(hi, 9))
      ctx.note((size, train, reps, arm.ci))


class Counting:
  """A nuisance parameter that only counts; scores are the identities."""

  def __init__(self):
    self.fits, self.scored = [], []

  def reset(self):
    pass

  def has_enough_samples(self):
    return True

  def fit(self, d):
    self.fits.append(np.asarray(d.cov)[:, 0])

  def calculate_score(self, d):
    ids = np.asarray(d.cov)[:, 0]
    self.scored.append((len(self.fits), ids))
    return ids**2


def many(ctx, cfg):
  """Hundreds and thousands of replicates: their number and percentiles."""
  eta = Counting()
  arm = arms.BootstrapArm("b", eta, aw.transformer, n_bootstraps=cfg["b"],
                          stable_splits=cfg["stable"])
  delta = cfg["delta"]
  b = cfg["b"] or math.ceil(4 / delta)
  np.random.seed(cfg["n"])
  arm.update(aw.rows(0, cfg["n"]), delta)
  ctx.step()
  train = sorted(eta.fits[0].tolist())
  vs, held = [], 0
  for f, ids in eta.scored:
    if set(ids.tolist()) <= set(train):
      part = eta.fits[f - 1].tolist()
      require(ctx, sorted(part + ids.tolist()) == train,
              lambda: f"{cfg}: a replicate was fit on {part} and scored on "
              f"{ids}; the training fold is {train}")
      vs.append(np.var(ids**2))
      held += len(part)
  require(ctx, len(vs) == b, lambda: f"{cfg}: {len(vs)} replicates, not {b}")
  vs.sort()
  want = (vs[math.floor(delta / 2 * b + 1e-12)],
          vs[math.ceil((1 - delta / 2) * b - 1e-12) - 1])
  require(ctx, close(arm.ci, want),
          lambda: f"{cfg}: interval {arm.ci}, the order statistics are {want}")
  ctx.state(repr(cfg), held)
  ctx.outcome(b)


def harnesses(tier):
  big = tier == "thorough"
  cfgs = []
  for scores in ("a", "c"):
    for stable in (True, False):
      for delta in (0.1, 0.5, 0.9):
        for sizes, b in (((4,), 2), ((5,), 2), ((6,), 2), ((4,), 3), ((4,), 4),
                         ((6,), 3), ((2, 2), 2), ((2, 3), 2)):
          cfgs.append(dict(scores=scores, stable=stable, delta=delta,
                           sizes=sizes, b=b))
        if big:
          for sizes, b in (((8,), 2), ((4,), 5), ((4,), 6), ((6,), 4),
                           ((3, 3), 2)):
            cfgs.append(dict(scores=scores, stable=stable, delta=delta,
                             sizes=sizes, b=b))
      cfgs.append(dict(scores=scores, stable=stable, delta=0.5, gate=True,
                       sizes=(2, 2), b=2))
      cfgs.append(dict(scores=scores, stable=stable, delta=0.5, gate=True,
                       sizes=(2, 1, 3), b=1, max_branch=40))
      # the default number of replicates; masks from the seeded stream
      for delta in (0.9, 0.5, 0.3, 0.13):
        for size in (60, 61):
          cfgs.append(dict(scores=scores, stable=stable, delta=delta,
                           sizes=(size, size), b=0, max_branch=1))
      # tolerances that divide 4, and that change between updates
      for ds in ((0.5, 0.5), (0.8, 0.8), (0.25, 0.25), (0.1, 0.1),
                 (0.5, 0.25), (0.25, 0.5), (0.9, 0.4), (0.4, 0.9),
                 (0.05, 0.9), (0.3, 0.8, 0.3)):
        size = math.ceil(60 / min(ds)) * (1 if min(ds) > .2 else 2)
        cfgs.append(dict(scores=scores, stable=stable, delta=ds,
                         sizes=(size, 7, 8)[:len(ds)], b=0, max_branch=1))
  lots = [dict(b=b, delta=d, n=n, stable=st)
          for n in (12, 25) for st in (True, False)
          for b, d in ((0, .02), (0, .004), (0, .003), (0, .0015), (150, .1),
                       (1001, .05), (1200, .33), (2100, .01))
          + (((0, .0004), (10001, .2)) if big else ())]
  return [
      Harness("many", many, lots,
              rule="up to 2667 (10001) replicates of small folds; one seeded "
              "draw each"),
      Harness("updates", body, cfgs,
              rule="every split and every in/out mask of every replicate for "
              "the small roots; roots with b=0 use one seeded draw")
  ]
