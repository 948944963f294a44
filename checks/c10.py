"""Cross-fitted estimates of the sample-splitting arm."""
import itertools
import math

import numpy as np

from checks import c09
from mc import arm_world as aw
from mc import rng
from mc.explorer import Harness
from mc.util import close, raises, require
from causal_effect_bandits import arms


def make_arm(cfg, eta):
  return arms.SampleSplittingArm(
      "a", eta, aw.transformer, ci_algorithm=aw.CI[cfg["ci"]], cost=3.0,
      stable_splits=cfg["stable"], sub_gscale=1.0, eta_sub_gscale=1.0,
      tau_bound=1.0, burn_in=cfg.get("burn_in", 2), rho=0.5)


def body(ctx, cfg):
  eta = aw.RecordingEta(
      ctx, scores=cfg["scores"], min_fit=2,
      enough=(lambda ids: ctx.choose(2, label="enough") == 0)
      if cfg["gate"] else None)
  eta.possible = False
  arm = make_arm(cfg, eta)
  total, f = 0, []
  with rng.controlled(ctx, only=cfg.get("only")):
    for size in cfg["sizes"]:
      new = aw.rows(total, size)
      eta.calls.clear()
      eta.possible = eta.possible or size >= 2 or (
          not cfg["stable"] and total + size >= 2)
      bad = None
      try:
        out = arm.update(new, 0.1)
      except ValueError as e:
        bad = e
      total += size
      # the last fit, of this update or an earlier one
      f = ([f] + [c[1] for c in eta.calls if c[0] == "fit"])[-1]
      ctx.state(cfg["scores"], cfg["stable"], total, sorted(f), eta.enough)
      if not eta.enough:
        require(ctx, bad is None, lambda: f"update raised {bad}")
        require(ctx, tuple(arm.ci) == (0, math.inf) and tuple(out) == tuple(
            arm.ci), lambda: f"the interval of an unfit arm is {arm.ci}")
        require(ctx, arm.var_est == math.inf,
                lambda: f"the variance estimate of an unfit arm is "
                f"{arm.var_est}")
        require(ctx, arm.ate is not None and np.isnan(arm.ate),
                lambda: f"the effect estimate of an unfit arm is {arm.ate}")
        continue
      ev = [i for i in range(total) if i not in set(f)]
      s = np.array([eta.score(i, f) for i in ev])
      if np.isnan(s).any():
        require(ctx, bad is not None,
                lambda: f"nan scores were accepted: var_est {arm.var_est}, "
                f"interval {arm.ci}")
        return
      require(ctx, bad is None, lambda: f"update raised {bad}")
      want = s.mean()
      require(ctx, close(arm.ate, want),
              lambda: f"eta was fit on {sorted(f)}; the effect estimate is "
              f"{arm.ate}, the mean score of rows {ev} is {want}")
      var = ((s - want)**2).mean()
      require(ctx, close(arm.var_est, var),
              lambda: f"eta was fit on {sorted(f)}; the variance estimate is "
              f"{arm.var_est}, over rows {ev} it is {var}")
      ctx.outcome(round(var, 9))
      ctx.note((size, f, ev, arm.ate, arm.var_est))


def harnesses(tier):
  limit = 200 if tier == "quick" else 2500
  cfgs = []
  for stable in (True, False):
    for depth in (1, 2, 3):
      for sizes in itertools.product(range(1, 9), repeat=depth):
        for gate in (False, True):
          if c09.weight(stable,
                        sizes) * (2**(depth - 1) if gate else 1) > limit:
            continue
          for scores in ("a", "b", "c", "far", "nan"):
            for ci in (("chi2", "clt", "finite") if depth < 3 else ("clt",)):
              cfgs.append(dict(stable=stable, gate=gate, sizes=sizes,
                               scores=scores, ci=ci))
  large = []
  for stable in (True, False):
    for n in (1, 2, 3):
      for sizes in itertools.product((1, 10, 21, 60), repeat=n):
        if max(sizes) > 1:
          for scores in ("a", "c", "const", "spike", "far", "tail"):
            for ci in ("chi2", "clt", "finite"):
              large.append(dict(stable=stable, gate=False, sizes=sizes,
                                scores=scores, ci=ci, only=()))
    for sizes in ((450,), (1400,), (450, 2, 450), (10, 0, 21), (7,) * 24):
      for scores in ("a", "c", "const", "spike", "far", "tail"):
        for ci in ("chi2", "clt", "finite"):
          large.append(dict(stable=stable, gate=False, sizes=sizes,
                            scores=scores, ci=ci, only=()))
  return [
      Harness("large-folds", body, large,
              rule="every sequence of up to 3 update sizes from an alphabet "
              "up to 60 and longer or larger histories, score tables with outliers and far from zero; one "
              "seeded split per update"),
      Harness("updates", body, cfgs,
              rule="every sequence of up to 3 update sizes whose splits fall "
              f"in at most {limit} ways, every split, every fit/unfit "
              "history, score tables with and without NaN")
  ]
