"""Life cycle of an arm: every operation sequence against a counter model."""
import math

import numpy as np

from mc import arm_world as aw
from mc import rng
from mc.explorer import Harness
from mc.util import raises, require
from causal_effect_bandits import arms

INF = math.inf


def build(kind, eta, transformer=aw.transformer):
  if kind == "base":
    return arms.VarianceEstimatorArm("nm", eta, transformer, 2.5)
  if kind.startswith("boot"):
    return arms.BootstrapArm("nm", eta, transformer, n_bootstraps=2,
                             stable_splits=kind == "boot-stable")
  ci, stable = kind.split("-")
  return arms.SampleSplittingArm(
      "nm", eta, transformer, ci_algorithm=aw.CI[ci], cost=2.5,
      stable_splits=stable == "stable", burn_in=4)


OPS = ["u2", "u3", "reset", "d0", "d1", "d-", "d+", "dnan"]
BAD = {"d0": 0.0, "d1": 1.0, "d-": -0.1, "d+": 1.5, "dnan": math.nan}


def fresh(ctx, arm, what):
  require(ctx, tuple(arm.ci) == (-INF, INF),
          lambda: f"{what}: ci is {arm.ci}, not (-inf, inf)")
  require(ctx, arm.var_est is None and arm.ate is None,
          lambda: f"{what}: estimates are {arm.var_est}, {arm.ate}")
  require(ctx, arm.num_pulled == 0, lambda: f"{what}: {arm.num_pulled} pulls")
  require(ctx, arm.get_num_units() == 0,
          lambda: f"{what}: {arm.get_num_units()} units")


def view(arm):
  f = lambda v: None if v is None else repr(float(v))
  return (repr(tuple(map(float, arm.ci))), f(arm.var_est), f(arm.ate),
          arm.num_pulled, arm.get_num_units())


def body(ctx, cfg):
  kind = cfg["kind"]
  eta = aw.RecordingEta(ctx, scores="c", min_fit=2)
  arm = build(kind, eta)
  fresh(ctx, arm, "just constructed")
  pulls = units = total = 0
  hist = []
  for depth in range(cfg["depth"]):
    op = cfg["first"] if depth == 0 else ctx.pick(cfg["ops"], label="op")
    hist.append(op)
    if op == "reset":
      n = eta.resets
      arm.reset()
      require(ctx, eta.resets > n, "reset() did not reset eta")
      pulls = units = 0
      fresh(ctx, arm, f"after {hist}")
    elif op[0] == "u":
      n = int(op[1:])
      with rng.controlled(ctx, only=()):
        out = arm.update(aw.rows(total, n), 0.25)
      total += n
      pulls += 1
      units += n
      require(ctx, tuple(map(repr, map(float, out))) == tuple(
          map(repr, map(float, arm.ci))),
              lambda: f"after {hist}: update returned {out}, ci is {arm.ci}")
      require(ctx, arm.num_pulled == pulls,
              lambda: f"after {hist}: num_pulled is {arm.num_pulled}")
      if kind != "base":
        require(ctx, arm.get_num_units() == units,
                lambda: f"after {hist}: {arm.get_num_units()} units, {units} "
                "were given")
        require(ctx, not arm.ci[0] < 0, lambda: f"after {hist}: {arm.ci}")
      else:
        require(ctx, tuple(arm.ci) == (0, INF),
                lambda: f"after {hist}: default interval {arm.ci}")
    elif kind != "base":
      was = view(arm)
      with raises(ctx, ValueError, f"update with delta={BAD[op]}"):
        arm.update(aw.rows(total, 2), BAD[op])
      require(ctx, view(arm) == was,
              lambda: f"after {hist}: the rejected update changed the arm "
              f"from {was} to {view(arm)}")
    require(ctx, arm.name == "nm" and arm.eta is eta and
            (kind.startswith("boot") or arm.cost == 2.5),
            "name, eta or cost changed")
    ctx.state(kind, view(arm))
  ctx.outcome(kind, pulls, units)
  ctx.note((kind, hist))


def harnesses(tier):
  cfgs = []
  for kind in ("base", "chi2-stable", "chi2-resplit", "clt-stable",
               "clt-resplit", "finite-stable", "finite-resplit",
               "boot-stable", "boot-resplit"):
    for first in OPS:
      cfgs.append(dict(kind=kind, first=first, ops=OPS,
                       depth=4 if tier == "quick" else 5))
      cfgs.append(dict(kind=kind, first=first, ops=["u2", "u3", "reset"],
                       depth=6 if tier == "quick" else 8))
  return [
      Harness("operations", body, cfgs,
              rule="every sequence of update/reset/rejected-update operations "
              "of the given depth on every kind of arm")
  ]
