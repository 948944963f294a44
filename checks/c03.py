import itertools

import numpy as np

from mc import bandit_world as bw
from mc import rng
from mc.explorer import Harness
from mc.util import require

NAMES = ["unfit", "burn1", "low", "point", "mid", "midlow", "high", "nan",
         "nanest", "fresh"]


def direct(ctx, cfg):
  """select_arms() from every joint state of the arms."""
  k = len(cfg["state"])
  w = bw.World(ctx, dict(alg="lucb", k=k, u=1, limit=10, letters=["low"],
                         stable=True, horizon=99, costs=cfg["costs"]))
  for a, s in zip(w.arms, cfg["state"]):
    a.answer = None if s == "fresh" else bw.LETTERS[s]
  before = [a.pulls for a in w.arms]
  with rng.controlled(ctx):
    got = list(w.alg.select_arms())
  idx = [a.idx for a in got]
  st = {
      a.idx: None if a.answer is None else w.scaled(a.idx, a.answer)
      for a in w.arms
  }
  ctx.state(cfg["costs"], cfg["state"])
  ctx.outcome(k, sorted(idx))
  ctx.note((cfg["state"], idx))
  require(ctx, len(idx) == 2 and idx[0] != idx[1],
          lambda: f"select_arms() returned arms {idx} in state {st}")
  allowed = bw.lucb_allowed(st, k)
  require(ctx, frozenset(idx) in allowed,
          lambda: f"select_arms() returned {idx} in state {st}, allowed "
          f"{[sorted(p) for p in allowed]}")
  require(ctx, before == [a.pulls for a in w.arms],
          "select_arms() pulled an arm")


def harnesses(tier):
  cfgs = []
  for k in (2, 3):
    for st in itertools.product(NAMES, repeat=k):
      cfgs.append(dict(state=st, costs=[1.0] * k))
  few = ["low", "point", "mid", "unfit", "high"]
  if tier == "thorough":
    few = [n for n in NAMES if n not in ("burn1", "nanest")]
  for st in itertools.product(few, repeat=4):
    cfgs.append(dict(state=st, costs=[1.0] * 4))
  for st in itertools.product(["low", "mid", "high", "unfit", "fresh"],
                              repeat=3):
    cfgs.append(dict(state=st, costs=[2.0, 1.0, 0.5]))
  for st in itertools.product(["low", "mid"], repeat=5):
    cfgs.append(dict(state=st, costs=[1.0] * 5))
  for ls in (bw.NEAR, bw.HUGE):
    for st in itertools.product(ls, repeat=3 if tier == "quick" else 4):
      cfgs.append(dict(state=st, costs=[1.0] * len(st)))
  for st in itertools.product(["low", "nanlow", "nanhigh", "mid"], repeat=3):
    cfgs.append(dict(state=st, costs=[1.0] * 3))
  g = bw.grid(4 if tier == "quick" else 5)
  for st in itertools.product(g, repeat=3):
    cfgs.append(dict(state=st, costs=[1.0] * 3))
  g = bw.grid(3)
  for st in itertools.product(g, repeat=3 if tier == "quick" else 4):
    cfgs.append(dict(state=st, costs=[2.0, 1.0, 0.5, 4.0][:len(st)]))
  return bw.bandit_harnesses(
      bw.oracle_lucb, tier, algs=("lucb",), nan=True) + [
          Harness("select_arms", direct, cfgs,
                  rule="every joint state of K=2..5 arms over the listed "
                  "(lower, estimate, upper) letters, fresh and NaN included; "
                  "every random tie-break")
      ]
