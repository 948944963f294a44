"""reset() brings a bandit, arms included, back to the initial state."""
import itertools
import math

import numpy as np

from checks import c12
from mc import arm_world as aw
from mc import real_world as rw
from mc.explorer import Harness
from mc.util import product_cfgs, require

SCRIPTS = [
    ["run", "reset"],
    ["reset"],
    ["run", "reset", "reset"],
    ["run", "run", "reset"],
    ["run", "reset", "run", "reset"],
    ["touch", "reset"],
    ["run", "touch", "reset"],
]


def body(ctx, cfg):
  gate = (lambda ids: ctx.choose(2, dev=True, label="enough") == 0)
  live = [True]
  sys1 = rw.system(ctx, cfg,
                   lambda ids: gate(ids) if live[0] else True)
  arm_list, gen, alg = sys1
  stable = cfg["stable"]
  all_data = aw.rows(0, 400) if stable else None
  seen = []
  for op in cfg["script"]:
    if op == "run":
      if not stable:
        gen.next = 0
      seen.append(rw.run(ctx, cfg, sys1, all_data, seed=3))
    elif op == "touch":
      np.random.seed(5)
      arm_list[-1].update(aw.rows(0, 5), 0.2)
    else:
      alg.reset()
      for a in arm_list:
        c12.fresh(ctx, a, f"{a.name} after reset of the bandit")
        require(ctx, a.eta.fitted is None and not a.eta.enough,
                "the nuisance parameter still holds its fit after reset()")
    ctx.step()
    ctx.state(cfg["alg"], op, [
        (repr(a.ci), repr(a.var_est), a.get_num_units()) for a in arm_list])
  live[0] = False
  gen.next = 0
  after = rw.run(ctx, cfg, sys1, all_data, seed=7)
  sys2 = rw.system(ctx, cfg, lambda ids: True)
  fresh = rw.run(ctx, cfg, sys2, all_data, seed=7)
  for key in fresh:
    require(ctx, after[key] == fresh[key],
            lambda: f"{key} after {cfg['script']} is {after[key]}; a fresh "
            f"bandit gives {fresh[key]}")
  ctx.outcome(cfg["alg"], str(fresh))
  ctx.note((cfg["script"], fresh))


class Refused(Exception):
  pass


def arm_body(ctx, cfg):
  """One arm: whatever happened before, reset() makes it a fresh one."""
  bad = [False]

  def transformer(d):
    if bad[0]:
      raise Refused()
    return aw.transformer(d)

  def make():
    return c12.build(cfg["kind"], aw.RecordingEta(ctx, scores="c", min_fit=2),
                     transformer)

  def use(arm, seed):
    np.random.seed(seed)
    out = []
    for n, delta in ((24, 0.25), (21, 0.1)):
      arm.update(aw.rows(100 * n, n), delta)
      out.append(c12.view(arm))
    return out

  arm = make()
  for i, op in enumerate(cfg["ops"]):
    np.random.seed(i)
    bad[0] = op == "raise"
    try:
      arm.update(aw.rows(0, 22 + i), 1.5 if op == "bad" else 0.3)
    except (Refused, ValueError):
      pass
    bad[0] = False
    ctx.step()
  arm.reset()
  c12.fresh(ctx, arm, f"{cfg}: after reset()")
  a, b = use(arm, 9), use(make(), 9)
  require(ctx, a == b,
          lambda: f"{cfg}: after reset() the arm reports {a}, a fresh one {b}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["kind"], repr(a))


def harnesses(tier):
  big = tier == "thorough"
  cfgs = []
  for alg in ("uniform", "lucb", "se"):
    for stable in (True, False):
      for script in SCRIPTS:
        for kinds, scales in (
            (("clt-stable", "clt-stable"), (1.0, 3.0)),
            (("chi2-resplit", "finite-stable"), (1.0, 1.5)),
            (("clt-stable", "chi2-stable", "clt-resplit"), (1.0, 2.0, 8.0)),
            (("finite-stable", "boot"), (1.0, 2.0)),
        ):
          for u, limit in ((6, 20), (9, 70)) + (((12, 200),) if big else ()):
            if "boot" in kinds:
              u += 20
              limit += 60
            cfgs.append(dict(alg=alg, stable=stable, script=script,
                             kinds=kinds, scales=scales, u=u, limit=limit))
  single = [dict(kind=k, ops=ops)
            for k in ("base", "clt-stable", "clt-resplit", "chi2-stable",
                      "finite-stable", "finite-resplit", "boot-stable",
                      "boot-resplit")
            for n in range(4 if not big else 6)
            for ops in itertools.product(("update", "bad", "raise"), repeat=n)]
  return [
      Harness("arm", arm_body, single,
              rule="every sequence of up to three (five) updates, refused "
              "updates and failing transformers, then a reset"),
      Harness("reset-then-run", body, cfgs, bound=2 if not big else 4,
              rule="every listed script of run/update/reset operations, every "
              "history with at most `bound` unfit answers before the reset; then one run "
              "compared with a fresh bandit on the same data and stream")
  ]
