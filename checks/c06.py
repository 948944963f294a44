from mc import arm_world as aw
from mc import bandit_world as bw
from mc import real_world as rw
from mc.explorer import Harness
from mc.util import require

import numpy as np


def real(ctx, cfg):
  """The three algorithms over the same kind of real arms, stable order."""
  u = cfg["u"]
  all_data = aw.rows(0, cfg["limit"] + 6 * u)
  for alg in ("uniform", "lucb", "se"):
    def gate(ids):
      return ctx.choose(2, dev=True, label="enough") == 0

    sys_ = rw.system(ctx, dict(cfg, alg=alg), gate)
    arm_list = sys_[0]
    res = rw.run(ctx, dict(cfg, alg=alg), sys_, all_data, seed=2)
    for i, a in enumerate(arm_list):
      t = sum(float(s) > 0 for s in res["samples"][i])
      require(ctx, a.get_num_units() == t * u,
              lambda: f"{alg}: arm {i} was sampled {t} times with {u} units, "
              f"get_num_units() is {a.get_num_units()}")
      fits = [c for c in a.eta.log if c[0] == "fit"]
      seen = set()
      for c in fits:
        seen |= set(c[1])
      evs = [c for c in a.eta.calls if c[0] == "score"]
      for c in evs:
        seen |= set(c[1])
      require(ctx, seen <= set(range(t * u)),
              lambda: f"{alg}: after {t} updates arm {i} has used rows "
              f"{sorted(seen)}, not the first {t * u} of the dataset")
      if evs and a.eta.enough:
        last = set(evs[-1][1])
        if cfg["kinds"][i] != "boot":
          tr = ([()] + [c[1] for c in a.eta.calls if c[0] == "fit"])[-1]
          require(ctx, last | set(tr) == set(range(t * u)),
                  lambda: f"{alg}: after {t} updates the folds of arm {i} hold "
                  f"{sorted(last | set(tr))}, not the first {t * u} rows")
      ctx.state(alg, i, t, cfg["kinds"][i])
    ctx.outcome(alg, str(res["samples"]))
    ctx.note((alg, res["samples"], res["best"]))


def harnesses(tier):
  cfgs = []
  for kinds, scales in (
      (("clt-stable", "clt-resplit"), (1.0, 3.0)),
      (("chi2-stable", "chi2-resplit", "clt-stable"), (1.0, 2.0, 9.0)),
      (("finite-stable", "finite-resplit"), (1.0, 4.0)),
      (("boot", "boot"), (1.0, 3.0)),
      (("boot", "clt-stable", "chi2-stable"), (1.0, 2.0, 3.0)),
  ):
    for u in (4, 5, 7, 30):
      if "boot" in kinds and u < 30:
        continue
      for rounds in (1, 2, 4) + ((7,) if tier == "thorough" else ()):
        cfgs.append(dict(kinds=kinds, scales=scales, u=u,
                         limit=len(kinds) * u * rounds - 1))
  short = []
  for alg in ("uniform", "lucb", "se"):
    for k, u, limit, rows in ((2, 2, 11, 5), (2, 3, 17, 6), (3, 2, 23, 4),
                              (2, 4, 15, 0), (3, 1, 11, 2)):
      short.append(dict(
          alg=alg, k=k, u=u, limit=limit, rows=rows, stable=True,
          letters=["low", "midlow", "zero"], free=1, rng_dev=True,
          horizon=bw.max_updates(alg, k, u, limit)))
  return bw.bandit_harnesses(bw.oracle_stream, tier) + [
      Harness("exhausted", bw.body_for(bw.oracle_stream), bw.split(short),
              bound=2, rule="datasets that end before the run does: past the "
              "end an update receives no rows. " + bw.RULE),
      Harness("real-arms", real, cfgs, bound=2,
              rule="the three algorithms over the real arm classes; every "
              "history with at most 2 unfit answers")
  ]
