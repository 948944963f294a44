import math

from mc import bandit_world as bw
from mc.explorer import Harness
from mc.util import product_cfgs, raises, require

INF = math.inf


def construct(ctx, cfg):
  """The constructor accepts exactly the documented parameter ranges."""
  w = bw.World(ctx, dict(alg=cfg["alg"], k=2, u=1, limit=1, letters=["low"],
                         stable=True, horizon=9))
  kw = dict(error_prob=cfg["p"], error_tol=cfg["tol"],
            confidence=cfg["conf"], sample_limit=cfg["limit"],
            units_per_round=cfg["u"])
  no_limit = cfg["limit"] is None or math.isinf(cfg["limit"])
  ok = (0 < cfg["p"] < 1 and cfg["tol"] >= 0 and
        not (cfg["conf"] is None and no_limit) and
        (cfg["conf"] is None or 0 < cfg["conf"] < 1))
  ctx.state(sorted(map(repr, cfg.items())))
  ctx.outcome(ok, cfg["alg"])
  if ok:
    b = bw.ALGS[cfg["alg"]](w.arms, w.gen, **kw)
    require(ctx, (b.error_prob, b.error_tol, b.units_per_round) ==
            (cfg["p"], cfg["tol"], cfg["u"]),
            "the constructor changed a parameter")
  else:
    with raises(ctx, ValueError, f"constructing with {kw}"):
      bw.ALGS[cfg["alg"]](w.arms, w.gen, **kw)


def harnesses(tier):
  cfgs = product_cfgs(
      alg=["uniform", "lucb", "se"],
      p=[-0.25, 0.0, 1e-6, 0.05, 0.5, 1 - 1e-6, 1.0, 1.5, math.nan],
      tol=[-1.0, -1e-9, 0.0, 0.5, 1e6],
      conf=[None, -0.1, 0.0, 1e-9, 0.05, 0.95, 1.0, 2.0, math.nan],
      limit=[None, INF, 0, 1, 500],
      u=[1, 200],
  )
  # the numbers next to each boundary
  base = dict(p=0.05, tol=0.0, conf=0.05, limit=500, u=1)
  for alg in ("uniform", "lucb", "se"):
    for k, vs in (("p", (5e-324, -5e-324, 1 - 2.0**-53, 1 + 2.0**-52)),
                  ("tol", (5e-324, -5e-324, -1e-15, -0.0, INF, -INF, 1e-12)),
                  ("conf", (5e-324, -5e-324, 1 - 2.0**-53, 1 + 2.0**-52))):
      for v in vs:
        cfgs.append(dict(base, alg=alg, **{k: v}))
  return bw.bandit_harnesses(bw.oracle_delta, tier) + [
      Harness("constructor", construct, cfgs,
              rule="every combination of boundary values of the parameters")
  ]
