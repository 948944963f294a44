"""When a nuisance parameter counts as fit, and what it answers before."""
import itertools

import numpy as np

from checks import c14
from mc import nuisance as nu
from mc.explorer import Harness
from mc.util import close, raises, require
from causal_effect_bandits import data
from causal_effect_bandits import parameters


def admissible(kind, m, n1, n0):
  if kind == "linear-regression":
    return n1 + n0 >= 1
  if kind == "linear-binary":
    return n1 >= 1 and n0 >= 1
  return n1 >= m and n0 >= m


def nan_scores(ctx, eta, dim, hist):
  for n in (1, 3):
    got = np.asarray(eta.calculate_score(nu.dataset(dim, n, n)), dtype=float)
    require(ctx, got.shape == (2 * n,) and np.isnan(got).all(),
            lambda: f"after {hist} the parameter is unfit, yet scores {got}")


def body(ctx, cfg):
  kind, dim, m = cfg["kind"], cfg["dim"], cfg["m"]
  eta = nu.make(kind, dim, min_units=m)
  fit = False
  hist = []
  require(ctx, not eta.has_enough_samples(), "fit before any data")
  probe = nu.probe(dim)
  ref = None
  for step in range(cfg["depth"]):
    op = cfg["first"] if step == 0 else ctx.pick(cfg["ops"], label="op")
    hist.append(op)
    ctx.step()
    if op == "reset":
      eta.reset()
      fit, ref = False, None
    elif op == "wide":
      with raises(ctx, ValueError, f"fit on {dim + 1} covariates"):
        eta.fit(nu.dataset(dim + 1, 4, 4))
    else:
      n1, n0 = op
      d = nu.dataset(dim, n1, n0, salt=step, rich=cfg["rich"])
      keep = nu.copy(d)
      eta.fit(d)
      require(ctx, np.array_equal(d.cov, keep.cov) and np.array_equal(
          d.exp, keep.exp) and np.array_equal(d.rsp, keep.rsp),
              f"after {hist}: fit modified the data")
      if admissible(kind, m, n1, n0):
        fit, ref = True, None
    require(ctx, bool(eta.has_enough_samples()) == fit,
            lambda: f"after {hist}: has_enough_samples() is "
            f"{eta.has_enough_samples()}, should be {fit} (min_units {m})")
    if fit:
      got = np.asarray(eta.calculate_score(probe), dtype=float)
      require(ctx, got.shape == (len(probe),) and np.isfinite(got).all(),
              lambda: f"after {hist}: scores {got}")
      if ref is None:
        ref = got
      require(ctx, close(got, ref),
              lambda: f"after {hist}: a rejected fit changed the scores from "
              f"{ref} to {got}")
      if kind != "linear-regression":
        with raises(ctx, ValueError, f"scores of {dim + 1} covariates"):
          eta.calculate_score(nu.probe(dim + 1))
    elif kind != "linear-regression":
      nan_scores(ctx, eta, dim, hist)
    else:
      got = np.asarray(eta.calculate_score(probe), dtype=float)
      require(ctx, (got == 0).all(),
              lambda: f"after {hist} the parameter is unfit, yet scores {got}")
    ctx.state(kind, dim, m, tuple(hist[-2:]), fit)
  ctx.outcome(kind, fit)
  ctx.note((kind, m, hist, fit))


def large(ctx, cfg):
  """Groups of hundreds of units, in every type a treatment column may have."""
  kind, m, n1, n0 = cfg["kind"], cfg["m"], cfg["n1"], cfg["n0"]
  eta = nu.make(kind, 1, min_units=m)
  eta.fit(nu.dataset(1, n1, n0, exp_type=cfg["type"]))
  ctx.step()
  want = admissible(kind, m, n1, n0)
  ctx.state(repr(cfg))
  ctx.outcome(want, kind)
  require(ctx, bool(eta.has_enough_samples()) == want,
          lambda: f"{kind} with min_units={m}, fit on {n1} treated and {n0} "
          f"control units ({cfg['type'].__name__} treatments): "
          f"has_enough_samples() is {eta.has_enough_samples()}")


def unconditional(ctx, cfg):
  """min_units=0: any dataset is enough."""
  n1, n0, dim = cfg["n1"], cfg["n0"], cfg["dim"]
  one = c14.Response(lambda x, z: 1.0 + x)
  eta = parameters.AIPW(dim, one, c14.Propensity(lambda z: 0.5), min_units=0)
  eta.fit(nu.dataset(dim, n1, n0))
  ctx.step()
  ctx.state(n1, n0, dim)
  ctx.outcome(n1 > 0, n0 > 0)
  require(ctx, eta.has_enough_samples(),
          lambda: f"min_units=0, {n1} treated and {n0} control units: not fit")
  got = np.asarray(eta.calculate_score(nu.probe(dim)), dtype=float)
  require(ctx, np.isfinite(got).all(), lambda: f"scores {got}")


def harnesses(tier):
  big = tier == "thorough"
  cfgs = []
  counts = (2, 127, 128, 129, 255, 256, 257, 300) + (
      (32767, 32768, 65536) if big else ())
  wide = [dict(kind=kind, m=m, n1=a, n0=b, type=t)
          for kind in ("aipw-tree", "frontdoor", "linear-binary")
          for m in (3, 200) if not (kind == "linear-binary" and m > 3)
          for i, (a, b) in enumerate(itertools.product(counts, repeat=2))
          for j, t in enumerate((int, float, bool, np.int8, np.uint8, np.int16))
          if a + b < 1000 or (kind == "aipw-tree" and m == 3)]
  for kind in nu.KINDS:
    for dim in (1, 2):
      for m in (1, 2, 3):
        if kind.startswith("linear") and m > 1:
          continue
        sizes = [(a, b) for a in range(m + 2) for b in range(m + 2)
                 ]
        slow = kind in ("aipw-boosting", "frontdoor", "aipw-linear",
                        "aipw-kernel")
        for first in sizes + ["reset", "wide"]:
          if kind == "linear-regression" and first == "wide":
            continue
          ops = [(m, m), (m - 1, m + 1), (m + 1, m - 1), (m, m + 1), (0, 0),
                 "reset", "wide"]
          ops = [o for o in ops if not (
              kind == "linear-regression" and o == "wide")]
          cfgs.append(dict(kind=kind, dim=dim, m=m, first=first, ops=ops,
                           rich=len(cfgs) % 2 == 1,
                           depth=(3 if slow else 4) + (1 if big else 0)))
          if first not in ("reset", "wide"):
            cfgs.append(dict(cfgs[-1], rich=not cfgs[-1]["rich"], depth=2))
  return [
      Harness("fit-histories", body, cfgs,
              rule="first operation: every (treated, control) count from none up to "
              "min_units+1; then every sequence of fits around the boundary, "
              "resets and mis-shaped fits"),
      Harness("large-groups", large, wide,
              rule="every pair of group sizes around the limits of narrow "
              "integers, every type of the treatment column"),
      Harness("no-minimum", unconditional,
              [dict(n1=a, n0=b, dim=d) for d in (1, 2) for a in range(4)
               for b in range(4) if a + b],
              rule="min_units=0: every split of up to 6 units"),
  ]
