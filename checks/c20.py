"""A nuisance parameter remembers nothing it should not."""
import itertools

import numpy as np

from mc import nuisance as nu
from mc.explorer import Harness
from mc.util import close, require

SETS = {
    "A": lambda dim, s: nu.dataset(dim, 3, 4, salt=0 + s),
    "B": lambda dim, s: nu.dataset(dim, 5, 3, salt=3 + s),
    "C": lambda dim, s: nu.dataset(dim, 2, 2, salt=1 + s),
}


def width(eta):
  if not hasattr(type(eta), "calculate_cs_width") or getattr(
      eta, "recent_data", None) is None:
    return None
  w = eta.calculate_cs_width(0.1, sub_g=1.0, rho=0.5)
  return None if w is None else float(w)


def body(ctx, cfg):
  kind, dim = cfg["kind"], cfg["dim"]
  eta = nu.make(kind, dim)
  probe = nu.probe(dim)
  hist = [cfg["first"]]
  ops = ["A", "B", "C", "bad", "reset", "score"]
  for _ in range(cfg["depth"] - 1):
    hist.append(ctx.pick(ops, label="op"))
  last = cfg["last"]
  since_reset = 0
  for op in hist:
    ctx.step()
    if op == "reset":
      eta.reset()
      since_reset = 0
      require(ctx, not eta.has_enough_samples(),
              lambda: f"{kind} still counts as fit after {hist}")
    elif op == "bad":
      if kind.startswith("linear-regression"):
        continue
      eta.fit(nu.dataset(dim, 0, 4))
    elif op == "score":
      eta.calculate_score(probe)
    else:
      eta.fit(SETS[op](dim, 0))
      since_reset += 1
  d = SETS[last](dim, 2)
  eta.fit(d)
  fresh = nu.make(kind, dim)
  fresh.fit(nu.copy(d))
  got = np.asarray(eta.calculate_score(probe), dtype=float)
  want = np.asarray(fresh.calculate_score(probe), dtype=float)
  # the logistic regressions start from the previous solution and only agree
  # up to their optimisation tolerance
  loose = since_reset and kind in ("aipw-linear", "aipw-kernel")
  require(ctx, close(got, want, rtol=2e-2 if loose else 1e-9,
                     atol=2e-2 if loose else 1e-9),
          lambda: f"{kind}: after {hist} a fit on {last} scores {got}; a fresh"
          f" one {want}")
  require(ctx, bool(eta.has_enough_samples()) and
          bool(fresh.has_enough_samples()), "not fit")
  w1, w2 = width(eta), width(fresh)
  require(ctx, (w1 is None) == (w2 is None) and (
      w1 is None or w1 == w2 or close(w1, w2)),
          lambda: f"{kind}: after {hist} the width is {w1}, fresh {w2}")
  if hasattr(eta, "get_response_parameters"):
    for a, b in zip(eta.get_response_parameters(),
                    fresh.get_response_parameters()):
      require(ctx, bool(np.all(np.isnan(b))) and bool(np.all(np.isnan(a))) or
              close(a, b, rtol=1e-7, atol=1e-9),
              lambda: f"{kind}: after {hist} the response model is {a}, fresh "
              f"{b}")
  again = np.asarray(eta.calculate_score(probe), dtype=float)
  require(ctx, close(again, got), "scoring twice gives different scores")
  # the order of the evaluated rows does not matter
  rev = np.asarray(eta.calculate_score(probe[::-1]), dtype=float)
  require(ctx, close(rev[::-1], got), "scores depend on the order of the rows")
  ctx.state(kind, dim, tuple(hist[-2:]), last)
  ctx.outcome(kind, last, tuple(np.round(got, 5)))
  ctx.note((kind, hist, last))


def rejected(ctx, cfg):
  """Data too small to fit on changes neither the scores nor the width."""
  kind, dim = cfg["kind"], cfg["dim"]
  eta = nu.make(kind, dim)
  probe = nu.probe(dim)
  hist = [ctx.pick(["A", "B", "reset", "bad"], label="before")]
  hist += [cfg["last"]]
  hist += [ctx.pick(["no-treated", "no-control", "empty"], label="after")
           for _ in range(cfg["after"])]
  bad = {"no-treated": (4, 0), "no-control": (0, 3), "empty": (0, 0),
         "bad": (0, 4)}
  for op in hist:
    ctx.step()
    if op == "reset":
      eta.reset()
    elif op in bad:
      eta.fit(nu.dataset(dim, *bad[op]))
    else:
      eta.fit(SETS[op](dim, 0))
  fresh = nu.make(kind, dim)
  fresh.fit(SETS[cfg["last"]](dim, 0))
  got = np.asarray(eta.calculate_score(probe), dtype=float)
  want = np.asarray(fresh.calculate_score(probe), dtype=float)
  loose = hist[0] in SETS and kind in ("aipw-linear", "aipw-kernel")
  tol = 2e-2 if loose else 1e-9
  require(ctx, bool(eta.has_enough_samples()), f"{kind}: not fit after {hist}")
  require(ctx, close(got, want, rtol=tol, atol=tol),
          lambda: f"{kind}: after {hist} the scores are {got}; fit only on "
          f"{cfg['last']}: {want}")
  w1, w2 = width(eta), width(fresh)
  require(ctx, (w1 is None) == (w2 is None) and (
      w1 is None or w1 == w2 or close(w1, w2)),
          lambda: f"{kind}: after {hist} the width is {w1}; fit only on "
          f"{cfg['last']}: {w2}")
  ctx.state(kind, dim, tuple(hist))
  ctx.outcome(kind, cfg["last"], tuple(np.round(got, 5)))
  ctx.note((kind, hist))


def parameters_kept(ctx, cfg):
  """reset() gives back an object with the same constructor arguments."""
  kind, dim, args = cfg["kind"], cfg["dim"], cfg["args"]
  eta, fresh = nu.build(kind, dim, **args), nu.build(kind, dim, **args)
  probe = nu.probe(dim)
  hist = [cfg["first"], ctx.pick(["A", "bad", "reset"], label="then"), "reset"]
  for op in hist:
    ctx.step()
    if op == "reset":
      eta.reset()
    elif op == "A":
      eta.fit(SETS["A"](dim, 0))
    elif kind != "linear-regression":
      eta.fit(nu.dataset(dim, 0, 4))
  d = nu.dataset(dim, ctx.pick(cfg["treated"], label="treated"),
                 ctx.pick(cfg["control"], label="control"))
  eta.fit(d)
  fresh.fit(nu.copy(d))
  require(ctx, bool(eta.has_enough_samples()) == bool(
      fresh.has_enough_samples()),
          lambda: f"{kind} {args}: after {hist}, a fit on {int(sum(d.exp))} "
          f"treated of {len(d)} units counts as "
          f"{eta.has_enough_samples()}, for a fresh object as "
          f"{fresh.has_enough_samples()}")
  got = np.asarray(eta.calculate_score(probe), dtype=float)
  want = np.asarray(fresh.calculate_score(probe), dtype=float)
  require(ctx, close(got, want),
          lambda: f"{kind} {args}: after {hist} the scores are {got}; of a "
          f"fresh object {want}")
  if fresh.has_enough_samples():
    w1, w2 = width(eta), width(fresh)
    require(ctx, (w1 is None) == (w2 is None) and (
        w1 is None or w1 == w2 or close(w1, w2)),
            lambda: f"{kind} {args}: after {hist} the width is {w1}, of a "
            f"fresh object {w2}")
  ctx.state(kind, dim, repr(args), tuple(hist), len(d), int(sum(d.exp)))
  ctx.outcome(kind, bool(fresh.has_enough_samples()), tuple(np.round(got, 5)))
  ctx.note((kind, args, hist))


def parameter_configs():
  out = []
  overlap = [dict(min_units=u, min_overlap=o) for u in (1, 3, 4)
             for o in (0.01, 0.3)]
  for kind in ("aipw-linear", "aipw-kernel", "aipw-boosting", "frontdoor",
               "linear-regression"):
    args = overlap
    if kind == "frontdoor":
      args = [dict(a, min_ratio_to_uniform=r) for a in overlap
              for r in (1.0, 1.5, 60)] + [dict(min_units=0)]
    elif kind == "linear-regression":
      args = [dict(l_reg=r) for r in (0, 0.0, 1e-3, 0.1, 30)]
    for a in args:
      for first in ("A", "bad"):
        for dim in (1, 2):
          linear = kind == "linear-regression"
          out.append(dict(kind=kind, dim=dim, args=a, first=first,
                          treated=(3, 5) if linear else (
                              0, 1, 2, 3, 4, 5)[a.get("min_units") != 0:],
                          control=(3, 4) if linear else (1, 2, 3, 4)))
  return out


def harnesses(tier):
  cfgs, rej = [], []
  for kind in nu.KINDS + ["frontdoor-tight"]:
    if not kind.startswith("linear-regression"):
      for dim in (1, 2):
        for last in "AC":
          rej.append(dict(kind=kind, dim=dim, last=last,
                          after=2 if tier == "quick" else 3))
  for kind in nu.KINDS + ["frontdoor-tight", "linear-regression-strong"]:
    for dim in (1, 2):
      for first in ("A", "B", "C", "bad", "reset", "score"):
        for last in "AC":
          slow = kind in ("aipw-boosting", "frontdoor", "frontdoor-tight")
          cfgs.append(dict(kind=kind, dim=dim, first=first, last=last,
                           depth=(3 if slow else 4) + (tier != "quick")))
  return [
      Harness("histories", body, cfgs,
              rule="every sequence of fits on three datasets, rejected fits, "
              "scorings and resets; then one fit compared with a fresh object"),
      Harness("parameters", parameters_kept, parameter_configs(),
              rule="every nuisance parameter with non-default arguments (zero "
              "regularisation included): a fit, a rejected fit or a reset, a "
              "reset, then one fit on every listed number of units"),
      Harness("rejected-fits", rejected, rej,
              rule="every sequence of one operation, an adequate fit and "
              "2 (thorough: 3) fits on data too small to fit on"),
  ]
