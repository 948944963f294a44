"""Width of the confidence sequence on the error of eta."""
import itertools
import math

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import close, require
from causal_effect_bandits import data
from causal_effect_bandits import parameters

INF = math.inf
ROWS = {1: [(0.0,), (1.0,), (-2.0,), (0.5,)],
        2: [(0.0, 1.0), (1.0, 1.0), (2.0, -1.0), (0.0, 0.0)],
        3: [(1.0, 0.0, 0.0), (0.0, 2.0, 1.0), (1.0, 1.0, -1.0),
            (0.0, 0.0, 1.0)]}


def mu_radius(x, delta, g, rho):
  """Radius of the self-normalised bound, or inf if nothing bounds it."""
  d = x.shape[1]
  v = x.T @ x
  num = g * math.log(np.linalg.det(g * v + rho * np.eye(d)))
  den = g * (d * math.log(rho) + 2 * math.log(delta))
  if num <= den:
    return INF
  if np.linalg.matrix_rank(x) < d:
    return INF
  # v (v + rho/g I)^-1 v has eigenvalues l^2 / (l + rho/g)
  lam = np.linalg.eigvalsh(v).min()
  return math.sqrt(num - den) / math.sqrt(lam**2 / (lam + rho / g))


def expected(kind, d, delta, g, rho, overlap):
  if kind == "aipw":
    r = mu_radius(d.cov, delta, g, rho)
    return r * (1 + (1 / overlap - 2))
  delta = delta / 3
  r = mu_radius(np.c_[d.exp, d.cov], delta, g, rho)
  n, dt = len(d), delta / 3
  if n <= dt**2 / 4 / rho:
    t = INF
  else:
    t = math.sqrt(1 / n * (.25 + rho / n) * math.log(
        (n / 4 + rho) / (dt**2 * rho)))
  return r + t * (1 / overlap - 1) + r * 2 * (1 / overlap - 1)


def make(kind, dim, overlap):
  if kind == "aipw":
    return parameters.AIPWLinearLogistic(dim, 1, overlap)
  return parameters.FrontDoorLinearFiniteZ(dim, 1, overlap)


def body(ctx, cfg):
  kind, dim, overlap = cfg["kind"], cfg["dim"], cfg["overlap"]
  idx = cfg["rows"]
  if isinstance(idx, int):  # many different rows
    cov = np.array([[(i * (j + 2) + j * j + i * i * (j + 1)) % 7 - 3 +
                     cfg.get("drift", 0) * (i // 64)
                     for j in range(dim)] for i in range(idx)], dtype=float)
    cov *= cfg.get("unit", 1)
    idx = (idx, cfg.get("drift", 0)) + tuple(2 * i // 3 for i in range(idx))
  else:
    cov = np.array([ROWS[dim][i] for i in idx])
  exp = np.array([int(i + k + cfg["shift"]) % 2
                  for k, i in enumerate(idx[-len(cov):])])
  if not 0 < exp.sum() < len(exp):
    exp[0] = 1 - exp[0]
  d = data.ExpData(cov, exp, np.arange(len(cov)) * 1.0)
  eta = make(kind, dim, overlap)
  if "dtypes" in cfg:  # the same numbers, stored more narrowly
    a, b = cfg["dtypes"]
    eta.fit(data.ExpData(cov.astype(a), exp.astype(b), d.rsp))
    require(ctx, np.array_equal(cov.astype(a).astype(float), cov),
            "the harness changes the numbers")
  else:
    eta.fit(d)
  for g, rho in cfg["grho"]:
    last = None
    for delta in cfg.get("deltas", (0.001, 0.05, 0.3, 0.9)):
      got = eta.calculate_cs_width(delta, sub_g=g, rho=rho)
      ctx.step()
      want = expected(kind, d, delta, g, rho, overlap)
      require(ctx, not isinstance(got, complex) and not np.iscomplexobj(got)
              and not np.isnan(got),
              lambda: f"rows {idx}: the width is {got}")
      require(ctx, got == want or close(got, want, rtol=1e-6),
              lambda: f"{kind}, rows {idx}, treated {exp}, delta={delta}, "
              f"sub_g={g}, rho={rho}: the width is {got}, should be {want}")
      require(ctx, got > 0, lambda: f"width {got}")
      if last is not None and not math.isinf(want):
        require(ctx, got <= last * (1 + 1e-9),
                lambda: f"rows {idx}: the width grew from {last} to {got} "
                "with a larger delta")
      last = got
      ctx.outcome(kind, math.isinf(want))
  ctx.state(kind, dim, idx, overlap)
  ctx.note((kind, idx, got))


def unfit(ctx, cfg):
  """Without a fit nothing bounds the error."""
  eta = make(cfg["kind"], cfg["dim"], 0.1)
  for op in cfg["ops"]:
    if op == "reset":
      eta.reset()
    else:
      n = {"rejected": (0, 4), "adequate": (3, 3)}[op]
      exp = np.array([1] * n[0] + [0] * n[1])
      eta.fit(data.ExpData(np.arange(len(exp) * cfg["dim"]).reshape(
          len(exp), cfg["dim"]) % 5 * 1.0, exp, exp * 1.0))
  require(ctx, not eta.has_enough_samples(), "counts as fit")
  got = eta.calculate_cs_width(0.1, sub_g=1.0, rho=0.5)
  require(ctx, got == INF,
          lambda: f"{cfg}: the error of a model that was not fit is bounded "
          f"by {got}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["kind"])


def harnesses(tier):
  cfgs = []
  sizes = (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6)
  grho = [(1.0, 0.1), (0.5, 1.0), (2.0, 3.0)]
  for kind in ("aipw", "frontdoor"):
    for dim in (1, 2, 3):
      for n in sizes:
        for i, idx in enumerate(
            itertools.combinations_with_replacement(range(4), n)):
          for overlap in (0.05, 0.25):
            cfgs.append(dict(kind=kind, dim=dim, rows=idx, overlap=overlap,
                             shift=i % 2, grho=grho))
      for n in (8, 40):  # larger, well conditioned
        for base in itertools.combinations(range(4), 3):
          cfgs.append(dict(kind=kind, dim=dim, rows=base * n, overlap=0.1,
                           shift=0, grho=grho))
  wide = []
  for kind in ("aipw", "frontdoor"):
    for dim in (1, 2, 4, 5, 7):
      for n in (30, 65, 240, 600, 1300) if dim < 4 else (65, 300, 700):
        for drift in (0, 0.25):
          wide.append(dict(kind=kind, dim=dim, rows=n, overlap=0.1, shift=0,
                           drift=drift, deltas=(1e-12, 1e-9, 1e-6, 1e-4, .999),
                           grho=[(1e-4, 1.0), (1e-3, 0.01), (0.1, 100.0),
                                 (1.0, 1.0), (40.0, 0.5), (40.0, 20.0)]))
  narrow = []
  for kind in ("aipw", "frontdoor"):
    for n in (6, 300) if tier == "quick" else (6, 100, 300, 700):
      for dim, base in ((1, (0, 1, 1)), (2, (0, 1, 1, 3)), (3, (0, 2, 3))):
        for a in ("i1", "i2", "i4", "f4", "u1", "u8", "?"):
          if dim == 3 and a != "i1" or dim == 2 and a[0] in "u?":
            continue
          for b in ("i1", "?", "f8"):
            narrow.append(dict(
                kind=kind, dim=dim, rows=(base * n)[:n], overlap=0.1, shift=0,
                deltas=(0.05,), grho=grho, dtypes=(a, b)))
  for kind in ("aipw", "frontdoor"):  # covariates in large or small units
    for unit in (1e-5, 1e-3, 0.03, 1e3):
      for dim in (1, 2, 3):
        for n in (30, 240):
          wide.append(dict(kind=kind, dim=dim, rows=n, overlap=0.1, shift=0,
                           unit=unit, deltas=(1e-6, 0.05, .9),
                           grho=[(1.0, 1.0), (1.0, unit**2), (2.0, 0.1)]))
  return [
      Harness("narrow", body, narrow,
              rule="every numeric type of covariates and treatment that "
              "stores the numbers, up to 300 (700) rows"),
      Harness("wide", body, wide,
              rule="up to 7 covariates and 1300 different rows, tolerances "
              "from 1e-12, scales from 1e-4 to 40"),
      Harness("widths", body, cfgs,
              rule="every multiset of covariate rows of the listed sizes "
              "(collinear and all-zero ones included)"),
      Harness("unfit", unfit,
              [dict(kind=k, dim=dim, ops=o) for k in ("aipw", "frontdoor")
               for dim in (1, 2) for n in range(4)
               for o in itertools.product(("rejected", "reset", "adequate"),
                                          repeat=n)
               if "adequate" not in o or "reset" in o[o[::-1].index(
                   "adequate") * -1 or n:]],
              rule="every sequence of up to three rejected fits, resets and "
              "adequate fits that leaves nothing fitted"),
  ]
