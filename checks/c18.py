"""Scores of the two linear nuisance parameters, for every small dataset."""
import itertools

import numpy as np

from mc import env  # noqa
from mc import refs
from mc.explorer import Harness
from mc.util import close, product_cfgs, require
from causal_effect_bandits import data
from causal_effect_bandits import parameters

POINTS = {
    1: [(0.0,), (1.0,), (-2.0,)],
    2: [(0.0, 1.0), (1.0, 1.0), (2.0, -1.0)],
    3: [(0.0, 1.0, 1.0), (1.0, -1.0, 0.0), (0.5, 0.0, 2.0)],
}


def make(dim, rows):
  return data.ExpData(
      np.array([POINTS[dim][z] for z, _, _ in rows]),
      np.array([x for _, x, _ in rows]), np.array([y for _, _, y in rows]))


def grid(dim, xs):
  return make(dim, [(z, x, y) for z in range(3) for x in xs
                    for y in (-1.0, 2.0)])


def regression(ctx, cfg):
  dim, lam = cfg["dim"], cfg["lam"]
  d = make(dim, cfg["rows"])
  n = len(d)
  eta = parameters.LinearRegressionParameter(dim, l_reg=lam)
  for r in cfg["before"]:
    eta.fit(make(dim, r))
    ctx.step()
  eta.fit(d)
  ctx.step()
  m = np.c_[d.exp, d.cov]
  inv = np.linalg.inv(m.T @ m + lam * np.eye(dim + 1)) * n
  test = grid(dim, (0, 1, -1.5))
  got = np.asarray(eta.calculate_score(test), dtype=float)
  want = np.array([
      inv[0] @ np.r_[x, z] * y for z, x, y in zip(test.cov, test.exp, test.rsp)
  ])
  require(ctx, close(got, want, rtol=1e-8, atol=1e-9),
          lambda: f"trained on {cfg['rows']}: scores {got}, should be {want}")
  # in sample, the scores average to the ridge coefficient of the treatment
  coef, _ = refs.ridge(m, d.rsp, lam, False)
  require(ctx, close(np.mean(eta.calculate_score(d)), coef[0], rtol=1e-8,
                     atol=1e-9),
          lambda: f"trained on {cfg['rows']}: the mean in-sample score is "
          f"{np.mean(eta.calculate_score(d))}, the coefficient {coef[0]}")
  require(ctx, eta.has_enough_samples(), "not fit")
  ctx.state(dim, lam, cfg["rows"])
  ctx.outcome(tuple(np.round(want, 6)))
  ctx.note((cfg["rows"], got[:3]))


def binary(ctx, cfg):
  dim = cfg["dim"]
  rows = cfg["rows"]
  d = make(dim, rows)
  eta = parameters.LinearParameterBinaryTreatment(dim)
  for r in cfg["before"]:
    eta.fit(make(dim, r))
    ctx.step()
  eta.fit(d)
  ctx.step()
  fits = {}
  for t in (0, 1):
    mask = d.exp == t
    fits[t] = refs.ridge(d.cov[mask], d.rsp[mask], 1.0, True)
  test = grid(dim, (0, 1))
  got = np.asarray(eta.calculate_score(test), dtype=float)
  mu = lambda t, z: fits[t][1] + z @ fits[t][0]
  want = np.array([mu(1, z) - mu(0, z) for z in test.cov])
  require(ctx, close(got, want, rtol=1e-7, atol=1e-8),
          lambda: f"trained on {rows}: scores {got}, should be {want}")
  ctx.state(dim, rows)
  ctx.outcome(tuple(np.round(want, 6)))
  ctx.note((rows, got[:3]))


def scaled(ctx, cfg):
  """Datasets of up to hundreds of units, columns of very different scales."""
  dim, n = cfg["dim"], cfg["n"]
  i = np.arange(n)
  cov = np.column_stack([
      cfg["scale"]**j * (((i + 1) * (2 * j + 3) * 7919 % 101) / 50.0 - 1 +
                         cfg["shift"]) for j in range(dim)])
  exp = (i * 5 % 7 % 2) if cfg["binary"] else ((i * 37 % 23) / 7.0 - 1)
  exp[:2] = (0, 1)
  rsp = (i * 31 % 17) / 4.0 + exp * 2 + cov @ np.ones(dim)
  d = data.ExpData(cov, exp, rsp)
  k = min(n, 40)
  ctx.step()
  ctx.state(repr(cfg))
  if cfg["binary"]:
    eta = parameters.LinearParameterBinaryTreatment(dim)
    eta.fit(d)
    f = [refs.ridge(cov[exp == t], rsp[exp == t], 1.0, True) for t in (0, 1)]
    want = f[1][1] - f[0][1] + cov[:k] @ (f[1][0] - f[0][0])
  else:
    eta = parameters.LinearRegressionParameter(dim, l_reg=cfg["lam"])
    eta.fit(d)
    m = np.c_[exp, cov]
    inv = np.linalg.inv(m.T @ m + cfg["lam"] * np.eye(dim + 1)) * n
    want = (m[:k] @ inv[0]) * rsp[:k]
  got = np.asarray(eta.calculate_score(d[:k]), dtype=float)
  top = max(1.0, float(np.max(np.abs(want))))
  ctx.outcome(dim, cfg["binary"], round(float(want[0]), 4))
  ctx.note((cfg, got[:3]))
  require(ctx, close(got / top, want / top, rtol=1e-6, atol=1e-7),
          lambda: f"{cfg}: scores {got[:5]}..., should be {want[:5]}...")


TYPES = {"?": (0, 1), "i1": (-100, 127), "u1": (0, 250), "i2": (-300, 300),
         "i8": (-9, 9), "f2": (-30, 30), "f4": (-30, 30)}


def typed(ctx, cfg):
  """Columns of every numeric type."""
  dim, n = 2, cfg["n"]
  i = np.arange(n)
  def col(t, k):
    lo, hi = TYPES[t]
    return (lo + (i * k * 7919 + k) % 1009 % (hi - lo + 1)).astype(t)
  cov = np.column_stack([col(cfg["cov"], k) for k in (3, 11)])
  exp = (i * 5 % 7 % 2).astype(cfg["exp"])
  exp[:2] = (0, 1)
  rsp = col(cfg["rsp"], 5)
  z, x, y = (np.asarray(v, dtype=float) for v in (cov, exp, rsp))
  d = data.ExpData(cov, exp, rsp)
  ctx.step()
  ctx.state(repr(cfg))
  if cfg["binary"]:
    eta = parameters.LinearParameterBinaryTreatment(dim)
    eta.fit(d)
    f = [refs.ridge(z[x == t], y[x == t], 1.0, True) for t in (0, 1)]
    want = f[1][1] - f[0][1] + z @ (f[1][0] - f[0][0])
  else:
    eta = parameters.LinearRegressionParameter(dim)
    eta.fit(d)
    m = np.c_[x, z]
    want = (m @ np.linalg.inv(m.T @ m + 0.1 * np.eye(dim + 1))[0]) * y * n
  got = np.asarray(eta.calculate_score(d), dtype=float)
  top = max(1.0, float(np.max(np.abs(want))))
  tol = 1e-4 if cfg["cov"][0] == "f" or cfg["rsp"][0] == "f" else 1e-7
  ctx.outcome(cfg["binary"], round(float(want[0]), 4))
  ctx.note((cfg, got[:3]))
  require(ctx, close(got / top, want / top, rtol=tol, atol=tol),
          lambda: f"{cfg}: scores {got[:5]}..., should be {want[:5]}...")


def harnesses(tier):
  n_max = 3 if tier == "quick" else 4
  reg, binr = [], []
  ys = (-1.0, 2.0)
  units = [(z, x, y) for z in range(3) for x in (0, 1) for y in ys]
  before = [(), ((((0, 1, 5.0), (1, 0, -4.0), (2, 1, 1.0)),))]
  for dim in (1, 2, 3):
    for n in range(1, n_max + 1):
      for i, rows in enumerate(
          itertools.combinations_with_replacement(units, n)):
        reg.append(dict(dim=dim, lam=(0.1, 1.0, 3.0)[i % 3], rows=rows,
                        before=before[i % 2]))
        if {x for _, x, _ in rows} == {0, 1}:
          binr.append(dict(dim=dim, rows=rows[::-1] if i % 2 else rows,
                           before=before[i // 2 % 2]))
    # continuous treatments
    for rows in itertools.product(
        [(z, x, y) for z in range(3) for x in (0.5, -2.0) for y in ys],
        repeat=2):
      reg.append(dict(dim=dim, lam=0.1, rows=rows, before=()))
  return [
      Harness("linear-regression", regression, reg,
              rule=f"every multiset of up to {n_max} units over 3 covariate "
              "points, 2 treatments, 2 responses; fresh and refit"),
      Harness("linear-binary", binary, binr,
              rule="those with both treatments; fresh and refit"),
      Harness("scaled", scaled,
              product_cfgs(dim=[1, 2, 3, 4, 6], n=[12, 40, 101, 300, 1000],
                           scale=[1.0, 3.0, 10.0], shift=[0.0, 0.7],
                           binary=[True, False], lam=[0.1, 2.0]),
              rule="every combination of dimension, size and scale"),
      Harness("typed", typed,
              product_cfgs(cov=list(TYPES), exp=list(TYPES), rsp=list(TYPES),
                           n=[9, 40], binary=[True, False]),
              rule="every combination of numeric types of the columns"),
  ]
