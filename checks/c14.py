"""AIPW scores for arbitrary predictors, and their double robustness."""
import itertools

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import close, require
from causal_effect_bandits import data
from causal_effect_bandits import parameters


class Response:
  """Predicts mu(x, z) from a function; the first column is the treatment."""

  def __init__(self, fn):
    self.fn = fn
    self.fits = []

  def fit(self, x, y):
    self.fits.append((np.array(x), np.array(y)))

  def predict(self, x):
    return np.array([self.fn(r[0], tuple(r[1:])) for r in np.asarray(x)],
                    dtype=float)


class Propensity:

  def __init__(self, fn):
    self.fn = fn
    self.fits = []

  def fit(self, x, y):
    self.fits.append((np.array(x), np.array(y)))

  def predict_proba(self, x):
    p = np.array([self.fn(tuple(r)) for r in np.asarray(x)], dtype=float)
    return np.c_[1 - p, p]


MUS = {
    "lin": lambda x, z: 1.0 + 2.0 * x + 3.0 * sum(z),
    "inter": lambda x, z: (x - 0.5) * (1.0 + 4.0 * z[0]) - 2.0 * z[-1],
    "flat": lambda x, z: 0.75,
}


def trained(dim, mu, e, min_overlap):
  """An AIPW with stub predictors, fit on an admissible dataset."""
  r, p = Response(mu), Propensity(e)
  eta = parameters.AIPW(dim, r, p, min_units=1, min_overlap=min_overlap)
  cov = np.array([[float((i >> j) & 1) for j in range(dim)]
                  for i in range(6)])
  d = data.ExpData(cov, np.arange(6) % 2, np.arange(6) * 1.0)
  eta.fit(d)
  return eta


def score(ctx, cfg):
  dim = cfg["dim"]
  mu = MUS[cfg["mu"]]
  ps = cfg["ps"]
  e = lambda z: ps[0] if z[0] == 0 else ps[1]
  lo = cfg["overlap"]
  eta = trained(dim, mu, e, lo)
  rows = []
  for z in itertools.product((0.0, 1.0), repeat=dim):
    for x in (0, 1):
      for y in (-1.0, 0.0, 2.5):
        rows.append((z, x, y))
  want = []
  for z, x, y in rows:
    q = min(max(e(z), lo), 1 - lo)
    want.append(
        mu(1, z) - mu(0, z) + (y - mu(x, z)) * (x / q - (1 - x) / (1 - q)))
  want = np.array(want)
  d = data.ExpData(
      np.array([r[0] for r in rows]), np.array([r[1] for r in rows]),
      np.array([r[2] for r in rows]))
  order = cfg["order"]
  idx = {
      "all": np.arange(len(rows)),
      "reverse": np.arange(len(rows))[::-1],
      "odd": np.arange(1, len(rows), 2),
      "long": np.arange(1311) * 7 % len(rows),
  }[order]
  got = eta.calculate_score(d[idx])
  ctx.step(len(idx))
  require(ctx, np.shape(got) == (len(idx),),
          lambda: f"scores have shape {np.shape(got)}")
  for k, i in enumerate(idx):
    require(ctx, close(got[k], want[i]),
            lambda: f"mu={cfg['mu']}, propensity {ps} clipped to "
            f"[{lo}, {1 - lo}]: the score of (z, x, y)={rows[i]} is {got[k]}, "
            f"should be {want[i]}")
    ctx.state(cfg["mu"], ps, lo, rows[i])
  for i in idx[:4]:  # one row at a time gives the same numbers
    g = eta.calculate_score(d[np.array([i])])
    require(ctx, close(g, want[[i]]), "the score of a row depends on others")
  ctx.outcome(tuple(np.round(want, 6)))
  ctx.note((rows[:3], got[:3]))


def robust(ctx, cfg):
  """Exact population: the mean score is the ATE if either model is right."""
  # z in {0, 1} with the given numbers of units; within z, treated and control
  # units; the response is the conditional mean plus/minus a spread.
  n = cfg["n"]  # n[z] = (control, treated), number of pairs
  m = cfg["m"]  # m[z] = (mean control, mean treated)
  rows = []
  for z in (0, 1):
    for x in (0, 1):
      for _ in range(n[z][x]):
        for s in (-cfg["spread"], cfg["spread"]):
          rows.append((float(z), x, m[z][x] + s))
  tot = sum(n[0]) + sum(n[1])
  ate = sum(sum(n[z]) * (m[z][1] - m[z][0]) for z in (0, 1)) / tot
  true_e = lambda z: n[int(z[0])][1] / sum(n[int(z[0])])
  true_mu = lambda x, z: m[int(z[0])][int(x)]
  d = data.ExpData(
      np.array([[r[0]] for r in rows]), np.array([r[1] for r in rows]),
      np.array([r[2] for r in rows]))
  for wrong in cfg["wrong"]:
    if wrong == "mu":
      mu = lambda x, z: 3.0 - x * (1 + z[0])
      e = true_e
    else:
      mu = true_mu
      e = lambda z: 0.75 - 0.5 * z[0]
    eta = trained(1, mu, e, 0.05)
    got = np.mean(eta.calculate_score(d))
    ctx.step(len(rows))
    require(ctx, close(got, ate, rtol=1e-9, atol=1e-9),
            lambda: f"population {n}, means {m}, wrong {wrong}: the mean score"
            f" is {got}, the average treatment effect is {ate}")
    ctx.state(n, m, wrong)
    ctx.outcome(round(ate, 9), wrong)


def training(ctx, cfg):
  """What the two models are trained on."""
  dim, n = cfg["dim"], cfg["n"]
  cov = np.array([[(i * 7 + 3 * j) % 5 * 1.0 for j in range(dim)]
                  for i in range(n)])
  exp = np.array(cfg["exp"])
  rsp = np.arange(n) * 10.0 + 1
  r, p = Response(MUS["flat"]), Propensity(lambda z: 0.5)
  eta = parameters.AIPW(dim, r, p, min_units=min(sum(exp), n - sum(exp)))
  eta.fit(data.ExpData(cov, exp, rsp))
  ctx.step()
  ctx.state(dim, n, cfg["exp"])
  ctx.outcome(n, dim)
  require(ctx, len(r.fits) == 1 and len(p.fits) == 1,
          lambda: f"{len(r.fits)} response and {len(p.fits)} propensity fits")
  want = sorted((float(x),) + tuple(z) + (y,)
                for x, z, y in zip(exp, cov.tolist(), rsp))
  x, y = r.fits[0]
  got = sorted(tuple(map(float, a)) + (b,) for a, b in zip(x, y))
  require(ctx, got == want,
          lambda: f"the response model was trained on {got[:4]}")
  want = sorted((tuple(z), float(x)) for x, z in zip(exp, cov.tolist()))
  x, y = p.fits[0]
  got = sorted((tuple(a), float(b)) for a, b in zip(x.tolist(), y))
  require(ctx, got == want,
          lambda: f"the propensity model was trained on {got[:4]}")


def harnesses(tier):
  big = tier == "thorough"
  ps = [0.0, 0.01, 0.04, 0.05, 0.3, 0.5, 0.77, 0.95, 0.99, 1.0]
  cfgs = []
  for dim in (1, 2, 3) if big else (1, 2):
    for mu in MUS:
      for a in ps:
        for b in (ps if big else (0.0, 0.3, 0.5, 0.97, 1.0)):
          for lo in (0.05, 0.25, 0.4, 1e-3):
            cfgs.append(dict(dim=dim, mu=mu, ps=(a, b), overlap=lo,
                             order=["all", "reverse", "odd"][len(cfgs) % 3]))
        cfgs.append(dict(cfgs[-1], order="long"))
  cells = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
  means = [(0.0, 1.0), (2.0, -1.0), (0.5, 0.5)]
  pops = []
  for n0, n1 in itertools.product(cells, repeat=2):
    for m0, m1 in itertools.product(means, repeat=2):
      pops.append(dict(n=(n0, n1), m=(m0, m1), spread=0.25 + len(pops) % 3,
                       wrong=("mu", "e")))
  tr = [dict(dim=d, n=n, exp=e) for d in (1, 2, 3)
        for n in ((1, 2, 3, 5, 8) if big else (1, 2, 3, 5))
        for e in itertools.product((0, 1), repeat=n)]
  tr += [dict(dim=d, n=n, exp=tuple((i * j) % 3 % 2 for i in range(n)))
         for d in (1, 3) for n in (65, 257, 1030) for j in (1, 2)]
  return [
      Harness("score", score, cfgs,
              rule="every (z, x, y) of a small grid under every listed "
              "response function, propensity pair and overlap"),
      Harness("double-robustness", robust, pops,
              rule="every population with 1..3 units per (z, x) cell and every"
              " listed table of means; one of the two models wrong"),
      Harness("training-columns", training, tr,
              rule="every treatment vector of the listed lengths, the gate "
              "exactly met"),
  ]
