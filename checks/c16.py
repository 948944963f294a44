"""The front-door score, for every small training set."""
import itertools

import numpy as np

from mc import env  # noqa
from mc import refs
from mc.explorer import Harness
from mc.util import close, require
from causal_effect_bandits import data
from causal_effect_bandits import parameters

SUPPORT = {
    "wide": [(0.3 * i,) for i in range(19)],
    "close": [(1 / 3,), (1 / 3 + 1e-7,), (1 / 3 + 1e-9,), (-1e-7,)],
    1: [(0.0,), (1.0,), (2.5,)],
    2: [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)],
    3: [(0.0, 1.0, 2.0), (1.0, 0.0, 0.5), (1.0, 1.0, 1.0)],
}


def train_set(cfg):
  """cfg["counts"][x][k] units with treatment x at support point k."""
  z, x, y = [], [], []
  for t in (0, 1):
    for k, n in enumerate(cfg["counts"][t]):
      for i in range(n):
        z.append(SUPPORT[cfg["dim"]][k])
        x.append(t)
        y.append([1.0, -2.0, 0.5, 3.0, 0.0][(2 * len(y) + cfg["salt"]) % 5] +
                 2.0 * t * cfg["salt"])
  o = np.arange(len(x))[::-1] if cfg["salt"] % 2 else np.arange(len(x))
  return data.ExpData(
      np.array(z)[o], np.array(x, dtype=cfg["xtype"])[o], np.array(y)[o])


def body(ctx, cfg):
  dim = cfg["dim"]
  d = train_set(cfg)
  eta = parameters.FrontDoorLinearFiniteZ(
      dim if isinstance(dim, int) else 1, min_units=1,
      min_overlap=cfg["overlap"],
      min_ratio_to_uniform=cfg["ratio"])
  eta.fit(d)
  ctx.step()
  # every support point, one never seen in training, both treatments
  pts = SUPPORT[dim] + [tuple([7.0] * len(SUPPORT[dim][0]))]
  rows = [(z, x, y) for z in pts for x in (0, 1) for y in (-1.0, 2.0)]
  test = data.ExpData(
      np.array([r[0] for r in rows]),
      np.array([r[1] for r in rows], dtype=cfg["xtype"]),
      np.array([r[2] for r in rows]))
  want = refs.frontdoor_scores(d, test, cfg["overlap"], cfg["ratio"])
  got = np.asarray(eta.calculate_score(test), dtype=float)
  require(ctx, got.shape == want.shape, lambda: f"shape {got.shape}")
  for r, g, w in zip(rows, got, want):
    require(ctx, close(g, w, rtol=1e-8, atol=1e-9),
            lambda: f"counts by treatment and z {cfg['counts']}: the score of "
            f"(z, x, y)={r} is {g}, the documented formula gives {w}")
  i = len(rows) // 2
  one = np.asarray(eta.calculate_score(test[i:i + 1]), dtype=float)
  require(ctx, close(one, want[i:i + 1], rtol=1e-8, atol=1e-9),
          lambda: f"scored alone, row {rows[i]} gets {one}, not {want[i]}")
  ctx.state(tuple(map(tuple, cfg["counts"])), dim, cfg["overlap"],
            cfg["ratio"])
  ctx.outcome(tuple(np.round(want, 6)))
  ctx.note((cfg["counts"], got[:2]))


class Table:
  """A response predictor that looks its value up."""

  def __init__(self, mu):
    self.mu = mu

  def fit(self, x, y):
    pass

  def predict(self, x):
    return np.array([self.mu(int(r[0]), tuple(float(v) for v in r[1:]))
                     for r in np.asarray(x, dtype=float)])


def unbiased(ctx, cfg):
  """On a whole population, the mean score is the effect of treatment.

  The population has cfg["n"][u][x] units of confounder u and treatment x;
  within each such cell the mediator takes its values as in cfg["pz"][x], and
  the response is f(z, u). The effect by intervention is computed from these.
  """
  dim, pz, n = cfg["dim"], cfg["pz"], cfg["n"]
  pts = SUPPORT[dim][:len(pz[0])]
  den = sum(pz[0])
  f = lambda k, u: cfg["f"][k][u]
  cells = [(u, x, k, n[u][x] * pz[x][k])
           for u in (0, 1) for x in (0, 1) for k in range(len(pts))]
  tot = sum(c[3] for c in cells)
  pu = [sum(n[u]) / sum(map(sum, n)) for u in (0, 1)]
  ate = sum(pu[u] * (pz[1][k] - pz[0][k]) / den * f(k, u)
            for u in (0, 1) for k in range(len(pts)))
  px = sum(n[u][1] for u in (0, 1)) / sum(map(sum, n))
  where = {tuple(float(v) for v in z): k for k, z in enumerate(pts)}

  def true_mu(x, z):
    k = where[z]
    w = [n[u][x] for u in (0, 1)]
    return sum(w[u] * f(k, u) for u in (0, 1)) / sum(w)

  wrong_mu = lambda x, z: 1.0 - 2.0 * where[z] * (1 + x)
  d = data.ExpData(
      np.array([pts[c[2]] for c in cells for _ in range(c[3])]),
      np.array([c[1] for c in cells for _ in range(c[3])]),
      np.array([f(c[2], c[0]) for c in cells for _ in range(c[3])]))
  eta = parameters.FrontDoorLinearFiniteZ(
      dim, min_units=1, min_overlap=1e-9, min_ratio_to_uniform=1e9)
  eta.fit(d)
  table_ok, rest_ok = cfg["right"]
  eta.y_response = Table(true_mu if rest_ok else wrong_mu)
  if not rest_ok:
    eta.exp_prob = 0.375 if px != 0.375 else 0.5
  if not table_ok:
    eta.cov_given_exp.fit(
        np.array([x for x in (0, 1) for k in range(len(pts))
                  for _ in range(1 + (k + x) % 3)]),
        np.array([pts[k] for x in (0, 1) for k in range(len(pts))
                  for _ in range(1 + (k + x) % 3)]))
  got = float(np.mean(eta.calculate_score(d)))
  ctx.step()
  ctx.state(cfg["n"], cfg["pz"], cfg["f"], cfg["right"])
  ctx.outcome(round(ate, 9), cfg["right"])
  ctx.note((got, ate, tot))
  require(ctx, close(got, ate, rtol=1e-7, atol=1e-8),
          lambda: f"population {cfg}: the mean front-door score is {got}, the "
          f"treatment effect {ate}")


def harnesses(tier):
  big = tier == "thorough"
  cfgs = []
  top = 3 if big else 2
  cells = [c for c in itertools.product(range(top + 1), repeat=3) if sum(c)]
  for dim in (1, 2, 3):
    for c0 in cells:
      for c1 in cells:
        n = len(cfgs)
        cfgs.append(dict(dim=dim, counts=(c0, c1), salt=n % 4,
                         overlap=(0.05, 0.25)[n % 2],
                         ratio=(10, 2, 20)[n % 3],
                         xtype=(int, float, np.int32, bool)[n % 4]
                         if n % 5 == 0 else int))
  # unbalanced treatments, where the clip of P(X) matters
  for dim in (1, 2):
    for a, b in ((9, 1), (1, 9), (30, 1), (1, 40)):
      cfgs.append(dict(dim=dim, counts=((a, 1, 0), (0, b, 1)), salt=1,
                       overlap=0.25, ratio=10, xtype=int))
  # many support points; points that differ by rounding errors' worth
  for n in range(1, 20):
    for salt in range(4):
      cfgs.append(dict(
          dim="wide", salt=salt, overlap=0.05, ratio=(10, 2, 40)[n % 3],
          counts=([1 + i % 3 for i in range(n)], [i * salt % 4 for i in
                                                  range(n - 1)] + [2]),
          xtype=int))
  for c0, c1 in itertools.product(itertools.product((0, 1, 3), repeat=4),
                                  ((1, 0, 2, 0), (0, 2, 1, 1), (2, 2, 2, 2))):
    if sum(c0):
      cfgs.append(dict(dim="close", counts=(c0, c1), salt=1, overlap=0.05,
                       ratio=10, xtype=int))
  pop = []
  sizes = (1, 3) if not big else (1, 2, 5)
  ns = [((a, b), (c, e)) for a, b, c, e in itertools.product(sizes, repeat=4)]
  for k in (2, 3):
    rows = [r for r in itertools.product(range(1, 5), repeat=k)
            if sum(r) == (4 if k == 2 else 5)]
    for pz in itertools.product(rows, repeat=2):
      for i, n in enumerate(ns):
        for right in ((True, True), (True, False), (False, True)):
          pop.append(dict(dim=(1, 2, 3)[i % 3], pz=pz, n=n, right=right,
                          f=((0.0, 1.0), (2.0, -1.0), (0.5, 4.0))[:k]))
  return [
      Harness("training-sets", body, cfgs,
              rule="every table of counts over (x, z) with up to "
              f"{top} units per cell; every row of the evaluation grid"),
      Harness("mean-is-effect", unbiased, pop,
              rule="every front-door population over the listed counts, with "
              "the true mediator table, or the true response and treatment "
              "models, or both")
  ]
