"""Reference models, written independently of the code under test."""
import numpy as np


def ridge(x, y, alpha, intercept):
  """Closed-form ridge regression; returns (coef, intercept)."""
  x = np.asarray(x, dtype=float)
  y = np.asarray(y, dtype=float)
  if intercept:
    mx, my = x.mean(0), y.mean()
  else:
    mx, my = np.zeros(x.shape[1]), 0.0
  xc, yc = x - mx, y - my
  coef = np.linalg.solve(xc.T @ xc + alpha * np.eye(x.shape[1]), xc.T @ yc)
  return coef, my - mx @ coef


def floored(counts, min_prob):
  """Closest distribution to counts/sum with every entry at least min_prob.

  Entries under the floor are raised to it and the excess is taken in equal
  parts from the others, until none is under the floor.
  """
  p = np.asarray(counts, dtype=float)
  p = p / p.sum()
  free = np.ones(len(p), dtype=bool)
  for _ in range(len(p) + 1):
    low = free & (p < min_prob - 1e-15)
    if not low.any():
      return p
    need = (min_prob - p[low]).sum()
    p[low] = min_prob
    free &= ~low
    if not free.any():
      return p
    p[free] -= need / free.sum()
  return p


def cpd(xs, zs, ratio):
  """P(z|x) as a dict {(x, z): p} over the observed supports."""
  zs = [tuple(np.atleast_1d(z).tolist()) for z in zs]
  xs = [np.asarray(x).item() for x in xs]
  support = list(dict.fromkeys(zs))
  floor = 1.0 / len(support) / ratio
  out = {}
  for x in set(xs):
    counts = [sum(a == x and b == z for a, b in zip(xs, zs)) for z in support]
    for z, p in zip(support, floored(counts, floor)):
      out[(x, z)] = p
  return out, support


def frontdoor_scores(train, test, min_overlap, ratio):
  """The documented front-door score of the rows of `test`."""
  beta, b0 = ridge(np.c_[train.exp, train.cov], train.rsp, 1.0, True)
  mu = lambda z, x: b0 + beta[0] * x + np.dot(beta[1:], z)
  px = np.clip(np.mean(train.exp), min_overlap, 1 - min_overlap)
  table, support = cpd(train.exp.astype(int), train.cov, ratio)
  raw = lambda z, x: table.get((x, tuple(z)), 0.0)
  clip = lambda p: min(max(p, min_overlap), 1 - min_overlap)
  out = []
  for z, x, y in zip(test.cov.tolist(), test.exp.tolist(), test.rsp):
    x = int(x)
    first = (y - mu(z, x)) * (clip(raw(z, 1)) - clip(raw(z, 0))) / clip(
        raw(z, x))
    second = sum(mu(s, x) * (raw(s, 1) - raw(s, 0)) for s in support)
    f2 = px * mu(z, 1) + (1 - px) * mu(z, 0)
    f3 = sum(
        raw(s, x) * (mu(s, 1) * px + mu(s, 0) * (1 - px)) for s in support)
    w = x / px - (1 - x) / (1 - px)
    out.append(first + second + w * (f2 - f3))
  return np.array(out)
