"""The arms under a recording nuisance parameter and enumerated splits.

Rows carry identities: covariate column 0 is the identity, the treatment is its
parity and the response ten times it. The transformer handed to the arm keeps
column 0 and adds 0.5, so a row that reaches the nuisance parameter untouched,
or transformed twice, is recognisable.
"""
import numpy as np

from mc import env  # noqa
from mc import rng
from mc.explorer import Prune, Violation
from causal_effect_bandits import arms
from causal_effect_bandits import data

CI = {
    "chi2": arms.CIAlgorithm.CHI2,
    "clt": arms.CIAlgorithm.CLT,
    "finite": arms.CIAlgorithm.FINITE_SAMPLE,
}


def rows(start, n):
  ids = np.arange(start, start + n)
  return data.ExpData(
      np.c_[ids * 1.0, -ids * 1.0 - 7], ids % 2, ids * 10.0)


def transformer(d):
  return data.ExpData(d.cov[:, :1] + 0.5, d.exp, d.rsp)


def ids_of(d, ctx):
  """Identities of the rows of d; checks that the columns belong together."""
  c = np.asarray(d.cov, dtype=float)
  c = c.reshape(len(c), -1) if c.size else c.reshape(0, 1)
  if c.shape[1] != 1 and len(c):
    raise Violation(f"eta was handed {c.shape[1]} columns, the transformer "
                    "returns 1")
  c = c.reshape(-1)
  ids = [int(round(v - 0.5)) for v in c]
  ctx.check()
  if len(d) != len(c) or any(i + 0.5 != v for i, v in zip(ids, c)):
    raise Violation(f"eta was handed rows that the transformer did not "
                    f"produce: {c.tolist()}")
  if list(np.asarray(d.exp)) != [i % 2 for i in ids] or list(
      np.asarray(d.rsp)) != [i * 10.0 for i in ids]:
    raise Violation(
        f"treatment or response columns no longer match the covariates: "
        f"{c.tolist()}, {d.exp}, {d.rsp}")
  return ids


SCORES = {
    "a": [0.0, 1.0, 3.0, -2.0, 0.5],
    "b": [2.0, 2.0, -1.0],
    "c": [1.0, -4.0, 0.25, 8.0, 0.0, 3.0, -1.0],
    "const": [1.5],
    "spike": [0.0, 0.01, 0.0, 0.02, 0.0, 0.01, 0.0, 0.01, 0.0, 1000.0],
    "far": [1e6, 1e6 + 1, 1e6 - 2],
    # heavy tailed: few scores share a size
    "tail": [(-1)**k * 40.0 / (1 + (37 * k) % 1409) for k in range(1409)],
    "nan": [1.0, np.nan, 2.0],
}


class RecordingEta:
  """A nuisance parameter that remembers what it was fit on and asked."""

  def __init__(self, ctx, scores="a", enough=None, width=0.0, min_fit=1):
    self.ctx = ctx
    self.table = SCORES[scores]
    self.enough_policy = enough
    self.width = width
    self.min_fit = min_fit
    self.calls = []
    self.widths = []
    self.resets = 0
    self.possible = True  # the driver clears it while no row can be evaluated
    self.clear()

  def clear(self):
    self.fitted = None
    self.enough = False
    self.nfits = 0

  def reset(self):
    self.resets += 1
    self.calls.append(("reset",))
    self.clear()

  def fit(self, d):
    ids = ids_of(d, self.ctx)
    self.nfits += 1
    self.calls.append(("fit", tuple(ids)))
    if not self.enough:
      if self.possible and len(ids) >= self.min_fit:
        self.enough = True if self.enough_policy is None else (
            self.enough_policy(ids))
    if self.enough:
      self.fitted = ids

  def has_enough_samples(self):
    return self.enough

  def gain(self, fitted):
    return 1.0 + (sum(fitted) % 3)

  def score(self, i, fitted):
    return self.table[(11 * i + 1) % len(self.table)] * self.gain(fitted)

  def calculate_score(self, d):
    ids = ids_of(d, self.ctx)
    self.calls.append(("score", tuple(ids), None if self.fitted is None else
                       tuple(self.fitted)))
    if self.fitted is None:
      return np.full(len(ids), np.nan)
    return np.array([self.score(i, self.fitted) for i in ids])

  def calculate_cs_width(self, delta, sub_g, rho):
    self.widths.append((delta, sub_g, rho))
    return self.width


def balanced(n, k=2):
  return {n // k, -(-n // k)}
