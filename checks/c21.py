"""set_to_truth: the parameter becomes the generating model."""
import itertools

import numpy as np
from sklearn import linear_model

from mc import nuisance as nu
from mc.explorer import Harness
from mc.util import close, raises, require
from causal_effect_bandits import data
from causal_effect_bandits import parameters


def make(kind, dim, lo):
  if kind == "binary":
    return parameters.LinearParameterBinaryTreatment(dim)
  if kind == "aipw":
    return parameters.AIPWLinearLogistic(dim, 2, lo)
  # linear predictors of the user's own, with an intercept
  return parameters.AIPW(
      dim, linear_model.LinearRegression() if kind == "aipw-ols" else
      linear_model.Ridge(alpha=0.5), linear_model.LogisticRegression(C=2.0),
      min_units=2, min_overlap=lo)


def body(ctx, cfg):
  dim, tau = cfg["dim"], cfg["tau"]
  beta = np.array(cfg["beta"][:dim])
  gamma = None if cfg["gamma"] is None else np.array(cfg["gamma"][:dim])
  gen = data.LinearDataGenerator("g", dim, beta, tau, gamma=gamma)
  g = np.zeros(dim) if gamma is None else gamma
  lo = cfg["overlap"]
  eta = make(cfg["kind"], dim, lo)
  for op in cfg["before"]:
    ctx.step()
    if op == "fit":
      eta.fit(nu.dataset(dim, 4, 4))
    elif op == "reset":
      eta.reset()
    elif op == "truth2":
      eta.set_to_truth(data.LinearDataGenerator("o", dim, beta + 1, tau - 2))
    else:
      eta.fit(nu.dataset(dim, 0, 3))
  eta.set_to_truth(gen)
  ctx.step()
  require(ctx, eta.has_enough_samples(), "set_to_truth left it unfit")
  probe = nu.probe(dim)
  got = np.asarray(eta.calculate_score(probe), dtype=float)
  if cfg["kind"] != "binary":
    want = []
    for z, x, y in zip(probe.cov, probe.exp, probe.rsp):
      e = np.clip(1 / (1 + np.exp(-z @ g)), lo, 1 - lo)
      want.append(tau + (y - tau * x - z @ beta) *
                  (x / e - (1 - x) / (1 - e)))
    want = np.array(want)
  else:
    want = np.full(len(probe), float(tau))
  require(ctx, close(got, want, rtol=1e-8, atol=1e-9),
          lambda: f"{cfg}: scores {got}, the true model gives {want}")
  # noise-free data of the model itself: every score is tau
  exact = data.ExpData(probe.cov, probe.exp,
                       probe.cov @ beta + tau * probe.exp)
  s = np.asarray(eta.calculate_score(exact), dtype=float)
  require(ctx, close(s, np.full(len(s), float(tau)), rtol=1e-8, atol=1e-8),
          lambda: f"{cfg}: noise-free data scores {s}, tau is {tau}")
  require(ctx, np.array_equal(gen.beta, beta) and gen.tau == tau,
          "set_to_truth changed the generator")
  # a later fit replaces the truth
  if cfg["then_fit"]:
    d = nu.dataset(dim, 4, 5)
    eta.fit(d)
    other = make(cfg["kind"], dim, lo)
    other.fit(nu.copy(d))
    a = np.asarray(eta.calculate_score(probe), dtype=float)
    b = np.asarray(other.calculate_score(probe), dtype=float)
    require(ctx, close(a, b, rtol=2e-2, atol=2e-2),
            lambda: f"{cfg}: a fit after set_to_truth scores {a}, fresh {b}")
  ctx.state(cfg["kind"], dim, tau, cfg["beta"][:dim], cfg["gamma"],
            cfg["before"])
  ctx.outcome(cfg["kind"], tuple(np.round(want, 6)))
  ctx.note((cfg["kind"], got[:3]))


def wrong(ctx, cfg):
  """A generator the model cannot express is refused, nothing changes."""
  eta = parameters.AIPWLinearLogistic(2, 2, 0.1)
  if cfg["fit"]:
    eta.fit(nu.dataset(2, 4, 4))
  probe = nu.probe(2)
  was = np.asarray(eta.calculate_score(probe), dtype=float)
  with raises(ctx, ValueError, "set_to_truth of a non-linear generator"):
    eta.set_to_truth(data.DataGenerator("other"))
  require(ctx, bool(eta.has_enough_samples()) == cfg["fit"] and close(
      np.asarray(eta.calculate_score(probe), dtype=float), was),
          "the rejected set_to_truth changed the parameter")
  ctx.state(cfg["fit"])
  ctx.outcome(cfg["fit"])


def harnesses(tier):
  betas = [(1.0, -2.0, 0.5), (0.0, 0.0, 0.0), (3.0, 1.0, -1.0)]
  gammas = [None, (1.0, -1.0, 0.5), (4.0, 4.0, -9.0), (0.3, 0.2, 0.1)]
  befores = [(), ("fit",), ("fit", "reset"), ("bad",), ("truth2",),
             ("truth2", "fit"), ("reset",)]
  cfgs = []
  for kind, dim, tau, beta, gamma, before, lo in itertools.product(
      ("aipw", "binary"), (1, 2, 3), (0.0, -1.5, 4.0), betas, gammas, befores,
      (0.05, 0.3)):
    if kind == "binary" and (lo > 0.1 or gamma is gammas[1]):
      continue
    cfgs.append(dict(kind=kind, dim=dim, tau=tau, beta=beta, gamma=gamma,
                     before=before, overlap=lo, then_fit=len(cfgs) % 4 == 0))
  third = 1 / 3
  for kind, dim, tau, beta, gamma, before in itertools.product(
      ("aipw", "aipw-ols", "aipw-ridge", "binary"), (1, 3),
      (0.1, 1e5 + third, -2, 1e-7),
      ((0.1, -third, 3.3), (1e-6, 2e4 + 0.1, -1e-3), (7, -3, 2)),
      (None, (0.7 * third, -1e-5, 0.9), (2, -1, 0)),
      [(), ("fit",), ("truth2",), ("fit", "truth2"), ("fit", "reset", "fit")]):
    cfgs.append(dict(kind=kind, dim=dim, tau=tau, beta=beta, gamma=gamma,
                     before=before, overlap=0.01, then_fit=False))
  return [
      Harness("truth", body, cfgs,
              rule="every combination of the listed true parameters and "
              "earlier operations; every (z, x) of the grid"),
      Harness("refused", wrong, [dict(fit=False), dict(fit=True)],
              rule="unfit and fit parameter"),
  ]
