"""The linear data generator: the joint law it advertises."""
import itertools
import math

import numpy as np

from mc import env
from mc import rng
from mc.explorer import Harness
from mc.util import close, raises, require
from causal_effect_bandits import data


class Noise:
  """An injected noise model that remembers its calls."""

  def __init__(self, short=0):
    self.calls = []
    self.short = short

  def __call__(self, n):
    out = np.array([((3 * i + 7 * len(self.calls)) % 11) - 4.0
                    for i in range(n + self.short)])
    self.calls.append((n, out.copy()))
    return out


def logistic(s):
  return np.where(s > 0, 1 / (1 + np.exp(-np.abs(s))),
                  np.exp(-np.abs(s)) / (1 + np.exp(-np.abs(s))))


def make(cfg, noise=None):
  dim = cfg["dim"]
  beta = np.array(cfg["beta"][:dim])
  gamma = None if cfg["gamma"] is None else np.array(cfg["gamma"][:dim])
  kw = {} if noise is None else dict(noise_model=noise)
  gen = data.LinearDataGenerator("g", dim, beta, cfg["tau"], gamma=gamma, **kw)
  return gen, beta, np.zeros(dim) if gamma is None else gamma


def shape(ctx, d, n, dim):
  require(ctx, np.shape(d.cov) == (n, dim) and np.shape(d.exp) == (n,) and
          np.shape(d.rsp) == (n,) and len(d) == n and d.n_features == dim,
          lambda: f"shapes {np.shape(d.cov)}, {np.shape(d.exp)}, "
          f"{np.shape(d.rsp)} for {n} units, {dim} features")
  require(ctx, set(np.unique(d.exp).tolist()) <= {0, 1},
          lambda: f"treatments {np.unique(d.exp)}")


def equation(ctx, cfg):
  """y = x beta + tau t + the injected noise, drawn once per call."""
  noise = Noise()
  gen, beta, gamma = make(cfg, noise)
  for k, n in enumerate(cfg["n"]):
    d = gen.generate(n)
    ctx.step()
    shape(ctx, d, n, cfg["dim"])
    require(ctx, [c[0] for c in noise.calls] == list(cfg["n"][:k + 1]),
            lambda: f"the noise model was called with "
            f"{[c[0] for c in noise.calls]} by the calls {cfg['n'][:k + 1]}")
    want = d.cov @ beta + cfg["tau"] * d.exp + noise.calls[-1][1]
    require(ctx, close(d.rsp, want, rtol=1e-9, atol=1e-9),
            lambda: f"{cfg}: responses {d.rsp[:4]}, x beta + tau t + noise is "
            f"{want[:4]}")
    sure = np.abs(d.cov @ gamma) > 40
    require(ctx, np.array_equal(d.exp[sure], (d.cov @ gamma > 0)[sure]),
            lambda: f"{cfg}: treatments that are almost sure are wrong")
    ctx.state(cfg["dim"], n, tuple(np.asarray(d.exp[:12]).tolist()))
  g = None if cfg["gamma"] is None else gamma
  require(ctx, np.array_equal(gen.beta, beta) and gen.tau == cfg["tau"] and
          np.array_equal(gen.gamma, np.zeros(cfg["dim"]) if g is None else g),
          "the advertised parameters changed")
  ctx.outcome(cfg["dim"], cfg["tau"], cfg["beta"], cfg["gamma"])
  ctx.note((cfg, d.rsp[:2].tolist()))


def joint(ctx, cfg):
  """Moments of x and P(t | x): independent units, standard features."""
  n, dim = cfg["n"], cfg["dim"]
  gen, beta, gamma = make(cfg, Noise())
  fn = lambda: (lambda d: (np.array(d.cov), np.array(d.exp)))(gen.generate(n))
  law = rng.law(ctx, fn, patch=rng.TWO_POINT)
  exact = law is not None
  if exact:
    m1, m2 = np.zeros(n * dim), np.zeros((n * dim, n * dim))
    by_x = {}
    for w, (x, t) in law:
      v = x.reshape(-1)
      m1 += w * v
      m2 += w * np.outer(v, v)
      acc = by_x.setdefault(tuple(v), {})
      acc[tuple(t)] = acc.get(tuple(t), 0) + w
      ctx.state(dim, n, cfg["gamma"], tuple(v), tuple(t))
    require(ctx, close(m1, np.zeros(n * dim), atol=1e-9) and
            close(m2, np.eye(n * dim), atol=1e-9),
            lambda: f"{cfg}: the features have mean {m1} and covariance {m2}")
    for v, acc in by_x.items():
      x = np.array(v).reshape(n, dim)
      p = logistic(x @ gamma)
      tot = sum(acc.values())
      for t, w in acc.items():
        want = np.prod([pi if ti else 1 - pi for pi, ti in zip(p, t)])
        require(ctx, close(w / tot, want, rtol=1e-8, atol=1e-12),
                lambda: f"{cfg}: P(t={t} | x={v}) is {w / tot}, not {want}")
  else:
    # an uncountable way of drawing: compare moments over many units
    np.random.seed(env.SEED)
    big = 40000
    d = gen.generate(big)
    x, t = np.asarray(d.cov), np.asarray(d.exp)
    s = math.sqrt(big)
    require(ctx, bool(np.all(np.abs(x.mean(0)) < 8 / s)) and bool(np.all(
        np.abs(x.T @ x / big - np.eye(dim)) < 16 / s)),
            lambda: f"{cfg}: features with mean {x.mean(0)}, second moments "
            f"{x.T @ x / big}")
    r = t - logistic(x @ gamma)
    stat = np.c_[np.ones(big), x].T @ r / big
    require(ctx, bool(np.all(np.abs(stat) < 8 / s)),
            lambda: f"{cfg}: t - P(t|x) correlates with (1, x): {stat}")
  ctx.outcome(dim, n, cfg["gamma"], exact)
  ctx.note((cfg, "exact" if exact else "counted"))


def default_noise(ctx, cfg):
  """Without a noise model the noise is standard normal."""
  np.random.seed(env.SEED + 17)
  gen, beta, _ = make(cfg)
  big = 40000
  d = gen.generate(big)
  shape(ctx, d, big, cfg["dim"])
  e = d.rsp - d.cov @ beta - cfg["tau"] * d.exp
  s = math.sqrt(big)
  x = np.c_[np.ones(big), d.cov, d.exp]
  require(ctx, bool(np.all(np.abs(x.T @ e / big) < 10 / s)) and
          abs(np.mean(e**2) - 1) < 12 / s and
          abs(np.mean(e**4) - 3) < 80 / s,
          lambda: f"{cfg}: the noise has moments {x.T @ e / big}, "
          f"{np.mean(e**2)}, {np.mean(e**4)}")
  e2 = gen.generate(50)
  require(ctx, not np.array_equal(e2.cov, d.cov[:50]), "a repeated stream")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["dim"])


def invalid(ctx, cfg):
  if cfg["kind"] == "gamma":
    with raises(ctx, ValueError, f"{cfg}"):
      data.LinearDataGenerator("g", cfg["dim"], np.zeros(cfg["dim"]), 1.0,
                               gamma=np.zeros(cfg["shape"]))
  elif cfg["kind"] == "noise":
    gen = data.LinearDataGenerator("g", 2, np.zeros(2), 1.0,
                                   noise_model=Noise(cfg["short"]))
    with raises(ctx, ValueError, f"{cfg}"):
      gen.generate(cfg["n"])
  else:
    d = data.DataGenerator("base").generate(cfg["n"])
    require(ctx, len(d) == cfg["n"] and len(d.exp) == cfg["n"] and
            len(d.rsp) == cfg["n"] and np.ndim(d.cov) == 2 and
            not np.any(d.cov) and not np.any(d.exp) and not np.any(d.rsp),
            lambda: f"the base generator returned {d}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["kind"])


def harnesses(tier):
  betas = [(1.0, -2.0, 0.5), (0.0, 0.0, 0.0), (3.0, 1.0, -1.0)]
  gammas = [None, (1.0, -1.0, 0.5), (0.0, 3.0, -2.0), (200.0, -500.0, 300.0)]
  eqs, joints, dft, inv = [], [], [], []
  for dim, tau, beta, gamma in itertools.product(
      (1, 2, 3), (0.0, 2.5, -4, 12345.6789), betas, gammas):
    for n in ((1,), (3, 2), (0, 5), (40, 1, 17)):
      eqs.append(dict(dim=dim, tau=tau, beta=beta, gamma=gamma, n=n))
  for dim, gamma in itertools.product((1, 2, 3), gammas[:3]):
    for n in (1, 2, 3):
      if n * (dim + 1) <= (8 if tier == "quick" else 12):
        joints.append(dict(dim=dim, tau=1.0, beta=betas[0], gamma=gamma, n=n))
    dft.append(dict(dim=dim, tau=2.0, beta=betas[0], gamma=gamma))
  for dim, shp in itertools.product((1, 2, 3), (0, 1, 2, 3, 4, (2, 1), (1, 2))):
    if shp != dim:
      inv.append(dict(kind="gamma", dim=dim, shape=shp))
  for n, short in itertools.product((1, 3, 10), (-1, 1, 4)):
    inv.append(dict(kind="noise", n=n, short=short))
  inv += [dict(kind="base", n=n) for n in (0, 1, 7)]
  return [
      Harness("equation", equation, eqs,
              rule="every listed parameter combination and call sequence"),
      Harness("joint", joint, joints,
              rule="every combination of two-point features and treatments, "
              "weighted"),
      Harness("default-noise", default_noise, dft,
              rule="40000 units of one stream per configuration"),
      Harness("invalid", invalid, inv, rule="every listed invalid input"),
  ]
