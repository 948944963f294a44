"""Random functions are draws of the Gaussian process their arguments name."""
import itertools

import numpy as np
from sklearn.gaussian_process import kernels

from mc import env
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import nonlinear_utils

ASSUMPTIONS = [
    "kernels with fixed hyperparameters, so that the posterior mean is a "
    "combination of known kernel columns",
    "the seeded coefficients are judged by their second moments, within 40%",
]


def kernel(name, scale):
  if name == "rbf":
    return kernels.RBF(scale, "fixed")
  if name == "matern":
    return kernels.Matern(scale, "fixed", nu=1.5)
  return kernels.ConstantKernel(4.0, "fixed") * kernels.RBF(scale, "fixed")


def points(lo, hi, n, dim):
  return np.array(list(itertools.product(*[np.linspace(lo, hi, n)] * dim)))


def draw(ctx, cfg):
  """The result is a kernel expansion over the whole grid of the range."""
  dim, n, out = cfg["dim"], cfg["n"], cfg["out"]
  lo, hi = cfg["range"]
  k = kernel(cfg["kernel"], cfg.get("scale", 0.6) * (hi - lo) / (n - 1))
  np.random.seed(5)
  f = nonlinear_utils.generate_random_nd_function(
      dim=dim, out_dim=out, kernel=k, min_x=lo, max_x=hi, n_points=n,
      seed=cfg["seed"] * 31 + env.SEED, alpha=cfg["alpha"],
      n_point_warning=10**6)
  ctx.step()
  x = points(lo, hi, n, dim)
  # the grid, points between, and points outside of the range
  width = hi - lo
  t = np.concatenate([x, x + 0.31 * width / n, x - 0.17 * width / n,
                      points(lo - width, hi + width, 5, dim)])
  keep = t.copy()
  y = np.asarray(f(t), dtype=float)
  require(ctx, y.shape == (len(t), out) and np.array_equal(t, keep),
          lambda: f"{cfg}: {len(t)} points map to shape {y.shape}")
  one = np.asarray(f(t[:1]), dtype=float)
  require(ctx, one.shape == (1, out) and np.allclose(one, y[:1], 1e-6, 1e-8),
          lambda: f"{cfg}: a single point maps to {one.tolist()}, among others "
          f"to {y[:1].tolist()}")
  cols = k(t, x)
  c = np.linalg.lstsq(cols, y, rcond=None)[0]
  res = np.abs(cols @ c - y).max()
  require(ctx, res <= 1e-5 * max(np.abs(y).max(), 1e-12),
          lambda: f"{cfg}: the function is not a kernel expansion over {n} "
          f"points per axis of [{lo}, {hi}]: residual {res} of "
          f"{np.abs(y).max()}")
  kx = k(x)
  inv = np.linalg.inv(kx + cfg["alpha"] * np.eye(len(x)))
  want = inv @ kx @ inv  # second moments of the coefficients
  got = c @ c.T / out
  scale = np.sqrt(np.outer(np.diag(want), np.diag(want)))
  ratio = np.diag(got) / np.diag(want)
  require(ctx, np.all(ratio > 0), lambda: f"{cfg}: some points are not used")
  if out >= 100:
    require(ctx, 0.75 < ratio.mean() < 1.35 and 0.4 < ratio.min() and
            ratio.max() < 1.9 and np.abs(got - want).max() <= 0.75 *
            scale.max() and (np.abs(got - want) <= 0.75 * scale).all(),
            lambda: f"{cfg}: the coefficients have second moments "
            f"{np.diag(got)[:6].tolist()}..., under the prior they are "
            f"{np.diag(want)[:6].tolist()}...")
    # components are independent of each other
    a, b = c[:, :-1], c[:, 1:]
    lag = (a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum())
    require(ctx, abs(lag) < 0.5, lambda: f"{cfg}: components correlate: {lag}")
  ctx.state(repr(cfg))
  ctx.outcome(tuple(np.round(c[:3, 0], 6)))
  ctx.note((cfg, float(ratio.mean())))


def default(ctx, cfg):
  """Any arguments give a finite function of the advertised shape."""
  kw = {a: cfg[a] for a in ("min_x", "max_x", "n_points", "alpha", "seed")
        if a in cfg}
  np.random.seed(env.SEED + 3)
  f = nonlinear_utils.generate_random_nd_function(
      cfg["dim"], *([cfg["out"]] if cfg["out"] else []), **kw)
  for n in (1, 2, 30):
    t = np.array([[((7 * i + 3 * j) % 11) / 5.0 - 1 for j in range(cfg["dim"])]
                  for i in range(n)])
    for x in [t] + ([t[:, 0]] if cfg["dim"] == 1 else []):
      y = np.asarray(f(x), dtype=float)
      ctx.step()
      require(ctx, y.shape == (n, cfg["out"] or 1) and np.isfinite(y).all(),
              lambda: f"{cfg}: {x.shape} maps to {y.shape}: {y.tolist()}")
      again = np.asarray(f(x), dtype=float)
      require(ctx, np.array_equal(y, again), "evaluating twice differs")
      # row by row
      rows = np.concatenate([np.asarray(f(x[i:i + 1])) for i in range(n)])
      require(ctx, np.allclose(rows, y, 1e-6, 1e-8),
              lambda: f"{cfg}: row by row {rows.tolist()}, together "
              f"{y.tolist()}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["dim"], cfg["out"])


def harnesses(tier):
  ranges = [(-1, 1), (0, 1), (2.0, 5.0), (-3.5, -1.25), (-0.5, 4), (-40, 60)]
  big = tier == "thorough"
  cfgs = []
  for (lo, hi), name, alpha, seed in itertools.product(
      ranges, ("rbf", "matern", "scaled"), (1e-6, 1e-3, 1.0, 100, 1e4),
      (0, 1, 77) if not big else range(12)):
    for dim, n in ((1, 2), (1, 3), (1, 7), (1, 15), (1, 40), (2, 2), (2, 4),
                   (3, 3)) + (((2, 9), (3, 4), (4, 2)) if big else ()):
      for out in (1, 200):
        if out == 200 and seed != 1:
          continue
        if (n > 15 or dim > 2) and name != "rbf":
          continue
        cfgs.append(dict(dim=dim, n=n, range=(lo, hi), kernel=name,
                         alpha=alpha, seed=seed, out=out))
  # a smooth kernel: small noise levels show in the coefficients
  for (lo, hi), n, alpha, name in itertools.product(
      ranges, (5, 7), (1e-6, 1e-4, 1e-2, 1.0), ("rbf", "scaled")):
    cfgs.append(dict(dim=1, n=n, range=(lo, hi), kernel=name, alpha=alpha,
                     seed=1, out=200, scale=1.4))
  plain = []
  for dim, out in itertools.product((1, 2, 3), (0, 1, 2, 5)):
    plain.append(dict(dim=dim, out=out))
    for seed in (0, 1, None):
      for rng in ((-1, 1), (3, 4)):
        for n in (2, 5):
          plain.append(dict(dim=dim, out=out, seed=seed, min_x=rng[0],
                            max_x=rng[1], n_points=n, alpha=0.5))
  return [
      Harness("draws", draw, cfgs,
              rule="every combination of range, kernel, noise level, number "
              "of points, dimension and seed; up to 200 components"),
      Harness("shapes", default, plain,
              rule="default and explicit arguments, 1-30 points"),
  ]
