"""The CPD building blocks: exact means, exact noise laws, exact Bernoullis."""
import itertools
import math

import numpy as np

from mc import env
from mc import rng
from mc.explorer import Harness
from mc.util import close, raises, require
from causal_effect_bandits import scm

ASSUMPTIONS = [
    "Gaussian draws are replaced by two-point draws of the same mean and "
    "covariance while a law is enumerated",
]


def arrays(n, dims, salt=0, integer=False):
  """One parent per entry; 0 stands for a one-dimensional array."""
  out = []
  for k, d in enumerate(dims):
    base = (np.arange(n) * (k + 2) + salt) % 5 - 1.0
    a = base if d == 0 else np.column_stack(
        [base * (j + 1) - j * 0.5 for j in range(d)]).reshape(n, d)
    out.append(a.astype(int) if integer and k == 0 else a)
  return out


def weights(dims, out):
  """Coefficients matching `dims`; out 0 means a scalar variable."""
  ws = []
  for k, d in enumerate(dims):
    if d == 0:
      ws.append(np.float64(1.5 - k))
    elif out == 0:
      ws.append(np.array([0.5 * (j + 1) - k for j in range(d)]))
    else:
      ws.append(np.array([[0.5 * (j + 1) - k + 0.25 * o for o in range(out)]
                          for j in range(d)]))
  return ws


FNS = [lambda x: x**2, np.sin, lambda x: 3 * x - 1, np.cos, np.tanh,
       lambda x: -x, lambda x: x**3]
MEANS = {0: [0.0, 1.5, -2], 2: [np.zeros(2), np.array([1.0, -3.0])],
         3: [np.array([0.5, 0.0, 2.0])]}


def covs(out):
  if out == 0:
    return [0.0, 1.0, 0.25, 4.0, 1e-4, 900.0]
  a = np.eye(out)
  b = np.full((out, out), 0.5) + np.diag(np.arange(1.0, out + 1))
  signs = np.array([1.0, -1.0, 1.0])[:out]
  return [np.zeros((out, out)), a, b, 1e-4 * b, 900.0 * a,
          np.outer(signs, signs) * b, 2.0 * np.outer(signs, signs)]


def mean_of(cfg, ps, ws):
  """The noise-free part, by hand."""
  if cfg["fn"] == "add":
    x = np.asarray(ps[0], dtype=float)
    return x.reshape(-1) if cfg["out"] == 0 else x
  if cfg["fn"] == "structural":
    x = np.column_stack(ps)
    tot = x.sum(1) + x[:, 0]**2
    return tot if cfg["out"] == 0 else np.column_stack(
        [tot + o for o in range(cfg["out"])])
  tot = 0
  for k, (p, w) in enumerate(zip(ps, ws)):
    t = np.asarray(p, dtype=float).dot(w)
    tot = tot + (FNS[k](t) if cfg["fn"] == "transformed" else t)
  return tot


def draw(cfg, ps, ws, mean, cov):
  if cfg["fn"] == "normal":
    return scm.normal_cpd(ps, ws, mean, cov)
  if cfg["fn"] == "transformed":
    return scm.transformed_normal_cpd(ps, ws, FNS[:len(ps)], mean, cov)
  if cfg["fn"] == "add":
    return scm.add_gaussian_noise(ps[0], mean, cov)
  def f(x):
    tot = x.sum(1) + x[:, 0]**2
    if cfg["out"] == 0:
      return tot.reshape(-1, 1) if cfg["column"] else tot
    return np.column_stack([tot + o for o in range(cfg["out"])])
  return scm.structural_equation_with_noise(ps, f, mean, cov)


def exact_mean(ctx, cfg):
  """Without noise the result is the structural equation, unit by unit."""
  n, out = cfg["n"], cfg["out"]
  ps = arrays(n, cfg["dims"], cfg["salt"], cfg["integer"])
  ws = weights(cfg["dims"], out)
  keep = [p.copy() for p in ps]
  kw = [np.copy(w) for w in ws]
  base = mean_of(cfg, ps, ws)
  for mean in MEANS[out]:
    got = np.asarray(draw(cfg, ps, ws, mean, covs(out)[0]), dtype=float)
    want = base + mean
    ctx.step()
    require(ctx, close(got, want, rtol=1e-9, atol=1e-9),
            lambda: f"{cfg}, mean {mean}, no noise: {got.tolist()}, shape "
            f"{got.shape}; should be {want.tolist()}")
  require(ctx, all(np.array_equal(a, b) and a.dtype == b.dtype
                   for a, b in zip(ps, keep)) and all(
                       np.array_equal(a, b) for a, b in zip(ws, kw)),
          lambda: f"{cfg}: the parents or coefficients were modified")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["fn"], np.round(base, 6).tolist())
  ctx.note((cfg, base[:2].tolist()))


def noise_law(ctx, cfg):
  """Mean and covariance of the noise, over units and components."""
  n, out = cfg["n"], cfg["out"]
  ps = arrays(n, cfg["dims"])
  ws = weights(cfg["dims"], out)
  base = np.asarray(mean_of(cfg, ps, ws), dtype=float)
  size = max(1, out)
  for mean in MEANS[out]:
    for cov in covs(out)[1:]:
      fn = lambda: np.asarray(draw(cfg, ps, ws, mean, cov), dtype=float)
      # the same law, stretched: far values of the noise are not cut off
      amp = cfg.get("amp", 1.0)
      law = rng.law(ctx, fn, patch=rng.two_point(amp))
      exact = law is not None
      if not exact:
        law = []
        for s in range(4000):
          np.random.seed((env.SEED * 65537 + s) % 2**32)
          law.append((1 / 4000, fn()))
      m, c = 0, 0
      for w, v in law:
        require(ctx, v.shape == base.shape,
                lambda: f"{cfg}: shape {v.shape}, not {base.shape}")
        m = m + w * v
        r = (v - base - mean).reshape(-1)
        c = c + w * np.outer(r, r)
        ctx.state(cfg["fn"], out, n, np.round(r, 6).tolist() if exact else 0)
      big = 1 + np.max(np.abs(cov))
      tol = 1e-9 if exact else 0.35 * big
      if not exact:
        amp = 1.0
      want = amp**2 * np.kron(np.eye(n), np.reshape(cov, (size, size)))
      tol *= amp**2
      require(ctx, close(m, base + mean, rtol=0, atol=tol),
              lambda: f"{cfg}, mean {mean}, cov {cov}: expectation {m}, should "
              f"be {base + mean}")
      require(ctx, close(c, want, rtol=0, atol=tol),
              lambda: f"{cfg}, cov {cov}: the noise of {n} units has "
              f"covariance {c.tolist()}, should be {want.tolist()}")
  ctx.outcome(cfg["fn"], out, n, exact)
  ctx.note((cfg, "exact" if exact else "counted", len(law)))


def bernoulli(ctx, cfg):
  """The law of the binary CPDs: P(1) is the logistic of the score."""
  n, dims = cfg["n"], cfg["dims"]
  ps = [p * cfg["scale"] for p in arrays(n, dims, cfg["salt"])]
  ws = weights(dims, 0)
  score = sum(p.dot(w) for p, w in zip(ps, ws))
  keep = [p.copy() for p in ps]
  if cfg["fn"] == "linear":
    fn = lambda: scm.logistic_linear_bernoulli_cpd(ps, ws)
  else:
    score = score**2 - 1
    fn = lambda: scm.logistic_bernoulli_cpd(
        ps, lambda q: sum(p.dot(w) for p, w in zip(q, ws))**2 - 1)
  p = np.array([1 / (1 + math.exp(-s)) if s > -700 else 0.0 for s in score])
  law = rng.law(ctx, lambda: np.asarray(fn()))
  exact = law is not None
  if not exact:
    law = []
    for s in range(4000):
      np.random.seed((env.SEED * 65537 + s) % 2**32)
      law.append((1 / 4000, np.asarray(fn())))
  m, c = np.zeros(n), np.zeros((n, n))
  for w, v in law:
    require(ctx, v.shape == (n,) and set(v.tolist()) <= {0, 1},
            lambda: f"{cfg}: {v.tolist()} are not {n} binary values")
    m += w * v
    c += w * np.outer(v, v)
    ctx.state(cfg["fn"], v.tolist(), np.round(p, 9).tolist())
  tol = 1e-9 if exact else 0.07
  require(ctx, close(m, p, rtol=0, atol=tol),
          lambda: f"{cfg}: P(1) is {m.tolist()}, the logistic of the score is "
          f"{p.tolist()}")
  want = np.outer(p, p)
  np.fill_diagonal(want, p)
  require(ctx, close(c, want, rtol=0, atol=tol),
          lambda: f"{cfg}: units are not independent: E[vv'] = {c.tolist()}, "
          f"should be {want.tolist()}")
  require(ctx, all(np.array_equal(a, b) for a, b in zip(ps, keep)),
          "the parents were modified")
  ctx.outcome(cfg["fn"], np.round(p, 4).tolist(), exact)
  ctx.note((cfg, p.tolist()))


def large(ctx, cfg):
  """Many units: every unit has its own noise of the right scale."""
  n, out = cfg["n"], cfg["out"]
  ps = arrays(n, cfg["dims"])
  ws = weights(cfg["dims"], out)
  base = np.asarray(mean_of(cfg, ps, ws), dtype=float)
  for mean in MEANS[out]:
    for cov in covs(out)[1:3]:
      np.random.seed(env.SEED + 11)
      got = np.asarray(draw(cfg, ps, ws, mean, cov), dtype=float)
      ctx.step(n)
      require(ctx, got.shape == base.shape,
              lambda: f"{cfg}: shape {got.shape}, not {base.shape}")
      r = (got - base - mean).reshape(n, -1)
      require(ctx, len(np.unique(np.round(r, 9), axis=0)) == n,
              lambda: f"{cfg}: of {n} units only "
              f"{len(np.unique(np.round(r, 9), axis=0))} have noise of their "
              "own")
      c = r.T @ r / n
      want = np.reshape(cov, c.shape)
      tol = 12 * np.max(np.abs(want)) / math.sqrt(n)
      require(ctx, np.all(np.abs(r.mean(0)) <= 8 * np.sqrt(
          np.diag(want) / n)) and np.all(np.abs(c - want) <= tol),
              lambda: f"{cfg}: the noise of {n} units has mean "
              f"{r.mean(0).tolist()} and covariance {c.tolist()}, should be "
              f"{want.tolist()}")
      lag = r[1:].T @ r[:-1] / n
      require(ctx, np.all(np.abs(lag) <= tol),
              lambda: f"{cfg}: neighbouring units are correlated: "
              f"{lag.tolist()}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["fn"], n)


def large_bernoulli(ctx, cfg):
  """Many units: the sum of what the score predicts."""
  n, dims = cfg["n"], cfg["dims"]
  ps = arrays(n, dims)
  ws = weights(dims, 0)
  score = sum(p.dot(w) for p, w in zip(ps, ws)) * cfg["scale"]
  np.random.seed(env.SEED + 12)
  if cfg["fn"] == "linear":
    got = scm.logistic_linear_bernoulli_cpd([p * cfg["scale"] for p in ps], ws)
  else:
    got = scm.logistic_bernoulli_cpd(ps, lambda q: score)
  got = np.asarray(got)
  ctx.step(n)
  require(ctx, got.shape == (n,) and set(got.tolist()) <= {0, 1},
          lambda: f"{cfg}: not {n} binary values")
  p = 1 / (1 + np.exp(-score))
  for value in np.unique(np.round(score, 9)):
    m = np.abs(score - value) < 1e-6
    q, k = p[m].mean(), m.sum()
    require(ctx, abs(got[m].mean() - q) <= 8 * math.sqrt(
        q * (1 - q) / k) + 1e-12 + 20 / k * (q * (1 - q) < 20 / k),
            lambda: f"{cfg}: {k} units with score {value}: "
            f"{got[m].sum()} ones, probability {q}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["fn"], n)


def categorical(ctx, cfg):
  """Unit by unit, the distribution selected by the conditioning parent."""
  n, idx, dims = cfg["n"], cfg["idx"], cfg["dims"]
  ps = arrays(n, dims)
  if cfg.get("cats"):  # many categories, one assignment
    cats = [i * cfg["cats"] % cfg["k"] for i in range(n)]
  else:
    cats = [ctx.choose(cfg["k"], label="category") for _ in range(n)]
  ps.insert(idx, np.array(cats, dtype=cfg["dtype"]))
  others = [p.copy() for i, p in enumerate(ps) if i != idx]

  def value(c, parents):
    """Tells the category and every parent value apart."""
    v = 100.0 * (c + 1)
    for k, p in enumerate(parents):
      p = np.asarray(p, dtype=float).reshape(-1)
      v += (3.0**(k + 1)) * (p @ (0.25 * np.arange(1, len(p) + 1)))
    return v

  def dist(c):
    def f(m, parents):
      v = value(c, parents)
      return np.array([v] * m if cfg["out"] == 0 else [[v, -v]] * m)
    return f

  got = np.asarray(
      scm.categorical_conditioning(ps, idx, [dist(c) for c in range(cfg["k"])]),
      dtype=float)
  ctx.step(n)
  want = np.array([value(c, [p[i] for p in others])
                   for i, c in enumerate(cats)])
  if cfg["out"]:
    want = np.c_[want, -want]
  require(ctx, close(got.reshape(-1), want.reshape(-1)) and
          (n == 0 or got.shape == want.shape),
          lambda: f"categories {cats}, parents {others}: values "
          f"{got.tolist()}, should be {want.tolist()}")
  ctx.state(n, idx, dims, cats)
  ctx.outcome(tuple(cats))
  ctx.note((cats, got.tolist()))


def errors(ctx, cfg):
  n = 2
  if cfg["kind"] == "fns":
    ps = arrays(n, (0,) * cfg["parents"])
    with raises(ctx, ValueError, f"{cfg}"):
      scm.transformed_normal_cpd(ps, weights((0,) * cfg["parents"], 0),
                                 [FNS[0]] * cfg["fns"], 0.0, 1.0)
  elif cfg["kind"] == "conditioning":
    with raises(ctx, ValueError, f"{cfg}"):
      scm.categorical_conditioning(arrays(n, (0,) * cfg["parents"]),
                                   cfg["idx"], [lambda m, p: [0.0]] * 3)
  elif cfg["kind"] == "category":
    ps = arrays(n, (0, 0))
    ps[1] = np.array([0, cfg["category"]])
    with raises(ctx, Exception, f"{cfg}"):
      scm.categorical_conditioning(ps, 1, [lambda m, p: [0.0]] * cfg["of"])
  elif cfg["kind"] == "noise-1d":
    x = np.zeros(n) if cfg["flat"] else np.zeros((n, 1))
    with raises(ctx, ValueError, f"{cfg}"):
      scm.add_gaussian_noise(x, np.zeros((2, 1)), 1.0)
  else:
    with raises(ctx, ValueError, f"{cfg}"):
      scm.add_gaussian_noise(np.zeros((n, cfg["dim"])), np.zeros(cfg["mean"]),
                             np.eye(cfg["mean"]))
  ctx.state(repr(cfg))
  ctx.outcome(cfg["kind"])


def constant(ctx, cfg):
  got = np.asarray(scm.deterministic_cpd(cfg["n"], cfg["v"]))
  require(ctx, got.shape == (cfg["n"],) and all(g == cfg["v"] for g in got),
          lambda: f"deterministic_cpd({cfg}) is {got}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["v"])


def harnesses(tier):
  nmax = 4 if tier == "quick" else 6
  means, laws, bern, cat, err = [], [], [], [], []
  for fn in ("normal", "transformed", "structural", "add"):
    for out in (0, 2, 3):
      for r in (1, 2, 3):
        if fn == "add" and r > 1:
          continue
        for dims in itertools.product((0, 1, 2, 3), repeat=r):
          if fn in ("normal", "transformed") and 0 in dims:
            continue  # the coefficients are documented for columns
          if fn == "add" and dims[0] != out and not (out == 0 and
                                                     dims[0] == 1):
            continue
          for n in range(1, nmax + 1):
            for salt in (0, 1):
              means.append(dict(fn=fn, out=out, dims=dims, n=n, salt=salt,
                                integer=(n + salt) % 2 == 1,
                                column=(n + len(dims)) % 2 == 0))
          if r < 3:
            for n in (1, 2, 3):
              if n * max(1, out) <= (6 if tier == "quick" else 9):
                laws.append(dict(fn=fn, out=out, dims=dims, n=n,
                                 column=n % 2 == 0))
                if n * max(1, out) <= 4 and r < 2:
                  laws.append(dict(laws[-1], amp=8.0))
  # more parents than the exhaustive layouts
  for dims in ((1,) * 4, (2, 1, 3, 1), (1,) * 5, (1, 2, 1, 2, 1), (1,) * 7,
               (3, 1, 2, 1, 1, 2, 1)):
    for fn in ("normal", "transformed", "structural"):
      for out in (0, 2, 3):
        for n in (1, 4, 9):
          means.append(dict(fn=fn, out=out, dims=dims, n=n, salt=n % 2,
                            integer=False, column=n == 4))
    for fn in ("linear", "general"):
      for n in (1, 3):
        for scale in (0.01, 0.3):
          bern.append(dict(fn=fn, dims=dims, n=n, scale=scale, salt=1))
  for fn in ("linear", "general"):
    for r in (1, 2):
      for dims in itertools.product((0, 1, 2), repeat=r):
        if fn == "linear" and 0 in dims:
          continue
        for n in range(1, nmax + 1):
          for scale in (0.0, 0.3, 1.0, 1e4):
            for salt in (0, 2):
              bern.append(dict(fn=fn, dims=dims, n=n, scale=scale, salt=salt))
  for r in (0, 1, 2):
    for dims in itertools.product((0, 1, 2), repeat=r):
      for idx in range(r + 1):
        for n in range(1, nmax + 1):
          for k in (2, 3):
            for i, out in enumerate((0, 2)):
              cat.append(dict(n=n, idx=idx, dims=dims, k=k, out=out,
                              dtype=(int, float)[(n + k + i) % 2]))
  for k, step in ((40, 7), (130, 11), (300, 13), (300, 1)):
    for out in (0, 2):
      for dtype in (int, float, "int16"):
        for n in (5, k + 20):
          cat.append(dict(n=n, idx=1, dims=(1, 0), k=k, out=out, dtype=dtype,
                          cats=step))
  many, many_b = [], []
  for n in (200, 2000, 5000):
    for fn, layouts in (("normal", ((2,), (1, 1, 1))),
                        ("transformed", ((2,), (1, 2))),
                        ("structural", ((1,), (0, 2))), ("add", ((0,),))):
      for out in (0, 2, 3):
        for dims in layouts:
          many.append(dict(fn=fn, out=out, dims=(out,) if fn == "add" else dims,
                           n=n, column=True))
          means.append(dict(fn=fn, out=out, n=n, salt=0, integer=False,
                            dims=(out,) if fn == "add" else dims, column=True))
    for fn in ("linear", "general"):
      for scale in (0.3, 1.0, 2.5):
        many_b.append(dict(fn=fn, dims=(1, 2), n=n, scale=scale))
  for a, b in itertools.product((1, 2, 3), (0, 1, 2, 3)):
    if a != b:
      err.append(dict(kind="fns", parents=a, fns=b))
  for a in (0, 1, 2):
    for idx in (a, a + 1, a + 5):
      err.append(dict(kind="conditioning", parents=a, idx=idx))
  # a category without a distribution
  err += [dict(kind="category", category=k + more, of=k) for k in (1, 2, 5)
          for more in (0, 1, 7)]
  err += [dict(kind="noise-1d", flat=f) for f in (True, False)]
  for d, m in itertools.product((2, 3), (1, 2, 3, 4)):
    if d != m:
      err.append(dict(kind="noise-nd", dim=d, mean=m))
  const = [dict(n=n, v=v) for n in range(5) for v in (0, 1, -2.5)]
  return [
      Harness("mean", exact_mean, means,
              rule="every layout of 1-3 parents (1-d arrays and 1-3 columns, "
              "integer and float) and scalar or vector outcomes, 1-4 units"),
      Harness("noise", noise_law, laws,
              rule="every combination of two-point noise values, weighted"),
      Harness("bernoulli", bernoulli, bern,
              rule="every combination of binary outcomes, weighted"),
      Harness("categorical", categorical, cat,
              rule="every assignment of 2-3 categories to up to 4 units"),
      Harness("large-noise", large, many,
              rule="200 to 5000 units, one seeded draw each: distinct "
              "residuals, moments within 8 standard errors"),
      Harness("large-bernoulli", large_bernoulli, many_b,
              rule="200 to 5000 units, one seeded draw each"),
      Harness("errors", errors, err, rule="every listed invalid call"),
      Harness("constant", constant, const, rule="every listed call"),
  ]
