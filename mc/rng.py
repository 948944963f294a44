"""Takes the module-level numpy random functions over for one execution.

Discrete draws (permutation, shuffle, choice, binomial with n=1, randint over a
small range) become choice points, so that all their results are explored;
continuous draws come from the seeded numpy stream. Oracles never depend on
which function the code calls: a rewrite that draws differently only changes
what is enumerated.
"""
import contextlib
import itertools
import math

import numpy as np

from mc import env

_real = {
    k: getattr(np.random, k)
    for k in ("permutation", "shuffle", "choice", "binomial", "randint",
              "default_rng", "RandomState")
}


def arrangements(values):
  """Distinct orders of a sequence of hashables, identity order first."""
  key = tuple(values)
  if key not in _arr_cache:
    if len(_arr_cache) > 2000:
      _arr_cache.clear()
    _arr_cache[key] = _arrangements(key)
  return _arr_cache[key]


_arr_cache = {}


def _arrangements(values):
  values = list(values)
  out = []
  def rec(rest, acc):
    if not rest:
      out.append(acc)
      return
    used = set()
    for i, v in enumerate(rest):
      if v in used:
        continue
      used.add(v)
      rec(rest[:i] + rest[i + 1:], acc + [v])
  rec(values, [])
  return out


def n_arrangements(values):
  n = math.factorial(len(values))
  for v in set(values):
    n //= math.factorial(list(values).count(v))
  return n


class Control:

  def __init__(self, ctx, dev=False, max_branch=4096, representatives=6):
    self.ctx = ctx
    self.dev = dev
    self.max_branch = max_branch
    self.reps = representatives
    self.log = []
    self.weight = 1.0  # probability of the answers given so far
    self.exact = True  # no draw was answered by a representative or the stream

  def _spread(self, total):
    """Indices explored at a choice with `total` alternatives."""
    if total <= self.max_branch:
      return None
    self.ctx.stats.capped += 0
    return self.reps

  def permutation(self, x):
    isint = isinstance(x, (int, np.integer))
    arr = np.arange(x) if isint else np.array(x)
    if arr.ndim != 1 or len(arr) < 2:
      return arr if arr.ndim == 1 else _real["permutation"](x)
    vals = arr.tolist()
    if n_arrangements(vals) <= self.max_branch:
      alls = arrangements(vals)
      p = alls[self.ctx.choose(len(alls), self.dev, "permutation")]
      self.weight /= len(alls)
      out = np.array(p, dtype=arr.dtype)
    else:
      # too many: rotations and the reversal, as representatives
      self.exact = False
      k = self.ctx.choose(self.reps, self.dev, "permutation*")
      if k == self.reps - 1:
        out = arr[::-1].copy()
      else:
        out = np.roll(arr, k * max(1, len(arr) // self.reps))
    self.log.append(("permutation", len(arr)))
    return out

  def shuffle(self, x):
    y = self.permutation(np.array(x))
    for i, v in enumerate(y):
      x[i] = v

  def choice(self, a, size=None, replace=True, p=None):
    if isinstance(a, (int, np.integer)):
      pool = list(range(a))
      conv = lambda v: np.array(v)
    else:
      pool = list(a)
      arr = np.array(a) if not _is_object_seq(a) else None
      if arr is not None:
        conv = lambda v: np.array(v, dtype=arr.dtype)
      else:
        def conv(v):
          o = np.empty(len(v), dtype=object)
          for i, e in enumerate(v):
            o[i] = e
          return o
    idx = list(range(len(pool)))
    if p is not None:
      if len(p) != len(pool) or any(v < 0 for v in p) or abs(sum(p) - 1) > 1e-8:
        return _real["choice"](a, size=size, replace=replace, p=p)  # raises
      idx = [i for i in idx if p[i] > 0]
    prob = [1.0 / len(pool)] * len(pool) if p is None else list(p)
    if size is None:
      i = idx[self.ctx.choose(len(idx), self.dev, "choice")]
      self.weight *= prob[i]
      v = pool[i]
      if isinstance(a, np.ndarray) or isinstance(a, (int, np.integer)):
        return np.asarray(v)[()] if not isinstance(v, np.generic) else v
      return v
    n = int(np.prod(size)) if not isinstance(size, (int, np.integer)) else int(
        size)
    out = []
    left = list(idx)
    branching = len(idx)**n if replace else math.perm(len(idx), n)
    if branching > self.max_branch:
      self.exact = False
      return _real["choice"](a, size=size, replace=replace, p=p)
    for _ in range(n):
      j = left[self.ctx.choose(len(left), self.dev, "choice[]")]
      self.weight *= prob[j] / (1 if replace else sum(prob[i] for i in left))
      out.append(pool[j])
      if not replace:
        left.remove(j)
    res = conv(out)
    return res.reshape(size) if not isinstance(size,
                                               (int, np.integer)) else res

  def binomial(self, n, p, size=None):
    pa = np.asarray(p, dtype=float)
    if np.any((pa < 0) | (pa > 1)) or np.any(np.isnan(pa)):
      raise ValueError("p < 0, p > 1 or p is NaN")
    shape = pa.shape if size is None else (
        (size,) if isinstance(size, (int, np.integer)) else tuple(size))
    tot = int(np.prod(shape)) if shape else 1
    if not np.all(np.asarray(n) == 1) or 2**tot > self.max_branch:
      self.exact = False
      return _real["binomial"](n, p, size)
    pb = np.broadcast_to(pa, shape).reshape(-1) if shape else pa.reshape(-1)
    out = []
    for i in range(tot):
      if pb[i] <= 0:
        out.append(0)
      elif pb[i] >= 1:
        out.append(1)
      else:
        c = self.ctx.choose(2, self.dev, "binomial")
        self.weight *= pb[i] if c else 1 - pb[i]
        out.append(c)
    out = np.array(out, dtype=int)
    return out.reshape(shape) if shape else int(out[0])

  def randint(self, low, high=None, size=None, dtype=int):
    lo, hi = (0, low) if high is None else (low, high)
    if size is None and 0 < hi - lo <= 64:
      self.weight /= hi - lo
      return lo + self.ctx.choose(int(hi - lo), self.dev, "randint")
    self.exact = False
    return _real["randint"](low, high, size, dtype)


def _is_object_seq(a):
  try:
    e = list(a)
  except TypeError:
    return False
  return any(
      not isinstance(v, (int, float, bool, np.generic, str)) for v in e)


@contextlib.contextmanager
def controlled(ctx, dev=False, only=None, **kw):
  c = Control(ctx, dev, **kw)
  names = ("permutation", "shuffle", "choice", "binomial",
           "randint") if only is None else only
  for k in names:
    setattr(np.random, k, getattr(c, k))

  def default_rng(seed=None):
    c.exact = False
    return _real["default_rng"](env.SEED if seed is None else seed)

  np.random.default_rng = default_rng
  try:
    yield c
  finally:
    for k, v in _real.items():
      setattr(np.random, k, v)


class _Inner:
  """The choice points of one execution inside law()."""

  def __init__(self, prefix, stats):
    self.prefix, self.stats = prefix, stats
    self.points, self.choices = [], []

  def choose(self, n, dev=False, label=""):
    i = len(self.choices)
    c = self.prefix[i] if i < len(self.prefix) else 0
    self.points.append(n)
    self.choices.append(c)
    self.stats.transitions += 1
    return c


def law(ctx, fn, only=None, patch=None):
  """The exact law of fn(): [(probability, result)], or None.

  Every sequence of random answers is enumerated and weighted. None when fn
  also draws from the continuous stream, whose law cannot be enumerated.
  `patch` names further random functions, enumerated by
  patch[name](control, *args).
  """
  out, prefix = [], []
  while True:
    inner = _Inner(prefix, ctx.stats)
    with controlled(inner, only=only) as c:
      for k, f in (patch or {}).items():
        _saved = getattr(np.random, k)
        setattr(np.random, k, _bind(f, c))
        _real.setdefault(k, _saved)
      before = _stream()
      res = fn()
      if not c.exact or _stream() != before:
        return None
    out.append((c.weight, res))
    i = len(inner.choices) - 1
    while i >= 0 and inner.choices[i] + 1 >= inner.points[i]:
      i -= 1
    if i < 0:
      return out
    prefix = inner.choices[:i] + [inner.choices[i] + 1]


def _bind(f, c):
  return lambda *a, **k: f(c, *a, **k)


def _stream():
  s = np.random.get_state()
  return (s[1].tobytes(), s[2], s[3], s[4])


def _signs(c, n):
  """n independent fair values +-amplitude (1 by default), enumerated."""
  amp = getattr(c, "amplitude", 1.0)
  if 2**n > c.max_branch:
    c.exact = False
    return np.full(n, amp)
  out = []
  for _ in range(n):
    out.append(amp if c.ctx.choose(2, False, "sign") else -amp)
    c.weight /= 2
  return np.array(out)


def _normal(c, loc=0.0, scale=1.0, size=None):
  loc, scale = np.asarray(loc, float), np.asarray(scale, float)
  if np.any(scale < 0):
    raise ValueError("scale < 0")
  shape = np.broadcast(loc, scale).shape if size is None else (
      (size,) if isinstance(size, (int, np.integer)) else tuple(size))
  n = int(np.prod(shape)) if shape else 1
  out = loc + scale * _signs(c, n).reshape(shape)
  return out if shape else float(out)


def _multivariate(c, mean, cov, size=None, **_):
  mean, cov = np.asarray(mean, float), np.asarray(cov, float)
  if mean.ndim != 1:
    raise ValueError("mean must be 1 dimensional")
  if cov.shape != (len(mean), len(mean)):
    raise ValueError("cov must be 2 dimensional and square")
  shape = () if size is None else (
      (size,) if isinstance(size, (int, np.integer)) else tuple(size))
  n = int(np.prod(shape)) if shape else 1
  w, v = np.linalg.eigh(cov)
  root = v * np.sqrt(np.clip(w, 0, None))
  e = _signs(c, n * len(mean)).reshape(n, len(mean))
  return (mean + e @ root.T).reshape(shape + (len(mean),))


# The Gaussian draws with the two-point law of the same mean and covariance:
# what is linear in the noise keeps its exact mean and covariance.
TWO_POINT = {
    "normal": _normal,
    "standard_normal": lambda c, size=None: _normal(c, 0.0, 1.0, size),
    "randn": lambda c, *shape: _normal(c, 0.0, 1.0, shape if shape else None),
    "multivariate_normal": _multivariate,
}


def two_point(amplitude):
  """TWO_POINT with the noise multiplied by `amplitude`."""
  def scaled(f):
    def g(c, *a, **k):
      c.amplitude = amplitude
      return f(c, *a, **k)
    return g
  return {k: scaled(f) for k, f in TWO_POINT.items()}
