"""Small helpers shared by the checks."""
import contextlib
import itertools

import numpy as np

from mc import env  # noqa
from mc.explorer import Violation


def require(ctx, cond, message):
  """One evaluated assertion."""
  ctx.check()
  if not cond:
    raise Violation(message() if callable(message) else message)


def close(a, b, rtol=1e-9, atol=1e-12):
  """Equal up to reordering of floating-point operations; nan equals nan."""
  a = np.asarray(a, dtype=float)
  b = np.asarray(b, dtype=float)
  if a.shape != b.shape:
    return False
  return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same_array(a, b):
  if a is None or b is None:
    return a is None and b is None
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and bool(np.array_equal(a, b))


@contextlib.contextmanager
def raises(ctx, exc, what):
  """The block must raise exactly this kind of exception."""
  ctx.check()
  try:
    yield
  except exc:
    return
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: expected {exc.__name__}, got "
                    f"{type(e).__name__}: {e}") from None
  raise Violation(f"{what}: expected {exc.__name__}, nothing was raised")


def subsets(xs, lo=0, hi=None):
  xs = list(xs)
  hi = len(xs) if hi is None else hi
  for r in range(lo, hi + 1):
    yield from itertools.combinations(xs, r)


def product_cfgs(**axes):
  """All combinations of the given axes, as dicts."""
  keys = list(axes)
  return [
      dict(zip(keys, vals)) for vals in itertools.product(*axes.values())
  ]
