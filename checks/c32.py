"""softmax: a probability vector with the right ratios, for any magnitude."""
import itertools
import math

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import close, require
from causal_effect_bandits import nonlinear_utils
from causal_effect_bandits import paper_utils

FNS = {"paper_utils": paper_utils.softmax,
       "nonlinear_utils": nonlinear_utils.softmax}


def exact(x):
  m = max(x)
  e = [math.exp(v - m) for v in x]
  s = math.fsum(e)
  return [v / s for v in e]


def body(ctx, cfg):
  f = FNS[cfg["fn"]]
  cols = []
  for _ in range(cfg["cols"] or 1):
    cols.append([ctx.pick(cfg["letters"], label="x") for _ in range(cfg["n"])])
  x = np.array(cols[0]) if not cfg["cols"] else np.array(cols).T
  keep = x.copy()
  got = np.asarray(f(x))
  ctx.step()
  want = np.array(exact(cols[0])) if not cfg["cols"] else np.array(
      [exact(c) for c in cols]).T
  require(ctx, close(got, want, rtol=1e-9, atol=1e-300),
          lambda: f"{cfg['fn']}: softmax of {x.tolist()} is {got.tolist()}, "
          f"should be {want.tolist()}")
  require(ctx, np.array_equal(x, keep), "the input was modified")
  ctx.state(cfg["fn"], cols)
  ctx.outcome(tuple(np.round(want.ravel(), 9)))
  ctx.note((cfg["fn"], cols))


TYPES = {"u1": [0, 1, 200, 255], "i1": [-128, 0, 3, 127], "?": [False, True],
         "i2": [-32768, 5, 32767], "u8": [0, 2, 40], "i4": [0, -7, 2**31 - 1],
         "i8": [0, -7, 2**40], "f4": [0.0, -1.5, 1e30], "f2": [0.0, 2.0, 6e4],
         "list": [0, -1.5, 1000]}


def types(ctx, cfg):
  f, t = FNS[cfg["fn"]], cfg["type"]
  v = [ctx.pick(TYPES[t], label="x") for _ in range(cfg["n"])]
  x = list(v) if t == "list" else np.array(v, dtype=t)
  want = exact([float(u) for u in x])
  got = np.asarray(f(x), dtype=float)
  ctx.step()
  tol = 2e-3 if t == "f2" else 1e-5 if t == "f4" else 1e-9
  require(ctx, close(got, want, rtol=tol, atol=tol if t in ("f2", "f4")
                     else 1e-300),
          lambda: f"{cfg['fn']}: softmax of {v} as {t} is {got.tolist()}, "
          f"should be {want}")
  require(ctx, list(x) == list(v) or t in ("f2", "f4"),
          "the input was modified")
  ctx.state(cfg["fn"], t, v)
  ctx.outcome(tuple(np.round(want, 6)))
  ctx.note((cfg, v))


def lengths(ctx, cfg):
  i = np.arange(cfg["n"])
  x = cfg["scale"] * (((i * 7919) % 1009) / 504.0 - 1.0)
  keep = x.copy()
  got = np.asarray(FNS[cfg["fn"]](x))
  ctx.step()
  want = exact(x.tolist())
  require(ctx, close(got, want, rtol=1e-9, atol=1e-300),
          lambda: f"{cfg}: off by {np.max(np.abs(got - want))}")
  require(ctx, abs(math.fsum(got) - 1) < 1e-9, "does not sum to one")
  require(ctx, np.array_equal(x, keep), "the input was modified")
  ctx.state(repr(cfg))
  ctx.outcome(repr(cfg))
  ctx.note(cfg)


def harnesses(tier):
  vals = [0.0, 1.0, -2.0, 30.0, 1000.0, -745.0, 1e308]
  cfgs = []
  for fn in FNS:
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
      cfgs.append(dict(fn=fn, n=n, cols=0, letters=vals))
    for n, c in ((1, 2), (2, 2), (3, 2), (2, 3)):
      cfgs.append(dict(fn=fn, n=n, cols=c, letters=[0.0, 1.0, -2.0, 30.0]))
    # columns of very different magnitude
    for n, c in ((1, 2), (2, 2), (1, 3)):
      cfgs.append(dict(fn=fn, n=n, cols=c, letters=vals))
  typed = [dict(fn=fn, type=t, n=n) for fn in FNS for t in TYPES
           for n in (1, 2, 3)]
  long = [dict(fn=fn, n=n, scale=s) for fn in FNS
          for n in (7, 64, 1000, 20011) for s in (0.01, 1.0, 500.0)]
  return [
      Harness("types", types, typed,
              rule="every vector of up to 3 entries over the extremes of each "
              "numeric type, and as a list"),
      Harness("long", lengths, long, rule="every listed length and scale"),
      Harness("vectors", body, cfgs,
                  rule="every vector over 7 values (up to 4 entries; thorough "
                  "5) and every small matrix over 4 values")]
