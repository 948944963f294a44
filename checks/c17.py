"""TabularCPD: a valid, floored, history-free conditional distribution."""
import itertools

import numpy as np

from mc import env  # noqa
from mc import refs
from mc.explorer import Harness
from mc.util import close, raises, require
from causal_effect_bandits import data

Z = {
    "1d": [(0.0,), (1.0,), (2.0,), (-3.5,)],
    "2d": [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)],
    "int": [(5,), (7,), (9,), (11,)],
    "flat": [0.0, 1.0, 2.0, 3.0],
    "close": [(1 / 3,), (1 / 3 + 1e-7,), (1 / 3 + 1e-9,), (1 / 3 + 1e-12,)],
    "wide": [(i * 0.1, -i / 3) for i in range(40)],
}
NEVER = {"1d": (99.0,), "2d": (9.0, 9.0), "int": (99,), "flat": 99.0,
         "close": (1 / 3 + 1e-5,), "wide": (0.1, 0.1)}


def build(cfg, counts):
  """counts: {x: [n per z]} -> arrays."""
  x, z = [], []
  for xv, row in counts:
    for k, n in enumerate(row):
      x += [xv] * n
      z += [Z[cfg["z"]][k]] * n
  if cfg["rev"]:
    x, z = x[::-1], z[::-1]
  return np.array(x), np.array(z)


def table(cpd, cfg, xs, zs):
  g = [(x, z) for x in xs for z in zs]
  p = cpd.predict(np.array([a for a, _ in g]), np.array([b for _, b in g]))
  return dict(zip([(a, np.atleast_1d(b).tobytes()) for a, b in g],
                  map(float, p))), g


def judge(ctx, cpd, cfg, counts, hist):
  x, z = build(cfg, counts)
  xs = sorted(set(x.tolist()))
  every = range(len(Z[cfg["z"]]))
  support = [k for k in every if any(
      k < len(r) and r[k] for _, r in counts)]
  zs = [Z[cfg["z"]][k] for k in support]
  floor = 1 / len(support) / cfg["ratio"]
  query_x = np.array(xs + [max(xs) + 5])
  query_z = zs + [NEVER[cfg["z"]]] + [
      Z[cfg["z"]][k] for k in every if k not in support]
  for xv in query_x.tolist():
    p = np.array([
        cpd.predict(np.array([xv]), np.array([q]))[0] for q in query_z])
    ctx.step()
    if xv not in xs:
      require(ctx, (p == 0).all(),
              lambda: f"{hist}: unseen x={xv} has probabilities {p}")
      continue
    row = next(r for v, r in counts if v == xv)
    want = refs.floored([row[k] if k < len(row) else 0 for k in support],
                        floor)
    p0, rest = p[:len(support)], p[len(support):]
    require(ctx, abs(p0.sum() - 1) < 1e-9,
            lambda: f"{hist}: P(.|x={xv}) sums to {p0.sum()}: {p0}")
    require(ctx, (p0 >= floor * (1 - 1e-9)).all(),
            lambda: f"{hist}: P(.|x={xv})={p0} falls under the floor {floor}")
    require(ctx, close(p0, want),
            lambda: f"{hist}: P(.|x={xv})={p0}; counts {row} with floor "
            f"{floor} give {want}")
    require(ctx, (rest == 0).all(),
            lambda: f"{hist}: z values that were not observed have "
            f"probabilities {rest} given x={xv}")
  # together: same numbers, in the order asked for
  g = [(a, b) for b in query_z for a in query_x.tolist()]
  both = cpd.predict(np.array([a for a, _ in g]), np.array([b for _, b in g]))
  single = [
      cpd.predict(np.array([a]), np.array([b]))[0] for a, b in g]
  require(ctx, close(both, single), f"{hist}: predict depends on the batch")
  require(ctx, cpd.support_size() == len(support) and sorted(
      np.asarray(s).tobytes() for s in cpd.z_support()) == sorted(
          np.asarray(s, dtype=z.dtype).tobytes() for s in zs),
          lambda: f"{hist}: z_support() is {cpd.z_support()}, seen {zs}")
  require(ctx, sorted(np.asarray(v).item() for v in cpd.x_support()) == xs,
          lambda: f"{hist}: x_support() is {cpd.x_support()}, seen {xs}")
  str(cpd)  # printing must work after queries about unseen values
  return support


def body(ctx, cfg):
  cpd = data.TabularCPD(cfg["ratio"])
  hist = []
  for counts in cfg["fits"]:
    x, z = build(cfg, counts)
    keep = x.copy(), z.copy()
    cpd.fit(x, z)
    require(ctx, (x == keep[0]).all() and (z == keep[1]).all(),
            "fit modified its arguments")
    hist.append(counts)
    s = judge(ctx, cpd, cfg, counts, hist)
    ctx.state(cfg["z"], cfg["ratio"], str(counts))
    ctx.outcome(str(counts), s)
  ctx.note(hist)


def mismatched(ctx, cfg):
  """x and z of different lengths are refused."""
  cpd = data.TabularCPD(5)
  if cfg["before"]:
    cpd.fit(np.array([0, 1, 1]), np.array([[0], [0], [1]]))
  x, z = np.arange(cfg["x"]) % 2, np.arange(cfg["z"])[:, None] % 2
  with raises(ctx, ValueError, f"fit on {cfg}"):
    cpd.fit(x, z)
  if cfg["before"]:
    got = cpd.predict(np.array([0, 1, 1]), np.array([[0], [0], [1]]))
    want = data.TabularCPD(5)
    want.fit(np.array([0, 1, 1]), np.array([[0], [0], [1]]))
    require(ctx, close(got, want.predict(np.array([0, 1, 1]),
                                         np.array([[0], [0], [1]]))),
            "a refused fit changed the table")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["before"])


def signed(ctx, cfg):
  """The two floating-point zeros are one value, of x and of z."""
  base = np.array(cfg["z"], dtype=cfg["dtype"])
  z = np.array([np.where(v == 0, -v, v) if m else v
                for v, m in zip(base, cfg["sz"])],
               dtype=cfg["dtype"]).reshape(base.shape)
  x = np.array([-v if m else v for v, m in zip((0.0, 0.0, 1.0), cfg["sx"])])
  x = x[np.arange(len(z)) % 3]
  cpd = data.TabularCPD(cfg["ratio"])
  cpd.fit(x, z)
  ctx.step()
  keys = [tuple(np.atleast_1d(v).tolist()) for v in base]
  zs = sorted(set(keys))
  require(ctx, cpd.support_size() == len(zs),
          lambda: f"{cfg}: {cpd.support_size()} support points {cpd.z_support()}"
          f", not {len(zs)}")
  floor = 1 / len(zs) / cfg["ratio"]
  for xv in (0.0, 1.0):
    row = [sum(k == q and v == xv for k, v in zip(keys, x)) for q in zs]
    if not sum(row):
      continue
    want = refs.floored(row, floor)
    for k, q in enumerate(zs):
      for sign in (1, -1):
        for sx in (1, -1) if xv == 0 else (1,):
          a = np.array([xv * sx])
          b = np.array([np.where(np.array(q) == 0, sign * 0.0, q)],
                       dtype=cfg["dtype"]).reshape((1,) + base.shape[1:])
          got = float(cpd.predict(a, b)[0])
          require(ctx, abs(got - want[k]) < 1e-9,
                  lambda: f"{cfg}: P({b}|{a}) = {got}, counts {row} give "
                  f"{want[k]}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["z"])


def harnesses(tier):
  big = tier == "thorough"
  cfgs = []
  top = 4 if big else 3
  rows2 = [r for r in itertools.product(range(top + 1), repeat=2) if sum(r)]
  rows3 = [r for r in itertools.product(range(top), repeat=3) if sum(r)]
  big_rows = [(30, 1, 0), (1, 25, 1), (0, 0, 40), (7, 6, 5), (50, 0, 1),
              (300, 2, 1), (700, 1100, 5)]
  rows4 = [(12, 1, 1, 0), (1, 0, 0, 20), (3, 3, 3, 3), (40, 2, 1, 1),
           (0, 9, 0, 1), (5, 5, 0, 0)]
  ratios = (1, 2, 5, 10, 20)
  i = 0
  for rows in (rows2, rows3, big_rows, rows4):
    for a in rows:
      for b in rows:
        i += 1
        for ratio in (ratios if rows is not rows3 or big else ratios[1::2]):
          cfgs.append(dict(z=("1d", "2d", "int", "flat")[i % 4], ratio=ratio,
                           rev=bool(i % 2), fits=[[(0, a), (1, b)]]))
  # three values of x, a single value of x, and refits in every order
  for a, b, c in itertools.product(rows2[::2], repeat=3):
    cfgs.append(dict(z="2d", ratio=5, rev=False,
                     fits=[[(0, a), (1, b), (2, c)]]))
  for a in rows3 + big_rows + rows4:
    cfgs.append(dict(z="1d", ratio=10, rev=False, fits=[[(1, a)]]))
  sets = [[(0, (1, 1)), (1, (2, 0))], [(0, (0, 0, 3)), (1, (0, 1, 1))],
          [(1, (0, 0, 0, 4))], [(2, (1, 0, 0)), (0, (0, 5, 0))],
          [(0, (1, 1, 1)), (1, (9, 0, 0))]]
  for a, b in itertools.product(rows4 + [(1, 1, 0, 0), (0, 1, 2, 0)], repeat=2):
    cfgs.append(dict(z="close", ratio=10, rev=False, fits=[[(0, a), (1, b)]]))
  for n in range(5, 41, 5 if not big else 1):
    for ratio in ratios:
      cfgs.append(dict(z="wide", ratio=ratio, rev=bool(n % 2), fits=[
          [(0, [1 + (i * i) % 4 for i in range(n)]),
           (1, [(i * 7) % 5 * (i % 3) for i in range(n)] + [1] * (n < 40))]]))
  for n in (2, 3) if not big else (2, 3, 4):
    for seq in itertools.product(sets, repeat=n):
      cfgs.append(dict(z=("1d", "2d", "int", "flat")[len(cfgs) % 4], ratio=10,
                       rev=False, fits=list(seq)))
  return [
      Harness("count-tables", body, cfgs,
              rule="every table of counts of the listed sizes, several "
              "floors, dtypes and orders, and every sequence of refits"),
      Harness("signed-zeros", signed, [
          dict(z=z, sz=sz, sx=sx, ratio=r, dtype=t)
          for z in ([0, 0, 0, 1, 1], [0, 1, 0, 0, 2], [[0], [0], [1], [0], [2]],
                    [[0, 0], [0, 1], [0, 0], [1, 0], [0, 0]])
          for sz in itertools.product((False, True), repeat=5)
          for sx in itertools.product((False, True), repeat=2)
          for sx in [sx + (False,)]
          for r in ((2, 20) if not big else (1, 2, 5, 20))
          for t in (("f8",) if not big else ("f8", "f4"))],
              rule="every choice of sign of every zero"),
      Harness("mismatched", mismatched,
              [dict(x=a, z=b, before=w) for a in range(5) for b in range(5)
               if a != b for w in (True, False)],
              rule="every pair of different lengths"),
  ]
