"""ExpData: splitting, subsampling, appending and indexing."""
import itertools
import math

import numpy as np

from mc import env
from mc import rng
from mc.explorer import Harness
from mc.util import raises, require
from causal_effect_bandits import data

ASSUMPTIONS = [
    "rows carry identities in every column, so a row is recognised wherever it "
    "is found",
]
COLS = ("both", "no-exp", "no-rsp", "none")


def make(start, n, dim, cols="both"):
  """n identified rows; dim 0 stands for a one-dimensional covariate array."""
  ids = np.arange(start, start + n)
  if dim == 0:
    cov = ids + 0.5
  else:
    cov = np.column_stack([ids + 0.5 + 100 * j for j in range(dim)]).reshape(
        n, dim)
  exp = ids * 3 if cols in ("both", "no-rsp") else None
  rsp = ids * -2.0 if cols in ("both", "no-exp") else None
  return data.ExpData(cov, exp, rsp)


def ids_of(ctx, d, dim, cols, what):
  """The identities of d's rows; all of its columns must agree."""
  n = len(d)
  cov = np.asarray(d.cov, dtype=float)
  require(ctx, cov.shape == ((n,) if dim == 0 else (n, dim)),
          lambda: f"{what}: cov has shape {cov.shape}, len() is {n}")
  first = cov if dim == 0 else cov[:, 0]
  ids = [int(round(v - 0.5)) for v in first]
  ref = [make(i, 1, dim, cols) for i in ids]
  require(ctx, d.n_units == n and d.n_features == max(1, dim),
          lambda: f"{what}: n_units={d.n_units}, n_features={d.n_features}")
  require(ctx, all(np.array_equal(cov[k], r.cov[0]) for k, r in enumerate(ref)),
          lambda: f"{what}: covariate rows {cov.tolist()} were broken up")
  for name, has in (("exp", cols in ("both", "no-rsp")),
                    ("rsp", cols in ("both", "no-exp"))):
    col = getattr(d, name)
    if not has:
      require(ctx, col is None, lambda: f"{what}: {name} appeared: {col}")
      continue
    col = np.asarray(col)
    require(ctx, col.shape == (n,) and all(
        col[k] == getattr(r, name)[0] for k, r in enumerate(ref)),
            lambda: f"{what}: {name} {col.tolist()} no longer belongs to the "
            f"rows {ids}")
  return ids


def same(d, e):
  eq = lambda a, b: (a is None) == (b is None) and (
      a is None or (a.shape == b.shape and np.array_equal(a, b)))
  return eq(d.cov, e.cov) and eq(d.exp, e.exp) and eq(d.rsp, e.rsp) and (
      len(d) == len(e) and d.n_features == e.n_features)


def apart(ctx, d, parts, n, dim, cols):
  """Appending to a part reaches neither the data nor the other parts."""
  sizes = [len(p) for p in parts]
  for i, p in enumerate(parts):
    p.append(make(50, 1, dim, cols))
    sizes[i] += 1
    require(ctx, same(d, make(0, n, dim, cols)),
            "appending to a part changed the data it came from")
    require(ctx, [len(q) for q in parts] == sizes,
            "appending to a part changed another part")
  d.append(make(60, 1, dim, cols))
  require(ctx, [len(q) for q in parts] == sizes,
          "appending to the data changed a part of it")


def k_fold(ctx, cfg):
  n, k, dim, cols = cfg["n"], cfg["k"], cfg["dim"], cfg["cols"]
  d = make(0, n, dim, cols)
  with rng.controlled(ctx):
    folds = d.k_fold(k)
  require(ctx, len(folds) == k, lambda: f"{len(folds)} folds, not {k}")
  parts = [ids_of(ctx, f, dim, cols, f"k_fold({k}) of {n}") for f in folds]
  require(ctx, sorted(itertools.chain(*parts)) == list(range(n)),
          lambda: f"k_fold({k}) of {n} rows is no partition: {parts}")
  sizes = [len(p) for p in parts]
  require(ctx, max(sizes) - min(sizes) <= 1,
          lambda: f"k_fold({k}) of {n} rows has sizes {sizes}")
  require(ctx, same(d, make(0, n, dim, cols)), "k_fold changed the data")
  apart(ctx, d, folds, n, dim, cols)
  ctx.state(n, k, [sorted(p) for p in parts])
  ctx.outcome(n, k, sizes)
  ctx.note((n, k, parts))


def subsample(ctx, cfg):
  n, p, dim, cols = cfg["n"], cfg["p"], cfg["dim"], cfg["cols"]
  d = make(0, n, dim, cols)
  with rng.controlled(ctx):
    a, b = d.subsample(p)
  pa = ids_of(ctx, a, dim, cols, f"subsample({p}) first")
  pb = ids_of(ctx, b, dim, cols, f"subsample({p}) second")
  require(ctx, sorted(pa + pb) == list(range(n)),
          lambda: f"subsample({p}) of {n} rows is no partition: {pa}, {pb}")
  require(ctx, not (p == 0 and pa) and not (p == 1 and pb),
          lambda: f"subsample({p}) returned {pa}, {pb}")
  require(ctx, same(d, make(0, n, dim, cols)), "subsample changed the data")
  apart(ctx, d, [a, b], n, dim, cols)
  ctx.state(n, p, sorted(pa))
  ctx.outcome(n, len(pa))
  ctx.note((n, p, pa, pb))


def split_law(ctx, cfg):
  """The law of the split, exactly: uniform, or independent with share p.

  Should the code draw in a way that cannot be enumerated, 400 consecutive
  streams are counted instead, with a margin of 8 standard deviations.
  """
  n, p, k = cfg["n"], cfg["p"], cfg["k"]

  def draw():
    d = make(0, n, 1)
    parts = d.k_fold(k) if p is None else d.subsample(p)
    of = [None] * n
    for j, part in enumerate(parts):
      for i in ids_of(ctx, part, 1, "both", "part"):
        of[i] = j
    return tuple(of)

  outcomes = rng.law(ctx, draw)
  exact = outcomes is not None
  if not exact:
    outcomes = []
    for s in range(400):
      np.random.seed((env.SEED * 100003 + s) % 2**32)
      outcomes.append((1 / 400, draw()))
  law = {}
  for w, of in outcomes:
    law[of] = law.get(of, 0.0) + w
    ctx.state(n, p, k, of)
  if exact and p is None:
    # whatever the sizes, every partition into parts of these sizes is as likely
    by = {}
    for of, w in law.items():
      by.setdefault(tuple(of.count(j) for j in range(k)), []).append(w)
    for sizes, ws in by.items():
      count = math.factorial(n)
      for c in sizes:
        count //= math.factorial(c)
      require(ctx, len(ws) == count and max(ws) - min(ws) < 1e-9,
              lambda: f"{cfg}: {len(ws)} of {count} partitions into parts of "
              f"sizes {sizes} are drawn, with probabilities {min(ws)} to "
              f"{max(ws)}")
  elif exact:
    for of in itertools.product((0, 1), repeat=n):
      want = math.prod(p if j == 0 else 1 - p for j in of)
      require(ctx, abs(law.get(of, 0.0) - want) < 1e-9,
              lambda: f"{cfg}: the split {of} is drawn with probability "
              f"{law.get(of, 0.0)}, not {want}")
  else:
    margin = lambda q: 8 * math.sqrt(q * (1 - q) / 400) + 1e-9
    for j in range(k):
      hits, pairs = np.zeros(n), np.zeros((n, n))
      for of, w in law.items():
        part = [i for i in range(n) if of[i] == j]
        for i in part:
          hits[i] += w
        for i, i2 in itertools.combinations(part, 2):
          pairs[i, i2] += w
      if p is None:
        # any of the parts may hold the extra rows
        lo, hi = n // k / n, -(-n // k) / n
        both = [m * (m - 1) / max(1, n * (n - 1)) for m in (n // k, -(-n // k))]
      else:
        lo = hi = (p, 1 - p)[j]
        both = [lo * lo, lo * lo]
      for i in range(n):
        require(ctx, lo - margin(lo) <= hits[i] <= hi + margin(hi),
                lambda: f"{cfg}: row {i} is in part {j} with probability "
                f"{hits[i]}, not {lo}..{hi}")
      for i, i2 in itertools.combinations(range(n), 2):
        require(ctx, min(both) - margin(both[0]) <= pairs[i, i2] <=
                max(both) + margin(both[1]),
                lambda: f"{cfg}: rows {i} and {i2} share part {j} with "
                f"probability {pairs[i, i2]}, not {both}")
  ctx.outcome(n, p, k, len(law), exact)
  ctx.note((cfg, "exact" if exact else "counted", len(outcomes)))


def large(ctx, cfg):
  """Hundreds of rows: still a partition, of the right sizes, and random."""
  n, v = cfg["n"], cfg["v"]
  seen = set()
  for s in range(4):
    np.random.seed((env.SEED * 1009 + s) % 2**32)
    d = make(0, n, 1)
    parts = d.k_fold(v) if cfg["op"] == "k_fold" else d.subsample(v)
    got = [ids_of(ctx, p, 1, "both", f"{cfg}") for p in parts]
    ctx.step()
    require(ctx, sorted(itertools.chain(*got)) == list(range(n)),
            lambda: f"{cfg} is no partition")
    sizes = [len(p) for p in got]
    if cfg["op"] == "k_fold":
      require(ctx, len(got) == v and max(sizes) - min(sizes) <= 1,
              lambda: f"{cfg} gives sizes {sizes}")
    else:
      sd = math.sqrt(n * v * (1 - v))
      require(ctx, abs(sizes[0] - n * v) <= 8 * sd + 1e-9,
              lambda: f"{cfg} puts {sizes[0]} rows into the first part")
    seen.add(tuple(tuple(sorted(p)) for p in got))
    ctx.state(n, v, s, sizes)
  require(ctx, len(seen) == 4,
          lambda: f"{cfg}: {len(seen)} different splits from 4 random streams")
  ctx.outcome(cfg["op"], n)


def invalid(ctx, cfg):
  d = make(0, cfg["n"], 2)
  if cfg["op"] == "k_fold":
    with raises(ctx, ValueError, f"k_fold({cfg['v']})"):
      d.k_fold(cfg["v"])
  else:
    with raises(ctx, ValueError, f"subsample({cfg['v']})"):
      d.subsample(cfg["v"])
  require(ctx, same(d, make(0, cfg["n"], 2)), "the rejected call changed it")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["op"])


OPS = ["append0", "append1", "append2", "bad-dim", "bad-exp", "bad-rsp",
       "split-join", "sub-join", "slice", "mask", "reverse", "other", "whole"]


def sequence(ctx, cfg):
  """Operation sequences against a list of identities."""
  dim, cols = cfg["dim"], cfg["cols"]
  nxt = cfg["n"]
  d = make(0, cfg["n"], dim, cols)
  model = list(range(cfg["n"]))
  ordered = True
  hist = []
  kept = []  # (object, snapshot ids) that must never change again
  for depth in range(cfg["depth"]):
    op = cfg["first"] if depth == 0 else ctx.pick(OPS, label="op")
    hist.append(op)
    if op in ("append0", "append1", "append2", "other"):
      size = 1 if op == "other" else int(op[-1])
      # "other" carries columns that d may lack
      new = make(nxt, size, dim, "both" if op == "other" else cols)
      ref = make(nxt, size, dim, "both" if op == "other" else cols)
      d.append(new)
      require(ctx, same(new, ref), lambda: f"{hist}: append changed its input")
      # writing to the appended block later must not reach d
      new.cov[...] = -1e6
      if new.rsp is not None:
        new.rsp[...] = -1e6
      model += list(range(nxt, nxt + size))
      nxt += size
    elif op in ("bad-dim", "bad-exp", "bad-rsp"):
      if op == "bad-exp" and cols not in ("both", "no-rsp"):
        continue
      if op == "bad-rsp" and cols not in ("both", "no-exp"):
        continue
      if op == "bad-dim":
        new = make(nxt, 1, max(1, dim) + 1, cols)
      else:
        new = make(nxt, 1, dim, "no-exp" if op == "bad-exp" else "no-rsp")
      before = ids_of(ctx, d, dim, cols, f"before {hist}")
      with raises(ctx, ValueError, f"{hist}"):
        d.append(new)
      require(ctx, ids_of(ctx, d, dim, cols, f"after {hist}") == before,
              lambda: f"{hist}: the rejected append changed the data")
    elif op in ("split-join", "sub-join"):
      kept.append((d, list(model), ordered))
      with rng.controlled(ctx, only=()):
        parts = d.k_fold(2) if op == "split-join" else d.subsample(0.5)
      d = parts[0]
      d.append(parts[1])
      ordered = False
    else:
      kept.append((d, list(model), ordered))
      now = ids_of(ctx, d, dim, cols, "now")
      n = len(d)
      if op == "slice":
        key, want = slice(1, None), now[1:]
      elif op == "whole":
        key, want = slice(0, n), now
      elif op == "mask":
        m = np.array([i % 2 == 0 for i in range(n)], dtype=bool)
        key, want = m, [v for v, t in zip(now, m) if t]
      else:
        key, want = np.arange(n)[::-1], now[::-1]
      d = d[key]
      got = ids_of(ctx, d, dim, cols, f"after {hist}")
      require(ctx, got == want,
              lambda: f"{hist}: indexing gave rows {got}, not {want}")
      model = want if ordered else list(want)
    got = ids_of(ctx, d, dim, cols, f"after {hist}")
    require(ctx, sorted(got) == sorted(model),
            lambda: f"{hist}: holds rows {got}, should hold {model}")
    if ordered:
      require(ctx, got == model, lambda: f"{hist}: row order {got} not {model}")
    ctx.state(dim, cols, got)
  for obj, want, order in kept:
    got = ids_of(ctx, obj, dim, cols, f"an earlier object, after {hist}")
    require(ctx, got == want if order else sorted(got) == sorted(want),
            lambda: f"{hist}: an object derived earlier changed to {got}")
  ctx.outcome(len(model), ordered)
  ctx.note((hist, model))


def types(ctx, cfg):
  """Every number survives appending, whatever the types of the columns."""
  a, b, which = cfg["a"], cfg["b"], cfg["which"]
  val = {"?": [True, False], "i1": [1, -100], "u1": [200, 3],
         "i8": [2**40, -5], "f4": [0.5, -1.25], "f8": [1 / 3, -1e300]}
  def data_of(t):
    col = {}
    for k in ("cov", "exp", "rsp"):
      x = np.array(val[t if k == which or which == "all" else "f8"],
                   dtype=t if k == which or which == "all" else "f8")
      col[k] = x.reshape(-1, 1) if k == "cov" else x
    return data.ExpData(col["cov"], col["exp"], col["rsp"]), col
  d, c = data_of(a)
  want = {k: v.ravel().tolist() for k, v in c.items()}
  for t in (b, a):
    e, c = data_of(t)
    d.append(e)
    for k in want:
      want[k] = want[k] + c[k].ravel().tolist()
    ctx.step()
  whole = [d, d[:], d[np.arange(6)]]
  np.random.seed(3)
  parts = d.k_fold(2)
  parts[0].append(parts[1])
  whole.append(parts[0])
  for j, g in enumerate(whole):
    for k in want:
      got = np.asarray(getattr(g, k)).ravel().tolist()
      require(ctx, (sorted(got) == sorted(want[k])) if j == 3 else (
          got == want[k]),
              lambda: f"{cfg}: {k} is {got}, the appended numbers are "
              f"{want[k]}")
  ctx.state(repr(cfg))
  ctx.outcome(a, b)


def harnesses(tier):
  n_max = 6 if tier == "quick" else 8
  kf, sub, inv, seq = [], [], [], []
  for n in range(n_max + 1):
    for k in range(1, 6):
      for i, (dim, cols) in enumerate(itertools.product((0, 1, 2), COLS)):
        if i == 5 or (n + k + i) % 4 == 0 or n <= 3:
          kf.append(dict(n=n, k=k, dim=dim, cols=cols))
    for p in (0, 0.0, 0.25, 0.5, 1, 1.0):
      for i, (dim, cols) in enumerate(itertools.product((0, 1, 2), COLS)):
        if i == 5 or (n + i) % 3 == 0 or n <= 3:
          sub.append(dict(n=n, p=p, dim=dim, cols=cols))
  for n in (1, 3):
    for v in (0, -1, -5):
      inv.append(dict(n=n, op="k_fold", v=v))
    for v in (-0.1, 1.1, 2, -1, math.nan, math.inf, 1 + 1e-9, -1e-9):
      inv.append(dict(n=n, op="subsample", v=v))
  for dim, cols, n, first in itertools.product((0, 1, 3), COLS, (0, 1, 3), OPS):
    seq.append(dict(dim=dim, cols=cols, n=n, first=first,
                    depth=3 if tier == "quick" else 4))
  rand = [dict(n=n, p=p, k=2) for n in range(1, n_max + 1)
          for p in (0.0, 0.2, 0.5, 0.8, 1.0)]
  rand += [dict(n=n, p=p, k=2) for n in (1, 2, 3)
           for p in (0.125, 1 / 3, 0.005, 1e-6, 0.999, 2 / 7)]
  many = [dict(op="k_fold", n=n, v=k) for k in (8, 13, 50, 130)
          for n in (5, 12, 49, 131, 1000)]
  many += [dict(op="k_fold", n=n, v=k) for k in (2, 3, 7)
           for n in (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024,
                    5000)]
  many += [dict(op="subsample", n=n, v=p) for p in (0.125, 1 / 3, 0.5, 0.9)
           for n in (64, 100, 256, 257, 1000, 1024, 5000)]
  rand += [dict(n=n, p=None, k=k) for n in range(1, n_max + 1)
           for k in (1, 2, 3, 4, 5)]
  typed = [dict(a=a, b=b, which=w)
           for a, b in itertools.product(("?", "i1", "u1", "i8", "f4", "f8"),
                                         repeat=2)
           for w in ("cov", "exp", "rsp", "all")]
  return [
      Harness("types", types, typed,
              rule="every pair of numeric types of each column"),
      Harness("k_fold", k_fold, kf,
              rule=f"up to {n_max} rows, 1-5 folds, every column layout; every "
              "assignment of rows to folds the code can draw"),
      Harness("subsample", subsample, sub,
              rule="every inclusion pattern the code can draw"),
      Harness("invalid", invalid, inv, rule="every listed invalid argument"),
      Harness("law", split_law, rand,
              rule="every random answer, weighted with its probability"),
      Harness("large", large, many,
              rule="every listed size and number of folds, four streams each"),
      Harness("sequences", sequence, seq,
              rule="every sequence of 3 (thorough: 4) of 13 operations from "
              "every start size and column layout"),
  ]
