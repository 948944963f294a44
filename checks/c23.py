"""Data transformers: the exact columns, nothing else touched."""
import itertools

import numpy as np

from mc import rng
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import data


def make(n, dim, start=0, exp=True, rsp=True):
  cov = np.array([[10.0 * (start + i) + j for j in range(dim)]
                  for i in range(n)]).reshape(n, dim)
  ids = np.arange(start, start + n)
  return data.ExpData(cov, ids * 2 if exp else None,
                      ids * -1.5 if rsp else None)


def eq(a, b):
  return (a is None) == (b is None) and (a is None or (
      np.asarray(a).shape == np.asarray(b).shape and np.array_equal(a, b)))


def same(a, b):
  return eq(a.cov, b.cov) and eq(a.exp, b.exp) and eq(a.rsp, b.rsp) and (
      len(a) == len(b)) and a.n_features == b.n_features


def fn_and_columns(cfg):
  dim = cfg["dim"]
  if cfg["kind"] == "identity":
    return data.get_identity_fn(), list(range(dim))
  if cfg["kind"] == "remove":
    i = cfg["arg"]
    return data.get_remove_coordinates_fn(i), [
        j for j in range(dim) if j != i % dim
    ]
  arg = list(cfg["arg"])
  if cfg["kind"] == "bools":
    return (data.get_coordinate_mask_fn(np.array(arg) if cfg["as_array"] else
                                        arg), [j for j in range(dim) if arg[j]])
  if cfg.get("as_array"):
    arg = np.array(arg, dtype=int)
  return data.get_coordinate_mask_fn(arg), [j % dim for j in cfg["arg"]]


def body(ctx, cfg):
  dim, n = cfg["dim"], cfg["n"]
  fn, cols = fn_and_columns(cfg)
  for e, r in ((True, True), (False, True), (True, False)):
    d = make(n, dim, exp=e, rsp=r)
    out = fn(d)
    ctx.step()
    require(ctx, same(d, make(n, dim, exp=e, rsp=r)),
            lambda: f"{cfg}: the transformer changed its input")
    ref = make(n, dim, exp=e, rsp=r)
    want = data.ExpData(ref.cov[:, cols], ref.exp, ref.rsp)
    require(ctx, same(out, want),
            lambda: f"{cfg}: columns {np.asarray(out.cov).tolist()}, shape "
            f"{np.asarray(out.cov).shape}; should be columns {cols}: "
            f"{want.cov.tolist()}; exp/rsp {out.exp}, {out.rsp}")
  # reusing the same function gives the same answer (no state)
  a, b = fn(make(n, dim)), fn(make(n, dim))
  require(ctx, same(a, b), lambda: f"{cfg}: two applications differ")
  # transforming batches and transforming their concatenation agree
  whole = make(n, dim)
  whole.append(make(2, dim, start=n))
  left = fn(whole)
  part = fn(make(n, dim))
  part.append(fn(make(2, dim, start=n)))
  require(ctx, same(left, part),
          lambda: f"{cfg}: transforming two batches and their concatenation "
          f"disagree: {part.cov.tolist()} and {left.cov.tolist()}")
  # splitting and transforming commute, for every split
  if n and cfg["split"]:
    d = make(n, dim)
    with rng.controlled(ctx):
      folds = d.k_fold(2)
    got = [fn(f) for f in folds]
    ref = make(n, dim)
    pos = {v: i for i, v in enumerate(ref.rsp.tolist())}
    for f in got:
      idx = [pos[v] for v in np.asarray(f.rsp).tolist()]
      require(ctx, np.array_equal(np.asarray(f.cov), ref.cov[idx][:, cols]),
              lambda: f"{cfg}: a transformed fold mixes up rows")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["kind"], dim, tuple(cols))
  ctx.note((cfg["kind"], cfg.get("arg"), cols))


def chained(ctx, cfg):
  """Removing one coordinate after another equals the mask of what is left."""
  dim = cfg["dim"]
  d = make(2, dim)
  left = list(range(dim))
  while len(left) > 1:
    i = ctx.choose(len(left), label="remove")
    d = data.get_remove_coordinates_fn(i)(d)
    del left[i]
    want = data.get_coordinate_mask_fn(left)(make(2, dim))
    ref = make(2, dim).cov[:, left]
    require(ctx, same(d, want) and np.array_equal(d.cov, ref),
            lambda: f"after removals the columns are {d.cov.tolist()}, the "
            f"mask {left} gives {want.cov.tolist()}")
    ctx.state(dim, tuple(left))
  ctx.outcome(tuple(left))


def harnesses(tier):
  dmax = 4 if tier == "quick" else 5
  cfgs = []
  for dim in range(1, dmax + 1):
    for n in (0, 1, 2, 4):
      cfgs.append(dict(kind="identity", dim=dim, n=n, split=True))
      for i in range(-dim, dim):
        cfgs.append(dict(kind="remove", arg=i, dim=dim, n=n, split=True))
      for r in range(1, dim + 1):
        for arg in itertools.permutations(range(dim), r):
          for as_array in (False, True):
            cfgs.append(dict(kind="mask", arg=arg, dim=dim, n=n,
                             as_array=as_array, split=n == 2))
      for arg in itertools.product((True, False), repeat=dim):
        for as_array in (False, True):
          cfgs.append(dict(kind="bools", arg=arg, dim=dim, n=n,
                           as_array=as_array, split=n == 2))
      for r in (2, 3):
        for arg in itertools.product(range(dim), repeat=r):
          if len(set(arg)) < r:
            cfgs.append(dict(kind="mask", arg=arg, dim=dim, n=n, split=False))
  for dim in (12, 40, 130):  # wide data
    for i in (0, 1, 9, 10, 11, dim - 1, -1, -2, -dim):
      cfgs.append(dict(kind="remove", arg=i, dim=dim, n=3, split=False))
    for arg in ((0, 10), (11, 2, 9), tuple(range(dim)), (dim - 1, 0, -1),
                tuple(range(dim - 1, -1, -1)), tuple(range(0, dim, 3)),
                (10, 1, 10)):
      for as_array in (False, True):
        cfgs.append(dict(kind="mask", arg=arg, dim=dim, n=3, as_array=as_array,
                         split=False))
    for k in (2, 7):
      cfgs.append(dict(kind="bools", arg=tuple(j % k == 1 for j in range(dim)),
                       dim=dim, n=3, as_array=True, split=False))
  return [
      Harness("transform", body, cfgs,
              rule=f"every coordinate list over up to {dmax} covariates in "
              "every order (and with repetitions), every removable "
              "coordinate, 0-4 rows; listed selections of 12, 40 and 130 "
              "covariates"),
      Harness("chain", chained, [dict(dim=d) for d in range(2, dmax + 2)],
              rule="every order of removals"),
  ]
