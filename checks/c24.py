"""SCM.generate: every variable once, from its own parents, in their order."""
import itertools

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import raises, require
from causal_effect_bandits import scm

NAMES = ["A", "B", "C", "D"]


class Model:
  """Deterministic CPDs that tell every variable, unit, call and parent apart."""

  def __init__(self, n_vars, dims=None, mutate=(), names=NAMES):
    self.names = list(names)[:n_vars]
    self.calls = {v: [] for v in self.names}
    self.dims = dims or {}
    self.mutate = mutate

  def value(self, v, n, parents, call):
    i = self.names.index(v)
    out = 7.0 * (i + 1) + 0.5 * np.arange(n) + 1000.0 * call
    for k, p in enumerate(parents):
      p = np.asarray(p, dtype=float)
      out = out + (k + 2.0) * (p if p.ndim == 1 else p @ np.arange(
          1, p.shape[1] + 1)) * (1 + 0.25 * i)
    d = self.dims.get(v, 0)
    if d == 0:
      return out
    return np.column_stack([out + 0.125 * j for j in range(d)])

  def cpd(self, v):
    def f(n_samples, parents):
      call = len(self.calls[v])
      self.calls[v].append(
          (n_samples, [np.array(p, dtype=float) for p in parents]))
      out = self.value(v, n_samples, parents, call)
      if v in self.mutate:
        del parents[:]
      return out
    return f

  def reference(self, n, parents, call, do=None):
    got = {}
    for v in self.order:
      got[v] = self.value(v, n, [got[p] for p in parents[v]], call)
    return got


def body(ctx, cfg):
  order, parents = cfg["order"], {v: list(p) for v, p in cfg["parents"].items()}
  m = Model(len(order), cfg["dims"], cfg["mutate"],
            NAMES if set(order) <= set(NAMES) else sorted(order))
  m.order = order
  cpds = {v: m.cpd(v) for v in order}
  extra = dict(parents)
  if cfg["extra"]:  # entries of variables that are not part of the model
    extra["unused"] = ["nowhere"]
    cpds["unused"] = None
  gen = scm.SCM("m", list(order), extra, cpds, list(cfg["cov"]), cfg["t"],
                cfg["y"])
  for call, n in enumerate(cfg["n"]):
    d = gen.generate(n)
    ctx.step()
    want = m.reference(n, parents, call)
    for v in order:
      require(ctx, len(m.calls[v]) == call + 1,
              lambda: f"{v} was sampled {len(m.calls[v])} times by call {call}")
      n_got, ps = m.calls[v][-1]
      require(ctx, n_got == n and len(ps) == len(parents[v]) and all(
          np.array_equal(p, want[q]) for p, q in zip(ps, parents[v])),
              lambda: f"{v} was sampled for {n_got} units from parents "
              f"{[p.tolist() for p in ps]}; its parents are {parents[v]}, "
              f"{[want[q].tolist() for q in parents[v]]}, {n} units")
    cov = np.column_stack([want[v] for v in cfg["cov"]])
    for what, got, ref in (("covariates", d.cov, cov),
                           ("treatment", d.exp, want[cfg["t"]]),
                           ("response", d.rsp, want[cfg["y"]])):
      got = np.asarray(got, dtype=float)
      require(ctx, got.shape == ref.shape and np.array_equal(got, ref),
              lambda: f"{cfg}: {what} {got.tolist()} should be {ref.tolist()}")
    require(ctx, len(d) == n and d.n_features == cov.shape[1],
            lambda: f"{cfg}: {len(d)} units, {d.n_features} features")
    require(ctx, {v: extra[v] for v in order} == {
        v: list(p) for v, p in cfg["parents"].items()},
            "generate changed the graph")
  ctx.state(order, sorted(cfg["parents"].items()), cfg["cov"], cfg["t"],
            cfg["y"])
  ctx.outcome(cfg["cov"], cfg["t"], cfg["y"], sorted(cfg["parents"].items()))
  ctx.note((order, cfg["parents"], cfg["cov"], d.cov[:1].tolist()))


def invalid(ctx, cfg):
  kind = cfg["kind"]
  names = ["A", "B", "C"]
  parents = {"A": [], "B": ["A"], "C": ["A", "B"]}
  m = Model(3)
  cpds = {v: m.cpd(v) for v in names}
  cov, t, y = ["A"], "B", "C"
  if kind == "parents":
    del parents[cfg["v"]]
  elif kind == "cpds":
    del cpds[cfg["v"]]
  elif kind == "treatment":
    t = cfg["v"]
  elif kind == "response":
    y = cfg["v"]
  elif kind == "cov":
    cov = cfg["v"]
  if kind in ("order", "unknown-parent"):
    if kind == "order":
      names = list(cfg["v"])
    else:
      parents[cfg["v"]] = parents[cfg["v"]] + ["Q"]
    gen = scm.SCM("m", names, parents, cpds, cov, t, y)
    with raises(ctx, ValueError, f"generate with {cfg}"):
      gen.generate(2)
  else:
    with raises(ctx, ValueError, f"SCM with {cfg}"):
      scm.SCM("m", names, parents, cpds, cov, t, y)
  ctx.state(repr(cfg))
  ctx.outcome(kind)


def dags(names):
  """Every DAG whose edges respect the order of `names`."""
  edges = [(a, b) for i, b in enumerate(names) for a in names[:i]]
  for bits in itertools.product((0, 1), repeat=len(edges)):
    p = {v: [] for v in names}
    for (a, b), on in zip(edges, bits):
      if on:
        p[b].append(a)
    yield p


def parent_orders(p, limit=None):
  """Every order of every parent list."""
  keys = list(p)
  for combo in itertools.product(*[
      list(itertools.permutations(p[k])) for k in keys]):
    yield dict(zip(keys, combo))


def harnesses(tier):
  cfgs = []
  def add(order, parents, cov, t, y, n=(2,), dims=None, mutate=(), extra=False):
    cfgs.append(dict(order=tuple(order), parents=parents, cov=tuple(cov), t=t,
                     y=y, n=n, dims=dims or {}, mutate=mutate, extra=extra))
  # three variables: everything
  for order in itertools.permutations(NAMES[:3]):
    for p0 in dags(order):
      for p in parent_orders(p0):
        for r in (1, 2, 3):
          for cov in itertools.permutations(order, r):
            for t, y in itertools.permutations(order, 2):
              add(order, p, cov, t, y)
  # four variables: every graph and parent order, two designs each
  designs = [(("A", "B"), "C", "D"), (("D", "A", "C"), "B", "A")]
  for order in itertools.permutations(NAMES) if tier != "quick" else [
      tuple(NAMES), tuple("DCBA"), tuple("BDAC")]:
    for p0 in dags(order):
      for p in parent_orders(p0):
        for cov, t, y in designs:
          add(order, p, cov, t, y, n=(1,))
  # several calls, sizes, matrix-valued variables, list-consuming CPDs
  for p0 in dags(tuple(NAMES[:3])):
    for n in ((0,), (1, 3), (3, 1, 2)):
      for dims in ({}, {"A": 2}, {"B": 1, "A": 3}):
        for mutate in ((), ("B",), ("A", "B", "C")):
          cov = ("B", "A") if "C" not in dims else ("A",)
          add(NAMES[:3], {k: tuple(v) for k, v in p0.items()}, cov, "C", "C",
              n=n, dims=dims, mutate=mutate, extra=n == (1, 3))
  # variables that are listed twice
  for cov in itertools.product("ABC", repeat=3):
    for pc in (("A", "A"), ("B", "A", "B"), ("A", "B", "A", "A")):
      for dims in ({}, {"A": 2}):
        add("ABC", {"A": (), "B": ("A", "A"), "C": pc}, cov, "C", "C",
            dims=dims)
  # many variables, long and similar names, many units
  for size, n in ((9, 3), (13, 2), (26, 2), (3, 1000), (4, 3001)):
    names = [f"V{i}" for i in range(size - 2)] + ["treatment", "a longer name"]
    for step in (1, 2, 3):
      parents = {v: tuple(names[:i][::-step]) for i, v in enumerate(names)}
      for cov in (names, names[::-1], names[::2], names[-1:]):
        add(names, parents, cov, "treatment", names[-1], n=(n, 1))
  inv = []
  for v in "ABC":
    inv += [dict(kind="parents", v=v), dict(kind="cpds", v=v),
            dict(kind="unknown-parent", v=v)]
  for v in ("Z", "", "a"):
    inv += [dict(kind="treatment", v=v), dict(kind="response", v=v),
            dict(kind="cov", v=[v]), dict(kind="cov", v=["A", v])]
  for v in itertools.permutations("ABC"):
    if v != ("A", "B", "C"):
      inv.append(dict(kind="order", v=v))
  return [
      Harness("graphs", body, cfgs,
              rule="every DAG over 3 variables with every parent order, "
              "variable order, covariate list, treatment and response; every "
              "DAG and parent order over 4 variables; repeated calls, 0-3 "
              "units, matrix-valued variables, CPDs that consume their list"),
      Harness("invalid", invalid, inv, rule="every listed invalid model"),
  ]
