"""compute_treatment_effect: the exact effect of do(treatment)."""
import itertools

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import close, require
from checks.c24 import NAMES, dags
from causal_effect_bandits import scm


class Boom(Exception):
  pass


NOISE = {"A": [0.5, -1.0, 2.0, 0.25], "B": [1.0, 3.0, -0.5, 0.0],
         "C": [-2.0, 0.75, 1.5, 1.0], "D": [0.1, 0.2, -0.4, 3.0]}


def equation(v, style):
  i = NAMES.index(v)

  def f(n, parents):
    k = np.arange(n)  # aperiodic beyond the first four
    out = np.resize(NOISE[v], n) + np.where(k > 3, np.sin(1.7 * k), 0.0)
    for k, p in enumerate(parents):
      if style == "linear":
        out = out + (1.5 + i - 2 * k) * p
      elif style == "own":  # arithmetic on the parent alone
        out = out + (p + p + (-p) * (2 + k)) + (p - 2)
      elif style == "product":
        out = out * (1 + p) + p
      else:
        out = out + np.where(np.asarray(p) > 0.5, 2.0 + i, -1.0 * k)
    return out
  return f


def effect(order, parents, f, t, y, n):
  mean = {}
  for x in (1, 0):
    got = {}
    for v in order:
      got[v] = np.full(n, float(x)) if v == t else f[v](
          n, [got[p] for p in parents[v]])
    mean[x] = np.mean(got[y])
  return mean[1] - mean[0]


def body(ctx, cfg):
  order, parents = cfg["order"], cfg["parents"]
  f = {v: equation(v, cfg["style"]) for v in order}
  fail = {"at": None, "n": 0}

  def wrap(v):
    def g(n, ps):
      fail["n"] += 1
      if fail["at"] is not None and fail["n"] > fail["at"]:
        raise Boom(v)
      return f[v](n, ps)
    return g

  cpds = {v: wrap(v) for v in order}
  mine = dict(cpds)
  gen = scm.SCM("m", list(order), {v: list(p) for v, p in parents.items()},
                cpds, [order[0]], cfg["t"], cfg["y"])
  plain = lambda n: [np.asarray(c, float).tolist() for c in (
      lambda d: (d.cov, d.exp, d.rsp))(gen.generate(n))]
  before = plain(3)
  # a second model built on the same mechanisms
  other = scm.SCM("o", list(order), {v: list(p) for v, p in parents.items()},
                  cpds, [order[0]], cfg["t"], cfg["y"])

  def unchanged(what):
    require(ctx, cpds == mine, lambda: f"{cfg}: {what} changed the mechanisms "
            "it was given")
    g = other.generate(3)
    require(ctx, [np.asarray(c, float).tolist() for c in (g.cov, g.exp, g.rsp)]
            == before, lambda: f"{cfg}: {what} changed another model")
    require(ctx, gen.cpds == mine and plain(3) == before,
            lambda: f"{cfg}: {what} changed the model")

  for op in cfg["ops"]:
    ctx.step()
    if op == "generate":
      require(ctx, plain(3) == before, lambda: f"{cfg}: generate changed")
    elif isinstance(op, tuple):  # the op[1]-th CPD evaluation fails
      fail["at"], fail["n"] = op[1], 0
      raised = False
      try:
        gen.compute_treatment_effect(2)
      except Boom:
        raised = True
      total = fail["n"]
      fail["at"] = None
      require(ctx, raised or total <= op[1],
              lambda: f"{cfg}: the failure of a CPD was swallowed")
      unchanged(f"an effect whose CPD number {op[1]} failed")
    else:
      got = gen.compute_treatment_effect(op)
      want = effect(order, parents, f, cfg["t"], cfg["y"], op)
      require(ctx, close(got, want),
              lambda: f"{cfg}: effect {got}, do({cfg['t']}) gives {want}")
      unchanged("compute_treatment_effect")
      ctx.outcome(round(float(want), 6))
  ctx.state(order, sorted(parents.items()), cfg["t"], cfg["y"], cfg["style"],
            cfg["ops"])
  ctx.note((cfg["t"], cfg["y"], parents, cfg["ops"]))


def noisy(ctx, cfg):
  """Random equations: the estimate is random, and near the true effect."""
  n, tau, k = cfg["n"], cfg["tau"], cfg["confounders"]
  order = [f"U{i}" for i in range(k)] + ["T", "M", "Y"]
  par = {f"U{i}": [] for i in range(k)}
  us = [f"U{i}" for i in range(k)]
  par.update(T=us, M=["T"], Y=["M", "T"] + us)
  noise = lambda n, p: np.random.randn(n)
  cpds = {u: noise for u in us}
  cpds["T"] = lambda n, p: (sum(p, np.zeros(n)) + np.random.randn(n) > 0) * 1.0
  cpds["M"] = lambda n, p: tau * p[0] + 0.5 * np.random.randn(n)
  cpds["Y"] = lambda n, p: 2 * p[0] - p[1] + 3 * sum(p[2:], np.zeros(n)) + (
      np.random.randn(n))
  gen = scm.SCM("m", order, par, cpds, ["M"], "T", "Y")
  sd = np.sqrt((1 + 9 * k + 1) * 2 / n)
  values, after = [], []
  for s in range(4):
    np.random.seed(1000 * s + 7)
    v = float(gen.compute_treatment_effect(n))
    ctx.step()
    values.append(v)
    after.append(float(np.random.rand()))
    require(ctx, abs(v - (2 * tau - 1)) < 8 * sd,
            lambda: f"{cfg}: effect {v}, the true one is {2 * tau - 1}")
    v2 = float(gen.compute_treatment_effect(n))
    require(ctx, v2 != v, lambda: f"{cfg}: two estimates are both {v}")
    ctx.state(repr(cfg), s)
  require(ctx, len(set(after)) == 4,
          lambda: f"{cfg}: the effect sets the global random stream to a known "
          "state")
  require(ctx, len(set(values)) == 4,
          lambda: f"{cfg}: estimates {values} from four random streams")
  ctx.outcome(tau, k)
  ctx.note((cfg, values))


def harnesses(tier):
  cfgs = []
  ops = [(3, "generate", 1, 4), (("fail", 0), 2, ("fail", 1), 3),
         (("fail", 2), ("fail", 3), 2, ("fail", 4), ("fail", 5), 2),
         (4, ("fail", 6), ("fail", 7), 4)]
  for n in (2, 3, 4):
    orders = [tuple(NAMES[:n]), tuple(reversed(NAMES[:n]))]
    for order in orders:
      for i, p in enumerate(dags(order)):
        p = {v: tuple(reversed(q)) if i % 2 else tuple(q)
             for v, q in p.items()}
        for t, y in itertools.product(order, repeat=2):
          for style in ("linear", "product", "step", "own"):
            for j, o in enumerate(ops):
              if n < 4 or tier != "quick" or (i + j) % 4 == 0:
                cfgs.append(dict(order=order, parents=p, t=t, y=y, style=style,
                                 ops=o))
  for j, n in enumerate((513, 1030, 6001, 12001)):
    for i, p in enumerate(dags(("A", "B", "C"))):
      if i % 3 == j % 3:
        cfgs.append(dict(order=("A", "B", "C"), t="A", y="C", ops=(n,),
                         parents={v: tuple(q) for v, q in p.items()},
                         style=("product", "step", "own")[i // 3 % 3]))
  rand = [dict(n=n, tau=t, confounders=k) for n in (4, 50, 1000, 1001, 20000)
          for t in (-1.5, 0.0, 0.5, 2.0) for k in (0, 1, 2)]
  return [
      Harness("noise", noisy, rand,
              rule="every size, effect and number of confounders; 4 streams"),
      Harness("do", body, cfgs,
              rule="every DAG over 2-4 variables, every treatment and "
              "response, linear and nonlinear equations; effects interleaved "
              "with generation and with a failure at every CPD evaluation")
  ]
