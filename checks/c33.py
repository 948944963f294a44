"""The Section 5 models: their graph, the laws of their parts, identification."""
import itertools
import math

import numpy as np

from mc import env
from mc import rng
from mc.explorer import Harness
from mc.explorer import Prune
from mc.util import close, require
from causal_effect_bandits import arms
from causal_effect_bandits import paper_utils

ASSUMPTIONS = [
    "Gaussian noise is replaced by two-point noise of the same mean and "
    "covariance while a law is enumerated: the first two moments are "
    "unaffected, that it is Gaussian is not judged",
]


# ------------------------------------------------------------ the graph


def descendants(parents, v):
  out, todo = {v}, [v]
  while todo:
    u = todo.pop()
    for w in parents:
      if u in parents[w] and w not in out:
        out.add(w)
        todo.append(w)
  return out


def connected(parents, a, b, given):
  """Whether some path from a to b is open given a set (every path tried)."""
  edges = {(p, c) for c in parents for p in parents[c]}

  def paths(path):
    if path[-1] == b:
      yield path
      return
    for w in parents:
      if w not in path and ((path[-1], w) in edges or (w, path[-1]) in edges):
        yield from paths(path + [w])

  for path in paths([a]):
    for u, v, w in zip(path, path[1:], path[2:]):
      if (u, v) in edges and (w, v) in edges:  # collider
        if not descendants(parents, v) & given:
          break
      elif v in given:
        break
    else:
      return True
  return False


def cut(parents, v, into=False):
  """The graph without the edges out of v (or into v)."""
  if into:
    return {w: [] if w == v else list(parents[w]) for w in parents}
  return {w: [p for p in parents[w] if p != v] for w in parents}


def back_door(parents, x, y, s):
  return not s & descendants(parents, x) and not connected(
      cut(parents, x), x, y, s)


def front_door(parents, x, y, s):
  if connected(cut_nodes(parents, s), x, y, set()) and directed(
      cut_nodes(parents, s), x, y):
    return False
  if any(connected(cut(parents, x), x, z, set()) for z in s):
    return False
  return all(not connected(cut(parents, z), z, y, {x}) for z in s)


def cut_nodes(parents, s):
  return {w: [p for p in parents[w] if p not in s]
          for w in parents if w not in s}


def directed(parents, x, y):
  return y in descendants(parents, x)


def graph(ctx, cfg):
  """Every arm of the example is identified by the criterion it relies on."""
  m, z, v = cfg["m"], cfg["z"], cfg["v"]
  np.random.seed((env.SEED * 7 + cfg["seed"]) % 2**32)
  build = (paper_utils.get_section_5_1_example if cfg["section"] == 1 else
           paper_utils.get_section_5_2_example)
  gen, arm_list, *_ = build(list(z), list(v), cfg["seed"], 1.0, 2.0, 3.0, m,
                            100, 10)
  par = {w: list(gen.parents[w]) for w in gen.var_names}
  ctx.step()
  want = {"X": {f"V{i}" for i in range(1, m + 1)}, "Z0": {"X"},
          "Y": {f"Z{i}" for i in range(m + 1)}}
  for i in range(1, m + 1):
    want[f"V{i}"] = set()
    want[f"Z{i}"] = {f"V{i}"}
  require(ctx, {w: set(p) for w, p in par.items()} == want,
          lambda: f"{cfg}: the graph is {par}")
  # which variable is which column of the model's data
  dims = {w: (z if w[0] == "Z" else v)[int(w[1:])] for w in gen.cov_variables}
  cols, at = {}, 0
  for w in gen.cov_variables:
    for j in range(dims[w]):
      cols[at] = w
      at += 1
  kinds = set()
  for arm in arm_list:
    d = gen.generate(2)
    require(ctx, d.cov.shape == (2, at),
            lambda: f"{cfg}: {d.cov.shape[1]} covariates, not {at}")
    d.cov = np.tile(np.arange(at) * 1.0, (2, 1))
    got = []
    arm.eta.fit = got.append
    arm.eta.has_enough_samples = lambda: False
    arm.update(d, 0.1)
    s = {cols[int(c)] for c in np.asarray(got[-1].cov)[0]}
    if s & descendants(par, "X"):
      kinds.add("front")
      require(ctx, front_door(par, "X", "Y", s),
              lambda: f"{cfg}: arm {arm.name} uses {sorted(s)}, which does not "
              "satisfy the front-door criterion")
    else:
      kinds.add("back")
      require(ctx, back_door(par, "X", "Y", s),
              lambda: f"{cfg}: arm {arm.name} adjusts for {sorted(s)}, which "
              "does not satisfy the back-door criterion")
    ctx.state(cfg["section"], m, z, v, tuple(sorted(s)))
  require(ctx, kinds == {"front", "back"}, "a kind of estimator is missing")
  # the whole model draws data of these shapes, from the declared laws
  ctx.outcome(cfg["section"], m, len(arm_list))
  ctx.note((cfg, sorted(par.items())))


# ------------------------------------------------------------- the laws


def law(ctx, cpd, parents):
  """[(p, value as a flat vector)] of one unit with these parents."""
  out = rng.law(ctx, lambda: np.asarray(
      cpd(1, [np.array([p], dtype=float) for p in parents]),
      dtype=float).reshape(-1), patch=rng.TWO_POINT)
  if out is None:  # drawn in a way that cannot be enumerated: not judged here
    raise Prune()
  return out


def moments(out):
  m = sum(w * r for w, r in out)
  return m, sum(w * np.outer(r - m, r - m) for w, r in out)


def grid(dim, values=(0.0, 1.0, -0.5)):
  return [np.array(g) for g in itertools.product(values, repeat=dim)]


def additive(ctx, what, f, dims, linear):
  """f(list of vectors) is a sum of one term per argument (a linear one)."""
  zero = [np.zeros(d) for d in dims]
  base = f(zero)
  term = {}
  for i, d in enumerate(dims):
    for g in grid(d):
      args = list(zero)
      args[i] = g
      term[i, tuple(g)] = f(args) - base
    vals = np.array([term[i, tuple(g)] for g in grid(d)])
    require(ctx, not linear or np.abs(vals).max(axis=0).min() > 1e-6,
            lambda: f"{what} does not depend on its argument {i}")
    if linear:
      unit = [term[i, tuple(e)] for e in np.eye(d)]
      for g in grid(d):
        require(ctx, close(term[i, tuple(g)],
                           sum(c * u for c, u in zip(g, unit)), rtol=1e-6,
                           atol=1e-6),
                lambda: f"{what} is not linear in its argument {i}: "
                f"{term[i, tuple(g)]} at {g}, {unit} at the unit vectors")
  levels = (0, 1, 2) if len(dims) < 4 else (1, 2)
  for pick in itertools.product(levels, repeat=len(dims)):
    args = [grid(d)[(p * 5 + i) % len(grid(d))]
            for i, (p, d) in enumerate(zip(pick, dims))]
    want = base + sum(term[i, tuple(g)] for i, g in enumerate(args))
    require(ctx, close(f(args), want, rtol=1e-6, atol=1e-6),
            lambda: f"{what} at {args} is {f(args)}; the sum of its terms is "
            f"{want}")
    ctx.step()
  return base


def laws(ctx, cfg):
  m, z, v, sec = cfg["m"], cfg["z"], cfg["v"], cfg["section"]
  np.random.seed((env.SEED * 7 + cfg["seed"]) % 2**32)
  build = (paper_utils.get_section_5_1_cpds if sec == 1 else
           paper_utils.get_section_5_2_cpds)
  cpds = build(list(z), list(v), m, cfg["seed"])
  lin = sec == 1
  for i in range(1, m + 1):
    out = law(ctx, cpds[f"V{i}"], [])
    mean, cov = moments(out)
    require(ctx, close(mean, np.zeros(v[i]), atol=1e-9) and close(
        cov, np.eye(v[i]), atol=1e-9),
            lambda: f"{cfg}: V{i} has mean {mean}, covariance {cov}")
    noise = []
    def z_mean(args, i=i, noise=noise):
      mu, c = moments(law(ctx, cpds[f"Z{i}"], args))
      noise.append(c)
      return mu
    base = additive(ctx, f"{cfg}: the mean of Z{i}", z_mean, [v[i]], lin)
    require(ctx, not lin or close(base, np.zeros(z[i]), atol=1e-9),
            lambda: f"{cfg}: Z{i} has mean {base} at V{i} = 0")
    for c in noise:
      require(ctx, close(c, c[0, 0] * np.eye(z[i]), atol=1e-9) and c[0, 0] > 0
              and close(c, noise[0], atol=1e-9),
              lambda: f"{cfg}: the noise of Z{i} has covariance {c}, elsewhere "
              f"{noise[0]}")

  def logit(args):
    out = law(ctx, cpds["X"], args)
    require(ctx, all(r.tolist() in ([0.0], [1.0]) for _, r in out),
            lambda: f"{cfg}: X takes the values {[r for _, r in out]}")
    p = sum(w * r[0] for w, r in out)
    return np.array([math.log(p / (1 - p))])

  base = additive(ctx, f"{cfg}: the log-odds of X", logit, list(v[1:]), lin)
  require(ctx, not lin or close(base, [0.0], atol=1e-9),
          lambda: f"{cfg}: the log-odds of X are {base} when every V is zero")

  noise = []
  def y_mean(args):
    out = law(ctx, cpds["Y"], args)
    mu, c = moments(out)
    require(ctx, mu.shape == (1,), lambda: f"{cfg}: Y has shape {mu.shape}")
    noise.append(float(c[0, 0]))
    return mu

  base = additive(ctx, f"{cfg}: the mean of Y", y_mean, list(z), lin)
  require(ctx, not lin or close(base, [0.0], atol=1e-9),
          lambda: f"{cfg}: the mean of Y is {base} when every Z is zero")
  require(ctx, noise[0] > 0 and close(noise, [noise[0]] * len(noise)),
          lambda: f"{cfg}: the noise of Y varies: {sorted(set(noise))}")

  table = []
  for x in (0.0, 1.0):
    out = law(ctx, cpds["Z0"], [x])
    t = {}
    for w, r in out:
      require(ctx, r.shape == (z[0],), lambda: f"{cfg}: Z0 has shape {r.shape}")
      t[tuple(r.tolist())] = t.get(tuple(r.tolist()), 0.0) + w
    require(ctx, abs(sum(t.values()) - 1) < 1e-9 and min(t.values()) > 0,
            lambda: f"{cfg}: the law of Z0 given {x} is {t}")
    table.append(t)
    for k in t:
      ctx.state(sec, cfg["seed"], m, z, v, x, k)
  require(ctx, set(table[0]) == set(table[1]) and len(table[0]) <= 10,
          lambda: f"{cfg}: the supports of Z0 differ: {table}")
  if lin:
    zero = [np.zeros(d) for d in z[1:]]
    eff = sum((table[1][k] - table[0][k]) * y_mean([np.array(k)] + zero)[0]
              for k in table[0])
    require(ctx, eff >= 0, lambda: f"{cfg}: the effect of treatment is {eff}")
    ctx.outcome(sec, cfg["seed"], m, round(float(eff), 8))
  else:
    ctx.outcome(sec, cfg["seed"], m, round(float(base[0]), 8))
  # two units do not influence each other
  a, b = [np.ones(d) for d in v[1:]], [np.zeros(d) for d in v[1:]]
  both = rng.law(ctx, lambda: np.asarray(cpds["X"](
      2, [np.array([p, q]) for p, q in zip(a, b)]), dtype=float).reshape(-1),
                 patch=rng.TWO_POINT)
  if both is None:
    raise Prune()
  pa, pb = (1 / (1 + math.exp(-logit(t)[0])) for t in (a, b))
  for s in itertools.product((0.0, 1.0), repeat=2):
    got = sum(w for w, r in both if tuple(r.tolist()) == s)
    want = (pa if s[0] else 1 - pa) * (pb if s[1] else 1 - pb)
    require(ctx, abs(got - want) < 1e-9,
            lambda: f"{cfg}: two units have X = {s} with probability {got}, "
            f"not {want}")
  ctx.note((cfg, noise[0]))


def dependence(ctx, cfg):
  """Section 5.2: every parent matters, in some instance.

  A fitted function may come out flat, so one instance cannot be asked to
  depend on every parent.
  """
  m = cfg["m"]
  todo = {("X", i) for i in range(m)} | {("Y", i) for i in range(m + 1)}
  todo |= {(f"Z{i}", 0) for i in range(1, m + 1)} | {("Z0", 0)}
  for seed in range(40):
    cpds = paper_utils.get_section_5_2_cpds([1] * (m + 1), [0] + [1] * m, m,
                                            seed)
    base = {}
    for name, i in sorted(todo):
      n = dict(X=m, Y=m + 1).get(name, 1)
      args = [0.0] if name == "Z0" else [np.zeros(1) for _ in range(n)]
      if name not in base:
        base[name] = moments(law(ctx, cpds[name], args))[0]
      args[i] = args[i] + 1
      ctx.step()
      if not close(moments(law(ctx, cpds[name], args))[0], base[name],
                   rtol=1e-6, atol=1e-6):
        todo.discard((name, i))
        ctx.state(name, i, m, seed)
    if not todo:
      break
  require(ctx, not todo,
          lambda: f"with {m} chains no instance has these depend on these "
          f"parents: {sorted(todo)}")
  ctx.outcome(m, seed)


def effects(ctx, cfg):
  """The sign of the effect in Section 5.1, over many seeds."""
  cpds = paper_utils.get_section_5_1_cpds([cfg["z0"], 1], [0, 1], 1,
                                          cfg["seed"])
  ctx.step()
  mean = []
  for x in (0.0, 1.0):
    mean.append(sum(w * moments(law(ctx, cpds["Y"], [r, np.zeros(1)]))[0][0]
                    for w, r in law(ctx, cpds["Z0"], [x])))
  ctx.state(cfg["seed"], cfg["z0"])
  ctx.outcome(round(mean[1] - mean[0], 9))
  require(ctx, mean[1] >= mean[0],
          lambda: f"{cfg}: the effect of treatment is {mean[1] - mean[0]}")


def harnesses(tier):
  big = tier == "thorough"
  gr, lw, ef = [], [], []
  for section, m in itertools.product((1, 2), (1, 2, 3)):
    for k, (z, v) in enumerate(itertools.product(
        itertools.product((1, 2), repeat=m + 1),
        itertools.product((1, 2), repeat=m))):
      if m == 1 or big or k % 5 == 0:
        if section == 1 or m < 3 or k % 25 == 0:
          gr.append(dict(section=section, m=m, z=z, v=(0,) + v, seed=k))
      if m < 3 or sum(z + v) <= 9:
        if section == 1 or sum(z + v) <= (6 if big else 5):
          lw.append(dict(section=section, m=m, z=z, v=(0,) + v, seed=k))
          if big:
            lw.append(dict(section=section, m=m, z=z, v=(0,) + v, seed=k + 50))
  # more chains than the two and three above, one dimension each
  for section, m in itertools.product((1, 2), (4, 5, 6) if big else (4, 5)):
    for seed in range(3 if big else 1):
      lw.append(dict(section=section, m=m, z=(1,) * (m + 1), v=(0,) + (1,) * m,
                     seed=seed))
  for seed in range(60 if not big else 600):
    for z0 in (1, 2, 3):
      ef.append(dict(seed=seed, z0=z0))
  return [
      Harness("identification", graph, gr,
              rule="every arm of the examples of the listed dimensions; every "
              "path of the graph"),
      Harness("laws", laws, lw,
              rule="every random outcome of every variable under a grid of "
              "parent values"),
      Harness("dependence", dependence,
              [dict(m=m) for m in range(1, 8 if big else 6)],
              rule="consecutive seeds until each parent of each variable "
              "mattered, at most forty"),
      Harness("effects", effects, ef,
              rule="every outcome of the mediator and the response, "
              "consecutive seeds"),
  ]
