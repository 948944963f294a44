"""Seeds: an instance is a function of its seed; random functions are functions."""
import itertools

import numpy as np

from mc import env
from mc.explorer import Harness
from mc.util import close, require
from causal_effect_bandits import arms
from causal_effect_bandits import nonlinear_utils
from causal_effect_bandits import paper_utils


def shaped(v_dim, z_dim, m, n=5):
  """Fixed parent values for every CPD of a Section 5 instance."""
  val = lambda k, d: np.array([[((3 * i + 2 * j + k) % 7) / 3.0 - 1
                                for j in range(d)] for i in range(n)])
  par = {"X": [val(i, v_dim[i]) for i in range(1, m + 1)],
         "Y": [val(10 + i, z_dim[i]) for i in range(m + 1)],
         "Z0": [np.arange(n) % 2]}
  for i in range(1, m + 1):
    par[f"V{i}"] = []
    par[f"Z{i}"] = [val(20 + i, v_dim[i])]
  return par


def evaluate(cpds, cfg, n=5):
  """Every CPD on fixed parents under one fixed random stream."""
  par = shaped(cfg["v"], cfg["z"], cfg["m"], n)
  out = {}
  for k, v in enumerate(sorted(par)):
    np.random.seed((env.SEED * 131 + k) % 2**32)
    out[v] = np.asarray(cpds[v](n, [np.array(p) for p in par[v]]), dtype=float)
  return out


def dims_of(v, cfg):
  if v in ("X", "Y"):
    return ()
  return (cfg["z" if v[0] == "Z" else "v"][int(v[1:])],)


def instance(ctx, cfg):
  build = (paper_utils.get_section_5_1_cpds if cfg["section"] == 1 else
           paper_utils.get_section_5_2_cpds)
  make = lambda: build(list(cfg["z"]), list(cfg["v"]), cfg["m"], cfg["seed"])
  first = None
  states = []
  for g in cfg["states"]:  # the global stream at construction time
    np.random.seed(g)
    np.random.rand(g % 5)
    out = evaluate(make(), cfg)
    ctx.step()
    for v, got in out.items():
      want = (5,) + dims_of(v, cfg)
      require(ctx, got.shape == want,
              lambda: f"{cfg}: {v} has shape {got.shape}, not {want}")
    require(ctx, set(out["X"].tolist()) <= {0, 1}, "X is not binary")
    states.append(out)
    if first is None:
      first = out
    for v in out:
      require(ctx, close(out[v], first[v], rtol=1e-6, atol=1e-9),
              lambda: f"{cfg}: with seed {cfg['seed']}, the CPD of {v} depends "
              f"on the global random state: {out[v].tolist()} and "
              f"{first[v].tolist()}")
    ctx.state(cfg["section"], cfg["z"], cfg["v"], cfg["seed"], g)
  # another seed is another instance
  other = evaluate(build(list(cfg["z"]), list(cfg["v"]), cfg["m"],
                         cfg["seed"] + 1), cfg)
  diff = [v for v in other if not close(other[v], first[v], rtol=1e-6)]
  require(ctx, "Y" in diff and "Z0" in diff and all(
      f"Z{i}" in diff for i in range(1, cfg["m"] + 1)),
          lambda: f"{cfg}: seeds {cfg['seed']} and {cfg['seed'] + 1} differ "
          f"only in {diff}")
  ctx.outcome(cfg["section"], round(float(first["Y"][0]), 6))
  ctx.note((cfg, first["Y"].tolist()))


def example(ctx, cfg):
  """The whole example: same seed, same model and arms; data from the stream."""
  build = (paper_utils.get_section_5_1_example if cfg["section"] == 1 else
           paper_utils.get_section_5_2_example)
  def make(g):
    np.random.seed(g)
    gen, arm_list, *_ = build([1] * (cfg["m"] + 1), [1] * (cfg["m"] + 1),
                              cfg["seed"], 1.0, 2.0, 3.0, cfg["m"], 100, 10,
                              cfg["latex"])
    np.random.seed(7)
    d = gen.generate(40)
    return d, [(a.name, a.cost) for a in arm_list]
  a, names = make(1)
  b, names2 = make(99)
  ctx.step(2)
  require(ctx, names == names2, "names or costs depend on the random state")
  for x, y in ((a.cov, b.cov), (a.exp, b.exp), (a.rsp, b.rsp)):
    require(ctx, close(x, y, rtol=1e-6, atol=1e-9),
            lambda: f"{cfg}: the model depends on the global random state")
  require(ctx, a.cov.shape == (40, 2 * cfg["m"] + 1) and np.shape(a.rsp) ==
          (40,) and set(np.unique(a.exp)) <= {0, 1},
          lambda: f"{cfg}: shapes {a.cov.shape}, {np.shape(a.rsp)}")
  ctx.state(repr(cfg))
  ctx.outcome(cfg["section"], round(float(a.rsp[0]), 6))


def function(ctx, cfg):
  """generate_random_nd_function: a function of the row, fixed by its seed."""
  dim, out = cfg["dim"], cfg["out"]
  kw = dict(n_points=cfg["points"], alpha=cfg["alpha"], min_x=cfg["range"][0],
            max_x=cfg["range"][1])
  def make(seed, g=0):
    np.random.seed(g)
    return nonlinear_utils.generate_random_nd_function(dim, out, seed=seed,
                                                       **kw)
  f = make(cfg["seed"], 3)
  pts = np.array(list(itertools.product((-1.0, 0.25, 1.0), repeat=dim)))
  keep = pts.copy()
  whole = np.asarray(f(pts))
  ctx.step()
  require(ctx, whole.shape == (len(pts), out),
          lambda: f"{cfg}: shape {whole.shape}, not {(len(pts), out)}")
  require(ctx, bool(np.all(np.isfinite(whole))), "not finite")
  require(ctx, np.array_equal(pts, keep), "the input was modified")
  require(ctx, close(f(pts), whole, rtol=1e-9), "two evaluations differ")
  for i in range(len(pts)):  # row by row, and in another order
    require(ctx, close(f(pts[i:i + 1]), whole[i:i + 1], rtol=1e-6, atol=1e-9),
            lambda: f"{cfg}: f of row {pts[i]} alone is {f(pts[i:i+1])}, among "
            f"others {whole[i]}")
  order = np.arange(len(pts))[::-1]
  require(ctx, close(f(pts[order]), whole[order], rtol=1e-6, atol=1e-9),
          lambda: f"{cfg}: the values depend on the order of the rows")
  if dim == 1:
    require(ctx, close(f(pts[:, 0]), whole, rtol=1e-6, atol=1e-9),
            "a one-dimensional array of inputs gives other values")
  again = np.asarray(make(cfg["seed"], 12345)(pts))
  require(ctx, close(again, whole, rtol=1e-6, atol=1e-9),
          lambda: f"{cfg}: the same seed gives another function under another "
          "global random state")
  other = np.asarray(make(cfg["seed"] + 1, 3)(pts))
  for c in range(out):
    require(ctx, not close(other[:, c], whole[:, c], rtol=1e-4),
            lambda: f"{cfg}: component {c} is the same for two seeds")
    for e in range(c):
      require(ctx, not close(whole[:, c], whole[:, e], rtol=1e-4),
              lambda: f"{cfg}: components {e} and {c} are the same function")
  # without a seed the global stream decides
  u1, u2 = np.asarray(make(None, 5)(pts)), np.asarray(make(None, 5)(pts))
  require(ctx, close(u1, u2, rtol=1e-6, atol=1e-9),
          "without a seed, the global stream does not decide")
  distinct = {
      tuple(np.round(np.asarray(make(None, g)(pts)).ravel(), 7))
      for g in range(20, 24)
  }
  require(ctx, len(distinct) > 1, "without a seed, always the same function")
  ctx.state(repr(cfg))
  ctx.outcome(tuple(np.round(whole.ravel()[:6], 5)))
  ctx.note((cfg, whole[:2].tolist()))


def far_seeds(ctx, cfg):
  """Seeds a power of two apart are different seeds."""
  kind, seeds = cfg["kind"], cfg["seeds"]
  pts = np.array([[-1.0], [-0.3], [0.25], [1.0]])
  def values(seed):
    np.random.seed(11)
    if kind == "function":
      return np.asarray(nonlinear_utils.generate_random_nd_function(
          1, 1, n_points=6, seed=seed)(pts), dtype=float).ravel()
    build = (paper_utils.get_section_5_1_cpds if kind == 1 else
             paper_utils.get_section_5_2_cpds)
    return evaluate(build([1, 1], [0, 1], 1, seed),
                    dict(z=(1, 1), v=(0, 1), m=1))["Y"]
  got = []
  for s in seeds:
    got.append(values(s))
    ctx.step()
    require(ctx, close(values(s), got[-1], rtol=1e-6, atol=1e-9),
            lambda: f"{kind}: two instances of seed {s} differ")
    ctx.state(kind, s)
  for (s, a), (t, b) in itertools.combinations(zip(seeds, got), 2):
    require(ctx, not close(a, b, rtol=1e-6),
            lambda: f"{kind}: seeds {s} and {t} give the same instance")
  ctx.outcome(kind, len(seeds))


def harnesses(tier):
  inst, ex, fns = [], [], []
  seeds = range(3) if tier == "quick" else range(12)
  for m in (1, 2, 3):
    for z, v in itertools.product(
        itertools.product((1, 2), repeat=m + 1),
        itertools.product((1, 2), repeat=m)):
      for seed in seeds:
        inst.append(dict(section=1, m=m, z=z, v=(0,) + v, seed=seed,
                         states=(0, 1, 12345)))
        if (m < 3 or sum(z + v) <= 8) and (tier != "quick" or seed == 0) and (
            m == 1 or sum(z + v) % 2 == 0):
          inst.append(dict(section=2, m=m, z=z, v=(0,) + v, seed=seed,
                           states=(0, 1)))
  for section, m, latex in itertools.product((1, 2), (1, 2, 3), (False, True)):
    for seed in seeds:
      ex.append(dict(section=section, m=m, seed=seed, latex=latex))
  far = [dict(kind=k, seeds=[s + d for d in (
      0, 1, 10, 100, 127, 128, 256, 1000, 1024, 4096, 10000, 32768, 65536,
      100000, 2**20, 10**6, 2**30, 2**31 - 9, 2**32 - 9)])
         for k in (1, 2, "function") for s in (0, 3)]
  for dim, out, alpha, seed in itertools.product((1, 2), (1, 2, 3), (1.0, 100),
                                                 seeds):
    for points, span in ((10, (-1, 1)), (4, (-2, 2))):
      fns.append(dict(dim=dim, out=out, alpha=alpha, seed=seed, points=points,
                      range=span))
  return [
      Harness("instances", instance, inst,
              rule="every assignment of 1-2 columns to every Z and V, one to "
              "three paths, several seeds and global random states"),
      Harness("far-seeds", far_seeds, far,
              rule="seeds that agree in their low or high bits, every pair"),
      Harness("examples", example, ex, rule="both sections, 1-3 paths"),
      Harness("functions", function, fns,
              rule="1-2 inputs, 1-3 outputs, several seeds; every grid row "
              "alone, together and reversed"),
  ]
