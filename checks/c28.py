"""The arms of the Section 5 examples: columns, costs, names, wiring."""
import itertools

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import arms
from causal_effect_bandits import bandits
from causal_effect_bandits import paper_utils

CI = dict(clt=arms.CIAlgorithm.CLT, chi2=arms.CIAlgorithm.CHI2,
          finite=arms.CIAlgorithm.FINITE_SAMPLE)
COSTS = [dict(z=1.25, v=10.5, z0=3.75), dict(z=2.0, v=0.05, z0=0.5),
         dict(z=1e4, v=1e-4, z0=7.0)]


def code(var):
  """Constant by which a variable's columns are recognised."""
  return (1000.0 if var[0] == "Z" else 2000.0 if var[0] == "V" else
          3000.0 if var[0] == "X" else 4000.0) + 100.0 * int(var[1:] or 0)


class Cpds(dict):
  """Constant CPDs that check the parents they are sampled from."""

  def __init__(self, m, z_dim, v_dim, ctx):
    super().__init__()
    self.sizes = []
    self.ctx = ctx
    dims = {"X": 0, "Y": 0}
    par = {"Z0": ["X"], "X": [f"V{i}" for i in range(1, m + 1)],
           "Y": [f"Z{i}" for i in range(m + 1)]}
    for i in range(m + 1):
      dims[f"Z{i}"] = z_dim[i]
      if i:
        dims[f"V{i}"] = v_dim[i]
        par[f"V{i}"] = []
        par[f"Z{i}"] = [f"V{i}"]
    self.dims, self.par = dims, par
    for v in dims:
      self[v] = self.make(v)

  def sample(self, v, n):
    if v == "X":
      return (np.arange(n) % 3 == 0).astype(int)
    if v == "Y":
      return code(v) + np.arange(n) * 0.001
    return np.column_stack([
        code(v) + j + np.arange(n) * 1e-4 for j in range(self.dims[v])
    ]).reshape(n, self.dims[v])

  def make(self, v):
    def f(n, parents):
      if v == "Y":
        self.sizes.append(n)
      want = [self.sample(p, n) for p in self.par[v]]
      require(self.ctx, len(parents) == len(want) and all(
          np.array_equal(a, b) for a, b in zip(parents, want)),
              lambda: f"{v} is sampled from {len(parents)} parents "
              f"{[np.ravel(p)[:1] for p in parents]}, should be {self.par[v]}")
      return self.sample(v, n)
    return f


def columns(d):
  """The (variable, column) a transformed dataset consists of."""
  out = []
  for x in np.asarray(d.cov)[0]:
    kind = {1: "Z", 2: "V", 3: "X", 4: "Y"}[int(x // 1000)]
    i = int((x % 1000) // 100)
    out.append((f"{kind}{i}", int(round(x % 100))))
  return out


def body(ctx, cfg):
  m, z_dim, v_dim = cfg["m"], list(cfg["z"]), list(cfg["v"])
  COST = COSTS[cfg.get("cost", 0)]
  cpds = Cpds(m, z_dim, v_dim, ctx)
  gen, arm_list, lucb, se, uni = paper_utils.generate_example_from_cpd(
      z_dim, v_dim, COST["z"], COST["v"], COST["z0"], m, cpds, cfg["limit"],
      cfg["u"], cfg["latex"], CI[cfg["ci"]])
  ctx.step()
  require(ctx, len(arm_list) == 2**m + 1,
          lambda: f"{len(arm_list)} arms for {m} back-door paths")
  require(ctx, len({a.name for a in arm_list}) == len(arm_list),
          lambda: f"names {[a.name for a in arm_list]} repeat")
  d = gen.generate(4)
  require(ctx, np.array_equal(d.exp, cpds.sample("X", 4)) and
          np.array_equal(d.rsp, cpds.sample("Y", 4)),
          "treatment or response is not X, Y")
  seen, kept = {}, []
  for arm in arm_list:
    got = []
    def record(x, got=got):
      got.append(x)
    arm.eta.fit = record  # on the instance only
    arm.eta.has_enough_samples = lambda: False
    arm.update(d, 0.1)
    cols = columns(got[-1])
    for v, j in cols:  # every row holds that column
      require(ctx, all(
          abs(x - (code(v) + j)) < 0.01 for x in
          np.asarray(got[-1].cov)[:, cols.index((v, j))]),
              lambda: f"{arm.name}: mixed columns")
    variables = {v for v, _ in cols}
    full = {(v, j) for v in variables for j in range(cpds.dims[v])}
    require(ctx, sorted(cols) == sorted(full),
            lambda: f"arm {arm.name} reads columns {cols}, all columns of its "
            f"variables are {sorted(full)}")
    require(ctx, got[-1].n_features == len(cols), "feature count")
    name = arm.name
    if variables == {"Z0"}:
      want_cost, want_name = COST["z0"], "frontdoor"
    else:
      idx = sorted(int(v[1:]) for v in variables)
      require(ctx, idx == list(range(1, m + 1)),
              lambda: f"arm {name} adjusts for {sorted(variables)}: not one of "
              "Z_i, V_i on every path")
      by = {int(v[1:]): v[0] for v in variables}
      want_cost = sum(COST["z"] if by[i] == "Z" else COST["v"] for i in by)
      want_name = "".join(f"{by[i]}_{i}" for i in sorted(by))
      if cfg["latex"]:
        want_name = f"${want_name}$"
    require(ctx, abs(arm.cost - want_cost) < 1e-9,
            lambda: f"arm {name} reads {sorted(variables)} and costs "
            f"{arm.cost}, not {want_cost}")
    require(ctx, name == want_name,
            lambda: f"the arm reading {sorted(variables)} is called {name}, "
            f"not {want_name}")
    key = tuple(sorted(variables))
    require(ctx, key not in seen, lambda: f"two arms read {key}")
    seen[key] = name
    ctx.state(m, z_dim, v_dim, key)
    # undo
    del arm.eta.fit, arm.eta.has_enough_samples
    arm.reset()
    # its nuisance parameter accepts exactly this many columns
    arm.eta.fit(got[-1])
    arm.reset()
    # 60 units are enough for the asymptotic intervals, and far from the burn-in
    # of 1000 units of the finite-sample ones
    arm.update(gen.generate(60), 0.1)
    others = [a for a in arm_list if a is not arm and a.get_num_units() == 0]
    require(ctx, not any(a.eta.has_enough_samples() for a in others),
            lambda: f"updating {name} also fits the nuisance parameter of "
            f"{[a.name for a in others if a.eta.has_enough_samples()]}")
    kept.append((arm, got[-1], np.array(arm.eta.calculate_score(got[-1]))))
    require(ctx, np.isfinite(arm.var_est) and np.isinf(arm.ci[1]) == (
        cfg["ci"] == "finite"),
            lambda: f"{name}: interval {arm.ci} with {cfg['ci']} intervals")
  for arm, x, scores in kept:
    require(ctx, np.array_equal(arm.eta.calculate_score(x), scores),
            lambda: f"updating other arms changed the scores of {arm.name}")
  # the bandits are over these arms, in these rounds
  kinds = (bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm,
           bandits.UniformAlgorithm)
  for alg, kind in zip((lucb, se, uni), kinds):
    require(ctx, isinstance(alg, kind),
            lambda: f"{type(alg).__name__} in place of {kind.__name__}")
    for a in arm_list:
      a.reset()
    cpds.sizes.clear()
    res = alg.run()
    require(ctx, set(res.lcb_by_arm) == set(arm_list),
            "the bandit runs over other arms")
    require(ctx, set(cpds.sizes) == {cfg["u"]},
            lambda: f"rounds of {set(cpds.sizes)} units, not {cfg['u']}")
    require(ctx, res.cum_samples[-1] <= cfg["limit"] + cfg["u"] * len(arm_list),
            lambda: f"{res.cum_samples[-1]} samples, limit {cfg['limit']}")
  ctx.outcome(m, z_dim, v_dim, cfg["latex"])
  ctx.note((m, z_dim, v_dim, seen))


def harnesses(tier):
  cfgs = []
  for m in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
    sizes = (1, 2, 3) if m < 3 else (1, 2)
    if m == 4:
      sizes = (1, 2)
    alls = itertools.product(itertools.product(sizes, repeat=m + 1),
                             itertools.product(sizes, repeat=m))
    for i, (z, v) in enumerate(alls):
      cfgs.append(dict(m=m, z=z, v=(0,) + v, latex=i % 2 == 1, limit=200 * 2**m,
                       u=(30, 50)[i // 2 % 2],
                       ci=("clt", "finite", "chi2")[i % 3],
                       cost=i % 3))
  for m, z, v in ((1, (2, 14), (17,)), (1, (11, 1), (1,)), (2, (1, 9, 1), (1, 13)),
                  (2, (3, 12, 10), (11, 16))):
    cfgs.append(dict(m=m, z=z, v=(0,) + v, latex=False, limit=1000 * 2**m,
                     u=120, ci="clt", cost=1))
  for m in (4, 5):
    cfgs.append(dict(m=m, z=(1,) * (m + 1), v=(0,) + (1,) * m, latex=m == 4,
                     limit=60 * 2**m, u=30, ci="clt", cost=m - 3))
  return [
      Harness("design", body, cfgs,
              rule="every assignment of 1-3 columns to every Z and V, one to "
              "three (thorough: four) back-door paths")
  ]
