"""The example models' advertised moments, exactly."""
import math

import numpy as np

from mc import env
from mc import rng
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import example_scm

ASSUMPTIONS = [
    "Gaussian noise is replaced by two-point noise of the same variance while "
    "a law is enumerated: means and variances are unaffected",
]


def moments(ctx, law, pick):
  m = sum(w * pick(r) for w, r in law)
  return m, sum(w * (pick(r) - m)**2 for w, r in law)


def body(ctx, cfg):
  np.random.seed((env.SEED * 1009 + cfg["seed"]) % 2**32)
  gen, par = (example_scm.back_door_scm if cfg["which"] == "back-door" else
              example_scm.frontdoor_scm)()
  n = cfg["n"]
  fn = lambda: (lambda d: (np.array(d.cov, dtype=float), np.array(
      d.exp, dtype=float), np.array(d.rsp, dtype=float)))(gen.generate(n))
  law = rng.law(ctx, fn, patch=rng.TWO_POINT)
  exact = law is not None
  if exact:
    require(ctx, abs(sum(w for w, _ in law) - 1) < 1e-9, "weights")
    for w, (z, x, y) in law:
      ctx.state(cfg["which"], cfg["seed"], z.tolist(), x.tolist(),
                np.round(y, 6).tolist())
    get = lambda pick: moments(ctx, law, pick)
    tol = lambda v: 1e-8 * (1 + abs(v))
  else:
    big = 200000
    d = gen.generate(big)
    cov, t, rsp = np.asarray(d.cov), np.asarray(d.exp), np.asarray(d.rsp)
    def get(pick):
      v = np.array([pick((cov[i:i + 1], t[i:i + 1], rsp[i:i + 1]))
                    for i in range(big)])
      return v.mean(), v.var()
    tol = lambda v: 0.03 * (1 + abs(v))
    n = 1
  z_col = 0 if cfg["which"] == "back-door" else 1
  for i in range(n):
    checks = [("x", lambda r: r[1][i], "mu_x", "var_x"),
              ("y", lambda r: r[2][i], "mu_y", "var_y"),
              ("z", lambda r: r[0][i, z_col], "mu_z", "var_z")]
    if cfg["which"] != "back-door":
      checks.append(("u", lambda r: r[0][i, 0], "mu_u", "var_u"))
    for name, pick, mu, var in checks:
      m, v = get(pick)
      require(ctx, abs(m - par[mu]) <= tol(m) and abs(v - par[var]) <= tol(v),
              lambda: f"{cfg}: {name} has mean {m} and variance {v}; "
              f"advertised {par[mu]}, {par[var]} (parameters {par})")
      ctx.outcome(cfg["which"], name, round(m, 9))
  # the effect of the intervention
  if n == 1:
    eff = rng.law(ctx, lambda: float(gen.compute_treatment_effect(1)),
                  patch=rng.TWO_POINT)
    if eff is not None:
      m = sum(w * e for w, e in eff)
      require(ctx, abs(m - par["tau"]) <= 1e-8 * (1 + abs(m)),
              lambda: f"{cfg}: the expected effect is {m}, advertised "
              f"{par['tau']}")
    else:
      m = gen.compute_treatment_effect(200000)
      require(ctx, abs(m - par["tau"]) <= 0.1, lambda: f"{cfg}: effect {m}")
  elif exact:
    # units are independent of each other
    for a, b in ((0, 1), (1, 0)):
      for p in (lambda r, k: r[1][k], lambda r, k: r[2][k],
                lambda r, k: r[0][k, z_col]):
        for q in (lambda r, k: r[1][k], lambda r, k: r[2][k],
                  lambda r, k: r[0][k, z_col]):
          ea = sum(w * p(r, a) for w, r in law)
          eb = sum(w * q(r, b) for w, r in law)
          ab = sum(w * p(r, a) * q(r, b) for w, r in law)
          require(ctx, abs(ab - ea * eb) <= 1e-8 * (1 + abs(ab)),
                  lambda: f"{cfg}: two units are dependent")
  ctx.note((cfg, {k: round(float(v), 4) for k, v in par.items()}))


def structure(ctx, cfg):
  """Which variable responds to which: intervene on every binary variable."""
  np.random.seed((env.SEED * 1009 + cfg["seed"]) % 2**32)
  gen, par = (example_scm.back_door_scm if cfg["which"] == "back-door" else
              example_scm.frontdoor_scm)()
  want = {"back-door": (["Z", "X", "Y"], ["Z"], {"X": {"Z"}, "Z": set(),
                                               "Y": {"X", "Z"}}),
          "frontdoor": (["U", "X", "Z", "Y"], ["U", "Z"],
                        {"U": set(), "X": {"U"}, "Z": {"X"},
                         "Y": {"Z", "U"}})}[cfg["which"]]
  require(ctx, list(gen.cov_variables) == want[1] and
          gen.treatment_variable == "X" and gen.response_variable == "Y" and
          {v: set(gen.parents[v]) for v in want[0]} == want[2],
          lambda: f"{cfg}: graph {gen.parents}, covariates {gen.cov_variables}")
  # conditional laws given the parents, for every parent assignment
  for v in want[0]:
    ps = list(gen.parents[v])
    for bits in range(2**len(ps)):
      val = {p: float(bits >> k & 1) for k, p in enumerate(ps)}
      law = rng.law(ctx, lambda: float(np.asarray(
          gen.cpds[v](1, [np.array([val[p]]) for p in ps])).reshape(-1)[0]),
                    patch=rng.TWO_POINT)
      if law is None:
        continue
      m, s = moments(ctx, law, lambda r: r)
      g = lambda x: 1 / (1 + math.exp(-x))
      if cfg["which"] == "back-door":
        mu = {"Z": lambda: par["mu_z"],
              "X": lambda: 0.5 + par["alpha"] * val["Z"],
              "Y": lambda: par["tau"] * val["X"] + par["beta"] * val["Z"]}[v]()
      else:
        mu = {"U": lambda: par["mu_u"],
              "X": lambda: g(par["alpha_1"] * val["U"]),
              "Z": lambda: g(par["beta"] * val["X"]),
              "Y": lambda: par["gamma"] * val["Z"] + par["alpha_2"] * val["U"]
             }[v]()
      var = 1.0 if v == "Y" else mu * (1 - mu)
      require(ctx, abs(m - mu) < 1e-8 and abs(s - var) < 1e-8,
              lambda: f"{cfg}: {v} given {val} has mean {m}, variance {s}; the "
              f"advertised parameters give {mu}, {var}")
      ctx.state(cfg["which"], cfg["seed"], v, bits, round(mu, 9))
      ctx.outcome(v, bits)
  ctx.note((cfg, want[2]))


def extreme(which, count):
  """Seeds of models with an extreme value of an advertised parameter."""
  build = (example_scm.back_door_scm if which == "back-door" else
           example_scm.frontdoor_scm)
  found = {}
  state = np.random.get_state()
  for s in range(count):
    np.random.seed((env.SEED * 1009 + s) % 2**32)
    for name, v in build()[1].items():
      for what, score in (("max", v), ("min", -v), ("zero", -abs(v)),
                          ("half", -abs(v - 0.5))):
        if (name, what) not in found or score > found[name, what][0]:
          found[name, what] = (score, s)
  np.random.set_state(state)
  return sorted({s for _, s in found.values()})


def harnesses(tier):
  seeds = list(range(60)) if tier == "quick" else list(range(300))
  which = ("back-door", "frontdoor")
  far = [dict(which=w, seed=s) for w in which
         for s in extreme(w, 4000 if tier == "quick" else 20000)]
  return [
      Harness("moments", body,
              [dict(which=w, seed=s, n=1) for w in which for s in seeds] +
              [dict(which=w, seed=s, n=2) for w in which
               for s in list(seeds)[:6]] + [dict(c, n=1) for c in far],
              rule="every outcome of one and two units, weighted, for models "
              "built from consecutive seeds and from the seeds, of several "
              "thousand, with extreme parameters"),
      Harness("structure", structure,
              [dict(which=w, seed=s) for w in which for s in seeds] + far,
              rule="every variable under every assignment of its parents"),
  ]
