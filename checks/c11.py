"""The three confidence intervals of the sample-splitting arm."""
import itertools
import math

import numpy as np
import scipy.stats

from mc import arm_world as aw
from mc import rng
from mc.explorer import Harness
from mc.util import close, product_cfgs, raises, require
from causal_effect_bandits import arms

INF = math.inf


def expected(cfg, s, t, delta, width):
  """(lower, upper) for scores s at the t-th update."""
  n = len(s)
  dev = (s - s.mean())**2
  var = dev.mean()
  if cfg["ci"] == "chi2":
    if n < 2:
      return (0.0, INF)
    q = scipy.stats.chi2.ppf([1 - delta / 2, delta / 2], n - 1)
    return (var * (n - 1) / q[0], var * (n - 1) / q[1])
  if cfg["ci"] == "clt":
    z = scipy.stats.norm.isf(delta / t**2 / 2)
    half = z * math.sqrt(dev.var() / n)
    return (max(var - half, 0.0), var + half)
  if n < cfg["burn_in"]:
    return (0.0, INF)
  g = cfg["sub_g"]
  lam = max(g, 8 * g * g)
  half = 5 / 8 * (math.sqrt(2 * g) + cfg["tau"])
  inner = (2 * math.log(lam * n / cfg["burn_in"]) / n + 0.5 +
           math.log(4 / delta))
  if inner < 0:  # the boundary is not defined yet
    return (0.0, INF)
  half *= math.sqrt(inner) / math.sqrt(n)
  half += width**2
  return (max(var - half, 0.0), var + half)


def body(ctx, cfg):
  eta = aw.RecordingEta(ctx, scores=cfg["scores"], min_fit=1,
                        width=cfg.get("width", 0.0))
  kw = {}
  if cfg["ci"] == "finite":
    kw = dict(sub_gscale=cfg["sub_g"], eta_sub_gscale=cfg["eta_g"],
              tau_bound=cfg["tau"], burn_in=cfg["burn_in"], rho=cfg["rho"])
  arm = arms.SampleSplittingArm("a", eta, aw.transformer,
                                ci_algorithm=aw.CI[cfg["ci"]], **kw)
  total, f = 0, []
  for t, (size, delta) in enumerate(zip(cfg["sizes"], cfg["deltas"]), 1):
    eta.calls.clear()
    eta.widths.clear()
    with rng.controlled(ctx, only=()):
      out = arm.update(aw.rows(total, size), delta)
    ctx.step()
    total += size
    # the last fit, of this update or an earlier one
    f = ([f] + [c[1] for c in eta.calls if c[0] == "fit"])[-1]
    ev = [i for i in range(total) if i not in set(f)]
    s = np.array([eta.score(i, f) for i in ev])
    lo, hi = expected(cfg, s, t, delta, eta.width)
    require(ctx, close(out, (lo, hi), rtol=1e-7, atol=1e-10),
            lambda: f"update {t} with delta={delta}: interval {out}, for "
            f"scores {s.tolist()} it should be {(lo, hi)}")
    require(ctx, close(arm.ci, out), "the returned interval is not arm.ci")
    require(ctx, 0 <= arm.ci[0] <= arm.ci[1],
            lambda: f"malformed interval {arm.ci}")
    if cfg["ci"] != "chi2":
      require(ctx, arm.ci[0] <= arm.var_est * (1 + 1e-9) and
              arm.var_est <= arm.ci[1] * (1 + 1e-9) + 1e-12,
              lambda: f"{arm.ci} does not contain the estimate {arm.var_est}")
    if cfg["ci"] == "finite":
      # the nuisance error must be controlled at half of delta
      require(ctx, all(close(w, (delta / 2, cfg["eta_g"], cfg["rho"]))
                       for w in eta.widths),
              lambda: f"eta's confidence sequence was asked for with "
              f"{eta.widths}, delta={delta}")
      if len(ev) >= cfg["burn_in"]:
        require(ctx, len(eta.widths) >= 1,
                "the interval ignores the error of eta")
    ctx.state(cfg["ci"], t, delta, len(ev), round(float(arm.var_est), 9))
    ctx.outcome(cfg["ci"], math.isinf(hi), lo > 0)
    ctx.note((size, delta, out))


def invalid(ctx, cfg):
  """FINITE_SAMPLE refuses parameters its guarantee does not cover."""
  eta = aw.RecordingEta(ctx)
  arm = arms.SampleSplittingArm(
      "a", eta, aw.transformer, ci_algorithm=aw.CI["finite"],
      sub_gscale=cfg["sub_g"], tau_bound=cfg["tau"], burn_in=cfg["burn_in"])
  ok = cfg["tau"] > 0 and cfg["burn_in"] > 1 and cfg["sub_g"] > 0
  ctx.state(sorted(cfg.items()))
  ctx.outcome(ok)
  if ok:
    arm.update(aw.rows(0, 8), 0.1)
    ctx.check()
  else:
    with raises(ctx, ValueError, f"update with {cfg}"):
      arm.update(aw.rows(0, 8), 0.1)


def unknown(ctx, cfg):
  """Every member of the enumeration works; anything else is an error."""
  eta = aw.RecordingEta(ctx)
  m = cfg["method"]
  method = arms.CIAlgorithm[m[1:]] if m[:1] == "=" else {"none": None}.get(m, m)
  def use():
    arm = arms.SampleSplittingArm("a", eta, aw.transformer,
                                  ci_algorithm=method, burn_in=2)
    arm.update(aw.rows(0, 8), 0.1)
    arm.update(aw.rows(8, 8), 0.1)
  if m[:1] == "=":
    use()
  else:
    with raises(ctx, ValueError, f"updating an arm with method {method!r}"):
      use()
  ctx.check()
  ctx.state(m)
  ctx.outcome(m)


def harnesses(tier):
  big = tier == "thorough"
  seqs = []
  ds = (0.01, 0.05, 0.2, 0.5, 0.9)
  sz = (2, 3, 4, 7, 12, 40) + ((9, 25, 120) if big else ())
  for a in sz:
    for d in ds:
      seqs.append(((a,), (d,)))
      for b in sz:
        seqs.append(((a, b), (d, d)))
        if big or (d in (0.05, 0.5)):
          for c in (1, 2, 5, 40):
            seqs.append(((a, b, c), (d, d, d)))
    # many updates, extreme tolerances, large folds
  for d in (0.05, 0.5):
    seqs.append(((6,) + (2,) * 30, (d,) * 31))
    seqs.append(((3,) * (60 if big else 14), (d,) * (60 if big else 14)))
  for d in (1e-3, 1e-6, 1e-9, 0.99, 0.999999):
    for a in (4, 12, 40):
      seqs.append(((a,), (d,)))
      seqs.append(((a, 5, 5), (d, d, d)))
  for n in (100, 257, 600, 2500) + ((20000,) if big else ()):
    seqs.append(((n,), (0.05,)))
    seqs.append(((n, 301, 2), (0.3, 0.3, 0.3)))
  for d1, d2 in itertools.permutations((0.02, 0.3, 0.8), 2):
    seqs.append(((40, 4, 3), (d1, d2, d1)))
    # an update without rows still answers for its own tolerance
    seqs.append(((9, 0), (d1, d2)))
    seqs.append(((40, 0, 0, 5), (d1, d2, d2, d1)))
  cfgs = []
  for sizes, deltas in seqs:
    for scores in ("a", "b", "c", "const", "spike", "far", "tail"):
      for ci in ("chi2", "clt"):
        cfgs.append(dict(ci=ci, scores=scores, sizes=sizes, deltas=deltas))
    for g, eg, tau, burn, rho, width in (
        (0.05, 0.01, 1.0, 2, 0.1, 0.0), (0.125, 0.05, 0.01, 2, 1e-3, 1e-3),
        (1.0, 1.0, 1.0, 2, 0.1, 0.0), (0.3, 2.0, 0.5, 2, 1.0, 0.75),
        (0.2, 1.0, 2.0, 3, 1.0, 0.1), (2.0, 0.5, 3.0, 6, 0.5, 2.0),
        (0.25, 0.5, 1.0, 2.5, 0.3, 0.1), (0.2, 1.0, 1e-4, 3.75, 1.0, 0.0),
        (0.002, 1e-3, 1e-3, 1.5, 0.1, 1e-6),
        (1.0, 1.0, 2.0, 20, 0.1, INF)):
      cfgs.append(dict(ci="finite", scores="c", sizes=sizes, deltas=deltas,
                       sub_g=g, eta_g=eg, tau=tau, burn_in=burn, rho=rho,
                       width=width))
  bad = product_cfgs(sub_g=[-1.0, 0.0, 0.5], tau=[-2.0, 0.0, 1.0],
                     burn_in=[0, 1, 2])
  return [
      Harness("formula", body, cfgs,
              rule="all combinations of update sizes, deltas, score tables "
              "and interval parameters from the listed alphabets"),
      Harness("invalid-parameters", invalid, bad,
              rule="all sign combinations of the FINITE_SAMPLE parameters"),
      Harness("methods", unknown,
              [dict(method="=" + m.name) for m in arms.CIAlgorithm] +
              [dict(method=m) for m in ("none", "bogus", "", "normal")],
              rule="every member of CIAlgorithm, and values outside it"),
  ]
