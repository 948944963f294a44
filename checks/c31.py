"""Plots: what is drawn is what the run recorded."""
import itertools
import math

import numpy as np

from mc import env  # noqa
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import arms
from causal_effect_bandits import bandits
from causal_effect_bandits import plotting_utils
import matplotlib.pyplot as plt
from matplotlib import collections as mcoll

INF = math.inf
LETTERS = [(1.0, 0.5, 2.0), (3.0, 0.0, 7.0), (2.0, 2.0, 2.0), (4.0, 0.0, INF)]
# before its first update an arm's interval is the whole line; scales
WIDE = [(2.0, -INF, INF), (1.0, -3.0, 5.0), (1e6, 1e-7, 1e12)]
NAMES = ["arm-{}", "$Z_{}V_1$", " {} ", "{}"]


def same(a, b):
  return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def body(ctx, cfg):
  arm_list = [arms.VarianceEstimatorArm(
      NAMES[cfg["names"]].replace("{}", str(i)), None, None)
              for i in range(cfg["k"])]
  rounds = cfg["rounds"]
  if cfg.get("long"):  # a phase of a fixed cycle of letters, for each arm
    hist = {}
    for a in arm_list:
      o = ctx.pick(range(len(cfg["letters"])), label="phase")
      hist[a] = [cfg["letters"][(o + t * t) % len(cfg["letters"])]
                 for t in range(rounds)]
  else:
    hist = {a: [ctx.pick(cfg["letters"], label="interval")
                for _ in range(rounds)] for a in arm_list}
  col = lambda j: {a: [h[j] for h in hist[a]] for a in arm_list}
  cum = [10 * (i + 1) for i in range(rounds)]
  bd = bandits.BanditData(col(1), col(2), col(0),
                          {a: [10] * rounds for a in arm_list}, list(cum), [])
  fig = plt.figure()
  try:
    ax = fig.add_subplot()
    # a list in another order, or a part of the arms
    shown = [arm_list[i] for i in cfg["shown"]]
    skip = cfg["skip"]
    out = (plotting_utils.plot_bandit_results(ax, shown, bd) if skip is None
           else plotting_utils.plot_bandit_results(ax, shown, bd, skip))
    k = skip or 0
    ctx.step()
    require(ctx, out is ax, "the axis is not returned")
    lines = ax.get_lines()
    for a in shown:
      mine = [l for l in lines if l.get_label() == a.name]
      require(ctx, len(mine) == 1, lambda: f"{len(mine)} lines for {a.name}")
      require(ctx, same(mine[0].get_xdata(), cum[k:]) and
              same(mine[0].get_ydata(), bd.var_est_by_arm[a][k:]),
              lambda: f"{a.name}: drawn {list(mine[0].get_xdata())}, "
              f"{list(mine[0].get_ydata())}; recorded {cum[k:]}, "
              f"{bd.var_est_by_arm[a][k:]}")
    bands = [c for c in ax.collections if isinstance(c, mcoll.PolyCollection)]
    require(ctx, len(bands) == len(shown),
            lambda: f"{len(bands)} bands for {len(shown)} arms")
    rest = [l for l in lines if l.get_label() not in {a.name for a in shown}]
    for a, band in zip(shown, bands):
      for bound in (bd.lcb_by_arm[a][k:], bd.ucb_by_arm[a][k:]):
        hit = [l for l in rest if same(l.get_xdata(), cum[k:]) and
               same(l.get_ydata(), bound)]
        require(ctx, bool(hit),
                lambda: f"{a.name}: the bound {bound} is not drawn")
        rest.remove(hit[0])
      want = set()
      for x, lo, hi in zip(cum[k:], bd.lcb_by_arm[a][k:], bd.ucb_by_arm[a][k:]):
        if math.isfinite(hi) and math.isfinite(lo):
          want |= {(float(x), lo), (float(x), hi)}
      verts = {tuple(map(float, v)) for p in band.get_paths()
               for v in p.vertices if np.all(np.isfinite(v))}
      require(ctx, want <= verts,
              lambda: f"{a.name}: band {sorted(verts)}, interval ends {want}")
    require(ctx, not rest, lambda: f"{len(rest)} lines too many")
    require(ctx, [t.get_text() for t in ax.get_legend().get_texts()] ==
            [a.name for a in shown], "the legend does not name the arms")
  finally:
    plt.close(fig)
  require(ctx, bd.cum_samples == cum and bd.lcb_by_arm == col(1) and
          bd.ucb_by_arm == col(2) and bd.var_est_by_arm == col(0),
          "plotting changed the record")
  ctx.state(repr(cfg), repr(sorted(hist.values())))
  ctx.outcome(cfg["k"], rounds, cfg["skip"], cfg["shown"])
  ctx.note((cfg, list(hist.values())))


def surface(ctx, cfg):
  calls = []
  def f(p):
    calls.append(np.array(p))
    return p[:, 0] * 2.0 - 3.0 * p[:, 1]
  plotting_utils.plot_3d_function(f, *cfg["box"])
  ctx.step()
  fig = plt.gcf()
  try:
    p = np.concatenate(calls)
    xs, ys = np.unique(p[:, 0]), np.unique(p[:, 1])
    xl, xh, yl, yh = cfg["box"]
    require(ctx, p.shape[1] == 2 and len(p) == len(xs) * len(ys) and
            len(xs) > 1 and len(ys) > 1,
            lambda: f"f is evaluated on {p.shape} points, {len(xs)} x {len(ys)}")
    near = lambda a, b: abs(a - b) < 1e-9
    require(ctx, near(xs[0], xl) and near(xs[-1], xh) and near(ys[0], yl) and
            near(ys[-1], yh),
            lambda: f"{cfg}: the grid spans {xs[0]}..{xs[-1]}, "
            f"{ys[0]}..{ys[-1]}")
    ax = fig.axes[-1]
    lims = (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())
    z = f(p)
    require(ctx, lims[0][0] <= xl and lims[0][1] >= xh and lims[1][0] <= yl and
            lims[1][1] >= yh and lims[2][0] <= z.min() and
            lims[2][1] >= z.max(), lambda: f"{cfg}: axes {lims}")
  finally:
    plt.close(fig)
  ctx.state(repr(cfg))
  ctx.outcome(repr(cfg))


def harnesses(tier):
  cfgs = []
  deep = tier != "quick"
  for k, rounds in itertools.product((1, 2, 3), (0, 1, 2, 3)):
    if k * rounds > (6 if deep else 4):
      continue
    letters = LETTERS if k * rounds <= (4 if deep else 3) else LETTERS[::3]
    for skip in [None] + list(range(rounds + 1)):
      for shown in itertools.permutations(range(k), max(1, k - (
          rounds % 2 if k > 1 else 0))):
        cfgs.append(dict(k=k, rounds=rounds, letters=letters, skip=skip,
                         shown=shown, names=len(cfgs) % 2))
  for k, rounds in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
    for skip in (None, 0, 1):
      cfgs.append(dict(k=k, rounds=rounds, letters=WIDE, skip=skip,
                       shown=tuple(range(k)), names=len(cfgs) % 2))
  # long runs and many arms
  for k, rounds in ((1, 12), (1, 65), (2, 31), (2, 300), (4, 7), (5, 5)):
    for skip in (None, 0, 1, 5, rounds - 1, rounds):
      cfgs.append(dict(k=k, rounds=rounds, letters=(LETTERS + WIDE)[:7 if k < 3
                                                                    else 2],
                       skip=skip, shown=tuple(reversed(range(k))), long=True,
                       names=0))
  cfgs.append(dict(k=13, rounds=2, letters=LETTERS[:1], skip=None, long=True,
                   shown=tuple(range(13)), names=0))
  for names in range(len(NAMES)):
    cfgs.append(dict(k=3, rounds=1, letters=LETTERS[:2], skip=None,
                     shown=(2, 0, 1), names=names))
  return [
      Harness("lines", body, cfgs,
              rule="every history of up to 3 arms and 3 rounds over 4 interval "
              "letters, every number of skipped rounds, every order of arms; long "
              "runs (to 300 rounds) and 13 arms from every phase of a cycle"),
      Harness("surface", surface,
              [dict(box=b) for b in ((-1, 1, -1, 1), (0, 2, -3, 0.5))],
              rule="every listed box"),
  ]
