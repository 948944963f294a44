"""Runs in which every arm has a true scaled variance, and the properties that
hold whenever the intervals contain it (the event the error budget pays for)."""
import math

from mc import bandit_world as bw
from mc.explorer import Prune, Violation

INF = math.inf


def containing(t, grid, unfit=True):
  """All (l, e, u) over a grid with l <= t <= u and l <= e <= u."""
  out = []
  for l in [g for g in grid if g <= t]:
    for u in [g for g in grid if g >= t] + [INF]:
      for e in [g for g in grid if l <= g <= u]:
        out.append((float(l), float(e), float(u)))
  if unfit:
    out.append((0.0, INF, INF))
  return out


class TruthWorld(bw.World):
  """Each arm has its own alphabet, as a function of its pull count."""

  def __init__(self, ctx, cfg):
    super().__init__(ctx, dict(cfg, letters=[]))
    self.truth = cfg["truth"]  # cost-scaled

  def alphabet(self, i, pull):
    raise NotImplementedError

  def on_update(self, arm, new_data, delta):
    c = self.costs[arm.idx]
    ls = [(l / c, e / c, u / c) for l, e, u in self.alphabet(arm.idx, arm.pulls)]
    if not self.events and self.cfg.get("part"):
      j, n = self.cfg["part"]
      ls = ls[j::n]
      if not ls:
        raise Prune()  # fewer letters than parts
    if len(self.events) * self.cfg["u"] >= self.limit:
      ls = ls[:1]  # the round that only exhausts the budget
    self.letters = ls
    if arm.pulls > self.cfg.get("free", 10**6) and arm.answer not in ls:
      arm.answer = ls[0]  # what it "repeats" by default
    super().on_update(arm, new_data, delta)


class GridWorld(TruthWorld):
  """Any interval over a grid that contains the truth."""

  def __init__(self, ctx, cfg):
    super().__init__(ctx, cfg)
    self.tables = []
    for t in self.truth:
      table = containing(t, cfg["grid"])
      if cfg.get("near"):  # what an arm answers unless it deviates
        first = (max(t - 1.0, 0.0), float(t), t + 1.0)
        table = [first] + [x for x in table if x != first]
      self.tables.append(table)

  def alphabet(self, i, pull):
    return self.tables[i]


def oracle_pac(w):
  truth, tol = w.truth, w.cfg.get("tol", 0.0)
  v = min(truth)
  best = {i for i, t in enumerate(truth) if t == v}
  total = sum(e["n"] for e in w.events)
  pulls = [0] * w.k
  for n, e in enumerate(w.events):
    pulls[e["arm"]] += 1
    w.ctx.check()
    if w.cfg["alg"] == "se":
      # a new round has begun without any truly best arm
      top = max(pulls)
      if max(pulls[i] for i in best) < top - 1:
        raise Violation(
            f"after {n + 1} updates every truly best arm has been eliminated:"
            f" true values {truth}, updates per arm {pulls}, answers "
            f"{[(x['arm'], x['answer']) for x in w.events]}")
  if w.halted or total > w.limit:
    return
  got = w.best()
  slack = 0.0 if w.cfg["alg"] == "se" else tol
  w.ctx.check()
  if len(got) != 1 or truth[got[0]] > v + slack:
    raise Violation(
        f"every interval contained the true value {truth}, yet the run ended "
        f"after {total} samples (limit {w.limit}) with {got} as the best arm; "
        f"allowed suboptimality {slack}")
  w.ctx.outcome("certified", got[0] in best)


def pac(ctx, cfg):
  oracle_pac(GridWorld(ctx, cfg).run())


def parts(cfgs, n):
  return [dict(c, part=(j, n)) for c in cfgs for j in range(n)]


def base(alg, truth, u=1, rounds=2, **kw):
  k = len(truth)
  limit = rounds * k * u
  cfg = dict(alg=alg, k=k, u=u, truth=list(truth), limit=limit, stable=True,
             horizon=bw.max_updates(alg, k, u, limit))
  cfg.update(kw)
  return cfg


# ---------------------------------------------------------------- termination


class ShrinkingWorld(TruthWorld):
  """Arm i's interval is narrow from its tight[i]-th update on.

  Narrow: contains the truth and is narrower than half the smallest difference
  between two arms' truths. No two arms ever share an estimate.
  """

  def __init__(self, ctx, cfg):
    super().__init__(ctx, cfg)
    s = sorted(self.truth)
    gap = min(b - a for a, b in zip(s, s[1:]))
    self.w = gap / 4  # half of an interval's width stays below gap / 4

  def alphabet(self, i, pull):
    t, tag = self.truth[i], (i + 1) / 1024
    if pull >= self.cfg["tight"][i]:
      w = self.w * 15 / 16
      return [(t, t, t), (t - w, t + w / 2, t + w), (t, t + w, t + w),
              (t - w, t - w, t)]
    lo, hi = min(self.truth) / 2, 4 * max(self.truth)
    return [(0.0, INF, INF), (0.0, t + tag, INF), (0.0, lo + tag, hi),
            (0.0, hi - tag, hi), (t - tag, t, hi), (lo, lo + tag, t + tag),
            (0.0, tag, t)]


def max_rounds(alg, tight):
  """Rounds within which a conforming run must have ended."""
  if alg != "lucb":
    return max(tight)
  # no judgement after the first round; each later round that does not end the
  # run is followed by one that updates an arm not yet narrow
  return 1 + 1 + sum(n - 1 for n in tight)


def oracle_ends(w):
  if w.halted:
    return
  w.ctx.check()
  got = w.best()
  v = min(w.truth)
  if [w.truth[i] for i in got] != [v]:
    raise Violation(
        f"every interval contained the true value {w.truth}, yet the unlimited "
        f"run ended with {got} as the best arm")


def ends(ctx, cfg):
  w = ShrinkingWorld(ctx, cfg)
  w.run()
  oracle_ends(w)


def ends_cfg(alg, truth, tight, u=1, **kw):
  k = len(truth)
  per = 2 if alg == "lucb" else k
  h = max_rounds(alg, tight) * per + (k - 2 if alg == "lucb" else 0)
  if alg == "se":
    h = sum(max(tight) for _ in truth)
  cfg = dict(alg=alg, k=k, u=u, truth=list(truth), tight=list(tight),
             limit=None, stable=True, horizon=h, judge_horizon=True,
             label=("no limit", max_rounds(alg, tight)))
  cfg.update(kw)
  return cfg
