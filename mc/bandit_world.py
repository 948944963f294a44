"""The bandit algorithms under an environment that decides every arm answer.

The real run() methods are executed; the arms are scripted objects whose next
confidence interval is a choice of the explorer, numpy's random tie breaking is
a choice too, and every row handed to an arm carries an identity. The oracles
compare what happened with small reference models of the three algorithms.
"""
import itertools
import math

import numpy as np

from mc import env
from mc import rng
from mc.explorer import Violation, Harness, Prune
from causal_effect_bandits import arms
from causal_effect_bandits import bandits
from causal_effect_bandits import data

INF = math.inf
NAN = math.nan

# (lower, estimate, upper); dyadic, so scaling by a cost is exact.
UNFIT = (0.0, INF, INF)
BURN1 = (0.0, 1.0, INF)
BURN2 = (0.0, 2.0, INF)
LETTERS = {
    "unfit": UNFIT,
    "burn1": BURN1,
    "burn2": BURN2,
    "low": (0.5, 1.0, 2.0),
    "point": (1.0, 1.0, 1.0),
    "mid": (2.0, 3.0, 4.0),
    "midlow": (1.0, 3.0, 8.0),
    "touch": (4.0, 6.0, 8.0),
    "high": (5.0, 6.0, 8.0),
    "zero": (0.0, 1.0, 8.0),
    "nan": (NAN, NAN, NAN),
    "nanest": (0.0, NAN, INF),
    # would decide the run if the missing estimate were ignored
    "nanlow": (0.25, NAN, 0.375),
    "nanhigh": (16.0, NAN, 17.0),
}
# Values that differ by far less than any default tolerance (all exact).
_D = 2.0**-30
LETTERS.update({
    "n-low": (0.5, 1.0, 2.0),
    "n-est": (0.5, 1.0 + _D, 2.0),
    "n-ucb": (0.5, 1.0, 2.0 + _D),
    "n-touch": (2.0, 3.0, 4.0),
    "n-above": (2.0 + _D, 3.0, 4.0),
    "n-below": (2.0 - _D, 3.0 + _D, 4.0),
    "n-point": (1.0, 1.0, 1.0),
    "n-next": (1.0 + _D, 1.0 + _D, 1.0 + _D),
})
_B = 2.0**40
LETTERS.update({
    "b-low": (_B - 8, _B, _B + 2),
    "b-est": (_B - 8, _B + 1, _B + 2),
    "b-touch": (_B + 2, _B + 4, _B + 8),
    "b-above": (_B + 3, _B + 4, _B + 8),
    "b-below": (_B + 1, _B + 4, _B + 8),
})
LETTERS.update({
    "m-low": (-2.0, -1.0, 0.0),
    "m-point": (-1.0, -1.0, -1.0),
    "m-zero": (0.0, 0.0, 0.0),
    "m-across": (-0.5, 0.25, 0.5),
    "m-mid": (-0.25, 0.25, 1.0),
})
LETTERS.update({  # bounds far apart, for large tolerances
    "w-low": (0.0, 1.0, 2.0**25),
    "w-tight": (0.0, 2.0, 4.0),
    "w-wide": (1.0, 2.0**20, 2.0**30),
    "w-high": (2.0**24, 2.0**26, 2.0**27),
})
WIDE = ["w-low", "w-tight", "w-wide", "w-high"]
BELOW = ["m-low", "m-point", "m-zero", "m-across", "m-mid"]
NEAR = ["n-low", "n-est", "n-ucb", "n-touch", "n-above", "n-below",
        "n-point", "n-next"]
HUGE = ["b-low", "b-est", "b-touch", "b-above", "b-below"]


def grid(n, *more):
  """Names of all intervals l <= e <= u over 0..n-1, and further letters."""
  out = []
  for l in range(n):
    for e in range(l, n):
      for u in range(e, n):
        name = f"{l}-{e}-{u}"
        LETTERS[name] = (float(l), float(e), float(u))
        out.append(name)
  return out + list(more)


class Halt(Exception):
  """The horizon of an unbounded run was reached; the prefix is judged."""


class NullEta:

  def reset(self):
    pass


class ScriptedArm(arms.VarianceEstimatorArm):
  """An arm whose every answer is chosen by the environment."""

  def __init__(self, world, idx, cost):
    # the first two arms share their name: arms are told apart by identity
    super().__init__("arm%d" % max(idx, 1), NullEta(), data.get_identity_fn(), cost)
    self.world = world
    self.idx = idx
    self.answer = None
    self.units = 0
    self.pulls = 0

  def update(self, new_data, delta):
    self.pulls += 1
    self.units += len(new_data)
    self.world.on_update(self, new_data, delta)
    return self.ci

  @property
  def ci(self):
    if self.answer is None:
      return (-INF, INF)
    return (self.answer[0], self.answer[2])

  @property
  def var_est(self):
    return None if self.answer is None else self.answer[1]

  @property
  def num_pulled(self):
    return self.pulls

  @property
  def ate(self):
    return 0.0

  def get_num_units(self):
    return self.units

  def reset(self):
    self.answer = None
    self.units = 0
    self.pulls = 0


class IdGenerator(data.DataGenerator):
  """Issues rows with increasing identities."""

  def __init__(self, start=100000):
    super().__init__("ids")
    self.next = start

  def generate(self, n_samples):
    out = id_data(self.next, n_samples)
    self.next += n_samples
    return out


def id_data(start, n):
  ids = np.arange(start, start + n)
  return data.ExpData(ids.reshape(-1, 1) * 1.0, ids % 2, ids * 10.0)


ALGS = {
    "uniform": bandits.UniformAlgorithm,
    "lucb": bandits.LUCBAlgorithm,
    "se": bandits.SuccessiveEliminationAlgorithm,
}


class World:

  def __init__(self, ctx, cfg):
    self.ctx = ctx
    self.cfg = cfg
    self.k = cfg["k"]
    self.letters = [LETTERS[x] for x in cfg["letters"]]
    self.events = []
    self.halted = False
    self.error = None
    self.gen = IdGenerator()
    costs = cfg.get("costs") or [1.0] * self.k
    self.arms = [ScriptedArm(self, i, c) for i, c in enumerate(costs)]
    self.costs = costs
    kw = dict(
        error_prob=cfg.get("error_prob", 0.25),
        error_tol=cfg.get("tol", 0.0),
        confidence=cfg.get("confidence", 0.05),
        sample_limit=cfg["limit"],
        units_per_round=cfg["u"],
    )
    self.alg = ALGS[cfg["alg"]](self.arms, self.gen, **kw)
    self.limit = INF if cfg["limit"] is None else cfg["limit"]
    self.result = None

  def on_update(self, arm, new_data, delta):
    if len(self.events) >= self.cfg["horizon"]:
      if self.cfg.get("halt") or not self.cfg.get("judge_horizon"):
        raise Halt()
      raise Violation(
          f"the run does not stop: {len(self.events)} updates, limit "
          f"{self.cfg['limit']}, {self.cfg['u']} units per round")
    free = arm.pulls <= self.cfg.get("free", 10**6)
    ls = self.letters
    if free:
      a = self.ctx.pick(ls, label="answer")
    else:
      # by default the arm repeats itself; anything else is a deviation
      order = [arm.answer] + [x for x in ls if x is not arm.answer]
      a = self.ctx.pick(order, dev=True, label="answer'")
    arm.answer = a
    self.events.append(
        dict(
            arm=arm.idx,
            n=len(new_data),
            ids=[int(v) for v in np.asarray(new_data.cov).reshape(-1)],
            exp=[int(v) for v in np.asarray(new_data.exp).reshape(-1)],
            rsp=[float(v) for v in np.asarray(new_data.rsp).reshape(-1)],
            delta=delta,
            answer=a,
        ))

  def run(self):
    all_data = None
    if self.cfg["stable"]:
      all_data = id_data(0, self.cfg.get("rows", self.cfg["horizon"] *
                                         self.cfg["u"] + 7))
    with rng.controlled(self.ctx, dev=self.cfg.get("rng_dev", False)):
      try:
        self.result = self.alg.run(all_data)
      except Halt:
        self.halted = True
    self.ctx.note([(e["arm"], e["answer"]) for e in self.events])
    if self.result is not None:
      self.ctx.note([a.idx for a in self.result.best_arm])
    st = []
    for e in self.events:
      st.append((e["arm"], e["answer"]))
    # one state per reached joint arm state
    cur = {}
    for e in self.events:
      cur[e["arm"]] = (e["answer"], cur.get(e["arm"], (0, 0))[1] + 1)
      self.ctx.state(self.cfg["alg"], self.k, self.cfg["u"], self.limit,
                     sorted(cur.items()))
    self.ctx.outcome(
        self.cfg["alg"], len(self.events), self.halted,
        None if self.result is None else sorted(
            a.idx for a in self.result.best_arm))
    return self

  # ----- views -----

  def scaled(self, i, ans):
    c = self.costs[i]
    return (c * ans[0], c * ans[1], c * ans[2])

  def structural_rounds(self):
    """Uniform: K updates a round. LUCB: K updates, then two a round."""
    ev = self.events
    out = []
    i = 0
    while i < len(ev):
      m = self.k if self.cfg["alg"] == "uniform" or not out else 2
      out.append(ev[i:i + m])
      i += m
    return out

  def states_after(self, rounds):
    cur, out = {}, []
    for r in rounds:
      for e in r:
        cur[e["arm"]] = self.scaled(e["arm"], e["answer"])
      out.append(dict(cur))
    return out

  def best(self):
    return [a.idx for a in self.result.best_arm]


def same(a, b):
  return a == b or (a != a and b != b)


def certified(state, tol):
  """Arms of lowest estimate whose upper bound is below all others' lower."""
  if any(math.isinf(s[2]) or s[1] != s[1] or s[2] != s[2]
         for s in state.values()):
    return set(), set()
  m = min(s[1] for s in state.values())
  low = {i for i, s in state.items() if s[1] == m}
  ok = {
      i for i in low if all(
          state[i][2] < s[0] + tol for j, s in state.items() if j != i)
  }
  return ok, low


# ---------------------------------------------------------------- oracles


def oracle_certified(w):
  """C01: Uniform and LUCB stop exactly when an arm is certified."""
  if w.cfg["alg"] == "se":
    return
  rounds = w.structural_rounds()
  states = w.states_after(rounds)
  per = [len(r) * w.cfg["u"] for r in rounds]
  total = 0
  tol = w.cfg.get("tol", 0.0)
  last = len(rounds) - 1
  for t, st in enumerate(states):
    total += per[t]
    w.ctx.check()
    if t == last and not w.halted:
      break
    if t == last and w.halted and len(rounds[t]) < (
        w.k if w.cfg["alg"] == "uniform" or t == 0 else 2):
      break
    if len(st) < w.k:
      raise Violation(f"round {t}: not every arm has been sampled once")
    ok, low = certified(st, tol)
    skip = w.cfg["alg"] == "lucb" and t == 0
    if low and ok == low and not skip and total <= w.limit and not (
        t == last and w.halted):
      raise Violation(
          f"round {t + 1}: arm {sorted(ok)} was certified ({st}, tol={tol}), "
          "yet the run went on")
  if w.halted:
    return
  st = states[-1]
  if len(st) < w.k:
    raise Violation("the run ended before every arm was sampled")
  ok, low = certified(st, tol)
  best = w.best()
  if total <= w.limit:
    if len(best) != 1:
      raise Violation(f"stopped early with {best} as best arms")
    if best[0] not in ok:
      raise Violation(
          f"stopped after {total} samples (limit {w.limit}) returning arm "
          f"{best[0]}, which is not certified: {st}, tol={tol}")


def oracle_se(w):
  """C02: successive elimination against a reference model."""
  if w.cfg["alg"] != "se":
    return
  ev = w.events
  cand = list(range(w.k))
  cur = {}
  total = 0
  i = 0
  while True:
    if len(cand) == 1 or total > w.limit:
      break
    m = len(cand)
    rnd = ev[i:i + m]
    if len(rnd) < m and w.halted:
      for e in rnd:
        if e["arm"] not in cand:
          raise Violation(f"eliminated arm {e['arm']} was sampled again")
      return
    got = sorted(e["arm"] for e in rnd)
    w.ctx.check()
    if got != sorted(cand):
      raise Violation(
          f"after {i} updates the candidates are {sorted(cand)} (bounds "
          f"{cur}), but the arms sampled next are {got}")
    i += m
    total += sum(e["n"] for e in rnd)
    for e in rnd:
      cur[e["arm"]] = w.scaled(e["arm"], e["answer"])
    low_est = min(cur[a][1] for a in cand)
    low = [a for a in cand if cur[a][1] == low_est]
    low_ucb = min(cur[a][2] for a in low)
    cand = [a for a in cand if a in low or cur[a][0] < low_ucb]
  if w.halted:
    if i < len(ev):
      raise Violation(f"sampling went on after the run was decided: {cand}")
    return
  if i != len(ev):
    raise Violation(
        f"{len(ev) - i} updates after the run was decided (candidates {cand},"
        f" total {total}, limit {w.limit})")
  best = w.best()
  if len(cand) > 1:
    m = min(cur[a][1] for a in cand)
    cand = [a for a in cand if cur[a][1] == m]
  if sorted(best) != sorted(cand):
    raise Violation(
        f"returned {best}, but the surviving arms are {cand} ({cur})")


def lucb_allowed(state, k):
  """Set of allowed frozenset pairs, given scaled (lo, est, hi) per arm."""
  if any(s is None or s[1] != s[1] for s in state.values()):
    return {frozenset(p) for p in itertools.combinations(range(k), 2)}
  m = min(s[1] for s in state.values())
  b = [i for i in state if state[i][1] == m]
  hi = max(state[i][2] for i in b)
  out = set()
  for u in b:
    if state[u][2] != hi:
      continue
    rest = [i for i in state if i not in b] or [i for i in state if i != u]
    lo = min(state[i][0] for i in rest)
    for l in rest:
      if state[l][0] == lo:
        out.add(frozenset((u, l)))
  return out


def oracle_lucb(w):
  """C03: every adaptive LUCB round samples the leader and the challenger."""
  if w.cfg["alg"] != "lucb":
    return
  rounds = w.structural_rounds()
  if sorted(e["arm"] for e in rounds[0]) != list(range(len(rounds[0]))) and len(
      rounds) > 1:
    raise Violation(
        f"the first round sampled {[e['arm'] for e in rounds[0]]}")
  states = w.states_after(rounds)
  for t in range(1, len(rounds)):
    pair = [e["arm"] for e in rounds[t]]
    w.ctx.check()
    allowed = lucb_allowed(states[t - 1], w.k)
    if len(pair) < 2:
      if not w.halted:
        raise Violation(f"round {t + 1} sampled only {pair}")
      if not any(pair[0] in p for p in allowed):
        raise Violation(f"round {t + 1}: sampled {pair}, allowed {allowed}")
      continue
    if frozenset(pair) not in allowed:
      raise Violation(
          f"round {t + 1} sampled arms {pair}; with (lower, estimate, upper) ="
          f" {states[t - 1]} it should be one of {[sorted(p) for p in allowed]}")


def oracle_report(w):
  """C04: the returned history is what happened."""
  if w.halted:
    return
  r = w.result
  t_max = len(r.cum_samples)
  series = dict(
      lcb=r.lcb_by_arm, ucb=r.ucb_by_arm, est=r.var_est_by_arm,
      samples=r.samples_by_arm)
  for name, s in series.items():
    if len(s) != w.k or any(a not in s for a in w.arms):
      raise Violation(f"{name}: the history does not have one series per arm")
    for a in w.arms:
      if len(s[a]) != t_max:
        raise Violation(
            f"{name} of {a.name} has {len(s[a])} entries, cum_samples {t_max}")
  ev = list(w.events)
  cur = {}
  total = 0
  for t in range(t_max):
    claimed = {
        a.idx: r.samples_by_arm[a][t]
        for a in w.arms
        if r.samples_by_arm[a][t] != 0
    }
    chunk, ev = ev[:len(claimed)], ev[len(claimed):]
    w.ctx.check()
    if sorted(e["arm"] for e in chunk) != sorted(claimed):
      raise Violation(
          f"round {t + 1}: samples_by_arm claims {claimed}, but the arms "
          f"updated were {[e['arm'] for e in chunk]}")
    for e in chunk:
      if e["n"] != claimed[e["arm"]] or e["n"] != w.cfg["u"]:
        raise Violation(
            f"round {t + 1}: arm {e['arm']} received {e['n']} units, claimed "
            f"{claimed[e['arm']]}, units_per_round {w.cfg['u']}")
      cur[e["arm"]] = e["answer"]
      total += e["n"]
    if r.cum_samples[t] != total:
      raise Violation(
          f"round {t + 1}: cum_samples is {r.cum_samples[t]}, but {total} "
          "units were consumed")
    for a in w.arms:
      if a.idx not in cur:
        raise Violation(f"round {t + 1} is reported before arm {a.idx} ran")
      want = w.scaled(a.idx, cur[a.idx])
      got = (r.lcb_by_arm[a][t], r.var_est_by_arm[a][t], r.ucb_by_arm[a][t])
      if not all(same(x, y) for x, y in zip(want, got)):
        raise Violation(
            f"round {t + 1}: reported (lower, estimate, upper) {got} of arm "
            f"{a.idx}, cost {w.costs[a.idx]}; the arm's are {want}")
  if ev:
    raise Violation(f"{len(ev)} updates are missing from the history")


def oracle_budget(w):
  """C05: no round starts over the limit; what is returned at the limit."""
  ev = w.events
  u = w.cfg["u"]
  if w.cfg["alg"] != "se":
    rounds = w.structural_rounds()
  else:
    # A round of elimination updates each surviving arm once: a new round
    # starts when an arm that was already updated in this round comes again.
    rounds, seen = [], set()
    for e in ev:
      if not rounds or e["arm"] in seen:
        rounds.append([])
        seen = set()
      rounds[-1].append(e)
      seen.add(e["arm"])
  total = 0
  for t, r in enumerate(rounds):
    w.ctx.check()
    if total > w.limit:
      raise Violation(
          f"round {t + 1} was started after {total} samples; the limit is "
          f"{w.limit}")
    total += sum(e["n"] for e in r)
  if w.halted:
    return
  best = w.best()
  if not best or len(set(best)) != len(best):
    raise Violation(f"best arms returned: {best}")
  if total <= w.limit:
    # not the budget: only one arm left, or one arm certified
    if w.cfg["alg"] == "se":
      done = len(se_survivors(w, rounds)) == 1
    else:
      st = w.states_after(rounds)[-1] if rounds else {}
      done = len(st) == w.k and bool(certified(st, w.cfg.get("tol", 0.0))[0])
    if not done:
      raise Violation(
          f"the run ended after {total} of {w.limit} samples without a "
          f"certified arm, returning {best}")
  if len(rounds) and total > w.limit:
    states = w.states_after(rounds)
    st = states[-1]
    if w.cfg["alg"] == "se":
      pool = se_survivors(w, rounds)
    else:
      pool = list(range(w.k))
    ok, _ = certified(st, w.cfg.get("tol", 0.0)) if len(st) == w.k else ((), ())
    m = min(st[a][1] for a in pool)
    want = sorted(a for a in pool if st[a][1] == m)
    if sorted(best) != want and not (w.cfg["alg"] == "lucb" and
                                     len(rounds) > 1 and len(best) == 1 and
                                     best[0] in ok):
      raise Violation(
          f"the limit was hit with {st} and surviving arms {pool}; returned "
          f"{best}, lowest estimates {want}")


def se_survivors(w, rounds):
  cur, cand = {}, list(range(w.k))
  for r in rounds:
    for e in r:
      cur[e["arm"]] = w.scaled(e["arm"], e["answer"])
    c = [a for a in cand if a in cur]
    le = min(cur[a][1] for a in c)
    low = [a for a in c if cur[a][1] == le]
    lu = min(cur[a][2] for a in low)
    cand = [a for a in c if a in low or cur[a][0] < lu]
  return cand


def oracle_stream(w):
  """C06: which rows an arm is given."""
  u = w.cfg["u"]
  per = {i: [] for i in range(w.k)}
  count = {i: 0 for i in range(w.k)}
  for e in w.events:
    w.ctx.check()
    if e["exp"] != [i % 2 for i in e["ids"]] or e["rsp"] != [
        i * 10.0 for i in e["ids"]]:
      raise Violation(f"columns of the rows handed to an arm disagree: {e}")
    j = count[e["arm"]]
    count[e["arm"]] += 1
    if w.cfg["stable"]:
      rows = w.cfg.get("rows", INF)  # past the end there is nothing to read
      want = list(range(min(j * u, rows), min((j + 1) * u, rows)))
      if e["ids"] != want:
        raise Violation(
            f"update {j + 1} of arm {e['arm']} read rows {e['ids']} of the "
            f"dataset instead of {want}")
    else:
      if len(e["ids"]) != u:
        raise Violation(f"an update received {len(e['ids'])} units, not {u}")
      if any(i < 100000 or i >= w.gen.next for i in e["ids"]):
        raise Violation("a row does not come from the generator")
      if len(set(e["ids"])) != u or set(e["ids"]) & set(per[e["arm"]]):
        raise Violation(
            f"arm {e['arm']} was given the same generated rows twice: "
            f"{e['ids']} after {per[e['arm']]}")
    per[e["arm"]] += e["ids"]


def oracle_delta(w):
  """C07: the error probability is split over the arms."""
  share = w.cfg.get("error_prob", 0.25) / w.k
  for e in w.events:
    w.ctx.check()
    if abs(e["delta"] - share) > 1e-12 * share:
      raise Violation(
          f"arm {e['arm']} was updated with delta={e['delta']} instead of "
          f"error_prob/K={share}")


def oracle_horizon(w):
  del w


# ---------------------------------------------------------------- roots

ALL_LETTERS = ["unfit", "burn1", "low", "point", "mid", "touch", "high"]


def max_updates(alg, k, u, limit):
  """An upper bound on updates of a conforming run."""
  if limit is None or math.isinf(limit):
    return None
  return int(limit // u) + 2 * k + 4


def configs(tier, algs=("uniform", "lucb", "se"), nan=False, tols=(0.0,),
            grids=False):
  """The roots of the bandit exploration: (all answers free, long runs)."""
  short, long_, gridded = [], [], []

  def add(alg, k, u, limit, letters, out=short, **kw):
    cfg = dict(alg=alg, k=k, u=u, limit=limit, letters=letters, stable=True)
    cfg.update(kw)
    m = max_updates(alg, k, u, limit)
    if m is None:
      cfg["halt"] = True
      cfg.setdefault("horizon", 3 * k)
    else:
      cfg["horizon"] = m
    out.append(cfg)

  def add_long(*args, **kw):
    add(*args, out=long_, free=1, rng_dev=True, **kw)

  big = tier == "thorough"
  for alg in algs:
    for n_tol, tol in enumerate(tols):
      # two arms, one round and two rounds, limits around the boundary
      for u, limit in ((1, 0), (1, 1), (2, 3)):
        add(alg, 2, u, limit, ALL_LETTERS, tol=tol)
      add(alg, 2, 2, 4, ALL_LETTERS, tol=tol)
      add(alg, 2, 1, 2, ["unfit", "low", "mid", "high", "point"], tol=tol,
          stable=False)
      # unequal costs
      for costs in ([2.0, 1.0], [0.5, 4.0]):
        add(alg, 2, 2, 3, ALL_LETTERS, costs=costs, tol=tol, error_prob=0.125)
      add(alg, 2, 3, 7, ["unfit", "low", "mid", "high"], tol=tol,
          costs=[0.5, 4.0], error_prob=0.125)
      # three arms
      add(alg, 3, 1, 2, ["unfit", "burn1", "low", "mid", "high"], tol=tol)
      add(alg, 3, 1, 3, ["unfit", "low", "mid", "high"], tol=tol,
          costs=[1.0, 2.0, 0.5])
      # long runs: arms repeat themselves, up to `bound` deviations
      add_long(alg, 4, 1, 11, ["low", "mid", "high"], tol=tol)
      add_long(alg, 3, 2, 25, ["low", "midlow", "touch", "point"], tol=tol)
      add_long(alg, 2, 1, 25, ["zero", "midlow", "low", "high"], tol=tol,
               stable=False)
      if n_tol == 0:
        # three rounds, every answer free; no limit at all
        add(alg, 2, 1, 4, ["low", "mid", "high", "point"], tol=tol)
        add(alg, 2, 2, None, ["unfit", "low", "mid", "high"], tol=tol,
            horizon=5)
        add(alg, 3, 2, 7, ["low", "mid", "midlow"], tol=tol, stable=False)
        add_long(alg, 3, 2, 41, ["zero", "midlow", "unfit"], tol=tol,
                 stable=False)
        add_long(alg, 5, 3, 40, ["low", "mid"], tol=tol, error_prob=0.5)
      if big:
        for stable in (True, False):
          add(alg, 2, 1, 4, ALL_LETTERS, tol=tol, stable=stable)
        add(alg, 3, 1, 4, ["unfit", "burn1", "low", "mid", "touch", "point"],
            tol=tol)
        add(alg, 4, 1, 5, ["unfit", "low", "mid", "high"], tol=tol)
        add_long(alg, 6, 2, 49, ["low", "mid"], tol=tol)
        add_long(alg, 3, 2, 61, ["zero", "midlow", "low", "high"], tol=tol)
    if nan:
      add(alg, 2, 1, 2, ["low", "mid", "nan", "nanest"])
      add(alg, 3, 1, 3 if not big else 4, ["low", "mid", "nan"])
    # every order of the bounds: all intervals over a grid. What follows from
    # the first answers is seen in the next round, where arms repeat.
    for n_tol, tol in enumerate(tols if grids else ()):
      g = grid(3 + big, "unfit", "burn1")
      add(alg, 2, 1, 3, g, out=gridded, tol=tol)
      if n_tol == 0:
        g = grid(4 + big, "unfit", "burn1")
        for u, limit, costs in ((1, 3, None), (1, 2, None),
                                (2, 6, [0.5, 1.0, 2.0])):
          add(alg, 3, u, limit, g, out=gridded, tol=tol, free=1, rng_dev=True,
              bound0=True, costs=costs)
      if big and n_tol == 0:
        add(alg, 3, 1, 3, grid(3), out=gridded, tol=tol, free=1, rng_dev=True)
        add(alg, 4, 1, 4, grid(3), out=gridded, tol=tol, free=1, rng_dev=True,
            bound0=True)
  # values that nearly tie, at ordinary and at large scale; many arms; limits
  # that are not whole numbers
  edges = []
  for alg in algs:
    add(alg, 2, 1, 2, NEAR, out=edges)
    add(alg, 2, 1, 2, HUGE, out=edges)
    add(alg, 2, 1, 2, BELOW, out=edges)
    for letters in (NEAR, HUGE, BELOW):
      add(alg, 3, 1, 3, letters, out=edges, free=1, rng_dev=True)
    add(alg, 6, 2, 13, ["low", "midlow", "high"], out=edges, free=1,
        rng_dev=True)
    add(alg, 8, 1, 8, ["low", "mid"], out=edges, free=1, rng_dev=True)
    add(alg, 7, 1, 14, ["low", "unfit", "mid"], out=edges, free=1, rng_dev=True)
    for k, u, limit in ((2, 1, 3.5), (2, 1, 2.5), (2, 2, 7.75), (3, 1, 5.5)):
      add(alg, k, u, limit, ["unfit", "low", "midlow"], out=edges)
    if len(tols) > 1:  # certificates under extreme tolerances
      for tol in (2.0**24, 2.0**25, 2.0**25 + 1, 2.0**40, INF):
        add(alg, 2, 1, 3, WIDE + ["unfit"], out=edges, tol=tol)
      for tol in (2.0**-31, 2.0**-30, 2.0**-29):
        add(alg, 2, 1, 2, NEAR, out=edges, tol=tol)
    if nan:
      add(alg, 2, 1, 2, ["low", "nanlow", "nanhigh", "mid"], out=edges)
      add(alg, 3, 1, 3, ["low", "nanlow", "nanhigh", "high"], out=edges,
          free=1, rng_dev=True)
  return short, long_, gridded, edges


def split(cfgs):
  """Fixes the first answers in the root, to spread roots over workers."""
  out = []
  for c in cfgs:
    for i in range(len(c["letters"])):
      for j in range(len(c["letters"])):
        d = dict(c)
        d["first"] = (i, j)
        out.append(d)
  return out


class FirstWorld(World):
  """World whose first two answers are fixed by the root."""

  def on_update(self, arm, new_data, delta):
    n = len(self.events)
    first = self.cfg.get("first")
    if first is not None and n < len(first):
      real = self.letters
      self.letters = [real[first[n]]]
      try:
        super().on_update(arm, new_data, delta)
      finally:
        self.letters = real
    else:
      super().on_update(arm, new_data, delta)


def body_for(oracle):

  def body(ctx, cfg):
    # Never stopping is a violation of the properties that promise a stop;
    # the other properties judge the prefix.
    if oracle in (oracle_budget, oracle_certified):
      cfg = dict(cfg, judge_horizon=True)
    w = FirstWorld(ctx, cfg).run()
    oracle(w)

  return body


RULE = (
    "one execution = one complete run() of the real algorithm; every arm "
    "answer (lower, estimate, upper) and every random tie-break is a choice "
    "point. Roots fix algorithm, arms, costs, units, limit, data mode; roots "
    "with free=1 let an arm repeat its previous answer by default and count "
    "every other answer or non-first random draw as one deviation.")


def bandit_harnesses(oracle, tier, **kw):
  short, long_, gridded, edges = configs(tier, **kw)
  return [
      Harness("all-answers", body_for(oracle), split(short), rule=RULE),
      Harness("long-runs", body_for(oracle), split(long_),
              bound=2 if tier == "quick" else 3, rule=RULE),
      Harness("edges", body_for(oracle), split(edges), bound=0,
              rule="nearly tied values at two scales, bounds below zero, up to 8 arms, fractional "
              "limits. " + RULE),
  ] + ([] if not gridded else [
      Harness("grid-first-answers", body_for(oracle),
              split([g for g in gridded if g.get("bound0")]), bound=0,
              rule="every joint first answer over a full grid of intervals; "
              "later answers repeat. " + RULE),
      Harness("grid-all-answers", body_for(oracle),
              split([g for g in gridded if not g.get("bound0")]),
              bound=None if tier == "quick" else 2,
              rule="every answer of every round over a grid. " + RULE),
  ])
