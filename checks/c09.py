"""Fold integrity of the sample-splitting arm."""
import itertools
import math

from mc import arm_world as aw
from mc import rng
from mc.explorer import Harness
from mc.util import require
from causal_effect_bandits import arms

ASSUMPTIONS = [
    "rows are observed where the nuisance parameter receives them (fit and "
    "calculate_score), so a fold that is never passed to it is not judged",
]


def body(ctx, cfg):
  eta = aw.RecordingEta(
      ctx, min_fit=cfg["min_fit"],
      enough=(lambda ids: ctx.choose(2, label="enough") == 0)
      if cfg["gate"] else None)
  arm = arms.SampleSplittingArm(
      "a", eta, aw.transformer, ci_algorithm=aw.CI["clt"], cost=2.0,
      stable_splits=cfg["stable"])
  total = 0
  eta.possible = False
  prev_fit, prev_ev, bounds = set(), set(), []
  with rng.controlled(ctx, only=cfg.get("only")):
    for size in cfg["sizes"]:
      new = aw.rows(total, size)
      keep = (new.cov.copy(), new.exp.copy(), new.rsp.copy(), len(new))
      eta.calls.clear()
      # A batch of one row can only feed the training fold, and nothing can be
      # estimated while the evaluation fold is empty.
      eta.possible = eta.possible or size >= 2 or (
          not cfg["stable"] and total + size >= 2)
      arm.update(new, 0.1)
      bounds.append((total, total + size))
      total += size
      require(ctx, (new.cov == keep[0]).all() and (new.exp == keep[1]).all()
              and (new.rsp == keep[2]).all() and len(new) == keep[3],
              "update() modified the caller's data")
      fits = [c[1] for c in eta.calls if c[0] == "fit"]
      evals = [c[1] for c in eta.calls if c[0] == "score"]
      require(ctx, len(fits) >= 1 or not size and bounds[1:],
              "update() did not fit eta")
      f = fits[-1] if fits else tuple(prev_fit)  # an empty batch
      fs = set(f)
      require(ctx, len(fs) == len(f), lambda: f"eta was fit on a row twice: {f}")
      require(ctx, fs <= set(range(total)), lambda: f"unknown rows in {f}")
      seen = [fs]
      for e in evals:
        es = set(e)
        require(ctx, len(es) == len(e),
                lambda: f"a row was evaluated twice: {e}")
        require(ctx, not es & fs,
                lambda: f"eta was fit and evaluated on rows {sorted(es & fs)}")
        require(ctx, es | fs == set(range(total)),
                lambda: f"after {total} rows the folds hold {sorted(fs)} and "
                f"{sorted(es)}: rows were lost")
        seen.append(es)
      for part in seen:
        if cfg["stable"]:
          for lo, hi in bounds:
            n = sum(lo <= i < hi for i in part)
            require(ctx, n in aw.balanced(hi - lo),
                    lambda: f"a batch of {hi - lo} rows put {n} into a fold")
        else:
          require(ctx, len(part) in aw.balanced(total),
                  lambda: f"a fold holds {len(part)} of {total} rows")
      if cfg["stable"]:
        require(ctx, prev_fit <= fs,
                lambda: f"rows {sorted(prev_fit - fs)} left the training fold")
        require(ctx, not fs & prev_ev,
                lambda: f"rows {sorted(fs & prev_ev)} moved from the "
                "evaluation fold to the training fold")
        if evals:
          require(ctx, prev_ev <= set(evals[-1]),
                  lambda: f"rows {sorted(prev_ev - set(evals[-1]))} left the "
                  "evaluation fold")
          prev_ev = set(evals[-1])
      prev_fit = fs
      require(ctx, arm.get_num_units() == total,
              lambda: f"get_num_units() is {arm.get_num_units()}, {total} given")
      ctx.state(cfg["stable"], sorted(fs), total)
      ctx.note((size, f, evals[-1:] or None))
  ctx.outcome(cfg["sizes"], sorted(prev_fit))


def bootstrap(ctx, cfg):
  """The folds of a BootstrapArm: its training fold is fit first."""
  eta = aw.RecordingEta(ctx, min_fit=1)
  arm = arms.BootstrapArm("b", eta, aw.transformer, n_bootstraps=cfg["b"],
                          stable_splits=cfg["stable"])
  total, train, ev, bounds = 0, set(), None, []
  with rng.controlled(ctx, only=cfg["only"]):
    for size in cfg["sizes"]:
      eta.calls.clear()
      arm.update(aw.rows(total, size), 0.5)
      bounds.append((total, total + size))
      total += size
      fits = [c[1] for c in eta.calls if c[0] == "fit"]
      if not fits:
        require(ctx, not size, "update() did not fit eta")
        continue
      f = fits[0]
      require(ctx, len(set(f)) == len(f) and set(f) <= set(range(total)),
              lambda: f"{total} rows were given; the training fold is {f}")
      rest = set(range(total)) - set(f)
      for c in eta.calls:
        if c[0] == "score":
          ids = c[1]
          require(ctx, len(set(ids)) == len(ids),
                  lambda: f"a row was evaluated twice: {ids}")
          require(ctx, set(ids) <= set(f) or set(ids) == rest,
                  lambda: f"evaluated on {ids}; the training fold is {f} of "
                  f"{total} rows")
      for fit in fits[1:]:
        require(ctx, set(fit) <= set(f),
                lambda: f"a replicate was fit on {fit}; the training fold is "
                f"{f}")
      if cfg["stable"]:
        require(ctx, train <= set(f) and (ev is None or ev <= rest),
                lambda: f"rows {sorted(train ^ set(f))} changed folds")
        for lo, hi in bounds:
          n = sum(lo <= i < hi for i in f)
          require(ctx, n in aw.balanced(hi - lo),
                  lambda: f"a batch of {hi - lo} rows put {n} into a fold")
      else:
        require(ctx, len(f) in aw.balanced(total),
                lambda: f"the training fold holds {len(f)} of {total} rows")
      train, ev = set(f), rest
      ctx.step()
      require(ctx, arm.get_num_units() == total,
              lambda: f"get_num_units() is {arm.get_num_units()}, {total} given")
  ctx.state(cfg["stable"], sorted(train), total)
  ctx.outcome(total)
  ctx.note((cfg["sizes"], sorted(train)))


def weight(stable, sizes):
  """How many ways the splits can fall."""
  w, n = 1, 0
  for s in sizes:
    n += s
    m = s if stable else n
    w *= math.comb(m, m // 2)
  return w


def harnesses(tier):
  limit = 600 if tier == "quick" else 8000
  cfgs = []
  for stable in (True, False):
    for depth in (1, 2, 3, 4):
      for sizes in itertools.product(range(1, 10), repeat=depth):
        for gate in (False, True):
          if weight(stable, sizes) * (2**(depth - 1) if gate else 1) <= limit:
            if depth < 4 or max(sizes) <= 4:
              cfgs.append(dict(stable=stable, gate=gate, min_fit=2,
                               sizes=sizes))
  many = []
  for stable in (True, False):
    for a, b, c in itertools.product((0, 1, 2, 3, 7, 16, 33), repeat=3):
      if a + b + c and (a > 1 or not stable):
        # a short first batch, then rounds of b and c rows
        many.append(dict(stable=stable, gate=False, min_fit=2, only=(),
                         sizes=(a or 2,) + (b, c) * (7 if tier == "quick"
                                                     else 14)))
    for sizes in ((700, 1, 700), (257, 258), (1500,), (40,) * 30, (1,) * 60,
                  (3,) * 60):
      many.append(dict(stable=stable, gate=False, min_fit=2, only=(),
                       sizes=sizes))
  return [
      Harness("many-updates", body, many,
              rule="histories of 15 and more updates (empty and one-row "
              "batches included) and folds of up to 750 rows; one seeded "
              "split per update"),
      Harness("bootstrap", bootstrap,
              [dict(c, b=b) for c in many for b in (1, 2)
               if sum(c["sizes"]) < 300] + [
                   dict(stable=stable, sizes=sizes, b=2, only=())
                   for stable in (True, False) for n in (1, 2, 3)
                   for sizes in itertools.product((1, 4, 5, 9), repeat=n)],
              rule="the same histories, and every sequence of up to 3 small "
              "updates, on a BootstrapArm"),
      Harness("updates", body, cfgs,
              rule="every sequence of up to 4 update sizes whose splits can "
              f"fall in at most {limit} ways; every random split of each, "
              "every answer of has_enough_samples (gate)")
  ]
