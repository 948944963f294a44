"""PAC soundness: what follows when every interval contains the truth."""
from mc import truth_world as tw
from mc.explorer import Harness

ASSUMPTIONS = []


def harnesses(tier):
  big = tier == "thorough"
  g3 = [0, 1, 2] + ([3] if big else [])
  two, three, first, long_ = [], [], [], []
  for alg in ("uniform", "lucb", "se"):
    # a tolerance off the grid is neither absorbed nor completed by it
    tols = (0.0, 0.5, 1.5) if alg != "se" else (0.5, 1.5)
    for tol in tols:
      for truth in ([(1, 2), (2, 1)] + [(0, 1)] * (tol != 1.5) +
                    [(0, 2), (2, 0)] * (tol > 0)):
        if big or tol != 1.5 or 0 in truth or alg == "se":
          two.append(tw.base(alg, truth, grid=g3, tol=tol, rounds=2))
      if tol != 1.5 or alg == "se":
        two.append(tw.base(alg, (2, 1), grid=g3, tol=tol, rounds=2,
                           costs=[4.0, 0.5], u=2))
      if tol == 1.5 and alg != "se" and not big:
        continue  # below: one tolerance is enough
      for truth in (((1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 1, 2)) if big else
                    ((2, 1, 2), (2, 2, 1)) if tol else ((1, 2, 2),)):
        grid = [1, 2] if not big else [0, 1, 2]
        three.append(tw.base(alg, truth, grid=grid, tol=tol, rounds=2,
                             rng_dev=True, **(dict(free=1) if big else {})))
      for truth in ((1, 2, 3), (3, 1, 2), (2, 2, 1), (2, 1, 1)):
        first.append(tw.base(alg, truth, grid=[0, 1, 2, 3], tol=tol, rounds=2,
                             free=1, rng_dev=True))
      more = [((1, 1, 1, 1), None),
              ((2, 3, 4, 1, 2), [1.0, 2.0, 0.5, 4.0, 1.0])] if big else []
      for truth, costs in [((2, 3, 1, 3), None),
                           ((4, 2, 1, 3), [1.0, 2.0, 0.5, 4.0])] + more:
        if tol or big:
          long_.append(tw.base(alg, truth, grid=[0, 1, 2, 4] if big else [0, 4],
                               tol=tol, rounds=3, free=0, near=True,
                               rng_dev=True, costs=costs))
  rule = ("one execution = one run() of the real algorithm; each answer is any "
          "interval over the grid containing the arm's true scaled value, with "
          "any estimate in it. ")
  return [
      Harness("two-arms", tw.pac, tw.parts(two, 8),
              rule=rule + "Every answer of every round."),
      Harness("three-arms", tw.pac, tw.parts(three, 6), bound=big,
              rule=rule + "Every answer of every round."),
      Harness("first-answers", tw.pac, tw.parts(first, 8), bound=0,
              rule=rule + "Every joint first answer over a finer grid, "
              "repeated in the second round."),
      Harness("long-runs", tw.pac, tw.parts(long_, 4), bound=2,
              rule=rule + "Arms repeat themselves up to the bound."),
  ]
