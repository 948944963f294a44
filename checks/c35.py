"""An unlimited run ends once the intervals have become narrow."""
from mc import truth_world as tw
from mc.explorer import Harness

ASSUMPTIONS = []


def harnesses(tier):
  big = tier == "thorough"
  free, first, dev = [], [], []
  for alg in ("uniform", "lucb", "se"):
    for truth in ((1.0, 2.0), (2.0, 1.0)):
      for tight in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 2),) if big else ()):
        free.append(tw.ends_cfg(alg, truth, tight))
      free.append(tw.ends_cfg(alg, truth, (2, 2), u=3, stable=False,
                              costs=[0.5, 2.0]))
    for truth in ((1.0, 2.0, 3.0), (3.0, 1.0, 2.0), (2.0, 4.0, 1.0)):
      for tight in ((1, 1, 1), (2, 1, 1), (1, 1, 2), (1, 2, 1)):
        free.append(tw.ends_cfg(alg, truth, tight, rng_dev=True))
    for truth in ((1.0, 2.0, 3.0), (3.0, 2.0, 1.0)):
      for tight in ((2, 2, 2), (3, 2, 1), (1, 2, 4), (3, 3, 3)):
        first.append(tw.ends_cfg(alg, truth, tight, free=1, rng_dev=True))
    for truth in ((2.0, 4.0, 1.0, 3.0), (1.0, 2.0, 4.0, 8.0)):
      for tight in ((2, 2, 2, 2), (1, 3, 5, 2), (4, 4, 4, 4)):
        dev.append(tw.ends_cfg(alg, truth, tight, free=0, rng_dev=True))
    dev.append(tw.ends_cfg(alg, (3.0, 1.0, 2.0, 5.0, 4.0), (3, 1, 2, 3, 2),
                           free=0, rng_dev=True))
  rule = ("one execution = one unlimited run() of the real algorithm; an arm's "
          "interval contains its true value and is narrow from a given update "
          "on (before: any of seven wide ones). ")
  return [
      Harness("all-answers", tw.ends, tw.parts(free, 7),
              rule=rule + "Every answer of every update."),
      Harness("first-answers", tw.ends, tw.parts(first, 7), bound=1 + big,
              rule=rule + "Every joint first answer; arms repeat themselves "
              "up to the bound."),
      Harness("long-runs", tw.ends, tw.parts(dev, 7), bound=2 + big,
              rule=rule + "Arms repeat themselves up to the bound."),
  ]
