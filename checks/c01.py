from mc import bandit_world as bw

ASSUMPTIONS = []

def harnesses(tier):
  return bw.bandit_harnesses(bw.oracle_certified, tier, algs=("uniform","lucb"), tols=(0.0, 2.0), nan=True, grids=True)
