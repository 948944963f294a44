from mc import bandit_world as bw

ASSUMPTIONS = []

def harnesses(tier):
  return bw.bandit_harnesses(bw.oracle_se, tier, algs=("se",), grids=True)
