"""The nuisance parameters of the package under one driver."""
import numpy as np

from mc import env  # noqa
from causal_effect_bandits import data
from causal_effect_bandits import parameters
import sklearn.tree
from sklearn import linear_model


def make(kind, dim, min_units=2, min_overlap=0.1):
  if kind == "aipw-linear":
    return parameters.AIPWLinearLogistic(dim, min_units, min_overlap)
  if kind == "aipw-kernel":
    return parameters.AIPWKernelRidgeLogistic(dim, min_units, min_overlap)
  if kind == "aipw-boosting":
    return parameters.AIPWKernelGradientBoosting(dim, min_units, min_overlap)
  if kind == "aipw-tree":
    return parameters.AIPW(
        dim, sklearn.tree.DecisionTreeRegressor(max_depth=2, random_state=0),
        sklearn.tree.DecisionTreeClassifier(max_depth=1, random_state=0),
        min_units=min_units, min_overlap=min_overlap)
  if kind == "frontdoor":
    return parameters.FrontDoorLinearFiniteZ(dim, min_units, min_overlap)
  if kind == "frontdoor-tight":
    return parameters.FrontDoorLinearFiniteZ(dim, min_units, min_overlap, 1.2)
  if kind == "linear-regression-strong":
    return parameters.LinearRegressionParameter(dim, 2.5)
  if kind == "linear-binary":
    return parameters.LinearParameterBinaryTreatment(dim)
  if kind == "linear-regression":
    return parameters.LinearRegressionParameter(dim)
  raise KeyError(kind)


def build(kind, dim, **args):
  """A nuisance parameter of some kind with the given arguments."""
  return {"aipw-linear": parameters.AIPWLinearLogistic,
          "aipw-kernel": parameters.AIPWKernelRidgeLogistic,
          "aipw-boosting": parameters.AIPWKernelGradientBoosting,
          "frontdoor": parameters.FrontDoorLinearFiniteZ,
          "linear-regression": parameters.LinearRegressionParameter,
         }[kind](dim, **args)


KINDS = ["aipw-linear", "aipw-kernel", "aipw-boosting", "aipw-tree",
         "frontdoor", "linear-binary", "linear-regression"]


def grid(dim, n, salt=0):
  """n covariate rows with values 0/1, no row order pattern repeated."""
  return np.array([[float(((i + salt) * (3 + 2 * j) // (2 + j)) % 2)
                    for j in range(dim)] for i in range(n)]).reshape(n, dim)


def dataset(dim, n1, n0, salt=0, exp_type=int, rich=False):
  """n1 treated and n0 control units, interleaved (rich: distinct covariates)."""
  n = n1 + n0
  exp, a, b = [], n1, n0
  for i in range(n):
    take = (a > 0) if (i + salt) % 2 == 0 else (b <= 0)
    exp.append(1 if take else 0)
    a, b = (a - 1, b) if take else (a, b - 1)
  cov = grid(dim, n, salt)
  if rich:
    cov = cov + 0.25 * (1 + np.arange(n * dim).reshape(n, dim))
  y = np.array([((5 * i + 3 * salt) % 7) - 2.0 + 1.5 * e
                for i, e in enumerate(exp)])
  return data.ExpData(cov, np.array(exp, dtype=exp_type), y)


def copy(d):
  return data.ExpData(d.cov.copy(), d.exp.copy(), d.rsp.copy())


def probe(dim):
  """Rows used to compare two fitted parameters."""
  import itertools
  z = np.array(list(itertools.product((0.0, 1.0), repeat=dim)))
  z = np.r_[z, z]
  x = np.array([0] * (len(z) // 2) + [1] * (len(z) // 2))
  return data.ExpData(z, x, np.arange(len(z)) * 0.5 - 1)
