"""Stateless exhaustive explorer over choice points.

A *harness* is a function body(ctx, cfg). Everything the environment may decide
(an arm's next interval, a random draw, the next operation, an input value) is
requested with ctx.choose(n). The explorer re-executes the body, depth first,
until every sequence of answers within the deviation bound has been run:

  * choose(n)            free branching: all n answers are explored;
  * choose(n, dev=True)  answer 0 is the default, any other answer costs one
                         deviation; executions with more than `bound` deviations
                         are not run (all with at most `bound` are).

Replaying a prefix must meet the same choice points (same n, same label);
anything else is a hard Divergence error, never a verdict.
"""
import hashlib
import signal
import sys
import traceback

import numpy as np

from mc import env


class Violation(Exception):
  """The property is broken in this execution."""


class Divergence(Exception):
  """Replaying a recorded prefix met a different choice point."""


class Prune(Exception):
  """This execution leaves the property's domain; it is not judged."""


class Timeout(BaseException):
  pass


EXEC_TIMEOUT = 120  # seconds for one execution; they take milliseconds


def _alarm(signum, frame):
  raise Timeout()


class Ctx:
  """One execution."""

  def __init__(self, prefix, stats, bound=None, path_points=None):
    self.prefix = prefix
    self.points = []  # (n, dev, label)
    self.choices = []
    self.devs = 0
    self.bound = bound
    self.stats = stats
    self.old = path_points
    self.notes = []

  def choose(self, n, dev=False, label=""):
    if n < 1:
      raise RuntimeError("choose() with no alternatives: " + label)
    i = len(self.choices)
    if i < len(self.prefix):
      c = self.prefix[i]
      if c >= n or (self.old is not None and i < len(self.old) and
                    (self.old[i][0], self.old[i][2]) != (n, label)):
        raise Divergence(f"choice {i}: {c} of {n} ({label}) vs {self.old}")
    else:
      c = 0
    self.points.append((n, dev, label))
    self.choices.append(c)
    if dev and c:
      self.devs += 1
    self.stats.transitions += 1
    return c

  def pick(self, seq, dev=False, label=""):
    return seq[self.choose(len(seq), dev, label)]

  def state(self, *key):
    """Registers an observed (canonical) system state."""
    self.stats.states.add(_digest(key))

  def outcome(self, *key):
    """Registers an observed end result, to expose vacuous explorations."""
    self.stats.outcomes.add(_digest(key))

  def check(self, n=1):
    self.stats.checks += n

  def step(self, n=1):
    self.stats.transitions += n

  def note(self, what):
    self.notes.append(what)


def _digest(key):
  return int.from_bytes(
      hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


class Stats:
  """Counters of an exploration; merged over worker processes."""

  def __init__(self):
    self.executions = 0
    self.pruned = 0
    self.transitions = 0
    self.checks = 0
    self.states = set()
    self.outcomes = set()
    self.max_depth = 0
    self.samples = []
    self.capped = 0

  def merge(self, o):
    self.executions += o.executions
    self.pruned += o.pruned
    self.transitions += o.transitions
    self.checks += o.checks
    self.states |= o.states
    self.outcomes |= o.outcomes
    self.max_depth = max(self.max_depth, o.max_depth)
    self.capped += o.capped
    # the longest ones are the most telling
    self.samples = sorted(self.samples + o.samples,
                          key=lambda s: -len(s["choices"]))[:3]


def seed_all(extra=0):
  np.random.seed((env.SEED * 7919 + extra) % (2**32))


def from_repo(tb):
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(env.REPO + "/"):
      return True
    tb = tb.tb_next
  return False


def execute(body, cfg, prefix, stats, bound=None, old=None):
  """Runs one execution. Returns (ctx, violation message or None)."""
  ctx = Ctx(prefix, stats, bound, old)
  seed_all()
  msg = None
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(EXEC_TIMEOUT)
  try:
    body(ctx, cfg)
  except Prune:
    stats.pruned += 1
  except Violation as e:
    msg = str(e)
  except Divergence:
    raise
  except Timeout:
    msg = f"the execution did not finish within {EXEC_TIMEOUT} s"
  except Exception as e:  # pylint: disable=broad-except
    if not from_repo(e.__traceback__):
      raise
    msg = ("unexpected exception from the code under test: " +
           "".join(traceback.format_exception_only(type(e), e)).strip() +
           " | " + _where(e.__traceback__))
  finally:
    signal.alarm(0)
  stats.executions += 1
  stats.transitions += 1  # the choice of the root
  stats.max_depth = max(stats.max_depth, len(ctx.choices))
  return ctx, msg


def _where(tb):
  out = []
  for f in traceback.extract_tb(tb):
    if f.filename.startswith(env.REPO + "/"):
      out.append(f"{f.filename[len(env.REPO)+1:]}:{f.lineno} in {f.name}")
  return " <- ".join(reversed(out[-3:]))


def explore(body, cfg, bound=None, max_exec=None):
  """Explores every execution of body(ctx, cfg). Returns (stats, failure)."""
  stats = Stats()
  prefix, old, last = [], None, None
  while True:
    ctx, msg = execute(body, cfg, prefix, stats, bound, old)
    if ctx.notes or ctx.choices:
      last = ctx
    if msg is not None:
      return stats, {
          "cfg": cfg,
          "choices": list(ctx.choices),
          "labels": [p[2] for p in ctx.points],
          "message": msg,
          "notes": [str(n)[:400] for n in ctx.notes[:60]],
      }
    # Next prefix in depth-first order within the deviation bound.
    if len(ctx.choices) < len(prefix):
      raise Divergence("the replay was shorter than its prefix")
    i = len(ctx.choices) - 1
    devs = ctx.devs
    while i >= 0:
      n, dev, _ = ctx.points[i]
      c = ctx.choices[i]
      if c + 1 < n:
        nd = devs + (1 if dev and c == 0 else 0)
        if not dev or bound is None or nd <= bound:
          break
      if dev and c:
        devs -= 1
      i -= 1
    if i < 0:
      _sample(stats, cfg, last)
      return stats, None
    prefix = ctx.choices[:i] + [ctx.choices[i] + 1]
    old = ctx.points[:i + 1]
    if max_exec is not None and stats.executions >= max_exec:
      stats.capped += 1
      return stats, None


def _sample(stats, cfg, ctx):
  """Writes out the last execution of a root."""
  if ctx is not None:
    stats.samples.append({
        "cfg": repr(cfg)[:300],
        "choices": ctx.choices[:60],
        "notes": [str(n)[:300] for n in ctx.notes[:12]],
    })


def same_failure(body, cfg, choices, bound=None):
  """Re-executes a recorded failure; returns its message or None."""
  st = Stats()
  _, msg = execute(body, cfg, list(choices), st, bound)
  return msg


class Harness:
  """A body with the list of configurations it is explored from."""

  def __init__(self, name, body, configs, bound=None, rule=""):
    self.name = name
    self.body = body
    self.configs = list(configs)
    self.bound = bound
    self.rule = rule
