"""Which lines of /repo's package the checks execute (a gap finder).

python tools/cov.py C01 C02 ... ; prints lines no listed check runs.
"""
import functools
import glob
import os
import pickle
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def worker(pid, out):
  sys.path.insert(0, VERIF)
  mon = sys.monitoring
  seen = set()
  mon.use_tool_id(1, "cov")

  def line(code, n):
    if "causal_effect_bandits" in code.co_filename:
      seen.add((os.path.basename(code.co_filename), n))
    return mon.DISABLE

  mon.register_callback(1, mon.events.LINE, line)
  mon.set_events(1, mon.events.LINE)
  from mc import run
  real = run._task

  @functools.wraps(real)
  def task(job):
    r = real(job)
    with open(os.path.join(out, "%s-%d" % (pid, os.getpid())), "wb") as f:
      pickle.dump(seen, f)
    return r

  run._task = task
  sys.argv = ["run", pid]
  run.main()


def executable(path):
  src = open(path).read()
  out = {}
  todo = [compile(src, path, "exec")]
  while todo:
    c = todo.pop()
    for k in c.co_consts:
      if hasattr(k, "co_code"):
        todo.append(k)
    if c.co_name == "<module>":
      continue
    for _, _, n in c.co_lines():
      if n and n != c.co_firstlineno:
        out[n] = c.co_qualname
  return out


def main():
  if sys.argv[1] == "--worker":
    return worker(sys.argv[2], sys.argv[3])
  repo = os.environ.get("MC_REPO", "/repo")
  with tempfile.TemporaryDirectory() as d:
    for pid in sys.argv[1:]:
      r = subprocess.run([sys.executable, __file__, "--worker", pid, d],
                         cwd=VERIF, capture_output=True, text=True)
      print(pid, r.returncode, r.stdout.strip()[-100:], r.stderr[-300:])
    seen = set()
    for f in glob.glob(d + "/*"):
      seen |= pickle.load(open(f, "rb"))
  for path in sorted(glob.glob(repo + "/causal_effect_bandits/*.py")):
    base = os.path.basename(path)
    if base.endswith("_test.py"):
      continue
    ex = executable(path)
    lines = open(path).read().split("\n")
    miss = [n for n in sorted(ex) if (base, n) not in seen]
    print(base, len(ex), "executable,", len(miss), "missed")
    for n in miss:
      print("   %4d %-40s %s" % (n, ex[n], lines[n - 1].strip()[:80]))


if __name__ == "__main__":
  main()
