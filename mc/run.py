"""Entry point: python -m mc.run <ID> [--replay FILE]."""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

from mc import env
from mc import explorer

WORKERS = int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))
KNOWN = os.path.join(env.VERIF, "known_findings.txt")

_H = None  # harness list, inherited by forked workers


def _worker(conn, jobs):
  sys.stdout = open(os.devnull, "w")
  while True:
    i = conn.recv()
    if i is None:
      os._exit(0)
    conn.send(_task(jobs[i]))


def results(jobs):
  """Yields _task(job) of every job, from forked workers that share nothing.

  (multiprocessing.Pool shares locked queues, and terminating it while tasks
  are pending can hang.)
  """
  mp = multiprocessing.get_context("fork")
  procs = {}
  todo = iter(range(len(jobs)))
  try:
    for _ in range(min(WORKERS, len(jobs))):
      ours, theirs = mp.Pipe()
      p = mp.Process(target=_worker, args=(theirs, jobs), daemon=True)
      p.start()
      theirs.close()
      procs[ours] = p
      ours.send(next(todo))
    busy = set(procs)
    while busy:
      for conn in multiprocessing.connection.wait(list(busy)):
        try:
          out = conn.recv()
        except EOFError:
          yield 0, explorer.Stats(), None, "a worker process died"
          return
        i = next(todo, None)
        conn.send(i)
        if i is None:
          busy.discard(conn)
        yield out
  finally:
    for p in procs.values():
      p.kill()


def _task(job):
  h, i0, i1 = job
  harness = _H[h]
  total = explorer.Stats()
  try:
    for i in range(i0, i1):
      st, fail = explorer.explore(harness.body, harness.configs[i],
                                  harness.bound)
      total.merge(st)
      if fail is not None:
        again = [
            explorer.same_failure(harness.body, harness.configs[i],
                                  fail["choices"], harness.bound)
            for _ in range(2)
        ]
        fail["config_index"] = i
        fail["cfg"] = repr(fail["cfg"])
        if all(m is None for m in again):
          return h, total, None, ("not reproducible: " + json.dumps(fail))
        return h, total, fail, None
    return h, total, None, None
  except BaseException:  # pylint: disable=broad-except
    return h, total, None, traceback.format_exc()


def known_findings(pid):
  out = []
  if os.path.exists(KNOWN):
    for line in open(KNOWN):
      if line.startswith(f"known: property={pid} "):
        rest = line.strip().split(" ", 2)[2]
        key, what = rest.split(" ", 1)
        out.append((key.removeprefix("key="), what))
  return out


def main():
  pid = sys.argv[1]
  mod = importlib.import_module("checks." + pid.lower())
  tier = env.TIER if env.TIER in ("quick", "thorough") else "quick"
  t0 = time.time()
  global _H
  _H = mod.harnesses(tier)
  if "--replay" in sys.argv:
    rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    _H = mod.harnesses(rec["tier"])
    h = next(x for x in _H if x.name == rec["harness"])
    cfg = h.configs[rec["config_index"]]
    assert repr(cfg) == rec["cfg"], "the configuration list has changed"
    st = explorer.Stats()
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    ctx, msg = explorer.execute(h.body, cfg, rec["choices"], st, h.bound)
    sys.stdout = so
    for n in ctx.notes:
      print("  ", n)
    print("REPLAY", "no violation" if msg is None else "violation: " + msg)
    return 0 if msg is None else 1

  jobs = []
  for h, harness in enumerate(_H):
    n = len(harness.configs)
    chunk = max(1, n // (WORKERS * 8))
    jobs += [(h, i, min(n, i + chunk)) for i in range(0, n, chunk)]
  per = {h.name: explorer.Stats() for h in _H}
  fails, errors = [], []
  sys.stdout.flush()
  known = known_findings(pid)
  for h, st, fail, err in results(jobs):
    per[_H[h].name].merge(st)
    if err is not None:
      errors.append(err)
      break
    if fail is not None:
      fail["harness"] = _H[h].name
      fails.append(fail)
      if not any(k in fail["message"] for k, _ in known):
        break

  total = explorer.Stats()
  for s in per.values():
    total.merge(s)
  level = getattr(mod, "LEVEL", "model_checking")
  unlisted = [
      f for f in fails if not any(k in f["message"] for k, _ in known)
  ]
  ev = {
      "property": pid,
      "tier": tier,
      "seed": env.SEED,
      "level": level,
      "coverage": {
          "states": len(total.states),
          "transitions": total.transitions,
          "traces_validated_against_impl": total.executions,
          "assertions_evaluated": total.checks,
          "distinct_outcomes": len(total.outcomes),
          "executions_outside_domain": total.pruned,
          "longest_execution": total.max_depth,
          "exhaustive": total.capped == 0 and not fails and not errors,
          "per_harness": {
              h.name: {
                  "rule": h.rule,
                  "roots": len(h.configs),
                  "deviation_bound": h.bound,
                  "executions": per[h.name].executions,
                  "states": len(per[h.name].states),
                  "transitions": per[h.name].transitions,
                  "outcomes": len(per[h.name].outcomes),
              } for h in _H
          },
          "samples": [s for h in _H for s in per[h.name].samples[:2]][:8],
      },
      "assumptions": getattr(mod, "ASSUMPTIONS", []),
      "wall_s": round(time.time() - t0, 2),
      "violations": len(unlisted),
  }
  os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
    json.dump(ev, f, indent=1)

  print(f"{pid} [{tier}] executions={total.executions} states="
        f"{len(total.states)} transitions={total.transitions} "
        f"assertions={total.checks} outcomes={len(total.outcomes)} "
        f"pruned={total.pruned} wall={ev['wall_s']}s")
  for h in _H:
    s = per[h.name]
    print(f"  {h.name}: roots={len(h.configs)} executions={s.executions} "
          f"states={len(s.states)} outcomes={len(s.outcomes)} "
          f"bound={h.bound}")
  for key, what in known:
    if any(key in f["message"] for f in fails):
      print(f"KNOWN-FINDING: property={pid} {what}")
  if errors:
    print("ERROR of the check (no verdict):\n" + errors[0], file=sys.stderr)
    if not unlisted:
      return 2
  for f in unlisted[:1]:
    os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
    path = os.path.join(env.VERIF, "replays", f"{pid}.json")
    rec = dict(property=pid, tier=tier, seed=env.SEED, **f)
    with open(path, "w") as g:
      json.dump(rec, g, indent=1)
    print("  harness:", f["harness"])
    print("  message:", f["message"][:1500])
    print("  replay with: /opt/venv/bin/python -m mc.run", pid, "--replay",
          path)
    print(f"VIOLATION property={pid} replay={path}")
    return 1
  return 0


if __name__ == "__main__":
  sys.exit(main())
