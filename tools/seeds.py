"""Run each planted bug's own check against a scratch copy that has the bug.

usage: python3 tools/seeds.py [ids...]   (development aid; no check reads seeded/)
"""
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

V = pathlib.Path(__file__).resolve().parent.parent


def one(d):
  meta = json.loads((d / "meta.json").read_text())
  tmp = tempfile.mkdtemp(prefix="seedrun-", dir="/tmp")
  try:
    repo = tmp + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    subprocess.check_call(["git", "-C", repo, "apply", str(d / "patch.diff")])
    v = tmp + "/verif"
    shutil.copytree(V, v, ignore=shutil.ignore_patterns("seeded", ".git"))
    t = time.time()
    p = subprocess.run(["/opt/venv/bin/python", "-m", "mc.run", meta["property"]],
                       cwd=v, capture_output=True, text=True,
                       env=dict(os.environ, MC_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
    line = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    caught = p.returncode == 1 and any(f"property={meta['property']} " in l for l in line)
    return d.name, caught, p.returncode, time.time() - t, (line or p.stdout.splitlines()[-1:] or [p.stderr[-300:]])[0]
  finally:
    shutil.rmtree(tmp)


def main():
  ids = sys.argv[1:]
  ds = [d for d in sorted((V / "seeded").iterdir()) if not ids or d.name in ids]
  with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for n, c, rc, t, l in ex.map(one, ds):
      print(f"{'caught' if c else 'MISSED'} {n} rc={rc} {t:.0f}s {l[:160]}", flush=True)


main()
