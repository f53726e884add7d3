"""replay one recorded counterexample on the real code: replay_one.py FILE"""
import json
import os
import subprocess
import sys
import tempfile
import shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rec = json.load(open(sys.argv[1]))
cache = tempfile.mkdtemp(prefix="ttpsx_")
env = dict(os.environ, TTPCACHEFOLDER=cache, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
req = {"harness": rec["harness"], "repo": os.environ.get("VERIF_REPO", "/repo"), "known": [],
       "cases": [{"fn": rec["fn"], "params": rec["params"], "inputs": rec["inputs"]}]}
try:
    p = subprocess.run([os.environ.get("VERIF_REPLAY_PY", "/opt/venv/bin/python"), os.path.join(VERIF, "sx", "replay.py")],
                       input=json.dumps(req).encode(), stdout=subprocess.PIPE, env=env)
    out = json.loads(p.stdout.decode())[0]
    print(json.dumps(out, indent=1))
    sys.exit(1 if out["status"] in ("fail", "exc") else 0)
finally:
    shutil.rmtree(cache, ignore_errors=True)
