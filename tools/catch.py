"""catch.py [ID ...]: run the quick check of each planted bug's property against /repo with the bug applied, then undo it."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", R, "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout:
        sys.exit("/repo is not clean")
    subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
    try:
        r = subprocess.run(["python3-vt", "-m", "sx.run", prop, "--tier", "quick"], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
    ok = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
    print(i, prop, "caught" if ok else "MISSED rc=%d" % r.returncode, [l for l in r.stdout.splitlines() if l.startswith("counterexample")][:1] if ok else r.stdout[-600:], flush=True)
