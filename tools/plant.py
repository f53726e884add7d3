"""plant.py SPEC.py ...: make a planted bug from a spec and keep it in /verif/seeded if it is valid.

A spec defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source, asserts).
The change is made in a scratch copy of /repo, where the tests and the demo are run.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
SH = '#!/bin/bash\nd=$(mktemp -d)\nTTPCACHEFOLDER=$d PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\nrc=$?\nrm -rf "$d"\nexit $rc\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nfrom ttp import ttp\n\n\ndef run(template, *data, **kw):\n    p = ttp(template=template, log_level=\"CRITICAL\")\n    for d in data:\n        p.add_input(d)\n    p.parse(one=True)\n    return p.result(**kw)\n\n\n"


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def main(spec, keep=True):
    s = runpy.run_path(spec)
    wt = tempfile.mkdtemp(prefix="plant")
    try:
        repo = os.path.join(wt, "repo")
        sh("cp -a %s %s" % (os.environ.get("VERIF_REPO", "/repo"), repo), "/")
        d = os.path.join(wt, s["ID"])
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, repo)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stdout + r.stderr
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "%s: text found %d times: %r" % (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        r = sh("git diff", repo)
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
        # only lines of the original repository
        r2 = sh("git blame -s --line-porcelain HEAD -- %s" % s["EDITS"][0][0], repo)
        base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.strip()
        for f in {e[0] for e in s["EDITS"]}:
            bl = sh("git blame -l -s HEAD -- %s" % f, repo).stdout.splitlines()
            n = 0
            for l in sh("git diff -U0 -- %s" % f, repo).stdout.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:]
                    st, _, c = a.partition(",")
                    for i in range(int(st), int(st) + int(c or 1)):
                        if not bl[i - 1].startswith("^" + base[:39]):
                            return "changes a line of a fix commit: " + bl[i - 1]
        r = sh("bash %s/demo.sh" % d, repo)
        if r.returncode == 0:
            return "demo passes with the change"
        why = (r.stderr.strip().splitlines() or ["?"])[-1]
        r = sh("HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 LANG=C.UTF-8 TTPCACHEFOLDER=%s "
               "/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore --junitxml=%s/j.xml" % (wt, wt), repo + "/test/pytest")
        import xml.etree.ElementTree as ET
        bad = set()
        for c in ET.parse(wt + "/j.xml").getroot().iter("testcase"):
            if c.find("failure") is not None or c.find("error") is not None:
                bad.add(c.get("classname", "") + "." + c.get("name", ""))
        base_bad = json.load(open("/tmp/pl/base_bad.json")) if os.path.exists("/tmp/pl/base_bad.json") else None
        if base_bad is None:
            return "no base_bad"
        new = bad - set(base_bad)
        if new:
            return "tests fail: %s" % sorted(new)[:4]
        if keep:
            out = os.path.join(V, "seeded", s["ID"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
        return "ok (%s)" % why[:150]
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        print(a, main(a), flush=True)
