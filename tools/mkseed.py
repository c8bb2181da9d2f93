#!/usr/bin/env python3
"""mkseed.py SPEC.py : build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy.

A spec defines ID, PROP, EDITS = [(file, old, new)], DEMO (python text), NEEDS, BREAKS.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(spec):
    ns = {}; exec(open(spec).read(), ns)
    d = f"{V}/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        w = t + "/repo"
        sh(f"cp -a {R} {w}")
        sh(f"git -C {w} checkout -q -- . ")
        for f, old, new in ns["EDITS"]:
            p = f"{w}/nonlinear_avoidance/{f}"; s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = sh(f"git -C {w} diff").stdout
        assert patch
        # touched lines must come from the base commit
        base = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()[:7]
        for f in {e[0] for e in ns["EDITS"]}:
            bl = sh(f"git -C {R} blame -s nonlinear_avoidance/{f}").stdout.splitlines()
            df = sh(f"git -C {w} diff -U0 nonlinear_avoidance/{f}").stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? \+", df, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if not bl[i - 1].lstrip("^").startswith(base[:6]):
                        print("  WARNING not an original line:", bl[i - 1])
                if n == 0: print("  note: pure insertion hunk")
        open(f"{d}/patch.diff", "w").write(patch)
        open(f"{d}/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONPATH="$PWD:$here/stubs" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'exec timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        shutil.rmtree(f"{d}/stubs", ignore_errors=True)
        shutil.copytree(f"{V}/stubs", f"{d}/stubs", ignore=shutil.ignore_patterns("__pycache__", "README"))
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
        clean = sh(f"bash {d}/demo.sh", cwd=R)
        bad = sh(f"bash {d}/demo.sh", cwd=w)
        st = sh(f"PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_graph_handler.py", cwd=w)
        ok = clean.returncode == 0 and bad.returncode != 0 and "1 passed" in st.stdout
        print(ns["ID"], ns["PROP"], "clean", clean.returncode, "bad", bad.returncode, "test", "1 passed" in st.stdout, "->", "OK" if ok else "NOT OK")
        if clean.returncode: print(clean.stdout[-800:], clean.stderr[-1500:])
        print("   bad says:", (bad.stdout + bad.stderr).strip().splitlines()[-1:] )
        r = sh(f"python3 {V}/check.py {ns['PROP']} --repo {w}", env=dict(os.environ))
        hit = [l for l in r.stdout.splitlines() if not l.startswith(("KNOWN", "OK"))]
        print("   check exit", r.returncode, *[h[:260] for h in hit[:4]], sep="\n     ")
        if "-a" in sys.argv:
            for q in json.load(open(f"{V}/MANIFEST.json"))["checks"]:
                if q["property"] != ns["PROP"]:
                    c = sh(f"python3 {V}/check.py {q['property']} --repo {w}")
                    if c.returncode: print("   also caught by", q["property"], c.returncode)
    finally:
        shutil.rmtree(t)
for s in [a for a in sys.argv[1:] if a != "-a"]: build(s)
