#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: builds, validates and stores planted bugs in /verif/seeded.
A spec lists dicts: id, property, edits [(file, old, new)], needs, breaks, demo (python text).
Works in a scratch copy of /repo under /tmp; --notest skips the repository's tests."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", NUMBA_CPU_NAME="generic", NUMBA_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
           NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
SH = '''#!/bin/bash
# exit 0 when the property holds, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)

def tests(cwd):
    x = os.path.join(cwd, "_junit.xml")
    run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--dist", "loadscope", "--continue-on-collection-errors",
         "-o", "python_files=test_*.py tests.py", "--junitxml=" + x, "tests"], cwd)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not list(c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    os.remove(x)
    return STABLE - ok

def one(s, notest):
    w = "/tmp/seedw_" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = os.path.join(V, "seeded", s["id"])
    tmp = "/tmp/seedd_" + s["id"]
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/demo.py", "w").write(s["demo"]); open(tmp + "/demo.sh", "w").write(SH)
    try:
        r0 = run(["bash", tmp + "/demo.sh"], w, 300)
        if r0.returncode != 0:
            return "demo fails on clean tree: " + (r0.stdout + r0.stderr)[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(w, "cuprates_transport", f)
            b = open(p, "rb").read()
            crlf = b"\r\n" in b
            t = b.decode().replace("\r\n", "\n")
            if t.count(old) != 1:
                return "edit text found %d times in %s: %r" % (t.count(old), f, old[:80])
            t = t.replace(old, new)
            open(p, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode())
        diff = subprocess.run(["git", "diff", "--binary", "HEAD"], cwd=w, capture_output=True).stdout
        r1 = run(["bash", tmp + "/demo.sh"], w, 300)
        if r1.returncode == 0:
            return "demo passes with the change"
        tail = (r1.stdout + r1.stderr).strip().split("\n")[-1]
        if not notest:
            bad = tests(w)
            if bad:
                return "breaks tests " + str(bad)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "wb").write(diff)
        shutil.copy(tmp + "/demo.py", d); shutil.copy(tmp + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return "OK   (%s)" % tail[:150]
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(tmp, ignore_errors=True)

def caught(s):
    w = "/tmp/seedc_" + s["id"]
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    shutil.copytree("/repo/cuprates_transport", w + "/cuprates_transport")
    r = subprocess.run(["patch", "-p1", "--binary", "-s", "-i", os.path.join(V, "seeded", s["id"], "patch.diff")], cwd=w, capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(w); return "patch failed " + r.stdout
    r = subprocess.run([sys.executable, os.path.join(V, "sa", "run.py"), s["property"]], cwd=V, env=dict(ENV, SA_REPO=w), capture_output=True, text=True)
    shutil.rmtree(w)
    return "rc=%d %s" % (r.returncode, "\n      ".join(x[:230] for x in r.stdout.strip().split("\n")[:4]))

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    flags = [x for x in sys.argv[1:] if x.startswith("--")]
    specs = runpy.run_path(a[0])["SEEDS"]
    for s in specs:
        if a[1:] and s["id"] not in a[1:]:
            continue
        if "--check" not in flags:
            print(s["id"], one(s, "--notest" in flags), flush=True)
        if os.path.exists(os.path.join(V, "seeded", s["id"], "patch.diff")):
            print("   ", caught(s), flush=True)
