#!/usr/bin/env python3
"""Make and verify planted bugs.

plant.py make FILE.py...   FILE defines PLANTS = [dict(id, property, edits=
                           [(path, old, new)...], needs, breaks, demo)]
plant.py verify ID...      builds, tests and demos a patched copy (in a private
                           mount namespace over /repo)
plant.py catch ID... [--check Cxx]   runs the property's quick check on it
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = '#!/bin/bash\nexec /opt/jy/bin/jython "$(dirname "$0")/demo.py"\n'
PRE = '''# -*- coding: utf-8 -*-
import os, sys, shutil, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(pid, patched=True):
    d = tempfile.mkdtemp(prefix="pl-%s-" % pid, dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    if patched:
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(SEED, pid, "patch.diff")])
    return d, r


def make(path):
    ns = {}
    exec(open(path, encoding="utf-8").read(), ns)
    ids = []
    for p in ns["PLANTS"]:
        d, r = copy(p["id"], False)
        ok = True
        for f, old, new in p["edits"]:
            fp = os.path.join(r, f)
            s = open(fp, encoding="utf-8", newline="").read()
            if s.count(old) != 1:
                print(p["id"], "edit matches", s.count(old), repr(old[:60]))
                ok = False
                continue
            open(fp, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        if ok:
            out = os.path.join(SEED, p["id"])
            os.makedirs(out, exist_ok=True)
            diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
            open(os.path.join(out, "patch.diff"), "wb").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(PRE + p["demo"].lstrip("\n"))
            json.dump(dict(property=p["property"], needs=p["needs"],
                           what_it_breaks=p["breaks"]),
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            ids.append(p["id"])
        shutil.rmtree(d)
    return ids


def in_ns(r, cmd, timeout=1500):
    q = "mount --bind %s /repo && cd /repo && %s" % (r, cmd)
    return subprocess.run(["unshare", "-m", "bash", "-c", q], capture_output=True,
                          text=True, timeout=timeout)


def verify(pid):
    d, r = copy(pid)
    c, rc = copy(pid, False)
    try:
        demo = "timeout 300 bash %s/%s/demo.sh" % (SEED, pid)
        good = in_ns(rc, demo)
        bad = in_ns(r, demo)
        b = in_ns(r, "bash /opt/vp/build.sh")
        out = d + "/t.json"
        in_ns(r, "bash /opt/vp/test.sh %s" % out)
        t = sh("python3 %s/tools/cmpbase.py %s" % (ROOT, out))
        v = (good.returncode == 0 and bad.returncode != 0 and b.returncode == 0
             and "lost: []" in t.stdout)
        print(pid, "OK" if v else "BAD", "demo clean", good.returncode, "patched",
              bad.returncode, "build", b.returncode, t.stdout.strip().splitlines()[-1:],
              flush=True)
        if good.returncode or bad.returncode == 0:
            print(good.stdout[-800:], good.stderr[-1500:], bad.stdout[-500:])
        else:
            print("   ", (bad.stdout + bad.stderr).strip().splitlines()[-1:][0][:300] if (bad.stdout+bad.stderr).strip() else "")
        return v
    finally:
        shutil.rmtree(d); shutil.rmtree(c)


def catch(pid, check=None):
    prop = check or json.load(open(os.path.join(SEED, pid, "meta.json")))["property"]
    d, r = copy(pid)
    e = os.path.join(d, "ev")
    try:
        v = os.path.join(d, "verif")
        subprocess.check_call("mkdir %s && cd %s && cp -a run.py checks harness known_findings.txt properties.jsonl MANIFEST.json %s/" % (v, ROOT, v), shell=True)
        p = in_ns(r, "VERIF_REPO=/repo VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 %s/run.py %s"
                  % (os.environ.get("VERIF_SEED", "1"), v, prop))
        o = p.stdout.strip().splitlines()
        print(pid, prop, {0: "MISSED", 1: "CAUGHT"}.get(p.returncode, "rc%d" % p.returncode),
              " | ".join(x[:260] for x in o[:3]), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    chk = None
    if "--check" in args:
        i = args.index("--check"); chk = args[i + 1]; del args[i:i + 2]
    if cmd == "make":
        ids = [x for a in args for x in make(a)]
        print("made", ids)
    elif cmd == "verify":
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(verify, args))
    elif cmd == "catch":
        for a in args:
            catch(a, chk)
