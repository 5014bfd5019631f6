#!/usr/bin/env python3
"""Driver of every check: python3 run.py <ID> [--replay FILE] | --setup

Starts Jython shards that run /repo's code under the monitors of
checks/<id>.py, merges what they observed, writes evidence/<ID>.json and
prints the verdict.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: violated.  Exit 2: inconclusive (too little observed, the
harness itself failed, or a watchdog fired).
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JYTHON = "/opt/jy/bin/jython"
WATCHDOG = {"quick": 780, "thorough": 4 * 3600}


def env_for(tmp):
    env = dict(os.environ)
    env.pop("JYTHONPATH", None)
    env.update(PYTHONPATH=ROOT, PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8",
               LC_ALL="C.UTF-8", TMPDIR=tmp, HOME=tmp, VERIF_REPO=REPO,
               PYTHONDONTWRITEBYTECODE="1",
               JAVA_TOOL_OPTIONS="")
    env.pop("JAVA_TOOL_OPTIONS")
    return env


def repo_status():
    try:
        r = subprocess.run(["git", "-C", REPO, "status", "--porcelain",
                            "--untracked-files=no"], capture_output=True,
                           text=True, timeout=60)
        return r.stdout
    except Exception:
        return None


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>'."""
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            mm = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if mm:
                known[(mm.group(1), mm.group(2))] = mm.group(3)
    return known


def run_shards(prop, tier, seed, nshards, tmp, only=None):
    procs = []
    for i in range(nshards):
        d = os.path.join(tmp, "s%d" % i)
        os.mkdir(d)
        out = os.path.join(tmp, "out%d.json" % i)
        log = open(os.path.join(tmp, "log%d.txt" % i), "wb")
        cmd = [JYTHON, "-J-Xmx3g"] if False else [JYTHON]
        cmd += [os.path.join(ROOT, "harness", "shard.py"), prop, tier, str(seed),
                str(i), str(nshards), out]
        if only is not None:
            cmd.append(str(only))
        p = subprocess.Popen(cmd, cwd=d, env=env_for(d), stdin=subprocess.DEVNULL,
                             stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((p, out, log))
    deadline = time.time() + WATCHDOG[tier]
    timed_out = False
    for p, out, log in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        log.close()
    return procs, timed_out


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--setup":
        r = subprocess.run([JYTHON, "-c", "import sys; sys.path.insert(0, '%s'); "
                            "import transitfeed; print(transitfeed.__version__)" % REPO],
                           stdin=subprocess.DEVNULL)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        return r.returncode
    prop = args[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WATCHDOG:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in args:
        rep = json.load(open(args[args.index("--replay") + 1], encoding="utf-8"))
        only, seed, tier = rep["case"], rep["seed"], rep["tier"]
    nshards = 1 if only is not None else int(
        os.environ.get("VERIF_SHARDS", min(8, max(2, os.cpu_count() or 2))))
    t0 = time.time()
    before = repo_status()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return judge(prop, tier, seed, nshards, tmp, only, t0, before)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(prop, tier, seed, nshards, tmp, only, t0, before):
    procs, timed_out = run_shards(prop, tier, seed, nshards, tmp, only)
    merged = {"cases": 0, "nontrivial": set(), "counters": {}, "samples": [],
              "violations": [], "findings": {}, "rule": "", "minimum": {},
              "assumptions": [], "exhaustive": None}
    problems = []
    if timed_out:
        problems.append("watchdog fired")
    for i, (p, out, log) in enumerate(procs):
        if not os.path.exists(out):
            tail = open(os.path.join(tmp, "log%d.txt" % i), "rb").read()[-4000:]
            problems.append("shard %d ended with %s and no result:\n%s" % (
                i, p.returncode, tail.decode("utf-8", "replace")))
            continue
        r = json.load(open(out, encoding="utf-8"))
        merged["cases"] += r["cases"]
        merged["nontrivial"].update(r["nontrivial"])
        for k, v in r["counters"].items():
            merged["counters"][k] = merged["counters"].get(k, 0) + v
        merged["samples"] += r["samples"]
        merged["violations"] += r["violations"]
        for k, v in r["findings"].items():
            merged["findings"].setdefault(k, v)
        merged["rule"] = r["rule"]
        merged["minimum"] = r["minimum"]
        merged["assumptions"] = r["assumptions"]
        if r["exhaustive"] is not None:
            merged["exhaustive"] = (merged["exhaustive"] is not False) and r["exhaustive"]
        if r["errors"]:
            problems += ["shard %d: %s" % (i, e) for e in r["errors"][:3]]
    after = repo_status()
    if before != after:
        problems.append("tracked files of %s changed during the run" % REPO)

    known = load_known()
    shown_findings = []
    for key, v in sorted(merged["findings"].items()):
        if (prop, key) in known:
            shown_findings.append((key, known[(prop, key)]))
        else:
            merged["violations"].append(v)
    if only is None and not merged["violations"]:
        for k, need in sorted(merged["minimum"].items()):
            got = merged["counters"].get(k, 0)
            if got < need:
                problems.append("monitor observed only %d of at least %d '%s'" % (got, need, k))
        if merged["cases"] == 0:
            problems.append("no case was run")
    cov = {
        "evaluations": merged["cases"],
        "distinct_nontrivial": len(merged["nontrivial"]),
        "rule": merged["rule"],
        "samples": merged["samples"][:6],
        "observed": dict(sorted(merged["counters"].items())),
        "shards": nshards,
    }
    if merged["exhaustive"] is not None:
        cov["exhaustive"] = bool(merged["exhaustive"])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": merged["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(merged["violations"]),
    }
    if only is None:
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        with open(os.path.join(ev, prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")
    for key, text in shown_findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, merged["cases"], len(merged["nontrivial"]), time.time() - t0))
    for k, v in sorted(merged["counters"].items()):
        print("   observed %-40s %d" % (k, v))
    if os.environ.get("VERIF_DUMP"):
        json.dump(merged["violations"], open(os.environ["VERIF_DUMP"], "w"))
    if merged["violations"]:
        v = sorted(merged["violations"], key=lambda v: v["case"])
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d-%d.json" % (prop, tier, seed, v[0]["case"]))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "case": v[0]["case"], "violations": v[:20]}, f, indent=1,
                      ensure_ascii=False)
        for x in v[:5]:
            print("--- case %d: %s" % (x["case"], x["message"][:3000]))
        if problems:
            print("also: " + "\n".join(problems)[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        print("INCONCLUSIVE " + "\n".join(problems))
        return 2
    print("HELD on everything explored")
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(encoding="utf-8", errors="replace")
    sys.exit(main())
