#!/usr/bin/env python3
"""Mutation probing: small random changes of the code under test, judged by the checks.

mutants.py [-n COUNT] [-w WORKERS] [-s SEED] [-o OUT] FILE...
Writes one JSON line per mutant to OUT (status killed / inconclusive / SURVIVED).
"""
import argparse, io, json, os, random, shutil, subprocess, sys, tempfile, tokenize
from concurrent.futures import ThreadPoolExecutor
import queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("VERIF_REPO", "/repo")
T = "transitfeed/"
MAP = {
    T + "schedule.py": "C01 C14 C09 C31 C39 C06 C04 C13 C15 C24 C35 C03 C02",
    T + "trip.py": "C10 C15 C11 C12 C13 C01 C04 C31 C35 C36",
    T + "loader.py": "C04 C30 C02 C01 C05 C06 C03 C26",
    T + "util.py": "C07 C30 C04 C27 C21 C01 C40 C33",
    T + "problems.py": "C40 C21 C04 C39 C03 C14",
    T + "stop.py": "C27 C11 C04 C14 C05",
    T + "route.py": "C27 C04 C31 C23",
    T + "stoptime.py": "C04 C15 C10 C01 C07",
    T + "serviceperiod.py": "C08 C09 C04 C01 C27",
    T + "shape.py": "C19 C04 C01 C27",
    T + "shapepoint.py": "C19 C04 C27 C01",
    T + "shapelib.py": "C20 C36",
    T + "transfer.py": "C27 C04 C01 C06",
    T + "fareattribute.py": "C27 C04 C01 C31",
    T + "farerule.py": "C01 C05 C04 C27",
    T + "frequency.py": "C12 C04 C27 C01",
    T + "agency.py": "C27 C04 C06 C01",
    T + "feedinfo.py": "C27 C04 C09 C01",
    T + "gtfsfactory.py": "C26",
    T + "gtfsobjectbase.py": "C35 C04 C01 C27 C31 C16",
    T + "shapeloader.py": "C03 C19 C33",
    "merge.py": "C16 C17 C18 C33",
    "kmlwriter.py": "C22 C33",
    "kmlparser.py": "C22",
    "feedvalidator.py": "C21 C39 C40 C33",
    "unusual_trip_filter.py": "C23 C33",
    "upgrade_translations.py": "C28",
    "visualize_pathways.py": "C29",
    "schedule_viewer.py": "C24 C32 C37",
    "location_editor.py": "C37",
    "shape_importer.py": "C36",
    "misc/import_ch_zurich.py": "C38",
    "gtfsscheduleviewer/marey_graph.py": "C32",
    "extensions/googletransit/stop.py": "C34",
    "extensions/googletransit/route.py": "C34",
    "extensions/googletransit/agency.py": "C34",
    "extensions/googletransit/fareattribute.py": "C34",
    "extensions/googletransit/extension_util.py": "C34 C25",
    "extensions/googletransit/pybcp47/bcp47languageparser.py": "C25",
    "examples/table.py": "C33",
    "examples/google_random_queries.py": "C33",
    "examples/filter_unused_stops.py": "C33",
    "examples/small_builder.py": "C33",
}
OPS = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"],
       "*": ["/"], "/": ["*"], "+=": ["-="], "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"],
       "min": ["max"], "max": ["min"], "continue": ["break"], "break": ["continue", "pass"], "not": [""],
       "is": ["is not"], "in": ["not in"], "None": ["0"]}


def mutations(src):
    """(line number, new line, description)"""
    lines = src.splitlines(True)
    out = []
    prev = None
    depth = 0
    try:
        for tok in tokenize.generate_tokens(io.StringIO(src).readline):
            s, (r, c), (r2, c2) = tok.string, tok.start, tok.end
            new = []
            line = lines[r - 1] if r <= len(lines) else ""
            st = line.strip()
            skip = st.startswith(("import ", "from ", "def ", "class ", "#", "'''", '"""', "@"))
            if tok.type in (tokenize.OP, tokenize.NAME) and s in OPS and not skip:
                new = OPS[s]
                if s == "in" and st.startswith("for "):
                    new = []
                if s == "in" and prev == "not":
                    new = []
                if s == "not" and prev == "is":
                    new = []
                if s in "+-*/" and (prev in ("(", ",", "=", "return", "[") or "'" in line):
                    new = []
                if s == "%":
                    new = []
            elif tok.type == tokenize.NUMBER and not skip:
                try:
                    v = float(s) if "." in s or "e" in s.lower() else int(s, 0)
                    new = [repr(v + 1)] + ([repr(v * 1.01)] if isinstance(v, float) else [])
                except ValueError:
                    pass
            for n in new:
                out.append((r, line[:c] + n + line[c2:], "%s -> %s" % (s, n or "''")))
            if tok.type not in (tokenize.NL, tokenize.COMMENT):
                prev = s
    except (tokenize.TokenError, IndentationError, SyntaxError) as e:
        print("tokenize:", e, file=sys.stderr)
    doc = False
    for i, line in enumerate(lines):
        st = line.strip()
        if st.count('"""') % 2:
            doc = not doc
            continue
        if doc or not st or st.startswith("#") or '"""' in st:
            continue
        ind = line[:len(line) - len(line.lstrip())]
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        open_ = any(st.count(a) != st.count(b) for a, b in ("()", "[]", "{}"))
        p = lines[i - 1].rstrip() if i else ""
        if open_ or st.endswith(("\\", ",")) or p.endswith(("\\", ",", "(", "+")):
            continue
        if st.startswith("if ") and st.endswith(":"):
            out.append((i + 1, ind + "if True:\n", "if true"))
            out.append((i + 1, ind + "if False:\n", "if false"))
        elif st.startswith("elif ") and st.endswith(":"):
            out.append((i + 1, ind + "elif False:\n", "elif false"))
        elif st.startswith("return ") and ind:
            out.append((i + 1, ind + "return None\n", "return None"))
        elif ind and not st.endswith(":") and not st.startswith(
                ("return", "def ", "class ", "import ", "from ", "global ", "raise ", "pass", "'", '"', ")", "except",
                 "%", "else", "print", "self.%s = %s")):
            first = st.split("=")[0].split("(")[0].strip()
            if first.replace(".", "").replace("_", "").replace("[", "").replace("]", "").isalnum():
                out.append((i + 1, ind + "pass\n", "statement removed"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=100)
    ap.add_argument("-w", type=int, default=4)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", default="/tmp/mutants.jsonl")
    ap.add_argument("--checks")
    ap.add_argument("--lines")
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    rng = random.Random(a.s)
    todo = []
    for f in a.files:
        src = open(os.path.join(BASE, f), encoding="utf-8", newline="").read()
        ms = mutations(src)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m[0] <= hi]
        todo += [(f,) + m for m in ms]
    print(len(todo), "mutations")
    if len(todo) > a.n:
        todo = rng.sample(todo, a.n)
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    free = queue.Queue()
    for k in range(a.w):
        d = os.path.join(base, "w%d" % k)
        os.mkdir(d)
        subprocess.check_call(["cp", "-a", BASE, d + "/repo"])
        subprocess.check_call("mkdir %s/verif && cd %s && cp -a run.py checks harness known_findings.txt properties.jsonl MANIFEST.json %s/verif/" % (d, ROOT, d), shell=True)
        free.put(d)
    out = open(a.o, "a")

    def one(m):
        f, ln, new, what = m
        d = free.get()
        p = os.path.join(d, "repo", f)
        src = open(p, encoding="utf-8", newline="").read()
        try:
            lines = src.splitlines(True)
            old = lines[ln - 1]
            if old == new:
                return
            lines[ln - 1] = new
            open(p, "w", encoding="utf-8", newline="").write("".join(lines))
            res = dict(file=f, line=ln, old=old.strip(), new=new.strip(), what=what)
            status, notes = "SURVIVED", []
            for c in (a.checks or MAP.get(f, "")).split():
                env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_TIER="quick", VERIF_SHARDS=str(max(2, 8 // a.w)),
                           VERIF_ENOUGH="1")
                r = subprocess.run([sys.executable, d + "/verif/run.py", c], capture_output=True, text=True, env=env)
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    status = "killed"
                    notes.append(c)
                    break
                if r.returncode != 0:
                    status = "inconclusive"
                    notes.append(c + ": " + r.stdout[-1500:])
            res.update(status=status, notes=notes)
            out.write(json.dumps(res) + "\n")
            out.flush()
            if status != "killed":
                print(status, f, ln, what, "|", old.strip()[:100], "|", [n[:60] for n in notes], flush=True)
        finally:
            open(p, "w", encoding="utf-8", newline="").write(src)
            free.put(d)

    try:
        with ThreadPoolExecutor(a.w) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(base)
    c = {}
    for l in open(a.o):
        s = json.loads(l)["status"]
        c[s] = c.get(s, 0) + 1
    print(c)


if __name__ == "__main__":
    main()
