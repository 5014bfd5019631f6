"""Run a check and list its violations grouped by their shape."""
import collections, json, os, re, subprocess, sys
env = dict(os.environ, VERIF_DUMP="/tmp/dump.json")
if os.path.exists("/tmp/dump.json"): os.remove("/tmp/dump.json")
r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "..", "run.py")] + sys.argv[1:], env=env, capture_output=True, text=True)
out = r.stdout
print(r.stdout[:int(os.environ.get("N","1500"))], r.stderr[-500:])
if os.path.exists("/tmp/dump.json"):
    g = collections.defaultdict(list)
    for v in json.load(open("/tmp/dump.json")):
        m = v["message"]
        if "Traceback" in m:
            ls = [l for l in m.strip().split("\n") if l.strip()]
            fr = [l.strip() for l in ls if l.strip().startswith("File")]
            k = " <- ".join(x.replace('File "/repo/', '"') for x in fr[-3:][::-1]) + " :: " + ls[-1][:160]
        else:
            k = re.sub(r"[0-9]+", "N", m)[:int(os.environ.get("K","90"))]
        g[k].append(v)
    for k, vs in sorted(g.items(), key=lambda kv: -len(kv[1]))[:int(os.environ.get('G','14'))]:
        print(len(vs), k, "| cases", [v["case"] for v in vs[:4]])
        if os.environ.get("FULL"): print("      ", vs[0]["message"][:int(os.environ["FULL"])])
if "INCON" in out: print(out[out.index("INCON"):][:2500])
print("rc", r.returncode)
