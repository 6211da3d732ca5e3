"""Exploration: runs random (or MC) cases of one suite and prints the broken clauses.
usage: try.py SUITE N SEED [--mc]"""
import collections, json, os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from tlalib import *
import engine, suites as S
suite, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
w = "/tmp/try/" + suite.replace(":", "_"); os.makedirs(w, exist_ok=True)
build()
cfg = S.SUITES[suite]
cases = []
if n: lexh("gen", suite, n, seed, w + "/cases.ndjson"); cases = load(w + "/cases.ndjson")
if "--mc" in sys.argv:
    st = engine.Stats(); t = time.time(); c = engine.mc_cases(suite, cfg, "quick", seed, w, st); print("mc", time.time() - t, st.suites)
    cases += c
dump(w + "/cases.ndjson", cases)
t = time.time(); lexh("exec", w + "/cases.ndjson", w + "/traces.ndjson", w + "/scratch", 8); print("exec", time.time() - t)
trs = load(w + "/traces.ndjson")
c = collections.Counter(); ex = {}; t = time.time(); ns = 0
by = {x["id"]: x for x in cases}; tr = {x["id"]: x for x in trs}
ch = cfg.get("chunk", 4000)
for i in range(0, len(trs), ch):
    dump(w + "/t.ndjson", trs[i:i + ch])
    rc, out, g, d = tlc(cfg["trace"], cfg["trace"] + ".cfg", w, envv={"TRACES": w + "/t.ndjson"}, workers=8); ns += d
    if rc: print("\n".join([l for l in out.splitlines() if "REJECT" not in l])[-2500:]); break
    for r in rejects(out):
        for cl in r["bad"]:
            k, text = S.describe(suite, tr[r["id"]], r["l"], cl)
            c[k] += 1; ex.setdefault(k, []).append((len(json.dumps(by[r["id"]])) + 30 * r["l"], r["id"], r["l"], text))
print("tlc", time.time() - t, ns, "traces", len(trs))
for k, v in sorted(c.items()):
    b = min(ex[k]); print(v, k, "\n      ", b[1], "l=%d" % b[2], json.dumps(by[b[1]])[:300], "|", b[3][:300])
