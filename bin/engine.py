"""Runs suites (model checking, case generation, execution against /repo,
trace validation) and turns broken clauses into verdicts on one property."""
import concurrent.futures, json, os, random, re, shutil, sys, tempfile, time
from tlalib import *
import suites as S

CHUNK = 4000          # traces per TLC run
PAR = 4               # TLC runs at a time

class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = self.mc_states = 0
        self.samples, self.suites = [], {}

def mc_cases(suite, cfg, tier, seed, work, stats):
    """Model checks the suite's design model; returns the cases it printed."""
    cases = []
    def run(m):
        t = time.time()
        return tlc_ok(m[0], m[0] + ".cfg", work, envv=m[1], workers=4, xmx="4g") + (time.time() - t,)
    models = cfg["mc"](tier, seed)
    with concurrent.futures.ThreadPoolExecutor(2) as mp:
        outs = list(mp.map(run, models))
    for k, ((module, envv, keep), (out, gen, dist, secs)) in enumerate(zip(models, outs)):
        if "Model checking completed. No error has been found" not in out:
            raise ToolError("model checking of %s did not complete" % module)
        stats.states += dist; stats.transitions += gen; stats.mc_states += dist
        # the order in which TLC's workers print is not fixed
        got = [json.loads(json.loads(l)[5:]) for l in sorted(l.strip() for l in out.splitlines()) if l.startswith('"CASE ')]
        rnd = random.Random(seed * 7919 + k)
        total = len(got)
        if keep and len(got) > keep:
            must = [c for c in got if c.get("must")]
            rest = [c for c in got if not c.get("must")]
            got = must + rnd.sample(rest, min(len(rest), max(keep - len(must), keep // 4)))
        for c in got:
            c.pop("must", None)
        for i, c in enumerate(got):
            c["id"] = "m%d.%d" % (k, i)
            c["suite"] = cfg["harness"]
            c.setdefault("seed", rnd.randrange(1 << 30))
            cases.append(c)
        stats.suites.setdefault(suite, {}).setdefault("models", []).append(
            {"module": module, "env": envv, "distinct_states": dist, "behaviours": total, "replayed": len(got), "seconds": round(secs, 1)})
    return cases

def run_suite(suite, tier, seed, work, stats, pool):
    cfg = S.SUITES[suite]
    d = os.path.join(work, re.sub(r"\W", "_", suite))
    os.makedirs(d, exist_ok=True)
    cases = mc_cases(suite, cfg, tier, seed, d, stats) if cfg.get("mc") else []
    n = cfg["rand"][tier]
    if n:
        lexh("gen", suite, n, seed, os.path.join(d, "rand.ndjson"))
        cases += load(os.path.join(d, "rand.ndjson"))
    dump(os.path.join(d, "cases.ndjson"), cases)
    return d, cases

def validate(args):
    """Broken clauses of the traces in a file.  A trace the specification cannot
    even evaluate is set aside, so that the others still get their verdict; it
    makes the check fail as a tool error unless there is a violation anyway."""
    module, path, work = args
    rej, odd = [], []
    while True:
        rc, out, gen, dist = tlc(module, module + ".cfg", work, envv={"TRACES": path}, workers=2, xmx="4g")
        rej += rejects(out)
        if rc == 0:
            return rej, gen, dist, odd
        text = "\n".join([l for l in out.splitlines() if "REJECT" not in l])[-3000:]
        at = re.search(r"^/\\ tr = (\d+)$", out, re.M)
        traces = load(path)
        if not at or len(odd) >= 12 or len(traces) < 2:
            raise ToolError("TLC failed on %s, exit %d:\n%s" % (module, rc, text))
        t = traces.pop(int(at.group(1)) - 1)
        odd.append("%s: %s" % (t["id"], text[:1500]))
        dump(path, traces)

def execute(suite, d, cases, stats, seed):
    cfg = S.SUITES[suite]
    tp = os.path.join(d, "traces.ndjson")
    lexh("exec", os.path.join(d, "cases.ndjson"), tp, os.path.join(d, "scratch"), 8)
    shutil.rmtree(os.path.join(d, "scratch"), ignore_errors=True)
    traces = load(tp)
    os.remove(tp)
    if len(traces) != len(cases):
        raise ToolError("%s: %d cases but %d traces" % (suite, len(cases), len(traces)))
    bad = [t for t in traces if t.get("harness_failure")]
    if bad:
        raise ToolError("%s: the harness gave up on %s" % (suite, json.dumps(bad[0])[:600]))
    jobs = []
    n = cfg.get("chunk", CHUNK)
    for i in range(0, len(traces), n):
        p = os.path.join(d, "t%d.ndjson" % i)
        dump(p, traces[i:i + n])
        jobs.append((cfg["trace"], p, d))
    stats.traces += len(traces)
    stats.events += sum(len(t.get("ev", [])) for t in traces)
    stats.suites.setdefault(suite, {})["traces"] = len(traces)
    rnd = random.Random(seed)
    for t in rnd.sample(traces, min(2, len(traces))):
        s = json.dumps(t)
        stats.samples.append({"suite": suite, "trace": json.loads(s) if len(s) < 3000 else s[:3000]})
    return {c["id"]: c for c in cases}, {t["id"]: t for t in traces}, jobs

def findings():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.rstrip("\n"))
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res

def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    it = iter(argv[1:])
    for a in it:
        if a == "--tier": tier = next(it)
        elif a == "--seed": seed = int(next(it))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work.%s." % pid, dir=BUILD)
    try:
        return decide(pid, tier, seed, work, t0)
    except ToolError as e:
        print("TOOL-ERROR property=%s %s" % (pid, e), flush=True)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, seed, work, t0):
    prop = S.PROPS[pid]
    _, bt = build()
    stats = Stats()
    known = [(rx, what) for p, rx, what in findings() if p == pid]
    violations, hits, odd, done = {}, {}, [], set()
    with concurrent.futures.ThreadPoolExecutor(PAR) as pool:
        names = [n for n in prop["suites"]]
        prepared = list(pool.map(lambda n: (n,) + run_suite(n, tier, seed, work, stats, pool), names))
        futs = []
        for name, d, cases in prepared:      # execution uses all cores itself
            by, tr, jobs = execute(name, d, cases, stats, seed)
            futs.append((name, by, tr, [pool.submit(validate, j) for j in jobs]))
        for name, by, tr, fs in futs:
            seen = 0
            for f in fs:
                rej, gen, dist, o = f.result()
                odd += o
                stats.states += dist; stats.transitions += gen
                for r in rej:
                    # a run that was repeated reports the same broken clauses again
                    if (name, r["id"], r["l"]) in done:
                        continue
                    done.add((name, r["id"], r["l"]))
                    t, c = tr[r["id"]], by[r["id"]]
                    for clause in r["bad"]:
                        if S.SUITES[name].get("tool", lambda *_: False)(t, r["l"], clause):
                            raise ToolError("%s: case %s is not a valid case: %s" % (name, r["id"], json.dumps(t)[:800]))
                        if not prop["select"](name, t, r["l"], clause):
                            continue
                        seen += 1
                        key, text = S.describe(name, t, r["l"], clause)
                        hit = [w for rx, w in known if rx.search(key)]
                        if hit:
                            hits[hit[0]] = hits.get(hit[0], 0) + 1
                            continue
                        size = len(json.dumps(c)) + 30 * r["l"]
                        g = re.sub(r"\d+", "#", key)
                        if g not in violations or size < violations[g][0]:
                            violations[g] = (size, name, c, r, clause, t, text)
            stats.suites.setdefault(name, {})["broken_clauses"] = seen
    if odd and not violations:
        raise ToolError("%d traces could not be evaluated, the first is %s" % (len(odd), odd[0]))
    for what, n in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, what, n))
    rep = os.path.join(BUILD, "replay")
    os.makedirs(rep, exist_ok=True)
    for old in os.listdir(rep):
        if old.startswith(pid + "."):
            os.remove(os.path.join(rep, old))
    shown = sorted(violations.values(), key=lambda v: v[0])[:8]
    for i, (_, name, c, r, clause, t, text) in enumerate(shown):
        path = os.path.join(rep, "%s.%d.json" % (pid, i))
        json.dump({"property": pid, "suite": name, "clause": clause, "event": r["l"], "what": text, "case": c, "trace": t}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s" % (name, text[:600]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.states, "transitions": stats.transitions, "traces_validated_against_impl": stats.traces,
            "events_validated": stats.events, "design_model_states": stats.mc_states, "suites": stats.suites,
            "samples": stats.samples[:8], "known_finding_hits": hits,
        },
        "assumptions": prop.get("assumptions", []) + ["the harness' projections (lexers, TIFF parser, XML tokenizer in /verif/harness/src) are correct"],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d traces (%d events), %d states, %.0f s (build %.0f s): %s" %
          (pid, tier, stats.traces, stats.events, stats.states, time.time() - t0, bt, "%d kinds of violation" % len(violations) if violations else "held"))
    return 1 if violations else 0
