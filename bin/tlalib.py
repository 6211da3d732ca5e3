"""Building, running TLC and the harness: shared by all checks."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEX_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(BUILD, "target")})
    e.pop("RUSTFLAGS", None)
    return e

def build():
    """Compiles the harness against the working tree of /repo."""
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = "\n".join(l for l in r.stdout.splitlines() if "error" in l or "-->" in l)
        raise ToolError("the harness does not build against /repo:\n" + (errs or r.stdout)[-3000:])
    return os.path.join(BUILD, "target", "debug", "lexh"), time.time() - t

def lexh(*args, **kw):
    exe = os.path.join(BUILD, "target", "debug", "lexh")
    e = env()
    e.update({k: str(v) for k, v in kw.items()})
    r = subprocess.run([exe] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness %s failed: %s" % (args[0], r.stdout[-2000:]))
    return r.stdout

def tlc(module, cfg, work, envv=None, workers=2, xmx="3g", timeout=850):
    """Runs TLC on a module in spec/; returns (output, states generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (envv or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JAR + ":" + DEPS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]

    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(l for l in r.stdout.splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting of|Computed |Progress)", l))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("states generated ", "states generated, "))
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, out, gen, dist

def tlc_ok(module, cfg, work, **kw):
    rc, out, gen, dist = tlc(module, cfg, work, **kw)
    if rc != 0:
        lines = [l for l in out.splitlines() if not l.startswith("REJECT") and not l.startswith('"REJECT')]
        raise ToolError("TLC failed on %s (%s), exit %d:\n%s" % (module, cfg, rc, "\n".join(lines)[-3000:]))
    return out, gen, dist

def rejects(out):
    """The records a trace specification printed for broken clauses."""
    res = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"REJECT '):
            s = json.loads(l)          # TLC prints the string with escapes
            res.append(json.loads(s[len("REJECT "):]))
        elif l.startswith("REJECT "):
            res.append(json.loads(l[len("REJECT "):]))
    return res

def load(p):
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]

def dump(p, recs):
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
