"""Which suites exist, and which broken clauses concern which property."""
import json, random

FMTS = ["JPEG", "PNG", "WEBP", "JXL", "HEIF", "TIFF"]

def cont_mc(fmt):
    def f(tier, seed):
        if fmt == "HEIF":
            return [("HeifMC", {"MAXSHAPE": 2, "MAXOPS": 2, "STRIDE": 1, "PHASE": 0}, 900)] if tier == "quick" else [
                ("HeifMC", {"MAXSHAPE": 3, "MAXOPS": 2, "STRIDE": 1, "PHASE": 0}, 12000), ("HeifMC", {"MAXSHAPE": 1, "MAXOPS": 4, "STRIDE": 1, "PHASE": 0}, 6000)]
        sh, ops, keep = (2, 2, 700) if tier == "quick" else (3 if fmt != "JXL" else 2, 2, 12000)
        res = [("ContainerMC", {"FMT": fmt, "MAXSHAPE": sh, "MAXOPS": ops, "STRIDE": 1, "PHASE": 0}, keep)]
        if tier == "thorough":
            res.append(("ContainerMC", {"FMT": fmt, "MAXSHAPE": 1, "MAXOPS": 4, "STRIDE": 1, "PHASE": 0}, 6000))
        return res
    return f

SUITES = {}
for f in FMTS:
    SUITES["cont:" + f] = {"harness": "cont", "mc": cont_mc(f), "rand": {"quick": 500, "thorough": 20000}, "trace": "ContainerTrace",
                           "tool": lambda t, l, c: c[0] == "gen"}

def store_mc(tier, seed):
    r = [("StoreMC", {"MAXOPS": 3}, 4000)]
    if tier == "thorough":
        r = [("StoreMC", {"MAXOPS": 3}, 60000)]
    return r
SUITES["store"] = {"harness": "store", "mc": store_mc, "rand": {"quick": 2500, "thorough": 60000}, "trace": "StoreTrace"}

def codec_mc(tier, seed):
    q = tier == "quick"
    return [("CodecMC", {"MODE": "obj", "MAXTAGS": 2 if q else 3, "MAXNR": 1}, 1000 if q else 12000),
            ("CodecMC", {"MODE": "lay", "MAXTAGS": 2, "MAXNR": 0 if q else 1}, 1500 if q else 20000),
            ("CoerceMC", {}, 5000 if q else None), ("LinksMC", {"DIRS": 3}, 3000 if q else None), ("CrowdMC", {}, None)]
SUITES["codec"] = {"harness": "codec", "mc": codec_mc, "rand": {"quick": 3000, "thorough": 60000}, "trace": "CodecTrace", "chunk": 1000, "tool": lambda t, l, c: c == "gen"}

RFMTS = ["JPEG", "PNG", "WEBP", "JXL", "TIFF", "HEIF"]
def robust_mc(f):
    return lambda tier, seed: [("RobustMC", {"FMT": f, "FIELDS": 60 if tier == "quick" else 150, "SIZES": 24 if tier == "quick" else 48, "SHAPES": 6 if f == "HEIF" else 4}, 4500 if tier == "quick" else None)]
for f in RFMTS:
    SUITES["robust:" + f] = {"harness": "robust", "mc": robust_mc(f), "rand": {"quick": 1500, "thorough": 60000}, "trace": "RobustTrace", "chunk": 2000}

def ftype_mc(tier, seed):
    q = tier == "quick"
    return [("FileTypeMC", {"MODE": "hist", "MAXOPS": 2}, 4000 if q else 60000), ("FileTypeMC", {"MODE": "names", "MAXOPS": 0}, 1500 if q else None),
            ("FileTypeMC", {"MODE": "heads", "MAXOPS": 0}, None)]
SUITES["ftype"] = {"harness": "ftype", "mc": ftype_mc, "rand": {"quick": 2000, "thorough": 60000}, "trace": "FileTypeTrace", "chunk": 1500, "tool": lambda t, l, c: c == "gen"}

def export_mc(tier, seed):
    q = tier == "quick"
    return [("ExportMC", {"MAXLEN": 5 if q else 7, "MAXOPS": 3}, 2500 if q else None)]
SUITES["export"] = {"harness": "export", "mc": export_mc, "rand": {"quick": 1500, "thorough": 40000}, "trace": "ExportTrace", "chunk": 500}

SUITES["ratio"] = {"harness": "ratio", "mc": lambda tier, seed: [("RationalMC", {"MAXP": 60 if tier == "quick" else 200, "MAXQ": 40 if tier == "quick" else 120}, None)],
                   "rand": {"quick": 6000, "thorough": 200000}, "trace": "RationalTrace", "chunk": 1500}

def tag_mc(tier, seed):
    return [("TagMC", {"MODE": "page"}, None), ("TagMC", {"MODE": "make"}, 6000 if tier == "quick" else None)]
SUITES["tag"] = {"harness": "tag", "mc": tag_mc, "rand": {"quick": 3000, "thorough": 100000}, "trace": "TagTrace", "chunk": 1500}

SUITES["fault"] = {"harness": "fault", "mc": lambda tier, seed: [("FaultMC", {"SHAPES": 6}, 2000 if tier == "quick" else None)],
                   "rand": {"quick": 500, "thorough": 20000}, "trace": "FaultTrace", "chunk": 1500}

def fsys_mc(tier, seed):
    q = tier == "quick"
    return [("FileSysMC", {"MODE": "one", "MAXOPS": 1}, None), ("FileSysMC", {"MODE": "one", "MAXOPS": 2}, 1500 if q else 12000), ("FileSysMC", {"MODE": "two", "MAXOPS": 1}, 2500 if q else None)]
SUITES["fsys"] = {"harness": "fsys", "mc": fsys_mc, "rand": {"quick": 1500, "thorough": 60000}, "trace": "FileSysTrace", "chunk": 1000}

# ---------------------------------------------------------------- describe
def event(t, l):
    return t["init"] if l == 0 else t["ev"][l - 1]

def obs(e, via):
    if via == "file" and e.get("file"):
        return e["file"][0]
    return e["vec"]

def describe(name, t, l, clause):
    """(key for known findings and grouping, text)"""
    kind = SUITES[name]["harness"]
    if kind == "cont":
        e = event(t, l)
        via, cl = clause
        o = obs(e, via)
        op = e.get("op", "init")
        key = "%s|%s|%s|%s|%s|%s" % (name, via, cl, op, e.get("m", ""), o["msg"] or ";".join(o["p"])[:60])
        text = "%s broken at event %d (%s %s, %s interface), image %s ops %s; result %s %s, problems %s, read %s" % (
            cl, l, op, e.get("m", ""), via, t["shape"], t["ops"], o["res"], o["msg"], o["p"], str(o["read"])[:80])
        return key, text
    if kind == "store":
        e = t["ev"][l - 1] if l else {"op": "init"}
        return "%s|%s|%s|%s" % (name, clause, e["op"], e.get("msg", "")), "%s broken at call %d of %s: directories %s" % (clause, l, t["ops"], str(e.get("o", {}).get("dirs"))[:200])
    if kind == "codec":
        e = t["ev"][l - 1]
        c = t["case"]
        return "%s|%s|%s|%s" % (name, clause, e["op"], e.get("msg", "")), "%s broken at event %d (%s, result %s %s) of %s %s" % (
            clause, l, e["op"], e["res"], e.get("msg", ""), c["kind"], json.dumps({k: c[k] for k in c if k != "kind"})[:300])
    if kind == "robust":
        e = t["ev"][l - 1]
        via, cl = clause
        o = e["file"] if via == "file" else e["vec"]
        c = t["case"]
        what = "%s %s / %s %s" % (o["res"], o["msg"], e["file"]["res"], e["file"]["msg"]) if cl == "EQ" else o["msg"] if cl != "MEMORY" else ""
        return "%s|%s|%s|%s|%s" % (name, via, cl, e["op"], what), "%s broken by %s (%s interface), image %s damaged by %s, declared %s: vec %s, file %s, %d bytes" % (
            cl, e["op"], via, c["shape"], json.dumps(c["faults"]), t["as"], json.dumps(e["vec"]), json.dumps(e["file"]), t["len"])
    if kind == "ratio":
        e = t["ev"][l - 1]
        return "%s|%s|%s" % (name, clause, e["k"]), "%s broken by %s" % (clause, e["what"])
    if kind == "tag":
        e = t["ev"][l - 1]
        return "%s|%s|%s|%s" % (name, clause, e["op"], e["what"]), "%s broken by %s: %s" % (clause, e["op"], json.dumps({k: e[k] for k in e if k not in ("got", "op")})[:400])
    if kind == "fault":
        e = t["ev"][l - 1]
        return "%s|%s|%s|%s|%s|%s|%s" % (name, clause, t["fmt"], t["op"][0], t["call"], e["how"], e["msg"]), "%s broken: %s %s of %s with %s %d %s: %s %s; file as before %s, as it should be %s, read %s" % (
            clause, t["op"], t["fmt"], t["shape"], t["call"], e["k"], e["how"], e["res"], e["msg"], e["same"], e["done"], e["got"][:60])
    if kind == "fsys":
        e = t["ev"][l - 1]
        key = "%s|%s|%s|%s" % (name, clause, "+".join(c["o"] for c in e["calls"]), "+".join(c["msg"] for c in e["calls"]))
        return key, "%s broken at step %d of %s: %s, opened for writing %s, holds %s, seen %s" % (clause, l, t["fmt"], "; ".join("%s %s %s -> %s %s" % (c["o"], "/".join(c["p"]), c["a"], c["msg"], c["got"]) for c in e["calls"]), e["wopen"], e["o"]["holds"], e["o"]["seen"])
    if kind == "export":
        e = t["ev"][l - 1]
        return "%s|%s|%s|%s" % (name, clause, e["f"], e["msg"]), "%s broken at step %d (export for %s): metadata %s, steps %s: %s, %s exported, %s embedded (%s carriers)" % (
            clause, l, e["f"], t["m"], t["ops"], e["msg"], e.get("xd"), e.get("cd"), e.get("carriers"))
    if kind == "ftype":
        e = event(t, l)
        nm = bytes(t["name"] if l == 0 else next((x["n"] for x in reversed(t["ev"][:l - 1]) if x["o"] == "N"), t["name"]))
        return "%s|%s|%s|%s|%s" % (name, clause, e.get("o"), e.get("t"), e.get("msg")), "%s broken at call %d (%s %s %s) on a file named %r with %s content: %s %s, got %s, holds %s" % (
            clause, l, e.get("o"), e.get("t"), bytes(e.get("n") or []), nm, t["content"], e.get("msg"), e.get("kind"), e.get("got"), e.get("now"))
    return "%s|%s" % (name, clause), "%s broken at event %d" % (clause, l)

# -------------------------------------------------------------- properties
def op_of(t, l):
    return "init" if l == 0 else t["ev"][l - 1]["op"]
WR = ("write", "edit")

def cont_sel(f):
    return lambda name, t, l, c: name.startswith("cont:") and f(t, l, c[0], c[1], op_of(t, l))

CONT = ["cont:" + f for f in FMTS]
BROKEN = ("CRASH", "RES")
SIMPLE = ("LOSSY", "LOSSLESS")

PROPS = {
    "C01": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: c == "READ0" or op in WR and c in ("READ", "CARR", "COUNT", "RES", "CRASH", "BASE", "OVERSIZE"))},
    "C02": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: op in WR and c in ("PRES", "STRUCT", "CRASH"))},
    "C03": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: op == "clear" and c in ("PRES", "STRUCT", "CARR", "COUNT", "READ") + BROKEN)},
    "C04": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: op in WR + ("clear",) and c in ("HIST", "CARR", "COUNT"))},
    "C05": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: c in ("EQ", "EQ0"))},
    "C06": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: op != "init" and c in ("STRUCT", "POS"))},
    "C09": {"suites": CONT, "select": cont_sel(lambda t, l, v, c, op: op != "init" and c in ("ATOM", "OVERSIZE"))},
    "C16": {"suites": ["cont:PNG"], "select": cont_sel(lambda t, l, v, c, op: op != "init" and any(s.startswith("XMP") for s in t["shape"]) and c in ("PRES", "STRUCT") + BROKEN)},
    "C17": {"suites": ["cont:JPEG"], "select": cont_sel(lambda t, l, v, c, op: op in ("clear12", "clear13"))},
    "C20": {"suites": ["cont:WEBP"], "select": cont_sel(lambda t, l, v, c, op: t["shape"][0] in SIMPLE and op in WR)},
}
PROPS["C18"] = {"suites": ["cont:HEIF"], "select": cont_sel(lambda t, l, v, c, op: op != "init" and c in ("PRES", "STRUCT", "COUNT") + BROKEN)}
PROPS["C21"] = {"suites": ["cont:TIFF"], "select": cont_sel(lambda t, l, v, c, op: op != "init" and c in ("PRES", "CARR", "COUNT", "READ", "STRUCT", "BASE", "OVERSIZE") + BROKEN)}
def st_sel(cl, ops=None):
    return lambda name, t, l, c: name == "store" and c in cl and (ops is None or l > 0 and t["ev"][l - 1]["op"] in ops)
STORE_CL = ("CRASH", "DIRS", "TAGS", "VALUE", "TWICE", "ORDER", "ITER", "QUERY", "SINGLE", "RET", "FRESH", "DIRORDER", "MAX", "ENDIAN")
PROPS["C10"] = {"suites": ["store"], "select": st_sel(("CRASH", "TAGS", "VALUE", "TWICE", "ORDER", "ITER", "QUERY", "SINGLE", "RET", "FRESH", "DIRORDER", "DIRS"), ("set", "iset", "irem", "rem", "hrem", "red"))}
PROPS["C11"] = {"suites": ["store"], "select": lambda name, t, l, c: name == "store" and (c in ("DIRS", "DIRORDER", "SINGLE", "MAX", "CRASH") or t["ev"][l - 1]["op"] in ("mk", "gm", "rt"))}
PROPS["C22"] = {"suites": ["store"], "select": st_sel(STORE_CL, ("red",))}
def cod_sel(cl, f=lambda t, l: True):
    return lambda name, t, l, c: name == "codec" and c in cl and f(t, l)
ENC = ("SORTED", "INSIDE", "OVERLAP", "INLINE", "POINTER", "CHAIN", "LOST", "EXTRA", "PARSE", "ODD", "RES", "CRASH", "OBJ", "TWICE", "STABLE")
PROPS["C12"] = {"suites": ["codec"], "select": lambda name, t, l, c: name == "codec" and c in ENC and (c != "CRASH" or t["ev"][l - 1]["op"] in ("enc", "obj", "crowd"))}
PROPS["C13"] = {"suites": ["codec", "store"], "select": lambda name, t, l, c: c == "ENDIAN" or name == "codec" and c in ("DEC", "LOST", "KEEP", "PARSE", "REFUSE", "POINTER", "CHAIN", "STABLE")}
PROPS["C14"] = {"suites": ["codec"], "select": cod_sel(("DEC", "ACCEPT", "REFUSE", "TWICE", "CRASH"), lambda t, l: t["ev"][l - 1]["op"] in ("dec", "cyc", "crowd"))}
PROPS["C15"] = {"suites": ["codec"], "select": cod_sel(("DEC", "REFUSE", "CRASH", "TWICE"), lambda t, l: t["ev"][l - 1]["op"] in ("dec", "cyc"))}
PROPS["C24"] = {"suites": ["codec"] + CONT, "select": lambda name, t, l, c: name == "codec" and c in ("KEEP", "LOST", "EDIT", "DEC", "STABLE", "PARSE") or name.startswith("cont:") and op_of(t, l) == "edit" and c[1] in ("READ", "CARR")}
ROB = ["robust:" + f for f in RFMTS]
def rob_sel(f):
    return lambda name, t, l, c: name.startswith("robust:") and f(t["ev"][l - 1]["op"], c[1])
PROPS["C07"] = {"suites": ROB + ["codec"], "select": lambda name, t, l, c: rob_sel(lambda op, cl: op == "read" and cl in ("CRASH", "MEMORY"))(name, t, l, c) or name == "codec" and c == "CRASH" and t["ev"][l - 1]["op"] in ("dec", "cyc")}
PROPS["C08"] = {"suites": ROB, "select": rob_sel(lambda op, cl: op != "read" and cl in ("CRASH", "MEMORY"))}
def also(p, suites, sel):
    old = PROPS[p]["select"]
    PROPS[p] = {"suites": PROPS[p]["suites"] + suites, "select": lambda name, t, l, c: (sel if name in suites else old)(name, t, l, c)}
also("C09", ROB, rob_sel(lambda op, cl: op != "read" and cl == "ATOM"))
also("C22", ["cont:TIFF"], cont_sel(lambda t, l, v, c, op: op == "clear" and c in ("CARR", "READ")))
also("C05", ROB, rob_sel(lambda op, cl: cl == "EQ"))
also("C09", ["fault"], lambda name, t, l, c: c == "ATOM")
PROPS["C19"] = {"suites": ["ftype"], "select": lambda name, t, l, c: name == "ftype"}
PROPS["C23"] = {"suites": ["export"], "select": lambda name, t, l, c: name == "export"}
PROPS["C25"] = {"suites": ["ratio"], "select": lambda name, t, l, c: name == "ratio"}
PROPS["C26"] = {"suites": ["tag"], "select": lambda name, t, l, c: name == "tag"}
PROPS["C27"] = {"suites": ["fault"], "select": lambda name, t, l, c: name == "fault"}
PROPS["C28"] = {"suites": ["fsys"], "select": lambda name, t, l, c: name == "fsys" and (len(t["ev"][l - 1]["calls"]) == 1 or c in ("ENTRIES", "CWD", "FDS", "ATTR", "WOPEN", "TOUCHED"))}
PROPS["C29"] = {"suites": ["fsys"], "select": lambda name, t, l, c: name == "fsys" and (len(t["ev"][l - 1]["calls"]) > 1 or l > 1 and c in ("OTHER", "ANSWER", "GOT", "WRITTEN", "CRASH"))}
NA = {}
