"""The deductive part: extraction of /repo's functions into Verus units, and Verus on each unit."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, ".build"))
REPO = os.environ.get("VX_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")

# diagnostics that are failed proof obligations; anything else (types, modes, names) means that the
# extracted text is no longer in the verifier's subset: the proof was not redone
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible (arithmetic )?(underflow|overflow|division)|possible bit shift|decreases not satisfied|"
    r"assertion not satisfied|recommendation not met|could not prove termination|"
    r"loop invariant|possible .*overflow|failed this")
LIMIT = re.compile(r"resource limit|rlimit|timed? ?out|canceled", re.I)


class NotBuilt(Exception):
    pass


def extractor():
    tgt = os.path.join(BUILD, "ext")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(VERIF, "extract"), env=env, capture_output=True, text=True, timeout=600)
    exe = os.path.join(tgt, "release", "vx-extract")
    if r.returncode != 0 or not os.path.exists(exe):
        raise NotBuilt("the extractor does not build: " + r.stderr[-2000:])
    return exe


def unit_text(name, seen=None):
    seen = seen if seen is not None else set()
    out = []
    for l in open(os.path.join(CONTRACTS, name)):
        if l.startswith("@@include "):
            f = l.split()[1]
            if f not in seen:
                seen.add(f)
                out.append(unit_text(f, seen))
        else:
            out.append(l)
    return "".join(out)


def unit_info(unit):
    """-> (properties of the unit, {function: properties or None}, {function: source name})"""
    props, fns, src, cur, stub = set(), {}, {}, None, False
    for l in unit_text(unit + ".vx").splitlines():
        w = l.split()
        if not l.startswith("@@") or not w:
            continue
        if w[0] in ("@@stubs", "@@endstubs"):
            stub = w[0] == "@@stubs"
        elif w[0] == "@@fn" and not stub:
            o = dict(x.split("=", 1) if "=" in x else (x, "") for x in w[2:])
            cur = o.get("as", w[1])
            fns[cur] = None
            where = "the run-time text in generate_source" if o.get("from") == "tmpl" else "pomelo-impl/src/parser"
            src[cur] = (o["impl"] + "::" if "impl" in o else "") + w[1] + " (" + where + ")"
        elif w[0] == "@@props" and not stub:
            if cur is None:
                props |= set(w[1:])
            else:
                fns[cur] = set(w[1:])
    return props, fns, src


def stubs_of(unit):
    """functions whose contract another unit proves"""
    out, stub = set(), False
    for l in unit_text(unit + ".vx").splitlines():
        w = l.split()
        if l.startswith("@@stubs"):
            stub = True
        elif l.startswith("@@endstubs"):
            stub = False
        elif l.startswith("@@fn") and stub:
            out.add(w[1])
    return out


def units():
    return sorted(f[:-3] for f in os.listdir(CONTRACTS) if f.endswith(".vx"))


def units_for(prop):
    return [u for u in units() if prop in unit_info(u)[0]]


TRUST = re.compile(r"#\[verifier::external_body\]|#\[verifier::external\]|\bassume\s*\(|\badmit\s*\(|assume_specification|\baxiom\b|#\[verifier::exec_allows_no_decreases_clause\]|external_type_specification")


def trusted(text):
    """names of everything assumed in a unit's text"""
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        m = TRUST.search(l)
        if not m:
            continue
        ctx = l[m.end():] + " " + " ".join(lines[i + 1:i + 5])
        n = re.search(r"\b(fn|struct|enum)\s+(\w+)", ctx)
        kind = "termination not proved" if "decreases" in m.group(0) else ("opaque type" if n and n.group(1) != "fn" else "trusted body")
        if "assume_specification" in l:
            out.append("assumed contract of a library function: " + l.strip()[:160])
            continue
        if "assume" in m.group(0) or "admit" in m.group(0):
            a = re.search(r"(assume|admit)\s*\(.*?\)\s*;", l)
            out.append("ASSUME in a proof: " + (a.group(0) if a else l.strip())[:160])
            continue
        out.append("%s: %s" % (kind, n.group(2) if n else l.strip()))
    return sorted(set(out))


def verus(path, extra=()):
    t = time.time()
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", "6"] + list(extra) + ["--", "--error-format=json"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=400, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"timeout": True, "wall": time.time() - t, "diags": [], "verified": 0, "errors": 0, "smt_ms": 0, "vir": False, "rc": None}
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        j = {}
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    vr = j.get("verification-results", {})
    smt = j.get("times-ms", {}).get("smt", {})
    return {"timeout": False, "wall": time.time() - t, "diags": diags, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0),
            "vir": vr.get("encountered-vir-error", True), "success": vr.get("success", False), "smt_ms": smt.get("total", 0) if isinstance(smt, dict) else 0, "rc": r.returncode, "stderr": r.stderr[-2000:] if not diags else ""}


def regions(text):
    """line -> extracted function"""
    out, cur = [], None
    for l in text.splitlines():
        m = re.match(r"// ---- extracted: (\S+) ----", l)
        if m:
            cur = m.group(1)
        elif l.startswith("// ---- end ----"):
            cur = None
        out.append(cur)
    return out


def enclosing(lines, n):
    """name of the function around line n (1-based), for lemmas"""
    for i in range(n - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return m.group(1)
    return "?"


class Result:
    """outcome of one unit"""

    def __init__(self, unit):
        self.unit = unit
        self.status = None      # 'discharged' | 'failed' | 'not redone'
        self.why = ""
        self.failed = []        # [(function, message, text at the place)]
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.fns = {}
        self.trusted = []
        self.vacuous = []
        self.rendered = ""


def run_unit(exe, unit, vacuity=True, extra=()):
    res = Result(unit)
    d = os.path.join(BUILD, "units")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, unit + ".rs")
    vx = os.path.join(CONTRACTS, unit + ".vx")
    _, res.fns, res.src = unit_info(unit)
    r = subprocess.run([exe, REPO, vx, out], capture_output=True, text=True, timeout=120)
    if r.returncode != 0:
        res.status = "not redone"
        res.why = (r.stdout + r.stderr).strip()[-400:]
        return res
    text = open(out).read()
    res.trusted = trusted(text)
    for n in stubs_of(unit):
        by = [u for u in units() if u != unit and n in unit_info(u)[1]]
        if by:
            res.trusted = [x for x in res.trusted if x != "trusted body: " + n]
            res.trusted.append("contract of %s: proved in unit %s" % (n, by[0]))
        elif "trusted body: " + n in res.trusted:
            res.trusted.remove("trusted body: " + n)
            res.trusted.append("ASSUMED contract of a function outside the verifier's reach: %s" % n)
    res.trusted = sorted(set(res.trusted))
    v = verus(out, list(extra) + ["--rlimit", "20"])
    if not v["timeout"] and v["errors"] and any(LIMIT.search(x["message"]) for x in v["diags"]):
        v = verus(out, list(extra) + ["--rlimit", "60"])
    res.verified, res.errors, res.smt_ms, res.wall = v["verified"], v["errors"], v["smt_ms"], v["wall"]
    res.rendered = "\n".join(x.get("rendered") or x["message"] for x in v["diags"])[:12000]
    if v["timeout"]:
        res.status, res.why = "not redone", "verus did not answer in time"
        return res
    reg, lines = regions(text), text.splitlines()
    other = []
    for x in v["diags"]:
        m = x["message"]
        if m.startswith("aborting due to"):
            continue
        if LIMIT.search(m):
            other.append(m)
            continue
        if not OBLIGATION.search(m):
            other.append(m)
            continue
        sp = [s for s in x["spans"] if s["file_name"].endswith(unit + ".rs")]
        prim = [s for s in sp if s.get("is_primary")] or sp
        fn = None
        # a failed postcondition points at the contract; the body span is in the same function
        for s in prim + sp:
            fn = reg[s["line_start"] - 1] if s["line_start"] <= len(reg) else None
            if fn:
                break
        if not fn and sp:
            fn = enclosing(lines, sp[0]["line_start"])
        if m == "precondition not satisfied" or m.startswith("precondition"):
            # the call site, not the callee's contract
            for s in sp:
                if s.get("is_primary"):
                    fn = (reg[s["line_start"] - 1] if s["line_start"] <= len(reg) else None) or enclosing(lines, s["line_start"])
        res.failed.append((fn, m, " / ".join("%s" % s["text"][0]["text"].strip() if s["text"] else "" for s in sp[:3])[:400]))
    if v["vir"] or (other and not res.failed):
        res.status, res.why = "not redone", "; ".join(other or [x["message"] for x in v["diags"]] or [v["stderr"]])[:600]
        res.failed = []
        return res
    if res.failed:
        res.status = "failed"
        return res
    if v["errors"] or not v["success"] or not v["verified"]:
        res.status, res.why = "not redone", "verus: %s" % (other or v["stderr"])
        return res
    res.status = "discharged"
    if vacuity:
        outv = os.path.join(d, unit + "_vac.rs")
        r = subprocess.run([exe, REPO, vx, outv], capture_output=True, text=True, timeout=120, env=dict(os.environ, VX_VACUITY="1"))
        t = open(outv).read()
        v = verus(outv)
        rv = regions(t)
        hit = set()
        for x in v["diags"]:
            if x["message"].startswith("assertion failed"):
                for s in x["spans"]:
                    if s["line_start"] <= len(rv) and rv[s["line_start"] - 1] and "assert(false)" in s["text"][0]["text"]:
                        hit.add(rv[s["line_start"] - 1])
        res.vacuous = sorted(set(res.fns) - hit)
        res.wall += v["wall"]
    return res


def run_units(names, vacuity=True):
    exe = extractor()
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda u: run_unit(exe, u, vacuity), names))


if __name__ == "__main__":
    for r in run_units(sys.argv[1:] or units()):
        print(r.unit, r.status, r.verified, r.errors, "%.1fs" % r.wall, r.why, r.vacuous)
        for f in r.failed:
            print("   ", f)
