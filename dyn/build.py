"""Building /repo's macro crate privately and compiling generated modules against it."""
import glob, json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, ".build"))
REPO = os.environ.get("VX_REPO", "/repo")


class CannotBuild(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build_pomelo():
    """-> rustc arguments that make `pomelo` available, built from /repo's working tree"""
    tgt = os.path.join(BUILD, "pomelo")
    os.makedirs(tgt, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    e["CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL"] = "1"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    r = subprocess.run(["cargo", "build", "--offline", "--lib", "--locked"], cwd=REPO, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        e2 = dict(e)
        r = subprocess.run(["cargo", "build", "--offline", "--lib"], cwd=REPO, env=e2, capture_output=True, text=True, timeout=600)
        subprocess.run(["git", "-C", REPO, "checkout", "--", "Cargo.lock"], capture_output=True)
        if r.returncode != 0:
            raise CannotBuild(r.stderr[-3000:])
    lib = os.path.join(tgt, "debug", "libpomelo.rlib")
    return ["--edition", "2021", "-L", os.path.join(tgt, "debug", "deps"), "--extern", "pomelo=" + lib]


def rustc(args, src, out, metadata=False, timeout=300, json_err=True, opt=0):
    cmd = ["rustc"] + args + ["-A", "warnings", "-C", "debuginfo=0", "-C", "opt-level=%d" % opt, "-C", "overflow-checks=on", "-C", "debug-assertions=on",
                              "-C", "codegen-units=8", src, "-o", out]
    if metadata:
        cmd.append("--emit=metadata")
    if json_err:
        cmd.append("--error-format=json")
    cmd = ["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x"] + cmd
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        return None, []
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("level", "").startswith("error"):
                diags.append(d)
    return r.returncode, diags


def outer_lines(d, fname):
    """line numbers of a diagnostic in the file, following macro expansions outwards"""
    ls = []
    for s in d.get("spans", []):
        while s:
            if s["file_name"] == fname:
                ls.append(s["line_start"])
            s = (s.get("expansion") or {}).get("span")
    return ls


def classify(args, mods, workdir, tag, timeout=40):
    """mods: list of module texts (each one `pomelo!{..}` invocation).
    -> list of ('ok', None) | ('error', msg) | ('panic', msg) | ('hang', None)"""
    res = [("ok", None)] * len(mods)

    def one(idx):
        src = os.path.join(workdir, "cl_%s_%d_%d.rs" % (tag, idx[0], len(idx)))
        lines = ["#![allow(warnings)]", "use pomelo::pomelo;"]
        ranges = []
        for i in idx:
            a = len(lines) + 1
            lines.extend(mods[i].splitlines())
            ranges.append((a, len(lines), i))
        lines.append("fn main() {}")
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        # types used by the modules are not defined here: errors after expansion are ignored
        rc, diags = rustc(args, src, src[:-3] + ".meta", metadata=True, timeout=timeout if len(idx) == 1 else max(timeout, len(idx) * 1.0))
        if rc is None:
            if len(idx) == 1:
                res[idx[0]] = ("hang", None)
            else:
                h = len(idx) // 2
                one(idx[:h])
                one(idx[h:])
            return
        for d in diags:
            if d.get("code"):
                continue        # resolution or type error, not from the macro
            ls = outer_lines(d, src)
            for a, b, i in ranges:
                if any(a <= l <= b for l in ls):
                    if "panicked" in d["message"]:
                        m = d["message"] + " " + " ".join(c["message"] for c in d.get("children", []))
                        res[i] = ("panic", m)
                    elif res[i][0] == "ok":
                        res[i] = ("error", d["message"])
                    break
        for f in (src, src[:-3] + ".meta"):
            if os.path.exists(f):
                os.remove(f)
    chunk = max(1, min(60, (len(mods) + 7) // 8))
    groups = [list(range(a, min(a + chunk, len(mods)))) for a in range(0, len(mods), chunk)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, groups))
    return res
