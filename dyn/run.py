"""Runs generated parsers (the real macro, the real generated code) and checks them against ref.py."""
import os, random, re, subprocess, sys, time, json, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, build
from ref import Trace, Bad, Earley, LALR, Refused

EV = re.compile(r"^([REPO])(.*)$", re.S)


def parse_events(s):
    out = []
    if not s:
        return out
    for e in s.split(";"):
        k, rest = e[0], e[1:]
        if k == "R":
            n, v = rest.split("[", 1)
            v = v[:-1]
            out.append(("R", int(n), v.split(",") if v else []))
        elif k == "E":
            n, v = rest.split("[", 1)
            v = v[:-1]
            out.append(("E", n, v.split(",") if v else []))
        elif k == "P":
            out.append(("PF",))
        else:
            out.append(("SO", rest))
    return out


def check_output(g, l, toks, policy, line):
    """raises Bad"""
    maxlen = None
    if g.limit is not None and "#" in line:
        line, m = line.rsplit("#", 1)
        maxlen = int(m)
    if "!" in line:
        raise Bad({"C16"}, "the extra value was changed: %s" % line)
    parts = line.split("|")
    tr = Trace(l, toks, policy)
    end = None
    for i, p in enumerate(parts):
        if p.startswith("panic:") or p.startswith("again"):
            # parsing again after a failure
            if p.startswith("again"):
                raise Bad({"C11", "C09"}, "parse after a failed call did not panic")
            if not p.startswith("panic:Cannot call parse after failure"):
                raise Bad({"C11", "C09"}, "parse after a failed call: %s" % p)
            if not p.endswith(":same"):
                raise Bad({"C16"}, "extra changed after failure: %s" % p)
            break
        if ">" not in p:
            raise Bad({"C11"}, "malformed output %r" % line)
        evs, res = p.split(">", 1)
        end = tr.call(i, parse_events(evs), res)
    if maxlen is not None:
        if g.limit and maxlen > g.limit:
            raise Bad({"C10"}, "the stack held %d entries, limit %d" % (maxlen, g.limit))
        if maxlen != tr.maxlen:
            raise Bad({"C10"}, "the stack reached %d entries, expected %d" % (maxlen, tr.maxlen))
    # independent of the automaton: languages by Earley
    if policy == (10 ** 9, 0) and not g.uses_error:
        e = Earley(g)
        anyr = [set(g.readings(t)) for t in toks]
        acc = line.split(">")[-1].startswith("acc")
        clean = tr.errors == 0 and "E" not in re.sub(r"\[[^\]]*\]", "", line).replace("SOE", "")
        clean = tr.errors == 0
        so = "SO" in line
        k, member = e.run(anyr)
        if acc and clean and not member:
            raise Bad({"C01", "C14"} | tr.hint(None), "accepted, but it is not a sentence of the grammar")
        allprod = set(g.by_lhs) <= g.productive()
        if clean and not acc and not so and False:
            pass
        if allprod and not so:
            # calls that took their token without error
            taken = 0
            for i, p in enumerate(parts):
                if i >= len(toks):
                    break
                evs, res = p.split(">", 1) if ">" in p else ("", "x")
                if any(x[0] == "E" for x in parse_events(evs)) or res != "ok":
                    break
                taken += 1
            if taken > k:
                raise Bad({"C04"} | tr.hint(None), "token %d was taken without an error, but no sentence starts like that" % (k))
        if not l.prec_used and not so:
            k2, member2 = e.run([{t} for t in toks])
            if member2 and not (acc and clean):
                raise Bad({"C02"} | tr.hint(None), "a sentence of the grammar was not accepted")
    return tr


class Case:
    def __init__(self, fam, seed):
        self.fam, self.seed = fam, seed
        rnd = random.Random("%s-%s" % (fam, seed))
        c = gen.build_case(rnd, fam)
        self.g = self.l = None
        if c:
            self.g, self.l = c
        self.rnd = rnd
        self.expect = None if not c else ("refused" if self.l is None else self.l.verdict())
        # when the outcome depends on the order in which conflicts are looked at, no verdict is expected
        self.unsure = bool(self.l and self.l.order_dependent)

    def text(self, name):
        return gen.rust_module(self.g, name)


def mk_case(a):
    return Case(*a)


def run_family(fam, seeds, args, workdir, n_enum, n_rand, policies, deadline, violations, stats, per_file=6):
    from multiprocessing import Pool
    with Pool(8) as pool:
        cases = [c for c in pool.map(mk_case, [(fam, s) for s in seeds], chunksize=1) if c.g]
    mods = [c.text("g%d" % i)[0] for i, c in enumerate(cases)]
    cl = build.classify(args, mods, workdir, fam)
    stats["grammars"] = stats.get("grammars", 0) + len(cases)
    run = []
    for i, (c, (st, msg)) in enumerate(zip(cases, cl)):
        if st == "panic":
            violations.append((c, None, {"C15", "C11", "C06"}, "the macro panicked: %s" % msg))
        elif st == "hang":
            violations.append((c, None, {"C15", "C07"}, "the macro did not terminate"))
        elif st == "error":
            stats["refused"] = stats.get("refused", 0) + 1
            if c.unsure:
                continue
            isconf = msg.startswith("Parsing conflicts")
            if c.expect == "ok":
                violations.append((c, None, {"C06", "C05"} if isconf else {"C15"}, "a conflict-free well-formed grammar was refused: %s" % msg[:200]))
            elif c.expect == "conflict" and not isconf and "cannot be reduced" not in msg:
                violations.append((c, None, {"C06"}, "conflicts expected, got: %s" % msg[:200]))
            elif c.expect == "refused" and isconf:
                violations.append((c, None, {"C06"}, "conflict reported where there is none: %s" % msg[:200]))
        else:
            if c.unsure and c.expect != "ok":
                continue
            if c.expect == "conflict":
                violations.append((c, None, {"C06", "C05"}, "a grammar with an unresolved conflict was accepted"))
            elif c.expect == "refused":
                violations.append((c, None, {"C15"}, "an ill-formed grammar was accepted"))
            else:
                run.append(c)
    stats["accepted"] = stats.get("accepted", 0) + len(run)

    def one(batch):
        if time.time() > deadline:
            return
        bi, cs = batch
        src = os.path.join(workdir, "%s_%d.rs" % (fam, bi))
        exe = src[:-3] + ".bin"
        arms = []
        body = [gen.PRELUDE, gen.UNIT]
        for j, c in enumerate(cs):
            m, d = gen.rust_module(c.g, "g%d" % j)
            body += [m, d]
            arms.append("%d => d_g%d::run(v[1], v[2], &v[3..])," % (j, j))
        with open(src, "w") as f:
            f.write("\n".join(body) + gen.MAIN % "\n".join(arms))
        rc, diags = build.rustc(args, src, exe, timeout=240)
        if rc != 0:
            if len(cs) > 1:
                for j, c in enumerate(cs):
                    one(("%s_%d" % (bi, j) if False else bi * 1000 + j + 100000, [c]))
                return
            msg = "; ".join(d["message"] for d in diags)[:600] if rc is not None else "rustc did not terminate"
            violations.append((cs[0], None, {"C11", "C13", "C03", "C14", "C15"} | ({"C16"} if cs[0].g.xtok else set()), "the generated parser does not compile: %s" % msg))
            return
        feed = []
        meta = []
        for j, c in enumerate(cs):
            ins = gen.inputs(c.g, c.rnd, n_enum, n_rand)
            idx = {t: k for k, t in enumerate(c.g.terms)}
            for toks in ins:
                pols = [(10 ** 9, 0)]
                if policies and c.rnd.random() < 0.5:
                    pols.append((c.rnd.randint(0, 4), 0) if c.rnd.random() < 0.5 else (10 ** 9, c.rnd.randint(1, 7)))
                for pol in pols:
                    feed.append("%d %d %d %s" % (j, pol[0], pol[1], " ".join(str(idx[t]) for t in toks)))
                    meta.append((c, toks, pol))
        try:
            r = subprocess.run(["bash", "-c", "ulimit -v 8000000; exec \"$0\"", exe], input="\n".join(feed) + "\n", capture_output=True, text=True, timeout=60)
            lines = r.stdout.splitlines()
            timed = False
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode(errors="replace").splitlines()
            timed = True
        if len(lines) < len(meta):
            c, toks, pol = meta[len(lines)]
            endless = c.l.endless()
            violations.append((c, (toks, pol), {"C11"} if endless else {"C11", "C07"}, "the generated parser %s%s" % ("did not return" if timed else "crashed", " [endless-reductions]" if endless else "")))
        bad = set()
        for (c, toks, pol), line in zip(meta, lines):
            if c.seed in bad:
                continue
            stats["runs"] = stats.get("runs", 0) + 1
            if len(toks) > 1:
                stats["nontrivial"] = stats.get("nontrivial", 0) + 1
            try:
                check_output(c.g, c.l, toks, pol, line)
            except Bad as b:
                bad.add(c.seed)
                violations.append((c, (toks, pol, line), b.props, b.msg))
        if "sample" not in stats and meta:
            c, toks, pol = meta[len(meta) // 2]
            stats["sample"] = {"grammar": [" ".join([r.lhs, "::="] + r.rhs) for r in c.g.rules], "tokens": toks, "output": lines[len(meta) // 2] if len(lines) > len(meta) // 2 else None}
        for f in (src, exe):
            if os.path.exists(f):
                os.remove(f)
    batches = [(k, run[a:a + per_file]) for k, a in enumerate(range(0, len(run), per_file))]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, batches))


def describe(v):
    c, inp, props, msg = v
    d = {"message": msg, "properties": sorted(props), "grammar": getattr(c, "src", None) or gen.rust_module(c.g, "g0")[0]}
    if inp:
        d["tokens"] = inp[0]
        d["policy"] = inp[1]
        if len(inp) > 2:
            d["output"] = inp[2]
    return d


if __name__ == "__main__":
    fam, n, s0 = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    t = time.time()
    args = build.build_pomelo()
    print("lib", time.time() - t)
    wd = os.path.join(build.BUILD, "work_%s" % fam)
    os.makedirs(wd, exist_ok=True)
    viol, stats = [], {}
    run_family(fam, range(s0, s0 + n), args, wd, 150, 20, True, time.time() + 600, viol, stats)
    print(stats, time.time() - t)
    for v in viol[:8]:
        print(json.dumps(describe(v), indent=1).replace("\\n", "\n"))
    print(len(viol), "violations")
