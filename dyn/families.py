"""The bounded dynamic families.  Every function appends (case, input, properties, message) to `viol`."""
import os, random, subprocess, time, re, json
from concurrent.futures import ThreadPoolExecutor
import gen, build
from ref import Grammar, Rule, LALR, Refused, Earley, Trace, Bad
from run import run_family, check_output, Case, mk_case


class Src:
    """a case that is only a source text"""

    def __init__(self, fam, seed, src):
        self.fam, self.seed, self.src, self.g = fam, seed, src, None


# ---------------------------------------------------------------- conflicts / refusals only
def run_classify(fam, seeds, args, workdir, viol, stats, want_conflicts=0.5):
    from multiprocessing import Pool
    with Pool(8) as pool:
        cases = [c for c in pool.starmap(mk_conf, [(fam, s, want_conflicts) for s in seeds], chunksize=4) if c.g]
    cl = build.classify(args, [c.text("g%d" % i)[0] for i, c in enumerate(cases)], workdir, "cf" + fam)
    stats["verdicts"] = stats.get("verdicts", 0) + len(cases)
    for c, (st, msg) in zip(cases, cl):
        if st == "panic":
            viol.append((c, None, {"C15", "C06"}, "the macro panicked: %s" % msg))
        elif st == "hang":
            viol.append((c, None, {"C15", "C07", "C06"}, "the macro did not terminate"))
        elif c.unsure:
            continue
        else:
            stats[c.expect] = stats.get(c.expect, 0) + 1
            isconf = st == "error" and msg.startswith("Parsing conflicts")
            if c.expect == "conflict" and not isconf and not (st == "error" and "cannot be reduced" in msg):
                viol.append((c, None, {"C06", "C05"}, "unresolved conflicts in states/lookaheads %r, but the macro said %s %s" % (c.l.conflicts[:3], st, msg)))
            elif c.expect == "ok" and st != "ok":
                viol.append((c, None, {"C06", "C05"} if isconf else {"C15"}, "well-formed and conflict-free, but refused: %s" % msg[:300]))
            elif c.expect == "refused" and st == "ok":
                viol.append((c, None, {"C15"}, "a rule that is never reduced, but accepted"))
            elif c.expect == "refused" and isconf:
                viol.append((c, None, {"C06"}, "conflict reported where there is none"))


class ConfCase(Case):
    def __init__(self, fam, seed, wc):
        self.fam, self.seed = fam, seed
        rnd = random.Random("conf-%s-%s" % (fam, seed))
        self.g = self.l = None
        for _ in range(60):
            g = gen.random_cfg(rnd, fam)
            try:
                l = LALR(g)
            except (Refused, MemoryError):
                continue
            v = l.verdict()
            if v == "refused" and rnd.random() > 0.25:
                continue
            if v == "conflict" and rnd.random() > wc:
                continue
            self.g, self.l = g, l
            break
        self.rnd = rnd
        self.expect = self.l.verdict() if self.l else None
        self.unsure = bool(self.l and self.l.order_dependent)


def mk_conf(fam, seed, wc):
    return ConfCase(fam, seed, wc)


# ---------------------------------------------------------------- ill-formed grammars
def faults(rnd, text, g):
    """(name, text, properties) of variants with exactly one documented fault"""
    t0 = [t for t in g.terms if t != g.wildcard]
    T = rnd.choice(t0)
    T2 = rnd.choice([t for t in t0 if t != T] or [T])
    n = rnd.choice(g.nts)
    body = text.rstrip()[:-1]       # without the closing brace
    out = []

    def add(name, *lines, first=False):
        ls = "\n".join(lines)
        if first:
            i = body.index("\n", body.index("%module")) + 1
            out.append((name, body[:i] + ls + "\n" + body[i:] + "}"))
        else:
            out.append((name, body + ls + "\n}"))
    nt = g.nts[1]
    add("start symbol on a right-hand side", "%s ::= QQ %s QQ { panic!() }" % (nt, g.start))
    add("undefined nonterminal", "%s ::= QQ undefd QQ { panic!() }" % nt)
    add("undefined nonterminal, optional", "%s ::= QQ undefd? QQ { panic!() }" % nt)
    add("unreachable rule", "zz ::= QQ;")
    add("unreachable recursive rule", "zz ::= zz QQ; zz ::= ;")
    add("typed rule without code", "%type zt String;", "zt ::= QQ; %s ::= QQ zt { panic!() }" % nt)
    add("typed rule with two candidates", "%type zt u32; %type QA u32; %type QB u32;", "zt ::= QA QB; %s ::= QQ zt { panic!() }" % nt)
    add("typed empty rule without code", "%type zt u32;", "zt ::= ; %s ::= QQ zt QQ { panic!() }" % nt)
    add("second type (token)", "%type QA u32; %type QA u32; %s ::= QA QQ { panic!() }".replace("%s", nt))
    add("second type (different)", "%type QA u32; %type QA u8; %s ::= QA QQ { panic!() }".replace("%s", nt))
    add("second type (nonterminal)", "%type zt u32; %type zt u32; zt ::= QQ { 1 } {n} ::= QQ zt { panic!() }".replace("{n}", nt))
    for a in ("left", "right", "nonassoc"):
        add("second precedence", "%left QA; %%%s QB QA;" % a if False else "%left QA; %" + a + " QB QA;")
    add("second precedence in one directive", "%left QA QA;")
    add("token is its own fallback", "%fallback QA QA;")
    add("own fallback in a list", "%fallback QA QB QA QC;")
    add("fallback cycle of two", "%fallback QA QB; %fallback QB QA;")
    add("fallback cycle of three", "%fallback QA QB; %fallback QB QC; %fallback QC QA;")
    add("fallback cycle of four, closed in the middle", "%fallback QA QB; %fallback QC QD; %fallback QB QC; %fallback QD QA;")
    add("fallback cycle through a list", "%fallback QA QX QB QY; %fallback QB QZ QA;")
    add("second fallback", "%fallback QA QB; %fallback QC QB;")
    add("second fallback (same)", "%fallback QA QB; %fallback QA QB;")
    add("second start symbol", "%start_symbol " + g.start + ";")
    if g.wildcard:
        add("second wildcard", "%wildcard QW;")
    else:
        add("second wildcard", "%wildcard QW; %wildcard QW;")
        add("second wildcard", "%wildcard QW; %wildcard QV;")
    add("second default type", "%default_type u8; %default_type u8;")
    add("second extra argument", "%extra_argument X;")
    add("second error type", "%error String;")
    add("second token enum", "%token pub enum Token {};")
    add("second parser struct", "%parser pub struct Parser {}; %parser pub struct Parser {};")
    add("second extra token", "%extra_token u8; %extra_token u8;")
    if g.limit is None:
        add("second stack size", "%stack_size 10; %stack_size 10;")
        add("second stack size", "%stack_size 0; %stack_size 100;")
        add("second stack size", "%stack_size 10 MyStack; %stack_size 20 MyStack;")
        add("second stack size", "%stack_size 100; %stack_size 20;")
        add("second stack size", "%stack_size 20; %stack_size 100 MyStack;")
    else:
        add("second stack size", "%stack_size 10;")
        add("second stack size", "%stack_size 10 MyStack;")
    add("second syntax_error", "%syntax_error { panic!() }")
    add("second parse_fail", "%parse_fail { panic!() }")
    add("second stack_overflow", "%stack_overflow { panic!() }")
    add("precedence of a nonterminal", "%left " + n + ";")
    add("precedence of a nonterminal", "%nonassoc QA " + n + ";")
    add("fallback to a nonterminal", "%fallback " + n + " QA;")
    add("fallback of a nonterminal", "%fallback QA QB " + n + ";")
    if not g.wildcard:
        add("wildcard nonterminal", "%wildcard " + n + ";")
        add("typed wildcard", "%type QW u32; %wildcard QW; " + nt + " ::= QQ QW { panic!() }")
        add("aliased wildcard", "%wildcard QW; " + nt + " ::= QQ QW(x) { panic!() }")
    add("start symbol is a token", "%start_symbol QA;", first=True)
    add("token class named like a nonterminal", "%token_class zc QA QB;")
    add("token class with a nonterminal", "%token_class QX QA " + n + ";")
    add("empty token class", "%token_class QX ;", "%s ::= QQ QX { panic!() }" % nt)
    add("token class in a token class", "%token_class QX QA QB; %token_class QY QX QC;", "%s ::= QQ QX { panic!() } %s ::= QQ QQ QY { panic!() }" % (nt, nt))
    if not g.wildcard:
        add("wildcard is a token class", "%%token_class QX QA QB; %%wildcard QX; %s ::= QQ QX { panic!() }" % nt)
    add("fallback to a token class", "%%token_class QX QA QB; %%fallback QX QC; %s ::= QQ QX QC { panic!() }" % nt)
    add("fallback to a later token class", "%%fallback QX QC; %%token_class QX QA QB; %s ::= QQ QX QC { panic!() }" % nt)
    add("fallback of a token class", "%%token_class QX QA QB; %%fallback QC QX; %s ::= QQ QX QC { panic!() }" % nt)
    add("precedence of a token class", "%%token_class QX QA QB; %%left QX; %s ::= QQ QX { panic!() }" % nt)
    add("precedence of a later token class", "%%nonassoc QC QX; %%token_class QX QA QB; %s ::= QQ QX { panic!() }" % nt)
    add("type of a compound [compound-type]", "%%token_class QX QA QB; %%type QX u8; %s ::= QQ QX { panic!() }" % nt)
    add("rule for a token", "QA ::= QB { panic!() }")
    add("rule for a token used later", "QA ::= QB { panic!() } %s ::= QQ QA { panic!() }" % nt)
    add("precedence symbol is a nonterminal", "%s ::= QQ QQ [%s] { panic!() }" % (nt, n))
    add("alternative with a nonterminal", "%s ::= QQ QA|%s { panic!() }" % (nt, n))
    add("aliased alternatives of different types", "%%type QA u32; %%type QB u64; %s ::= QQ QA|QB(x) { panic!() }" % nt)
    add("aliased alternatives of different types", "%%type QA u32; %s ::= QQ QA|QB(x) { panic!() }" % nt)
    add("aliased alternatives of different types", "%%type QB u32; %s ::= QQ QA|QC|QB(x) { panic!() }" % nt)
    add("aliased class of different types", "%%type QA u32; %%type QB u64; %%token_class QX QA QB; %s ::= QQ QX(x) { panic!() }" % nt)
    add("nonempty parser struct", "%parser pub struct Parser { x: u8 };")
    add("attributes on a nonterminal", "%type #[doc(hidden)] zn u8; zn ::= QQ { 1 } " + nt + " ::= QQ zn { panic!() }")
    add("fallback of another type", "%type QA u32; %type QB u64; %fallback QA QB; " + nt + " ::= QQ QA QB { panic!() }")
    add("fallback of another type", "%type QA u32; %fallback QA QB; " + nt + " ::= QQ QA QB { panic!() }")
    add("conflict: two reductions", "%s ::= QQ za { panic!() } %s ::= QQ zb { panic!() } za ::= QA { panic!() } zb ::= QA { panic!() }" % (nt, nt))
    return out


GOOD_EXTRA = [
    ("chained fallbacks", "%fallback QA QB QC; %fallback QD QA; %fallback QE QF;"),
    ("fallback tree", "%fallback QA QB; %fallback QA QC; %fallback QB QD; %fallback QC QE;"),
    ("precedences", "%left QA QB; %right QC; %nonassoc QD;"),
    ("stack size", None),
    ("types", "%type QA u32; %type QB u32; %type zq;"),
    ("class", "%token_class QX QA QB; {n} ::= QQ QX QX { panic!() }"),
    ("rule precedence", "%left QA; {n} ::= QQ QQ [QA] { panic!() }"),
    ("optional", "{n} ::= QQ QA? QB? { panic!() }"),
    ("alternatives", "{n} ::= QQ QA|QB QA|QC|QD { panic!() }"),
    ("typed alternatives", "%type QA u32; %type QB u32; {n} ::= QQ QA|QB(x) { panic!() }"),
    ("untyped fallback of typed tokens", "%type QB u32; %fallback QA QB; {n} ::= QQ QA QB { panic!() }"),
    ("same type fallback", "%type QA u32; %type QB u32; %fallback QA QB; {n} ::= QQ QA QB { panic!() }"),
    ("forwarded rule", "%type zt u32; %type QA u32; zt ::= QB QA QC; {n} ::= QQ zt { panic!() }"),
]


def run_bad(seeds, args, workdir, viol, stats):
    items = []
    for s in seeds:
        rnd = random.Random("bad-%s" % s)
        fam = rnd.choice(["cfg", "cfg", "fallback", "wildcard", "class", "limit"])
        c = None
        while c is None or c[1] is None or c[1].verdict() != "ok" or "%type n" in "":
            c = gen.build_case(rnd, fam, 0.0)
        g, l = c
        text = gen.rust_module(g, "g0")[0]
        fs = faults(rnd, text, g)
        for name, t in fs:
            items.append((Src("bad", s, t), name, True))
        n = None
        for x in g.nts[1:]:
            n = x
        for name, e in GOOD_EXTRA:
            if e is None:
                continue
            # a fresh nonterminal reached only through a fresh token keeps the grammar conflict-free
            t = text.rstrip()[:-1] + e.replace("{n}", g.start) + "\n}"
            items.append((Src("bad", s, t), "good: " + name, False))
        items.append((Src("bad", s, text), "good: base", False))
    cl = build.classify(args, [re.sub(r"%module \w+;", "%%module g%d;" % i, it[0].src, count=1) for i, it in enumerate(items)], workdir, "bad")
    for (c, name, bad), (st, msg) in zip(items, cl):
        stats["wellformedness"] = stats.get("wellformedness", 0) + 1
        stats.setdefault("faults", set()).add(name)
        if st == "panic":
            viol.append((c, None, {"C15"} | ({"C07"} if "fallback" in name else set()), "%s: the macro panicked: %s" % (name, msg)))
        elif st == "hang":
            viol.append((c, None, {"C15"} | ({"C07"} if "fallback" in name else set()), "%s: the macro did not terminate" % name))
        elif bad and st == "ok":
            p = {"C15"}
            if "fallback" in name:
                p.add("C07")
            if "conflict" in name:
                p.add("C06")
            if "lternatives" in name or "class" in name:
                p.add("C13")
            viol.append((c, None, p, "%s: not refused" % name))
        elif not bad and st == "error":
            viol.append((c, None, {"C15"} | ({"C06"} if msg.startswith("Parsing conf") else set()), "%s: a well-formed grammar is refused: %s" % (name, msg[:300])))


# ---------------------------------------------------------------- large tables
def big_case(seed):
    rnd = random.Random("big-%s" % seed)
    g = Grammar()
    kind = rnd.choice(["ll", "ll", "kw", "ops"])
    nt = rnd.choice([20, 60, 100, 125, 126, 127, 128, 129, 130, 140, 180, 250, 256, 260])
    nn = rnd.choice([3, 8, 20, 40, 70, 126, 131])
    if nt * nn > 9000:
        nn = 20
    g.terms = ["T%d" % i for i in range(nt)]
    rnd.shuffle(g.terms)
    g.ttyped = {t for t in g.terms if rnd.random() < 0.3}
    g.nts = ["s"] + ["n%d" % i for i in range(nn)]
    g.ntyped = set(g.nts)
    g.start = "s"
    body = g.nts[1:]
    pool = g.terms[:]
    if kind == "ll":
        g.rules.append(Rule("s", [body[0]]))
        for i, n in enumerate(body):
            firsts = rnd.sample(g.terms, min(nt, rnd.choice([1, 2, 3, 5, 12, 40] if nn < 30 else [1, 2, 3, 5])))
            for j, f in enumerate(firsts):
                tail = []
                for _ in range(rnd.randint(0, 3)):
                    tail.append(rnd.choice(body) if rnd.random() < 0.4 and j > 0 else rnd.choice(g.terms))
                if i + 1 < nn and j == 0:
                    tail.append(body[i + 1])
                g.rules.append(Rule(n, [f] + tail))
    elif kind == "kw":
        g.rules += [Rule("s", ["n0"]), Rule("n0", []), Rule("n0", ["n0", "n1"])]
        for i, n in enumerate(body[1:], 1):
            ks = rnd.sample(g.terms, rnd.randint(2, max(2, nt // 2)))
            for k in ks[:30]:
                g.rules.append(Rule(n, [k] + [rnd.choice(g.terms) for _ in range(rnd.randint(0, 2))]))
            if i + 1 < nn:
                a = [t for t in g.terms if t not in ks]
                if a:
                    g.rules.append(Rule(n, [rnd.choice(a), body[i + 1]]))
    else:
        g.rules += [Rule("s", ["n0"])]
        ops = g.terms[:]
        for i, n in enumerate(body):
            if i + 1 < nn:
                k = max(1, (nt - 6) // nn)
                mine, ops = ops[:k], ops[k:]
                for o in mine[:6]:
                    g.rules.append(Rule(n, [n, o, body[i + 1]]))
                g.rules.append(Rule(n, [body[i + 1]]))
            else:
                for o in ops[:-2][:40]:
                    g.rules.append(Rule(n, [o]))
                g.rules.append(Rule(n, [ops[-2], "n0", ops[-1]] if len(ops) > 1 else [rnd.choice(g.terms)]))
    used = set()
    # only reachable nonterminals
    reach = {"s"}
    ch = True
    while ch:
        ch = False
        for r in g.rules:
            if r.lhs in reach:
                for x in r.rhs:
                    if x in g.nts and x not in reach:
                        reach.add(x)
                        ch = True
    g.rules = [r for r in g.rules if r.lhs in reach]
    g.nts = [n for n in g.nts if n in reach]
    g.ntyped = set(g.nts)
    if rnd.random() < 0.4:
        order = g.terms[:]
        rnd.shuffle(order)
        for i in range(0, len(order) - 1, 7):
            a, b = order[i], order[i + 1]
            if b in g.ttyped and a not in g.ttyped:
                continue
            g.fallback[a] = b
    gen.fill_alias(g, rnd)
    if seed % 3 == 0:
        # tokens that sort before or after all others and are never used
        extra = ["Z%d" % i for i in range(rnd.choice([100, 127, 128, 129, 130]))]
        g.terms = extra + g.terms if rnd.random() < 0.8 else g.terms + extra
    g.freeze()
    return g, rnd


class BigCase(Case):
    def __init__(self, seed):
        self.fam, self.seed = "big", seed
        self.g = self.l = None
        for k in range(50):
            g, rnd = big_case(seed + 1000 * k)
            try:
                l = LALR(g)
            except (Refused, MemoryError):
                continue
            if l.verdict() == "ok":
                self.g, self.l = g, l
                break
        self.rnd = rnd
        self.expect = "ok"
        self.unsure = False


def big_inputs(g, rnd, l):
    out = []
    for _ in range(40):
        s = gen.random_sentence(g, rnd, rnd.choice([10, 30, 60]))
        if s is None:
            continue
        out.append(s)
        for _ in range(6):
            m = list(s)
            op = rnd.random()
            p = rnd.randint(0, len(m))
            if op < 0.3 and m:
                m.pop(min(p, len(m) - 1))
            elif op < 0.6:
                m.insert(p, rnd.choice(g.terms))
            elif m:
                m[min(p, len(m) - 1)] = rnd.choice(g.terms)
            out.append(m)
    # every token in the first state, and after some prefixes
    for t in g.terms:
        out.append([t])
    for pre in out[:6]:
        pre = pre[:rnd.randint(0, len(pre))]
        for t in rnd.sample(g.terms, min(40, len(g.terms))):
            out.append(pre + [t])
    return [s for s in out if len(s) < 90]


def run_big(seeds, args, workdir, deadline, viol, stats):
    from multiprocessing import Pool
    with Pool(8) as pool:
        cases = [c for c in pool.map(BigCase, seeds, chunksize=1) if c.g]
    stats["big_grammars"] = stats.get("big_grammars", 0) + len(cases)

    def one(ic):
        i, c = ic
        if time.time() > deadline:
            return
        src = os.path.join(workdir, "big_%d.rs" % i)
        exe = src[:-3] + ".bin"
        m, d = gen.rust_module(c.g, "g0")
        with open(src, "w") as f:
            f.write("\n".join([gen.PRELUDE, gen.UNIT, m, d]) + gen.MAIN % "0 => d_g0::run(v[1], v[2], &v[3..]),")
        rc, diags = build.rustc(args, src, exe, timeout=200)
        if rc != 0:
            msg = "; ".join(x["message"] for x in diags)[:500] if rc is not None else "no answer"
            p = {"C14", "C11", "C15"}
            if "onflict" in msg:
                p = {"C06"}
            viol.append((c, None, p, "large grammar (%d tokens, %d nonterminals, %d states): %s" % (len(c.g.terms), len(c.g.nts), len(c.l.states), msg)))
            return
        ins = big_inputs(c.g, c.rnd, c.l)
        idx = {t: k for k, t in enumerate(c.g.terms)}
        try:
            r = subprocess.run([exe], input="".join("0 1000000000 0 %s\n" % " ".join(str(idx[t]) for t in s) for s in ins), capture_output=True, text=True, timeout=60)
            lines = r.stdout.splitlines()
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode(errors="replace").splitlines()
        if len(lines) < len(ins):
            viol.append((c, (ins[len(lines)], (10 ** 9, 0)), {"C11", "C14"}, "the parser crashed or did not return"))
        for s, line in zip(ins, lines):
            stats["runs"] = stats.get("runs", 0) + 1
            if len(s) > 1:
                stats["nontrivial"] = stats.get("nontrivial", 0) + 1
            try:
                check_output(c.g, c.l, s, (10 ** 9, 0), line)
            except Bad as b:
                viol.append((c, (s, (10 ** 9, 0), line), b.props | {"C14"}, b.msg))
                break
        stats["max_states"] = max(stats.get("max_states", 0), len(c.l.states))
        for f in (src, exe):
            if os.path.exists(f):
                os.remove(f)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, enumerate(cases)))


# ---------------------------------------------------------------- shorthands against their expansion
class Sugar:
    """A grammar with shorthands and its hand expansion; both log the same rule numbers."""

    def __init__(self, seed):
        self.fam, self.seed = "sugar", seed
        self.g = None
        for k in range(300):
            rnd = random.Random("sugar-%s-%s" % (seed, k))
            if self.make(rnd):
                self.rnd = rnd
                return
        self.ok = False

    def make(self, rnd):
        self.ok = True
        nt = rnd.randint(3, 6)
        terms = gen.TOK[:nt]
        ty = {t: rnd.choice(["u32", "u32", ""]) for t in terms}
        nts = ["s", "e", "f"][:rnd.randint(2, 3)]
        for n in nts:
            ty[n] = rnd.choice(["String", "String", "u32", ""]) if n != "s" else "String"
        classes = {}
        if rnd.random() < 0.6:
            t0 = rnd.choice(terms)
            same = [t for t in terms if ty[t] == ty[t0]]
            rnd.shuffle(same)
            classes["X"] = same[:rnd.randint(1, 3)]
            ty["X"] = ty[t0]
        self.terms, self.ty, self.nts, self.classes = terms, ty, nts, classes
        pool = terms * 2 + nts[1:] + list(classes)
        rules = []          # (lhs, [(kind, syms, alias)], code)

        def elem():
            r = rnd.random()
            if r < 0.25:
                x = rnd.choice(pool)
                return ["opt", [x], rnd.random() < 0.8]
            if r < 0.5:
                k = rnd.randint(2, 3)
                a = rnd.sample(terms, min(k, len(terms)))
                al = len({ty[t] for t in a}) == 1 and rnd.random() < 0.8
                return ["alt", a, al]
            return ["sym", [rnd.choice(pool)], rnd.random() < 0.7]
        for n in nts:
            for _ in range(1 if n == "s" else rnd.randint(1, 3)):
                es = [elem() for _ in range(rnd.randint(1, 4))]
                if n == "s" and not any(x in nts for e in es for x in e[1]):
                    es.insert(rnd.randint(0, len(es)), ["sym", [nts[1]], True])
                code = True
                rules.append([n, es, code])
        # forwarded rules: typed, no code, exactly one typed symbol and no alias
        for r in rules:
            n, es, _ = r
            if ty[n] and n != "s" and rnd.random() < 0.5:
                def tyof(e):
                    if e[0] == "opt":
                        return "Option"
                    return ty[e[1][0]]
                cand = [e for e in es if tyof(e)]
                if len(cand) == 1 and tyof(cand[0]) == ty[n] and not (cand[0][0] == "alt" and len({ty[t] for t in cand[0][1]}) > 1):
                    # other alternatives must not be typed
                    if all(not any(ty[t] for t in e[1]) for e in es if e is not cand[0]):
                        for e in es:
                            e[2] = False
                        r[2] = False
        # u32 nonterminals can only come from forwarded rules or from code
        self.rules = rules
        # expansion
        g = Grammar()
        g.terms = terms
        g.ttyped = {t for t in terms if ty[t]}
        g.start = "s"
        g.nts = list(nts)
        exp = []            # (lhs, rhs, alias list, code kind, rule number)
        opts = {}
        for num, (n, es, code) in enumerate(rules):
            alts = []
            for e in es:
                if e[0] == "opt":
                    x = e[1][0]
                    if x not in opts:
                        opts[x] = "o%d" % len(opts)
                    alts.append([opts[x]])
                elif e[0] == "alt":
                    alts.append(list(dict.fromkeys(e[1])))
                else:
                    alts.append(list(dict.fromkeys(classes.get(e[1][0], e[1]))))
            import itertools
            if len(list(itertools.product(*alts))) > 40:
                return False
            for combo in itertools.product(*alts):
                exp.append((n, list(combo), [e[2] for e in es], code, num, es))
        for x, o in opts.items():
            exp.append((o, [], [], "none", -1, None))
            for t in classes.get(x, [x]):
                exp.append((o, [t], [True], "some", -1, None))
            ty[o] = "Option<%s>" % (ty[x] or "()")
            g.nts.append(o)
        self.opts = opts
        g.rules = [Rule(a, b) for a, b, *_ in exp]
        keys = [(r.lhs, tuple(r.rhs)) for r in g.rules]
        if len(set(keys)) != len(keys):
            return False
        g.freeze()
        try:
            l = LALR(g)
        except (Refused, MemoryError):
            return False
        if l.verdict() != "ok":
            return False
        self.exp, self.g, self.l = exp, g, l
        for r in g.rules:
            r.alias = [True] * len(r.rhs)
        if not any(e[0] != "sym" or e[1][0] in classes for _, es, _ in rules for e in es) and all(r[2] for r in rules):
            return False
        return True

    def head(self, name):
        o = ["pomelo! {", "%%module %s;" % name, "%include { use super::*; }",
             "%token #[derive(Debug, Clone)] pub enum Token {};", "%extra_argument X; %error String;",
             "%syntax_error { extra.syn(opt(token), vec![]).map(|_| ()) }", "%parse_fail { extra.pf() } %stack_overflow { extra.so(opt(token)) }"]
        for t in self.terms:
            o.append("%%type %s %s;" % (t, self.ty[t]))
        o.append("%start_symbol s;")
        return o

    def code(self, n, num, vs):
        body = "match extra.red(%d, &[%s]) { Ok(s) => s, Err(e) => return Err(e) }" % (num, ", ".join(vs))
        t = self.ty[n]
        if t == "String":
            return "{ %s }" % body
        if t == "u32":
            return "{ let x = %s; x.len() as u32 }" % body
        return "{ let _ = %s; }" % body

    def sugar_text(self, name):
        o = self.head(name)
        for n in self.nts:
            if self.ty[n]:
                o.append("%%type %s %s;" % (n, self.ty[n]))
        for c, ms in self.classes.items():
            o.append("%%token_class %s %s;" % (c, " ".join(ms)))
        for num, (n, es, code) in enumerate(self.rules):
            rhs, vs = [], []
            for j, (k, xs, al) in enumerate(es):
                t = "|".join(xs) + ("?" if k == "opt" else "")
                if al:
                    t += "(v%d)" % j
                    vs.append("&v%d as &dyn Show" % j)
                else:
                    vs.append("&U as &dyn Show")
                rhs.append(t)
            o.append("%s ::= %s %s" % (n, " ".join(rhs), self.code(n, num, vs) if code else ";"))
        o.append("}")
        return "\n".join(o)

    def expanded_text(self, name):
        o = self.head(name)
        for n in self.g.nts:
            if self.ty[n]:
                o.append("%%type %s %s;" % (n, self.ty[n]))
        for n, rhs, al, code, num, es in self.exp:
            if code == "none":
                o.append("%s ::= { None }" % n)
                continue
            if code == "some":
                o.append("%s ::= %s(v) { Some(v) }" % (n, rhs[0]))
                continue
            if not code:
                typed = [j for j, x in enumerate(rhs) if self.ty[x]]
                j = typed[0]
                o.append("%s ::= %s { v }" % (n, " ".join(x + ("(v)" if i == j else "") for i, x in enumerate(rhs))))
                continue
            r, vs = [], []
            for j, x in enumerate(rhs):
                if al[j]:
                    r.append("%s(v%d)" % (x, j))
                    vs.append("&v%d as &dyn Show" % j)
                else:
                    r.append(x)
                    vs.append("&U as &dyn Show")
            o.append("%s ::= %s %s" % (n, " ".join(r), self.code(n, num, vs)))
        o.append("}")
        return "\n".join(o)


SHOWOPT = "impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { Some(x) => format!(\"Some{}\", x.show()), None => \"None\".into() } } }\n"


def norm(line):
    """what has to agree: for accepted inputs everything, for others where and how it failed"""
    parts = line.split("|")
    if ">acc" in line and "E" not in re.sub(r"\[[^\]]*\]", "", line):
        return ";".join(x for p in parts for x in [p.split(">")[0]] if x) + ">" + parts[-1].split(">", 1)[1]
    out = []
    for p in parts:
        if ">" not in p:
            out.append(p)
            continue
        evs, res = p.split(">", 1)
        out.append(";".join(e for e in evs.split(";") if e[:1] in ("E", "P", "O")) + ">" + (res if not res.startswith("acc") else "acc"))
    return "|".join(out)


def run_sugar(seeds, args, workdir, deadline, viol, stats):
    from multiprocessing import Pool
    with Pool(8) as pool:
        cases = [c for c in pool.map(Sugar, seeds, chunksize=2) if c.ok and c.g]
    cl = build.classify(args, [c.sugar_text("g%d" % i) for i, c in enumerate(cases)], workdir, "sugar")
    cl2 = build.classify(args, [c.expanded_text("g%d" % i) for i, c in enumerate(cases)], workdir, "sugarx")
    run = []
    stats["shorthand_grammars"] = stats.get("shorthand_grammars", 0) + len(cases)
    for c, (st, msg), (st2, msg2) in zip(cases, cl, cl2):
        c.src = c.sugar_text("g0") + "\n// expansion\n" + c.expanded_text("g1")
        if st in ("panic", "hang"):
            viol.append((c, None, {"C15", "C13"}, "the macro: %s %s" % (st, msg)))
        elif st2 != "ok":
            viol.append((c, None, {"C06", "C15"}, "the expanded grammar is conflict-free, but: %s %s" % (st2, msg2)))
        elif st == "ok":
            run.append(c)
        elif not msg.startswith("Parsing conflicts"):
            # a class next to one of its members is a conflict in pomelo's automaton; anything else is not expected
            viol.append((c, None, {"C15", "C13"}, "the shorthand grammar is refused: %s" % msg[:300]))
    stats["shorthand_accepted"] = stats.get("shorthand_accepted", 0) + len(run)

    def one(batch):
        bi, cs = batch
        if time.time() > deadline:
            return
        src = os.path.join(workdir, "sugar_%d.rs" % bi)
        exe = src[:-3] + ".bin"
        body = [gen.PRELUDE, gen.UNIT, SHOWOPT]
        arms = []
        for j, c in enumerate(cs):
            for k, txt in ((2 * j, c.sugar_text("g%d" % (2 * j))), (2 * j + 1, c.expanded_text("g%d" % (2 * j + 1)))):
                body.append(txt)
                mk = "|t: usize, i: u32| -> g%d::Token { match t { %s _ => unreachable!() } }" % (
                    k, " ".join("%d => g%d::Token::%s%s," % (q, k, t, "(i)" if c.ty[t] else "") for q, t in enumerate(c.terms)))
                body.append("pub mod d_g%d { use super::*; use super::g%d::Parser; driver!(g%d, (), %s, false); }" % (k, k, k, mk))
                arms.append("%d => d_g%d::run(v[1], v[2], &v[3..])," % (k, k))
        with open(src, "w") as f:
            f.write("\n".join(body) + gen.MAIN % "\n".join(arms))
        rc, diags = build.rustc(args, src, exe, timeout=240)
        if rc != 0:
            if len(cs) > 1:
                for j, c in enumerate(cs):
                    one((bi * 1000 + j + 100000, [c]))
                return
            viol.append((cs[0], None, {"C13", "C03", "C11", "C15"}, "does not compile: %s" % "; ".join(d["message"] for d in diags)[:500]))
            return
        feed, meta = [], []
        for j, c in enumerate(cs):
            idx = {t: k for k, t in enumerate(c.terms)}
            for s in gen.inputs(c.g, c.rnd, 120, 25):
                for k in (2 * j, 2 * j + 1):
                    feed.append("%d 1000000000 0 %s" % (k, " ".join(str(idx[t]) for t in s)))
                meta.append((c, s))
        r = subprocess.run([exe], input="\n".join(feed) + "\n", capture_output=True, text=True, timeout=100)
        lines = r.stdout.splitlines()
        if len(lines) < 2 * len(meta):
            viol.append((meta[len(lines) // 2][0], (meta[len(lines) // 2][1], None), {"C11"}, "crashed"))
        bad = set()
        for i, (c, s) in enumerate(meta):
            if 2 * i + 1 >= len(lines) or c.seed in bad:
                continue
            stats["runs"] = stats.get("runs", 0) + 1
            if len(s) > 1:
                stats["nontrivial"] = stats.get("nontrivial", 0) + 1
            a, b = norm(lines[2 * i]), norm(lines[2 * i + 1])
            if a != b:
                bad.add(c.seed)
                viol.append((c, (s, None, lines[2 * i] + "   expansion: " + lines[2 * i + 1]), {"C13", "C03"}, "the shorthand grammar behaves differently from its expansion"))
        if "sample_shorthand" not in stats and meta:
            stats["sample_shorthand"] = {"rules": [l for l in meta[0][0].sugar_text("g").splitlines() if "::=" in l], "tokens": meta[len(meta) // 3][1], "output": lines[2 * (len(meta) // 3)]}
        for f in (src, exe):
            if os.path.exists(f):
                os.remove(f)
    batches = [(k, run[a:a + 4]) for k, a in enumerate(range(0, len(run), 4))]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, batches))


# ---------------------------------------------------------------- grammars whose automaton reduces for ever
LOOPS = [
    ("%left X; %left HIGH; s ::= a X; a ::= b; b ::= a [HIGH]; b ::= C;", ["C", "X"]),
    ("%left X; %left HIGH; s ::= q X; q ::= q e; q ::= C; e ::= [HIGH];", ["C", "X"]),
]


def run_loops(args, workdir, viol, stats):
    for k, (g, toks) in enumerate(LOOPS):
        src = os.path.join(workdir, "loop_%d.rs" % k)
        exe = src[:-3] + ".bin"
        with open(src, "w") as f:
            f.write("use pomelo::pomelo;\npomelo! { %s }\nfn main() { let mut p = parser::Parser::new(); %s let _ = p.end_of_input(); }\n" % (
                g, " ".join("if p.parse(parser::Token::%s).is_err() { return }" % t for t in toks)))
        rc, diags = build.rustc(args, src, exe, timeout=100)
        stats["fixed_checks"] = stats.get("fixed_checks", 0) + 1
        if rc != 0:
            continue    # refused: the property holds
        try:
            r = subprocess.run(["bash", "-c", "ulimit -v 4000000; exec \"$0\"", exe], capture_output=True, text=True, timeout=3)
            if r.returncode:
                viol.append((Src("loops", k, g), (toks, None), {"C11"}, "the generated parser crashed"))
        except subprocess.TimeoutExpired:
            viol.append((Src("loops", k, g), (toks, None), {"C11"}, "the generated parser did not return [endless-reductions]"))
        if os.path.exists(exe):
            os.remove(exe)


# ---------------------------------------------------------------- fixed grammars
def run_static(args, workdir, viol, stats):
    here = os.path.dirname(os.path.abspath(__file__))
    path = os.path.join(here, "static.rs")
    exe = os.path.join(workdir, "static.bin")
    c = Src("static", 0, "see dyn/static.rs")
    every = {"C%02d" % i for i in range(1, 17)}
    rc, diags = build.rustc(args, path, exe, timeout=200)
    if rc != 0:
        m = "; ".join(d["message"] for d in diags)[:600] if rc is not None else "no answer"
        props = {"C11", "C13", "C03", "C15"} if rc is not None else {"C07", "C15"}
        if "onflict" in m:
            props = {"C06", "C05"}
        viol.append((c, None, props, "the fixed grammars do not compile: " + m))
        return
    try:
        r = subprocess.run([exe], capture_output=True, text=True, timeout=60)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace")
    n = 0
    for l in out.splitlines():
        if l.startswith("FAIL "):
            _, p, m = l.split(" ", 2)
            viol.append((c, None, set(p.split(",")), "fixed grammar: " + m))
        elif l.startswith("OK"):
            n += 1
    stats["fixed_checks"] = n
    if "DONE" not in out:
        viol.append((c, None, {"C11"}, "fixed grammars: the program did not finish after: " + " / ".join(out.splitlines()[-2:])))
    if os.path.exists(exe):
        os.remove(exe)
