"""Independent reference for the bounded dynamic checks: grammars, an LALR(1) construction written from
the textbook definition, an Earley recogniser, and a step-by-step checker of parser traces.
None of it is derived from pomelo's code."""
import itertools


class Rule:
    __slots__ = ("lhs", "rhs", "prec", "alias")

    def __init__(self, lhs, rhs, prec=None):
        self.lhs, self.rhs, self.prec = lhs, list(rhs), prec
        self.alias = None


class Grammar:
    def __init__(self):
        self.terms = []        # terminals in declaration order ($ is index 0, not listed)
        self.ttyped = set()    # terminals with a payload
        self.nts = []
        self.ntyped = set()
        self.dt = {}            # types other than the usual one of such a symbol
        self.rules = []
        self.classes = {}
        self.prec = {}
        self.fallback = {}
        self.wildcard = None
        self.start = None
        self.limit = None
        self.error_typed = False
        self.late = None        # a token without a declaration of its own
        self.xtok = False       # %extra_token
        self.extra_decls = ""

    @property
    def uses_error(self):
        return any("error" in r.rhs for r in self.rules)

    def members(self, x):
        """terminals a right-hand-side symbol stands for, or None for a nonterminal"""
        if x in self.classes:
            return self.classes[x]
        if x in self.termset:
            return [x]
        return None

    def freeze(self):
        self.termset = set(self.terms)
        self.by_lhs = {}
        for i, r in enumerate(self.rules):
            self.by_lhs.setdefault(r.lhs, []).append(i)
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r.lhs not in self.nullable and all(x in self.nullable for x in r.rhs):
                    self.nullable.add(r.lhs)
                    ch = True
        self.first = {n: set() for n in list(self.by_lhs) + ["error"]}
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                f = self.first_of(r.rhs)
                if not f <= self.first[r.lhs]:
                    self.first[r.lhs] |= f
                    ch = True
        return self

    def first_of(self, seq):
        out = set()
        for x in seq:
            m = self.members(x)
            if m is not None:
                out |= set(m)
                return out
            out |= self.first.get(x, set())
            if x not in self.nullable:
                return out
        return out

    def seq_nullable(self, seq):
        return all(x in self.nullable for x in seq)

    def productive(self):
        p = set()
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r.lhs not in p and all(x in p or self.members(x) is not None for x in r.rhs):
                    p.add(r.lhs)
                    ch = True
        return p

    def rule_prec(self, r):
        """C05: the bracketed symbol's precedence if given, else that of the leftmost token that has one"""
        if r.prec is not None:
            return self.prec.get(r.prec)
        for x in r.rhs:
            m = self.members(x)
            if m is not None:
                for t in m:
                    if t in self.prec:
                        return self.prec[t]
        return None

    def readings(self, t):
        """C07/C08: the terminals a token may be read as, in documented order (itself first)"""
        out = [t]
        while out[-1] in self.fallback and t != "$":
            out.append(self.fallback[out[-1]])
        if self.wildcard and t != "$" and self.wildcard not in out:
            out.append(self.wildcard)
        return out


class Refused(Exception):
    pass


class LALR:
    def __init__(self, g):
        self.g = g
        for r in g.rules:
            if g.start in r.rhs:
                raise Refused("start on rhs")
        if g.start not in g.by_lhs:
            raise Refused("start has no rules")
        self.states = []      # kernel: tuple of items
        self.index = {}
        self.la = []          # per state: {item: set} of the whole closure
        self.goto = []
        k0 = tuple((r, 0) for r in g.by_lhs[g.start])
        kla = []
        self.index[k0] = 0
        self.states.append(k0)
        kla.append({it: {"$"} for it in k0})
        self.la.append(None)
        self.goto.append(None)
        work = [0]
        while work:
            s = work.pop()
            clo = self.closure(kla[s])
            self.la[s] = clo
            trans = {}
            for (r, d), las in clo.items():
                rhs = g.rules[r].rhs
                if d < len(rhs):
                    trans.setdefault(rhs[d], {})[(r, d + 1)] = las
            go = {}
            for x, items in trans.items():
                k = tuple(sorted(items))
                if k not in self.index:
                    if len(self.states) > 3000:
                        raise MemoryError
                    self.index[k] = len(self.states)
                    self.states.append(k)
                    kla.append({it: set() for it in k})
                    self.la.append(None)
                    self.goto.append(None)
                    new = True
                else:
                    new = False
                t = self.index[k]
                ch = new
                for it, las in items.items():
                    if not las <= kla[t][it]:
                        kla[t][it] |= las
                        ch = True
                if ch and t not in work:
                    work.append(t)
                go[x] = t
            self.goto[s] = go
        self.resolve()

    def closure(self, kernel):
        g = self.g
        clo = {it: set(l) for it, l in kernel.items()}
        work = list(clo)
        while work:
            it = work.pop()
            r, d = it
            rhs = g.rules[r].rhs
            if d >= len(rhs):
                continue
            x = rhs[d]
            if g.members(x) is not None or x == "error":
                continue
            if x not in g.by_lhs:
                raise Refused("nonterminal %s has no rules" % x)
            rest = rhs[d + 1:]
            las = set(g.first_of(rest))
            if g.seq_nullable(rest):
                las |= clo[it]
            for nr in g.by_lhs[x]:
                n = (nr, 0)
                if n not in clo:
                    clo[n] = set(las)
                    work.append(n)
                elif not las <= clo[n]:
                    clo[n] |= las
                    work.append(n)
        return clo

    def resolve(self):
        g = self.g
        self.action = []
        self.conflicts = []        # (state, lookahead)
        self.order_dependent = False
        self.prec_used = False
        self.ngoto = []
        reduced = set()
        for s in range(len(self.states)):
            cand = {}
            ngo = {}
            for x, t in self.goto[s].items():
                m = g.members(x)
                if m is None:
                    ngo[x] = t
                else:
                    for tok in m:
                        cand.setdefault(tok, []).append(("s", t))
            red = {}
            for (r, d), las in self.la[s].items():
                if d == len(g.rules[r].rhs):
                    for tok in las:
                        red.setdefault(tok, []).append(r)
            for tok, rs in red.items():
                cand.setdefault(tok, []).extend(("r", r) for r in sorted(rs))
            act = {}
            for tok, cs in cand.items():
                res, conf = self.settle(tok, cs)
                if len(cs) > 1:
                    # does the order of the rules matter for the outcome?
                    sh = [c for c in cs if c[0] == "s"]
                    rd = [c for c in cs if c[0] == "r"]
                    outs = set()
                    for p in itertools.islice(itertools.permutations(rd), 24):
                        a, c = self.settle(tok, sh + list(p))
                        outs.add((a if not c else None, c))
                    if len(outs) > 1:
                        self.order_dependent = True
                    if not conf:
                        self.prec_used = True
                if conf:
                    self.conflicts.append((s, tok))
                if res is not None:
                    act[tok] = res
                    if res[0] == "r":
                        reduced.add(res[1])
            self.action.append(act)
            self.ngoto.append(ngo)
        self.unreduced = [i for i in range(len(g.rules)) if i not in reduced]

    def settle(self, tok, cs):
        """documented outcome for the candidate actions; (action, conflict?)"""
        g = self.g
        tp = g.prec.get(tok)
        cur = None
        conf = False
        if sum(1 for c in cs if c[0] == "s") > 1:
            return cs[0], True
        for c in cs:
            if cur is None:
                cur = c
                continue
            rp = g.rule_prec(g.rules[c[1]])
            if cur[0] == "s":
                if tp is None or rp is None:
                    conf = True
                elif tp[0] < rp[0]:
                    cur = c
                elif tp[0] > rp[0]:
                    pass
                elif tp[1] == "left":
                    cur = c
                elif tp[1] == "right":
                    pass
                else:
                    cur = ("e",)
            else:
                cp = tp if cur[0] == "e" else g.rule_prec(g.rules[cur[1]])
                if cp is None or rp is None or cp[0] == rp[0]:
                    conf = True
                elif cp[0] < rp[0]:
                    cur = c
        return cur, conf

    def effective(self, s, tok):
        """(action, symbol it is read as) or (None, None)"""
        for t in self.g.readings(tok):
            a = self.action[s].get(t)
            if a is not None:
                return a, t
        return None, None

    def endless(self):
        """(state, token) from which the automaton, as settled by precedence, reduces for ever; or None"""
        g = self.g
        for q in range(len(self.action)):
            cnt = {}
            for a in self.action[q].values():
                if a[0] == "r":
                    cnt[a[1]] = cnt.get(a[1], 0) + 1
            if not cnt:
                continue
            for t in list(g.terms) + ["$"]:
                st = [q]
                for _ in range(3000):
                    a, _x = self.effective(st[-1], t)
                    if a is None:
                        c = self.complete(st[-1])
                        c = [r for r in c if g.rules[r].lhs != g.start and any(b == ("r", r) for b in self.action[st[-1]].values())]
                        if not c:
                            break
                        a = ("r", max(c, key=lambda r: sum(1 for b in self.action[st[-1]].values() if b == ("r", r))))
                    if a[0] != "r":
                        break
                    n = len(g.rules[a[1]].rhs)
                    if n >= len(st) or g.rules[a[1]].lhs not in self.ngoto[st[len(st) - 1 - n]]:
                        break
                    st = st[:len(st) - n]
                    st.append(self.ngoto[st[-1]][g.rules[a[1]].lhs])
                else:
                    return q, t
        return None

    def complete(self, s):
        return [r for (r, d) in self.la[s] if d == len(self.g.rules[r].rhs)]

    def verdict(self):
        """'ok', 'conflict' or 'refused'"""
        if self.conflicts:
            return "conflict"
        if self.unreduced:
            return "refused"
        return "ok"


class Earley:
    """readings: token -> set of terminals.  Gives longest viable prefix and membership."""

    def __init__(self, g):
        self.g = g

    def run(self, sets):
        g = self.g
        chart = [set((r, 0, 0) for r in g.by_lhs[g.start])]
        k = 0
        while True:
            self.complete(chart, k)
            if k == len(sets):
                break
            nxt = set()
            for (r, d, o) in chart[k]:
                rhs = g.rules[r].rhs
                if d < len(rhs):
                    m = g.members(rhs[d])
                    if m is not None and any(t in sets[k] for t in m):
                        nxt.add((r, d + 1, o))
            if not nxt:
                return k, False
            chart.append(nxt)
            k += 1
        member = any(o == 0 and d == len(g.rules[r].rhs) and g.rules[r].lhs == g.start for (r, d, o) in chart[k])
        return k, member

    def complete(self, chart, k):
        g = self.g
        items = chart[k]
        work = list(items)
        while work:
            r, d, o = work.pop()
            rhs = g.rules[r].rhs
            new = []
            if d < len(rhs):
                x = rhs[d]
                if g.members(x) is None and x != "error":
                    for nr in g.by_lhs.get(x, ()):
                        new.append((nr, 0, k))
                    if x in g.nullable:
                        new.append((r, d + 1, o))
            else:
                lhs = g.rules[r].lhs
                for (r2, d2, o2) in (chart[o] if o != k else list(items)):
                    rhs2 = g.rules[r2].rhs
                    if d2 < len(rhs2) and rhs2[d2] == lhs:
                        new.append((r2, d2 + 1, o2))
            for n in new:
                if n not in items:
                    items.add(n)
                    work.append(n)


class Bad(Exception):
    """(set of properties, message)"""

    def __init__(self, props, msg):
        super().__init__(msg)
        self.props, self.msg = props, msg


class Trace:
    """Checks one run of a generated parser against the LALR automaton and the documented strategy.

    calls: list of (events, result) per parse call and a last one for end_of_input; an event is
    ('R', rule, [values]) ('E', token, [expected]) ('PF',) ('SO', token).
    result: 'ok' | 'err:<text>' | 'acc:<value>' | 'panic:<text>'
    """

    def __init__(self, lalr, toks, policy):
        self.l, self.g = lalr, lalr.g
        self.toks = toks
        self.stack = [(0, "$", "()")]
        self.limit = 100 if self.g.limit is None else self.g.limit
        self.ec = 0
        self.fail_red, self.fail_syn = policy
        self.nred = self.nsyn = 0
        self.accepted = None
        self.errors = 0
        self.maxlen = 1
        self.err = self.g.uses_error

    def tokstr(self, i):
        if i >= len(self.toks):
            return "None"
        t = self.toks[i]
        if self.g.xtok:
            return ("%s((E%d, %d))" % (t, i, i)) if t in self.g.ttyped else ("%s((E%d, ()))" % (t, i)) if self.g.dt.get(t) == "()" else ("%s((E%d, E%d))" % (t, i, i)) if self.g.dt.get(t) == "E" else "%s(E%d)" % (t, i)
        return "%s(%d)" % (t, i) if t in self.g.ttyped else t + "(())" if t in self.g.dt else t

    def shown(self, sym, val):
        """what an alias of that symbol shows"""
        g = self.g
        if sym in g.classes:
            typed = g.classes[sym][0] in g.ttyped
        elif sym == "error":
            typed = g.error_typed
        else:
            typed = sym in g.ttyped or sym in g.ntyped
        return val if typed else "()"

    def push(self, ev, st, sym, val, tokshow):
        if self.limit and len(self.stack) >= self.limit:
            if not ev:
                raise Bad({"C10"}, "no stack overflow reported with %d entries at limit %d" % (len(self.stack), self.limit))
            if ev[0] != ("SO", tokshow):
                raise Bad({"C10"}, "expected stack overflow on %s, got %r" % (tokshow, ev[0]))
            ev.pop(0)
            return "err:SO"
        self.stack.append((st, sym, val))
        self.maxlen = max(self.maxlen, len(self.stack))
        return None

    def call(self, i, events, result):
        g, l = self.g, self.l
        ev = list(events)
        tok = self.toks[i] if i < len(self.toks) else "$"
        if result.startswith("panic"):
            raise Bad({"C11", "C14"}, "panic at token %d (%s): %s" % (i, tok, result))
        want = self.step(i, tok, ev)
        if ev:
            e = ev[0]
            props = {"R": {"C03", "C14", "C01"}, "E": {"C09", "C04", "C02", "C14"}, "PF": {"C09", "C02"}, "SO": {"C10"}}[e[0]]
            raise Bad(props | self.hint(tok), "unexpected event %r at token %d (%s)" % (e, i, tok))
        if want != result:
            props = {"C09"}
            if want.startswith("acc") or result.startswith("acc"):
                props = {"C03", "C01"} if want[:3] == result[:3] else {"C01", "C02", "C09"}
            if "SO" in want or "SO" in result:
                props.add("C10")
            raise Bad(props, "call %d (%s) returned %s, expected %s" % (i, tok, result, want))
        return want

    def hint(self, tok):
        out = set()
        if self.g.fallback:
            out.add("C07")
        if self.g.wildcard:
            out.add("C08")
        if self.g.prec:
            out.add("C05")
        if self.g.classes:
            out.add("C13")
        return out

    def reduce(self, r, ev):
        g, l = self.g, self.l
        rule = g.rules[r]
        n = len(rule.rhs)
        vals = self.stack[len(self.stack) - n:] if n else []
        if len(vals) != n or len(self.stack) - n < 1:
            raise Bad({"C03"}, "stack underflow")
        shown = [self.shown(x, v[2]) if a else "_" for x, v, a in zip(rule.rhs, vals, rule.alias)]
        if not ev or ev[0][0] != "R" or ev[0][1] != r:
            raise Bad({"C03", "C02", "C01", "C14"} | self.hint(None), "expected reduction by rule %d, got %r" % (r, ev[:1]))
        if ev[0][2] != shown:
            raise Bad({"C03"} | ({"C13"} if g.classes else set()) | ({"C07"} if g.fallback else set()),
                      "rule %d ran with values %r, expected %r" % (r, ev[0][2], shown))
        ev.pop(0)
        val = "(%s)" % " ".join([str(r)] + shown)
        k = self.nred
        self.nred += 1
        if self.fail_red == k:
            return "err:UR%d" % k
        if n:
            del self.stack[-n:]
        top = self.stack[-1][0]
        if rule.lhs == g.start:
            # only possible in the first state
            self.accepted = val if g.start in g.ntyped else "()"
            return "acc:" + self.accepted
        return self.push(ev, l.ngoto[top][rule.lhs], rule.lhs, val, "None")

    def step(self, i, tok, ev):
        g, l = self.g, self.l
        while True:
            s = self.stack[-1][0]
            act, _ = l.effective(s, tok)
            if act is not None and act[0] == "s":
                if ev and ev[0][0] == "R":
                    raise Bad({"C03", "C14", "C01", "C02", "C05"} | self.hint(tok), "token %d (%s) must be shifted, but rule %d ran" % (i, tok, ev[0][1]))
                if ev and ev[0][0] in ("E", "PF"):
                    raise Bad({"C02", "C14", "C04"} | self.hint(tok), "error reported at token %d (%s), which can be shifted" % (i, tok))
                val = str(i) if tok in g.ttyped else "()"
                x = self.push(ev, act[1], tok, val, self.tokstr(i))
                if x:
                    return x
                self.ec = max(0, self.ec - 1)
                return "ok"
            if act is not None and act[0] == "r":
                if ev and ev[0][0] in ("E", "PF"):
                    raise Bad({"C02", "C14", "C04"} | self.hint(tok), "error reported at token %d (%s), where rule %d applies" % (i, tok, act[1]))
                x = self.reduce(act[1], ev)
                if x:
                    return x
                continue
            if act is None and ev and ev[0][0] == "R":
                # a default reduction: allowed when the rule is complete here
                if ev[0][1] not in l.complete(s) or g.rules[ev[0][1]].lhs == g.start:
                    raise Bad({"C04", "C03", "C14", "C01"} | self.hint(tok), "rule %d ran at token %d (%s), where it does not apply" % (ev[0][1], i, tok))
                x = self.reduce(ev[0][1], ev)
                if x:
                    return x
                continue
            return self.error(i, tok, ev, s, act)

    def error(self, i, tok, ev, s, act):
        g, l = self.g, self.l
        self.errors += 1
        ts = self.tokstr(i)
        if tok == "$":
            return self.parse_fail(ev)
        if self.err:
            while self.stack:
                st, sym, _ = self.stack[-1]
                if sym == "error":
                    self.ec = 3
                    return "ok"
                if "error" in l.ngoto[st]:
                    x = self.syntax(ev, ts, s, tok)
                    if x:
                        return x
                    x = self.push(ev, l.ngoto[st]["error"], "error", "e%d" % (self.nsyn - 1), "None")
                    if x:
                        return x
                    self.ec = 3
                    return "ok"
                self.stack.pop()
            return self.parse_fail(ev)
        if self.ec == 0:
            x = self.syntax(ev, ts, s, tok)
            if x:
                return x
        self.ec = 3
        return "ok"

    def parse_fail(self, ev):
        if not ev or ev[0] != ("PF",):
            raise Bad({"C09", "C04", "C01"} | self.hint("$"), "expected parse_fail, got %r" % (ev[:1],))
        ev.pop(0)
        return "err:PF"

    def syntax(self, ev, ts, s, tok):
        g, l = self.g, self.l
        if not ev or ev[0][0] != "E":
            raise Bad({"C04", "C09", "C01"} | self.hint(tok) | ({"C05"} if g.prec else set()), "no syntax error reported at %s (state %d), got %r" % (ts, s, ev[:1]))
        if ev[0][1] != ts:
            raise Bad({"C09"}, "syntax_error got token %s instead of %s" % (ev[0][1], ts))
        exp = []
        err_here = any(a[0] == "e" for a in l.action[s].values())
        for t in g.terms:
            a, _ = l.effective(s, t)
            if a is not None and a[0] != "e":
                exp.append(t + ("-" if t in g.ttyped or t in g.dt or g.xtok else "+" + t))
        got = ev[0][2]
        if got != exp:
            names = [x.rstrip("-").split("+")[0] for x in got]
            ok = False
            if err_here and l.complete(s):
                # a nonassoc error in a state with a default reduction: the default counts as an action
                ok = [x for x in got if x in exp] == exp and tok not in names and len(set(got)) == len(got)
            if not ok:
                raise Bad({"C12"}, "expected-token list %r, should be %r" % (got, exp))
        ev.pop(0)
        k = self.nsyn
        self.nsyn += 1
        if self.fail_syn >> k & 1:
            return "err:US%d" % k
        return None
