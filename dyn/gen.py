"""Random grammars (by family) and their Rust text."""
import random
import re as _re
from ref import Grammar, Rule, LALR, Refused, Earley

PRELUDE = r'''
#![allow(warnings)]
use pomelo::pomelo;
use std::cell::Cell;
pub trait Show { fn show(&self) -> String; }
impl Show for u32 { fn show(&self) -> String { self.to_string() } }
impl Show for () { fn show(&self) -> String { "()".into() } }
impl Show for String { fn show(&self) -> String { self.clone() } }
impl Show for Box<str> { fn show(&self) -> String { self.to_string() } }
#[derive(Clone)]
pub struct Q(pub u32);
impl Show for Q { fn show(&self) -> String { self.0.to_string() } }
impl std::fmt::Debug for Q { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, PartialEq)]
pub struct E(pub u32);
impl Show for E { fn show(&self) -> String { "()".into() } }
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E{}", self.0) } }
impl<T: Show> Show for (E, T) { fn show(&self) -> String { let v = self.1.show(); if v == "()" || v == self.0.0.to_string() { v } else { format!("{}/{}", self.0.0, v) } } }
#[derive(Debug)]
pub struct X { pub log: Vec<String>, pub fail_red: usize, pub fail_syn: usize, pub nred: usize, pub nsyn: usize, pub total: usize, pub serial: usize }
impl X {
    pub fn new(fail_red: usize, fail_syn: usize, serial: usize) -> X { X { log: vec![], fail_red, fail_syn, nred: 0, nsyn: 0, total: 0, serial } }
    fn ev(&mut self, s: String) { self.log.push(s); self.total += 1; }
    pub fn red(&mut self, r: usize, v: &[&dyn Show]) -> Result<String, String> {
        let vs: Vec<String> = v.iter().map(|x| x.show()).collect();
        self.ev(format!("R{}[{}]", r, vs.join(",")));
        let k = self.nred; self.nred += 1;
        if k == self.fail_red { return Err(format!("UR{}", k)); }
        let mut s = format!("({}", r);
        for x in &vs { s.push(' '); s.push_str(x); }
        s.push(')');
        Ok(s)
    }
    pub fn syn(&mut self, t: String, ex: Vec<String>) -> Result<String, String> {
        self.ev(format!("E{}[{}]", t, ex.join(",")));
        let k = self.nsyn; self.nsyn += 1;
        if k < 60 && (self.fail_syn >> k) & 1 == 1 { Err(format!("US{}", k)) } else { Ok(format!("e{}", k)) }
    }
    pub fn pf(&mut self) -> String { self.ev("P".into()); "PF".into() }
    pub fn so(&mut self, t: String) -> String { self.ev(format!("O{}", t)); "SO".into() }
}
thread_local! { pub static MAXLEN: Cell<usize> = Cell::new(0); }
pub struct MyStack<T>(Vec<T>);
impl<T> MyStack<T> {
    pub fn new() -> Self { MAXLEN.with(|m| m.set(0)); MyStack(Vec::new()) }
    pub fn push(&mut self, t: T) { self.0.push(t); let n = self.0.len(); MAXLEN.with(|m| if n > m.get() { m.set(n) }); }
    pub fn pop(&mut self) -> Option<T> { self.0.pop() }
    pub fn last(&self) -> Option<&T> { self.0.last() }
    pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn clear(&mut self) { self.0.clear() }
}
pub fn opt<T: std::fmt::Debug>(t: Option<T>) -> String { match t { Some(x) => format!("{:?}", x), None => "None".into() } }
pub fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }
}
macro_rules! driver { ($m:ident, $start:ty, $mk:expr, $mystack:expr) => {
    pub fn run(fr: usize, fs: usize, toks: &[usize]) -> String {
        use super::*;
        let serial = toks.len() * 7 + 3;
        let mut out = String::new();
        let mut p = Some(Parser::new(X::new(fr, fs, serial)));
        let mk = $mk;
        let mut total = 0;
        for i in 0..toks.len() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.as_mut().unwrap().parse(mk(toks[i], i as u32))));
            let x = p.as_mut().unwrap().extra_mut();
            if x.serial != serial { out.push_str("!extra"); }
            total += x.log.len();
            if x.total != total { out.push_str("!total"); }
            out.push_str(&x.log.join(";")); x.log.clear();
            out.push('>');
            match r {
                Ok(Ok(())) => out.push_str("ok"),
                Ok(Err(e)) => {
                    let e: String = e;
                    out.push_str("err:"); out.push_str(&e); out.push('|');
                    let mut q = p.take().unwrap();
                    let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q.parse(mk(toks[i], i as u32)).is_ok()));
                    match again { Ok(b) => out.push_str("again"), Err(e) => { out.push_str("panic:"); out.push_str(&pmsg(e)); } }
                    let again = q.extra().total == total && q.extra().serial == serial;
                    out.push_str(if again { ":same" } else { ":changed" });
                    let x = q.into_extra();
                    if x.serial != serial || x.total != total { out.push_str("!into_extra"); }
                    break;
                }
                Err(e) => { out.push_str("panic:"); out.push_str(&pmsg(e)); break; }
            }
            out.push('|');
            if i + 1 == toks.len() { }
        }
        if out.is_empty() || out.ends_with('|') {
            let q = p.take().unwrap();
            let cell = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || q.end_of_input()));
            match cell {
                Ok(Ok((v, x))) => {
                    let x: X = x;
                    if x.serial != serial || x.total != total + x.log.len() { out.push_str("!extra"); }
                    out.push_str(&x.log.join(";"));
                    out.push_str(">acc:"); out.push_str(&v.show());
                }
                Ok(Err(e)) => { let e: String = e; out.push_str(&EOILOG.with(|l| l.borrow_mut().drain(..).collect::<Vec<_>>()).join(";")); out.push_str(">err:"); out.push_str(&e); }
                Err(e) => { out.push_str(">panic:"); out.push_str(&pmsg(e)); }
            }
        }
        if $mystack { out.push_str(&format!("#{}", MAXLEN.with(|m| m.get()))); }
        out
    }
} }
thread_local! { pub static EOILOG: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }
impl Drop for X { fn drop(&mut self) { let l = std::mem::take(&mut self.log); EOILOG.with(|c| *c.borrow_mut() = l); } }
'''

MAIN = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    use std::io::Write;
    let so = std::io::stdout(); let mut so = std::io::BufWriter::new(so.lock());
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let v: Vec<usize> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let r = match v[0] {
%s
            _ => unreachable!(),
        };
        writeln!(so, "{}", r).unwrap();
    }
}
'''


def dt(g, x):
    """the declared type of a symbol, or None"""
    d = getattr(g, "dt", {}).get(x)
    return d or ("u32" if x in g.ttyped else "String" if x in g.ntyped else None)


MK = {None: "", "u32": "(i)", "Q": "(Q(i))", "()": "(())"}
XMK = {None: "(E(i))", "E": "((E(i), E(i)))", "u32": "((E(i), i))", "Q": "((E(i), Q(i)))", "()": "((E(i), ()))"}


def rust_module(g, name, order=None):
    o = ["pomelo! {", "%%module %s;" % name, "%include { use super::*; }",
         "%token #[derive(Debug, Clone)] pub enum Token {};",
         "%extra_argument X; %error String;"]
    err_ty = " String" if g.error_typed else ""
    fin = "" if (g.error_typed or not g.uses_error) else ".map(|_| ())"
    if not g.uses_error:
        fin = ".map(|_| ())"
    o.append("%syntax_error { let ex: Vec<String> = expected.map(|e| format!(\"{}{}\", e.name, match &e.token { Some(t) => format!(\"+{:?}\", t), None => \"-\".to_string() })).collect(); extra.syn(opt(token), ex)" + fin + " }")
    o.append("%parse_fail { extra.pf() } %stack_overflow { extra.so(opt(token)) }")
    if g.xtok:
        o.append("%extra_token E;")
    if g.limit is not None:
        o.append("%%stack_size %d MyStack;" % g.limit)
    for t in g.terms:
        if t != g.late or t not in list(g.fallback) + list(g.fallback.values()):
            o.append("%%type %s %s;" % (t, dt(g, t) or ""))
    for n in g.nts:
        if dt(g, n):
            o.append("%%type %s %s;" % (n, dt(g, n)))
    if g.uses_error and g.error_typed:
        o.append("%type error String;")
    for c, ms in g.classes.items():
        if not c.startswith("@"):
            o.append("%%token_class %s %s;" % (c, " ".join(ms)))
    levels = {}
    for t, (lv, a) in g.prec.items():
        levels.setdefault(lv, (a, []))[1].append(t)
    for lv in sorted(levels):
        a, ts = levels[lv]
        o.append("%%%s %s;" % (a, " ".join(ts)))
    for t, fb in g.fallback.items():
        o.append("%%fallback %s %s;" % (fb, t))
    if g.wildcard:
        o.append("%%wildcard %s;" % g.wildcard)
    if g.start:
        o.append("%%start_symbol %s;" % g.start)
    o.append(g.extra_decls)
    for i, r in enumerate(g.rules):
        rhs = []
        vs = []
        for j, (x, al) in enumerate(zip(r.rhs, r.alias)):
            nm = "|".join(g.classes[x]) if x.startswith("@") else x
            if al:
                rhs.append("%s(v%d)" % (nm, j))
                vs.append("&v%d as &dyn Show" % j)
            else:
                rhs.append(nm)
                vs.append("&U as &dyn Show")
        body = "(match extra.red(%d, &[%s]) { Ok(s) => s, Err(e) => return Err(e) })" % (i, ", ".join(vs))
        code = ("{ %s.into() }" if dt(g, r.lhs) == "Box<str>" else "{ %s }") % body if r.lhs in g.ntyped else "{ let _ = %s; }" % body
        o.append("%s ::= %s %s %s" % (r.lhs, " ".join(rhs), "[%s]" % r.prec if r.prec else "", code))
    o.append("}")
    mod = "\n".join(o)
    mk = "|t: usize, i: u32| -> %s::Token { match t { %s _ => unreachable!() } }" % (
        name, " ".join("%d => %s::Token::%s%s," % (k, name, t, (XMK if g.xtok else MK)[dt(g, t)]) for k, t in enumerate(g.terms)))
    if g.xtok:
        mk = "|t: usize, i: u32| -> %s::Token { let mut x = (%s)(t, i); assert!(*x.extra() == E(i) && *x.extra_mut() == E(i) && x.clone().into_extra() == E(i), \"extra value of a token\"); x.extra_mut().0 = i + 1; assert!(x.extra().0 == i + 1); x.extra_mut().0 = i; x }" % (name, mk)
    drv = "pub mod d_%s { use super::*; use super::%s::Parser; driver!(%s, (), %s, %s); }" % (
        name, name, name, mk, "true" if g.limit is not None else "false")
    return mod, drv


UNIT = "pub struct U_; impl Show for U_ { fn show(&self) -> String { \"_\".into() } } pub static U: U_ = U_;\n"

TOK = ["A", "B", "C", "D", "E", "F", "G"]


def classes_ok(g):
    for c, ms in g.classes.items():
        ty = {dt(g, m) for m in ms}
        if len(ty) > 1:
            return False
    return True


def fill_alias(g, rnd):
    for r in g.rules:
        r.alias = []
        for x in r.rhs:
            a = rnd.random() < 0.8
            if x == g.wildcard:
                a = False
            if x in g.classes and (g.wildcard in g.classes[x] or len({dt(g, m) for m in g.classes[x]}) > 1):
                a = False
            if x == "error" and not g.error_typed:
                a = rnd.random() < 0.3
            r.alias.append(a)


def layered(rnd, terms, body):
    """an expression-like grammar: one level per nonterminal, an operator of its own at each"""
    ops = terms[:]
    rnd.shuffle(ops)
    out = []
    for i, x in enumerate(body):
        nx = body[i + 1] if i + 1 < len(body) else None
        if nx is None:
            out.append(Rule(x, [ops.pop()]) if ops else Rule(x, []))
            if len(ops) >= 2 and rnd.random() < 0.7:
                out.append(Rule(x, [ops.pop(), body[0], ops.pop()]))
            if ops and rnd.random() < 0.4:
                out.append(Rule(x, [ops.pop(), rnd.choice([body[0], x, rnd.choice(terms)])]))
        else:
            out.append(Rule(x, [nx]))
            for _ in range(rnd.choice([1, 1, 2])):
                if ops:
                    op = ops.pop()
                    out.append(Rule(x, rnd.choice([[x, op, nx], [x, op, nx], [nx, op, x], [x, op], [op, x], [nx, op]])))
    out.append(Rule("s", rnd.choice([[body[0]], [body[0]], [rnd.choice(terms), body[0]], [body[0], rnd.choice(terms)]])))
    return out


def random_cfg(rnd, fam):
    g = Grammar()
    lay = rnd.random() < 0.35
    nt = rnd.randint(4, 7) if lay else rnd.randint(2, 6)
    g.terms = TOK[:nt]
    rnd.shuffle(g.terms)
    g.ttyped = {t for t in g.terms if rnd.random() < 0.6}
    n = rnd.randint(1, 4)
    g.nts = ["s"] + ["e", "f", "g", "h"][:n]
    g.ntyped = {x for x in g.nts if rnd.random() < 0.85}
    g.dt = {}
    dtr = random.Random(rnd.random())
    for x in g.terms + ["K", "L"]:
        if dtr.random() < 0.2:
            g.dt[x] = "Q" if x in g.ttyped or x in "KL" else "()"
    for x in g.nts:
        if dtr.random() < 0.2:
            g.dt[x] = "Box<str>" if x in g.ntyped else "()"
    g.start = "s"
    body = g.nts[1:]
    if fam == "error":
        g.error_typed = rnd.random() < 0.7
    pool = g.terms + g.terms + body
    if fam in ("wildcard", "mix") and rnd.random() < (0.9 if fam == "wildcard" else 0.4):
        g.wildcard = "W"
        g.terms.insert(rnd.randint(0, len(g.terms)), "W")
        pool += ["W"]
    if fam in ("fallback", "mix") and rnd.random() < 0.9:
        order = [t for t in g.terms if t != "W"]
        rnd.shuffle(order)
        extra = []
        if rnd.random() < 0.5:
            extra = ["K", "L"][:rnd.randint(1, 2)]
            if dtr.random() < 0.5:
                # a token that is named nowhere but in a fallback directive
                extra = ["K"]
                g.terms.append("K")
                g.dt.pop("K", None)
                g.late = "K"
            for t in extra if not g.late else []:
                g.terms.insert(rnd.randint(0, len(g.terms)), t)
                if rnd.random() < 0.5:
                    g.ttyped.add(t)
                else:
                    g.dt.pop(t, None)
            order = extra + order
        for i in range(len(order) - 1):
            if rnd.random() < 0.6:
                fb = rnd.choice(order[i + 1:])
                if dt(g, fb) not in (None, dt(g, order[i])):
                    continue
                g.fallback[order[i]] = fb
    if fam in ("class", "mix", "prec") and rnd.random() < {"class": 0.95, "mix": 0.4, "prec": 0.5}[fam]:
        cand = [t for t in g.terms if t != "W"]
        for i in range(rnd.randint(1, 2)):
            k = min(len(cand), rnd.choice([2, 2, 3, 3, 4]))
            ms = rnd.sample(cand, k)
            nm = rnd.choice(["X%d", "@%d"]) % i
            g.classes[nm] = ms
            pool += [nm, nm]
    if fam == "prec":
        cand = g.terms[:]
        rnd.shuffle(cand)
        lv = 1
        while cand and rnd.random() < 0.9:
            k = rnd.randint(1, 2)
            a = rnd.choice(["left", "right", "nonassoc"])
            for t in cand[:k]:
                g.prec[t] = (lv, a)
            cand = cand[k:]
            lv += 1
        for ms in g.classes.values():
            if dtr.random() < 0.5:
                # only one member of the class has a precedence
                keep = dtr.choice(ms + ms[2:])
                for t in ms:
                    if t != keep:
                        g.prec.pop(t, None)
                g.prec.setdefault(keep, (lv, dtr.choice(["left", "right", "nonassoc"])))
                lv += 1
    elif fam in ("mix", "class") and rnd.random() < 0.4:
        for t in rnd.sample(g.terms, min(2, len(g.terms))):
            g.prec[t] = (len(g.prec) + 1, rnd.choice(["left", "right", "nonassoc"]))

    def rhs(maxlen):
        return [rnd.choice(pool) for _ in range(rnd.randint(0, maxlen))]
    g.rules = []
    base = [t for t in g.terms if t not in ("W", "K", "L")]
    if lay:
        g.rules = layered(rnd, base, body)
    for _ in range(0 if lay else rnd.choice([1, 1, 2])):
        r = rhs(3)
        if not any(x in body for x in r):
            r.insert(rnd.randint(0, len(r)), rnd.choice(body))
        g.rules.append(Rule("s", r))
    for x in body:
        for _ in range((1 if rnd.random() < 0.15 else 0) if lay else rnd.randint(1, 3)):
            if fam == "prec" and rnd.random() < 0.6:
                # operator shaped
                op = rnd.choice(g.terms + list(g.classes) * 2)
                shape = rnd.choice([[x, op, x], [op, x], [x, op], [x, op, rnd.choice(body)], [op, x, rnd.choice(g.terms), x]])
                g.rules.append(Rule(x, shape))
            elif rnd.random() < 0.25:
                # list shaped
                y = rnd.choice(pool)
                g.rules.append(Rule(x, rnd.choice([[x, y], [y, x], [x, rnd.choice(g.terms), y]])))
            else:
                g.rules.append(Rule(x, rhs(3)))
    seen = set()
    out = []
    for r in g.rules:
        k = (r.lhs, tuple(r.rhs))
        if k in seen or r.rhs == [r.lhs]:
            continue
        seen.add(k)
        out.append(r)
    g.rules = out
    if fam == "error":
        for _ in range(rnd.randint(1, 2)):
            x = rnd.choice(body)
            shape = rnd.choice([["error"], ["error", rnd.choice(g.terms)], [rnd.choice(g.terms), "error", rnd.choice(g.terms)], [x, "error"]])
            g.rules.append(Rule(x, shape))
    if len(body) > 1 and rnd.random() < {"class": 0.35, "cfg": 0.35, "prec": 0.25}.get(fam, 0.1):
        # two nonterminals with the same right-hand side, told apart by what follows
        x, y = rnd.sample(body, 2)
        h = [rnd.choice(base) for _ in range(rnd.randint(1, 2))]
        g.rules += [Rule(x, h), Rule(y, h)]
        follow = base + list(g.classes) * 2
        for z in (x, y):
            for _ in range(rnd.randint(1, 3)):
                g.rules.append(Rule("s", [z] + [rnd.choice(follow) for _ in range(rnd.choice([1, 1, 2]))]))
    if fam == "class" and len(body) > 1 and g.classes and dtr.random() < 0.3:
        # a reduction that is not the default one, with a class as its look-ahead
        for t in TOK:
            if t not in g.terms:
                g.terms.append(t)
                base.append(t)
        c = dtr.choice(list(g.classes))
        x, y = dtr.sample(body, 2)
        h = [dtr.choice(base)]
        g.rules = [r for r in g.rules if dtr.random() < 0.4] + [Rule(x, h), Rule(y, h), Rule("s", [x, c])]
        g.rules += [Rule("s", [y, t]) for t in base if t not in g.classes[c]]
    if fam == "prec" and g.classes and dtr.random() < 0.3:
        # prefix operators that are classes, of which one member has a precedence
        for t in TOK:
            if t not in g.terms:
                g.terms.append(t)
                base.append(t)
        x = dtr.choice(body)
        inc = {t for ms in g.classes.values() for t in ms}
        free = [t for t in g.terms if t not in inc] or g.terms[:2]
        g.prec = {}
        lv = 1
        for ms in g.classes.values():
            g.prec.setdefault(dtr.choice(ms + ms[2:]), (2 * dtr.randint(1, 2), dtr.choice(["left", "right", "nonassoc"])))
        for t in free[1:]:
            g.prec[t] = (2 * lv - 1, dtr.choice(["left", "right", "nonassoc"]))
            lv = min(lv + 1, 3)
        by = {}
        g.prec = {t: (l, by.setdefault(l, a)) for t, (l, a) in sorted(g.prec.items(), key=lambda z: z[1][0])}
        g.rules = [Rule("s", [x]), Rule(x, [free[0]])] + [Rule(x, [x, t, x]) for t in free[1:]]
        g.rules += [Rule(x, [c, x]) for c in g.classes]
    if fam == "prec" and len(body) > 1 and len(g.prec) > 1 and dtr.random() < 0.08:
        # equal right-hand sides settled by precedence: one of the rules may never be reduced
        x, y = dtr.sample(body, 2)
        h = [dtr.choice(base)]
        p, q = dtr.sample(sorted(g.prec), 2)
        f = [dtr.choice(base) for _ in range(dtr.randint(0, 1))]
        g.rules = [r for r in g.rules if dtr.random() < 0.3] + [Rule(x, h, p), Rule(y, h, q), Rule("s", [x] + f), Rule("s", [y] + f)]
        if dtr.random() < 0.3:
            g.rules.append(Rule("s", [dtr.choice([x, y]), dtr.choice(base)]))
    if rnd.random() < 0.08:
        # a long rule
        r = rnd.choice(g.rules)
        for _ in range(rnd.randint(8, 13)):
            r.rhs.append(rnd.choice(base))
    if fam == "prec":
        for r in g.rules:
            if rnd.random() < 0.2:
                r.prec = rnd.choice(g.terms)
    for x in body:
        if not any(r.lhs == x for r in g.rules):
            g.rules.append(Rule(x, [rnd.choice(g.terms)]))
    # every inline alternative A|B is a symbol of its own
    k = 0
    for r in g.rules:
        for j, x in enumerate(r.rhs):
            if x.startswith("@"):
                n = "@%d_%d" % (k, j)
                g.classes[n] = list(g.classes[x])
                r.rhs[j] = n
        k += 1
    for n in list(g.classes):
        if n.startswith("@") and "_" not in n:
            del g.classes[n]
    rnd.shuffle(g.rules)
    if not g.wildcard and dtr.random() < 0.15 and all(dt(g, a) == dt(g, b) for a, b in g.fallback.items()):
        g.xtok = True
        infb = set(g.fallback) | set(g.fallback.values()) | {t for ms in g.classes.values() for t in ms}
        for t in g.terms:
            if t not in g.dt and t not in infb and dtr.random() < 0.2:
                g.dt[t] = "E"
                g.ttyped.discard(t)
    if fam == "limit" or (fam == "mix" and rnd.random() < 0.3) or (fam == "error" and rnd.random() < 0.25):
        g.limit = rnd.choice([0, 2, 3, 4, 5, 6, 7, 8])
    fill_alias(g, rnd)
    # a token class with a duplicate member or with members shadowed is fine; types need not agree without alias
    return g.freeze()


def random_sentence(g, rnd, maxlen=25):
    """a random derivation, as tokens, or None"""
    prod = g.productive()
    if g.start not in prod:
        return None
    # shortest derivation lengths
    INF = 10 ** 6
    best = {n: INF for n in g.by_lhs}
    ch = True

    def cost(r):
        return sum(1 if g.members(x) is not None else best.get(x, INF) for x in r.rhs)
    while ch:
        ch = False
        for r in g.rules:
            c = cost(r)
            if c < best[r.lhs]:
                best[r.lhs] = c
                ch = True
    out = []
    stack = [g.start]
    budget = rnd.randint(1, maxlen)
    while stack:
        x = stack.pop()
        m = g.members(x)
        if m is not None:
            out.append(rnd.choice(m))
            if len(out) > 3 * maxlen:
                return None
            continue
        if x == "error":
            return None
        rs = [g.rules[i] for i in g.by_lhs[x] if cost(g.rules[i]) < INF]
        if not rs:
            return None
        need = len(out) + sum(1 if g.members(y) is not None else best.get(y, INF) for y in stack)
        if need + best[x] >= budget:
            mn = min(cost(r) for r in rs)
            rs = [r for r in rs if cost(r) == mn]
            if len(stack) > 200:
                return None
        stack.extend(reversed(rnd.choice(rs).rhs))
    return out


def inputs(g, rnd, n_enum, n_rand):
    """token sequences: all short ones (up to a cap), random sentences and mutations of them"""
    out = []
    k = len(g.terms)
    L = 0
    tot = 1
    layer = [[]]
    while tot <= n_enum:
        out.extend(layer)
        L += 1
        layer = [x + [t] for x in layer for t in g.terms]
        tot += len(layer)
        if L > 8:
            break
    for _ in range(max(0, n_enum - len(out)) // 2):
        out.append([rnd.choice(g.terms) for _ in range(rnd.randint(L, L + 3))])
    sents = []
    for _ in range(n_rand):
        s = random_sentence(g, rnd)
        if s is None:
            continue
        sents.append(s)
        inv = {}
        for a, b in g.fallback.items():
            inv.setdefault(b, []).append(a)
        if rnd.random() < 0.5 and (g.fallback or g.wildcard):
            # replace tokens by ones that fall back to them
            s2 = []
            for t in s:
                while t in inv and rnd.random() < 0.6:
                    t = rnd.choice(inv[t])
                if t == g.wildcard and rnd.random() < 0.7:
                    t = rnd.choice(g.terms)
                s2.append(t)
            sents.append(s2)
        for _ in range(2):
            m = list(s)
            for _ in range(rnd.randint(1, 2)):
                op = rnd.random()
                p = rnd.randint(0, len(m))
                if op < 0.35 and m:
                    m.pop(min(p, len(m) - 1))
                elif op < 0.7:
                    m.insert(p, rnd.choice(g.terms))
                elif m:
                    m[min(p, len(m) - 1)] = rnd.choice(g.terms)
            sents.append(m)
    seen = set()
    res = []
    for s in out + sents:
        t = tuple(s)
        if t not in seen and len(s) <= 60:
            seen.add(t)
            res.append(s)
    return res


def build_case(rnd, fam, want_conflicts=0.15):
    """a grammar and its reference automaton; conflict-free ones preferred"""
    for _ in range(400):
        g = random_cfg(rnd, fam)
        if not any(r.rhs for r in g.rules):
            continue
        try:
            l = LALR(g)
        except Refused:
            if rnd.random() < 0.02:
                return g, None
            continue
        except MemoryError:
            continue
        v = l.verdict()
        if v == "ok":
            return g, l
        if v == "conflict" and rnd.random() < want_conflicts:
            return g, l
        if v == "refused" and rnd.random() < 0.03:
            return g, l
    return None
