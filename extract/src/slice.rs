//! Slicing of the emitting function: only the statements that feed the named tables and constants
//! are kept; `src.extend(quote!(static NAME: T = [#(#e),*];))` becomes `vx_out.NAME = e`.
//!
//! What it drops: emission of other text, and statements that only compute such text.  A dropped
//! statement may have returned early with an error; the slice then still runs, so what is proved of
//! it holds for every run that gets to the end.  Nothing is dropped that changes data the kept part
//! reads: a statement is kept when it binds, assigns or mutates a name the kept part uses, assigns a
//! field other than those listed in the unit (`sliceignore=`), or calls a `&mut self` method.
use crate::lost;
use crate::rewrite::{format_ident, pe};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const MUTATORS: &[&str] = &[
    "push", "push_str", "insert", "clear", "extend", "pop", "remove", "swap_remove", "sort", "sort_by", "sort_by_key", "sort_unstable",
    "sort_unstable_by", "sort_unstable_by_key", "retain", "truncate", "entry", "take", "replace", "swap", "reverse", "drain", "append",
    "dedup", "dedup_by_key", "resize", "rotate_left", "rotate_right", "fill", "get_or_insert", "get_or_insert_with", "as_mut", "iter_mut",
    "add_action", "insert_action_set", "last_mut", "first_mut", "split_off", "extend_from_slice", "set", "borrow_mut", "or_insert", "next",
];

#[derive(Default)]
struct Used(BTreeSet<String>);
impl<'a> Visit<'a> for Used {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.insert(i.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(ts: TokenStream, out: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    TokenTree::Ident(i) => {
                        out.insert(i.to_string());
                    }
                    TokenTree::Group(g) => go(g.stream(), out),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
    }
}
fn used_in(st: &Stmt) -> BTreeSet<String> {
    let mut u = Used::default();
    u.visit_stmt(st);
    u.0
}
fn used_expr(e: &Expr) -> BTreeSet<String> {
    let mut u = Used::default();
    u.visit_expr(e);
    u.0
}

/// root name of a place, and the last field (or index target) reached through it
fn place(e: &Expr) -> (Option<String>, Option<String>) {
    match e {
        Expr::Path(p) => (p.path.get_ident().map(|i| i.to_string()), None),
        Expr::Field(f) => {
            let (r, _) = place(&f.base);
            (r, Some(f.member.to_token_stream().to_string()))
        }
        Expr::Index(i) => place(&i.expr),
        Expr::MethodCall(m) => place(&m.receiver),
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(u) => place(&u.expr),
        Expr::Reference(r) => place(&r.expr),
        Expr::Try(t) => place(&t.expr),
        _ => (None, None),
    }
}

struct Effects<'x> {
    ignore: &'x BTreeSet<String>,
    mut_methods: &'x BTreeSet<String>,
    /// names that are mutated
    roots: BTreeSet<String>,
    /// a write that must not be dropped
    hard: bool,
}
impl Effects<'_> {
    fn write(&mut self, e: &Expr) {
        let (r, f) = place(e);
        if let Some(f) = &f {
            if self.ignore.contains(f) {
                return;
            }
        }
        match r {
            Some(r) if r == "self" => self.hard = true,
            Some(r) => {
                self.roots.insert(r);
            }
            None => self.hard = true,
        }
    }
}
impl<'a> Visit<'a> for Effects<'_> {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.write(&a.left);
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        use BinOp::*;
        if matches!(
            b.op,
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
        ) {
            self.write(&b.left);
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() {
            self.write(&r.expr);
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if let Expr::Path(p) = &*m.receiver {
            if p.path.is_ident("self") && self.mut_methods.contains(&n) {
                self.hard = true;
            }
        }
        if MUTATORS.contains(&n.as_str()) {
            self.write(&m.receiver);
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// names bound inside a statement to a place of `self` that can be written through
struct Aliases(BTreeSet<String>);
impl<'a> Visit<'a> for Aliases {
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            let t = i.expr.to_token_stream().to_string();
            if t.contains("get_mut") || t.contains("borrow_mut") || t.contains("& mut") || t.contains("iter_mut") {
                struct P<'y>(&'y mut BTreeSet<String>);
                impl<'b> Visit<'b> for P<'_> {
                    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                        self.0.insert(p.ident.to_string());
                    }
                }
                P(&mut self.0).visit_pat(&l.pat);
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        let t = f.expr.to_token_stream().to_string();
        if t.contains("mut") {
            struct P<'y>(&'y mut BTreeSet<String>);
            impl<'b> Visit<'b> for P<'_> {
                fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                    self.0.insert(p.ident.to_string());
                }
            }
            P(&mut self.0).visit_pat(&f.pat);
        }
        visit::visit_expr_for_loop(self, f);
    }
}
fn pat_names(p: &Pat) -> BTreeSet<String> {
    struct P(BTreeSet<String>);
    impl<'b> Visit<'b> for P {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.insert(p.ident.to_string());
        }
    }
    let mut v = P(Default::default());
    v.visit_pat(p);
    v.0
}
fn jumps(st: &Stmt) -> bool {
    struct J(bool);
    impl<'a> Visit<'a> for J {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut j = J(false);
    j.visit_stmt(st);
    j.0
}

#[derive(Clone)]
struct Emit {
    name: String,
    ty: String,
    val: String,
    list: bool,
}

/// the `const` and `static` items of a template
fn emits(ts: TokenStream) -> Vec<Emit> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    let is = |k: usize, c: char| matches!(t.get(k), Some(TokenTree::Punct(p)) if p.as_char() == c);
    let plain = |ts: &[TokenTree]| -> String {
        ts.iter()
            .filter(|x| !matches!(x, TokenTree::Punct(p) if p.as_char() == '#'))
            .map(|x| x.to_string())
            .collect::<Vec<_>>()
            .join(" ")
    };
    while i < t.len() {
        if let (TokenTree::Ident(k), Some(TokenTree::Ident(n))) = (&t[i], t.get(i + 1)) {
            if (k == "const" || k == "static") && is(i + 2, ':') {
                let mut e = i + 3;
                while e < t.len() && !is(e, '=') {
                    e += 1;
                }
                let mut z = e + 1;
                while z < t.len() && !is(z, ';') {
                    z += 1;
                }
                if z >= t.len() {
                    i += 1;
                    continue;
                }
                let (ty, val) = (&t[i + 3..e], &t[e + 1..z]);
                let mut list = false;
                let mut tys = plain(ty);
                let mut vals = plain(val);
                if let (1, TokenTree::Group(g)) = (ty.len(), &ty[0]) {
                    if g.delimiter() == Delimiter::Bracket {
                        list = true;
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let p = inner.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ';')).unwrap_or(inner.len());
                        tys = plain(&inner[..p]);
                        // [ #(#x),* ]
                        vals = String::new();
                        if let (1, Some(TokenTree::Group(v))) = (val.len(), val.first()) {
                            let iv: Vec<TokenTree> = v.stream().into_iter().collect();
                            if let (4, Some(TokenTree::Group(r))) = (iv.len(), iv.get(1)) {
                                let r: Vec<TokenTree> = r.stream().into_iter().collect();
                                if r.len() == 2 && iv[0].to_string() == "#" && iv[2].to_string() == "," && iv[3].to_string() == "*" {
                                    vals = plain(&r);
                                }
                            }
                        }
                    }
                }
                out.push(Emit { name: n.to_string(), ty: tys, val: vals, list });
                i = z;
            }
        }
        i += 1;
    }
    out
}

/// `src.extend(quote!(..))`
fn emission(st: &Stmt) -> Option<Vec<Emit>> {
    if let Stmt::Expr(Expr::MethodCall(m), _) = st {
        if m.method == "extend" && m.args.len() == 1 {
            if let Expr::Macro(q) = &m.args[0] {
                if q.mac.path.segments.last().unwrap().ident == "quote" {
                    return Some(emits(q.mac.tokens.clone()));
                }
            }
        }
    }
    None
}

struct Slice<'x> {
    live: BTreeSet<String>,
    ignore: &'x BTreeSet<String>,
    mut_methods: &'x BTreeSet<String>,
    targets: &'x [String],
}
impl Slice<'_> {
    fn wanted(&self, st: &Stmt) -> bool {
        if let Some(es) = emission(st) {
            return es.iter().any(|e| self.targets.contains(&e.name));
        }
        if let Stmt::Local(l) = st {
            if !pat_names(&l.pat).is_disjoint(&self.live) {
                return true;
            }
        }
        let mut al = Aliases(Default::default());
        al.visit_stmt(st);
        let mut ef = Effects { ignore: self.ignore, mut_methods: self.mut_methods, roots: Default::default(), hard: false };
        ef.visit_stmt(st);
        ef.hard || ef.roots.iter().any(|r| self.live.contains(r) || al.0.contains(r))
    }
    /// one pass; true when something new became live
    fn grow(&mut self, stmts: &[Stmt], in_loop: bool) -> bool {
        let n = self.live.len();
        for st in stmts {
            if let Some(es) = emission(st) {
                for e in es.iter().filter(|e| self.targets.contains(&e.name)) {
                    for t in [&e.ty, &e.val] {
                        if let Ok(x) = parse_str::<Expr>(t) {
                            self.live.extend(used_expr(&x));
                        }
                    }
                }
                continue;
            }
            if !(self.wanted(st) || in_loop && jumps(st)) {
                continue;
            }
            match st {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    self.live.extend(used_expr(&f.expr));
                    self.grow(&f.body.stmts, true);
                }
                st => self.live.extend(used_in(st)),
            }
        }
        self.live.len() != n
    }
    fn keep(&self, stmts: Vec<Stmt>, in_loop: bool) -> Vec<Stmt> {
        let mut out = vec![];
        for st in stmts {
            if let Some(es) = emission(&st) {
                for e in es.iter().filter(|e| self.targets.contains(&e.name)) {
                    let f = format_ident(&e.name);
                    let ft = format_ident(&format!("{}_ty", e.name));
                    let v: Expr = parse_str(&e.val).unwrap_or_else(|_| lost(format!("value of {}", e.name)));
                    let ty: Expr = match e.ty.as_str() {
                        "i8" | "i16" | "i32" | "u8" | "u16" | "u32" | "usize" => pe(&format!("VxIntTy::{}", e.ty)),
                        t => parse_str(&format!("{t}.vx_clone()")).unwrap_or_else(|_| lost(format!("type of {}", e.name))),
                    };
                    // `#n as i32` writes n
                    let v = match v {
                        Expr::Cast(c) => *c.expr,
                        v => v,
                    };
                    let v: Expr = if e.list { v } else { parse_quote!((#v) as i128) };
                    out.push(parse_quote!(vx_out.#f = #v;));
                    out.push(parse_quote!(vx_out.#ft = #ty;));
                }
                continue;
            }
            if !(self.wanted(&st) || in_loop && jumps(&st)) {
                continue;
            }
            match st {
                Stmt::Expr(Expr::ForLoop(mut f), s) => {
                    f.body.stmts = self.keep(f.body.stmts, true);
                    out.push(Stmt::Expr(Expr::ForLoop(f), s));
                }
                st => out.push(st),
            }
        }
        out
    }
}

pub fn slice(block: &mut Block, targets: &[String], ignore: &[String], mut_methods: &BTreeSet<String>) {
    let ignore: BTreeSet<String> = ignore.iter().cloned().collect();
    let all: Vec<String> = block.stmts.iter().filter_map(emission).flatten().map(|e| e.name).collect();
    for t in targets {
        if all.iter().filter(|a| *a == t).count() != 1 {
            lost(format!("emission of {t}"));
        }
    }
    let mut stmts = std::mem::take(&mut block.stmts);
    stmts.pop(); // Ok(src)
    let mut sl = Slice { live: Default::default(), ignore: &ignore, mut_methods, targets };
    while sl.grow(&stmts, false) {}
    let kept = sl.keep(stmts, false);
    block.stmts.push(parse_quote!(let mut vx_out = vx_out_new();));
    block.stmts.extend(kept);
    block.stmts.push(Stmt::Expr(parse_quote!(Ok(vx_out)), None));
    Lits.visit_block_mut(block);
}

/// Literal::usize_unsuffixed(x) and the like: the number itself
struct Lits;
impl VisitMut for Lits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string().starts_with("Literal ::") && c.args.len() == 1 {
                let a = c.args[0].clone();
                *e = parse_quote!((#a) as i128);
            }
        }
    }
}
