//! The rewriting rules.  Every rule is syntactic and applied to the whole extracted text; see
//! DESIGN.md ("What the extraction changes") for the list.
use crate::unit::FnSpec;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum Bind {
    Plain,
    /// the name stands for a place (element of a VecRef, or a RefCell's content)
    Alias(Expr),
    /// the name is the index of a RefCell inside the given vector
    Cell(Expr),
}

pub struct Rw<'a> {
    spec: &'a FnSpec,
    env: Vec<Vec<(String, Bind)>>,
    nloop: usize,
    nsort: usize,
    nret: usize,
    tmp: usize,
    lets: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
    assigns: BTreeMap<String, usize>,
    ifs: usize,
    pub used: Vec<String>,
    pub notes: &'a mut Vec<String>,
    pub extra_fns: Vec<String>,
    pub tmpl: bool,
    cells_in_scope: Vec<Expr>,
}

fn s(e: &impl ToTokens) -> String {
    e.to_token_stream().to_string()
}
pub fn pe(t: &str) -> Expr {
    parse_str(t).unwrap_or_else(|e| panic!("{e}: {t}"))
}
fn ps(t: &str) -> Vec<Stmt> {
    let b: Block = parse_str(&format!("{{ {t} }}")).unwrap_or_else(|e| panic!("{e}: {t}"));
    b.stmts
}

const VECREFS: &[&str] = &["the_symbols", "the_states", "the_rules", "the_configs"];

fn is_vecref(e: &Expr) -> Option<String> {
    match e {
        Expr::Field(f) => match &f.member {
            Member::Named(i) if VECREFS.contains(&i.to_string().as_str()) => Some(i.to_string()),
            _ => None,
        },
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|i| VECREFS.contains(&i.as_str())),
        Expr::Paren(p) => is_vecref(&p.expr),
        Expr::Reference(r) => is_vecref(&r.expr),
        _ => None,
    }
}

fn strip(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => strip(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => strip(expr),
        Expr::Paren(p) => strip(&p.expr),
        _ => e.clone(),
    }
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> Visit<'a> for V<'b> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    V(out).visit_pat(p);
}

/// X in X.data[i]..., X a collection of cells
fn cell_collection(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Field(f) => {
            if let (Expr::Field(_), Member::Named(m)) = (&*f.base, &f.member) {
                if m == "data" && is_vecref(&f.base).is_some() {
                    return Some((*f.base).clone());
                }
            }
            cell_collection(&f.base)
        }
        Expr::Index(i) => cell_collection(&i.expr),
        Expr::Paren(p) => cell_collection(&p.expr),
        _ => None,
    }
}
/// replaces X by a name in the executable text of a block; Some if it occurs
fn snapshot_reads(b: &mut Block, coll: &Expr) -> Option<(Ident, Expr)> {
    struct V<'a>(&'a Expr, Ident, bool);
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if e == self.0 {
                let i = &self.1;
                *e = parse_quote!(#i);
                self.2 = true;
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = V(coll, format_ident("vx_pre"), false);
    v.visit_block_mut(b);
    if v.2 { Some((v.1, coll.clone())) } else { None }
}

fn derefs_name(b: &Block, n: &Ident) -> bool {
    struct V<'a>(&'a Ident, bool);
    impl<'a, 'x> Visit<'x> for V<'a> {
        fn visit_expr_unary(&mut self, u: &'x ExprUnary) {
            if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                if p.path.is_ident(self.0) {
                    self.1 = true;
                }
            }
            visit::visit_expr_unary(self, u);
        }
    }
    let mut v = V(n, false);
    v.visit_block(b);
    v.1
}

/// calls made by the statement itself, not by blocks nested in it
fn shallow_calls(st: &Stmt) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_block(&mut self, _: &'a Block) {}
        fn visit_expr_match(&mut self, m: &'a ExprMatch) {
            self.visit_expr(&m.expr);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.0.push(m.method.to_string());
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, m: &'a ExprCall) {
            if let Expr::Path(p) = &*m.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            visit::visit_expr_call(self, m);
        }
    }
    let mut v = V(vec![]);
    v.visit_stmt(st);
    v.0
}

pub struct TyRw;
impl VisitMut for TyRw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let seg = p.path.segments.last().unwrap().clone();
            let name = seg.ident.to_string();
            let arg = match &seg.arguments {
                PathArguments::AngleBracketed(a) => a.args.first().cloned(),
                _ => None,
            };
            match (name.as_str(), arg) {
                ("RefCell", Some(GenericArgument::Type(a))) => *t = a,
                ("VecRefId", Some(GenericArgument::Type(a))) => {
                    let n = s(&a);
                    *t = parse_str(&format!("{n}Id")).unwrap();
                }
                ("BTreeSet", _) => *t = parse_quote!(RuleSet),
                ("YYStack", Some(GenericArgument::Type(a))) => *t = parse_quote!(Vec<#a>),
                ("Result", Some(GenericArgument::Type(a))) => {
                    if s(&p.path).replace(' ', "").starts_with("syn::") {
                        *t = parse_quote!(VResult<#a>)
                    } else {
                        let b = match &seg.arguments {
                            PathArguments::AngleBracketed(x) => x.clone(),
                            _ => unreachable!(),
                        };
                        *t = parse_quote!(Result #b)
                    }
                }
                _ => {}
            }
        }
    }
}

impl<'a> Rw<'a> {
    pub fn new(spec: &'a FnSpec, notes: &'a mut Vec<String>, tmpl: bool) -> Self {
        Rw {
            spec,
            env: vec![vec![]],
            nloop: 0,
            nsort: 0,
            nret: 0,
            tmp: 0,
            lets: BTreeMap::new(),
            calls: BTreeMap::new(),
            assigns: BTreeMap::new(),
            ifs: 0,
            used: vec![],
            notes,
            extra_fns: vec![],
            tmpl,
            cells_in_scope: vec![],
        }
    }
    fn note(&mut self, key: &str) -> Option<usize> {
        let mut text = String::new();
        let mut any = false;
        for (k, t) in &self.spec.notes {
            if k == key {
                any = true;
                text.push_str(t);
            }
        }
        if !any {
            return None;
        }
        self.used.push(key.to_string());
        self.notes.push(text);
        Some(self.notes.len() - 1)
    }
    fn note_stmt(&mut self, key: &str) -> Vec<Stmt> {
        match self.note(key) {
            Some(k) => ps(&format!("vx_note!({k});")),
            None => vec![],
        }
    }
    /// notes at the `break`s (`at-break N`) and `continue`s (`at-continue N`) that leave a round of
    /// loop N itself
    fn note_exits(&mut self, n: usize, body: &mut Vec<Stmt>) {
        struct V {
            brk: Vec<Stmt>,
            cont: Vec<Stmt>,
        }
        impl V {
            fn splice(&mut self, v: &mut Vec<Stmt>) {
                for st in std::mem::take(v) {
                    match &st {
                        Stmt::Expr(Expr::Break(b), _) if b.label.is_none() && b.expr.is_none() => {
                            v.extend(self.brk.clone());
                            v.push(st);
                        }
                        Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() => {
                            v.extend(self.cont.clone());
                            v.push(st);
                        }
                        _ => {
                            let mut st = st;
                            self.visit_stmt_mut(&mut st);
                            v.push(st);
                        }
                    }
                }
            }
        }
        impl VisitMut for V {
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.splice(&mut b.stmts);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                    Expr::Break(b) if b.label.is_none() && b.expr.is_none() && !self.brk.is_empty() => {
                        let x = &self.brk;
                        *e = parse_quote!({ #(#x)* break; });
                    }
                    Expr::Continue(c) if c.label.is_none() && !self.cont.is_empty() => {
                        let x = &self.cont;
                        *e = parse_quote!({ #(#x)* continue; });
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut v = V { brk: self.note_stmt(&format!("at-break {n}")), cont: self.note_stmt(&format!("at-continue {n}")) };
        v.splice(body);
    }
    fn push(&mut self) {
        self.env.push(vec![]);
    }
    fn pop(&mut self) {
        self.env.pop();
    }
    fn bind(&mut self, n: &str, b: Bind) {
        self.env.last_mut().unwrap().push((n.to_string(), b));
    }
    fn lookup(&self, n: &str) -> Bind {
        for sc in self.env.iter().rev() {
            for (k, b) in sc.iter().rev() {
                if k == n {
                    return b.clone();
                }
            }
        }
        Bind::Plain
    }
    fn bind_pat_plain(&mut self, p: &Pat) {
        let mut v = vec![];
        pat_names(p, &mut v);
        for n in v {
            self.bind(&n, Bind::Plain);
        }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("vx_{p}{}", self.tmp)
    }

    /// place expression for `X.get(a)` / `X.get_mut(a)` (X a VecRef); arguments already rewritten
    fn vecref_place(recv: &Expr, arg: &Expr) -> Expr {
        let a = strip(arg);
        let r = strip(recv);
        parse_quote!(#r.data[#a.id])
    }
    fn vecref_get(e: &Expr) -> Option<(Expr, Expr, bool, String)> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if (n == "get" || n == "get_mut") && m.args.len() == 1 {
                if let Some(v) = is_vecref(&m.receiver) {
                    return Some(((*m.receiver).clone(), m.args[0].clone(), n == "get_mut", v));
                }
            }
        }
        None
    }
    fn borrow_call(e: &Expr) -> Option<Expr> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if (n == "borrow" || n == "borrow_mut") && m.args.is_empty() {
                return Some((*m.receiver).clone());
            }
        }
        None
    }
    /// the place a RefCell handle stands for
    fn cell_place(&mut self, recv: &Expr) -> Option<Expr> {
        if let Expr::Path(p) = recv {
            if let Some(i) = p.path.get_ident() {
                match self.lookup(&i.to_string()) {
                    Bind::Cell(c) => return Some(parse_quote!(#c[#i])),
                    Bind::Alias(a) => return Some(a),
                    Bind::Plain => {}
                }
            }
        }
        None
    }

    // ---------------------------------------------------------------- loops
    /// Describe an iteration source.
    fn iter_src(&mut self, e: &Expr) -> Iter {
        match e {
            Expr::Paren(p) => self.iter_src(&p.expr),
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        return Iter::slice(&ix.expr, rg);
                    }
                }
                Iter::vec(strip(e), true)
            }
            Expr::Range(r) => Iter {
                kind: Kind::Range,
                base: pe("()"),
                lo: *r.start.clone().unwrap(),
                hi: Some(match (&r.limits, r.end.clone().unwrap()) {
                    (RangeLimits::HalfOpen(_), b) => *b,
                    (RangeLimits::Closed(_), b) => {
                        let b = *b;
                        parse_quote!(#b + 1)
                    }
                }),
                byref: false,
                enumerate: false,
                rev: false,
                zip: None,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" => {
                        if let Expr::Index(ix) = &*m.receiver {
                            if let Expr::Range(rg) = &*ix.index {
                                return Iter::slice(&ix.expr, rg);
                            }
                        }
                        Iter::vec((*m.receiver).clone(), true)
                    }
                    "into_iter" => Iter::vec((*m.receiver).clone(), false),
                    "enumerate" => {
                        let mut i = self.iter_src(&m.receiver);
                        if i.rev {
                            crate::lost("enumerate after rev");
                        }
                        i.enumerate = true;
                        i
                    }
                    "rev" => {
                        let mut i = self.iter_src(&m.receiver);
                        i.rev = true;
                        i
                    }
                    "zip" => {
                        let mut i = self.iter_src(&m.receiver);
                        let j = self.iter_src(&m.args[0]);
                        i.zip = Some(Box::new(j));
                        i
                    }
                    _ => crate::lost(format!("iterator {}", s(e))),
                }
            }
            Expr::Path(_) | Expr::Field(_) => Iter::vec(e.clone(), false),
            _ => crate::lost(format!("iterator {}", s(e))),
        }
    }

    /// Build an index loop.  `pat` is bound to the element, then `body` runs.
    /// `body` is not yet rewritten.
    fn build_loop(&mut self, it: Iter, pat: &Pat, body: Vec<Stmt>, label: Option<Label>) -> (Vec<Stmt>, usize) {
        self.nloop += 1;
        let n = self.nloop;
        let iv = format_ident(&format!("vx_i{n}"));
        let ev = format_ident(&format!("vx_e{n}"));
        let mut it = it;
        // does it iterate over cells?
        let is_cells = |b: &Expr| matches!(b, Expr::Field(f) if matches!(&f.member, Member::Named(i) if i == "actions"));
        let cells = it.kind == Kind::Vec && is_cells(&it.base);
        self.visit_expr_mut(&mut it.base);
        self.visit_expr_mut(&mut it.lo);
        if let Some(h) = &mut it.hi {
            self.visit_expr_mut(h);
        }
        if let Some(z) = &mut it.zip {
            let mut b = z.base.clone();
            self.visit_expr_mut(&mut b);
            z.base = b;
        }
        let lo = it.lo.clone();
        let base = it.base.clone();
        let mut out: Vec<Stmt> = self.note_stmt(&format!("before {n}"));
        // `for x in v` gives references where v is itself one (a name bound by a reference pattern)
        let derefs = match pat {
            Pat::Ident(pi) => {
                let b = Block { brace_token: Default::default(), stmts: body.clone() };
                derefs_name(&b, &pi.ident)
            }
            _ => false,
        };
        let byval = !it.byref && it.kind == Kind::Vec && !cells && !derefs;
        let hi: Expr = match &it.hi {
            Some(h) => h.clone(),
            None => parse_quote!(#base.len()),
        };
        let fixed_hi = it.kind == Kind::Range || it.hi.is_some();
        // prelude + condition + element expression
        let mut body_pre: Vec<Stmt> = vec![];
        let cond: Expr;
        if !it.rev {
            out.extend(ps(&format!("let mut {iv}: usize = {};", s(&lo))));
            if fixed_hi {
                out.extend(ps(&format!("let {ev}: usize = {};", s(&hi))));
                cond = parse_quote!(#iv < #ev);
            } else if let Some(z) = &it.zip {
                let zb = &z.base;
                cond = parse_quote!(#iv < #base.len() && #iv < #zb.len());
            } else {
                cond = parse_quote!(#iv < #base.len());
            }
        } else {
            out.extend(ps(&format!("let mut {iv}: usize = {};", s(&hi))));
            out.extend(ps(&format!("let {ev}: usize = {};", s(&lo))));
            cond = parse_quote!(#iv > #ev);
            body_pre.extend(ps(&format!("{iv} = {iv} - 1;")));
        }
        let zero = !fixed_hi || true;
        let _ = zero;
        let idx: Expr = parse_quote!(#iv);
        self.push();
        // the elements of a cell whose collection the body writes to (to other cells: the dynamic
        // borrow check sees to that)
        let snap_elem = match cell_collection(&base) {
            Some(Expr::Field(f)) => {
                let m = match &f.member {
                    Member::Named(m) => m.to_string(),
                    _ => String::new(),
                };
                let b = Block { brace_token: Default::default(), stmts: body.clone() };
                s(&b).replace([' ', '\n'], "").contains(&format!("{m}.get_mut("))
            }
            _ => false,
        };
        // bind
        let mut bind_one = |me: &mut Self, p: &Pat, idx: &Expr, base: &Expr, byval: bool, cells: bool, kind: Kind, out: &mut Vec<Stmt>| {
            if let Pat::Wild(_) = p {
                return;
            }
            if kind == Kind::Range {
                me.bind_pat_plain(p);
                let p2 = p.clone();
                out.push(parse_quote!(let #p2 = #idx;));
            } else if cells {
                match p {
                    Pat::Ident(pi) => {
                        let id = pi.ident.clone();
                        out.push(parse_quote!(let #id: usize = #idx;));
                        me.bind(&id.to_string(), Bind::Cell(base.clone()));
                        me.cells_in_scope.push(base.clone());
                    }
                    _ => crate::lost("pattern over cells"),
                }
            } else if byval {
                me.bind_pat_plain(p);
                let p2 = p.clone();
                if me.spec.opts.contains_key("front") {
                    out.push(parse_quote!(let #p2 = vx_snap(&#base[#idx]);));
                } else {
                    out.push(parse_quote!(let #p2 = #base[#idx];));
                }
            } else {
                me.bind_pat_plain(p);
                let p2 = p.clone();
                if snap_elem {
                    out.push(parse_quote!(let #p2 = &vx_snap(&#base[#idx]);));
                } else {
                    out.push(parse_quote!(let #p2 = &#base[#idx];));
                }
            }
        };
        let mut binds = vec![];
        if it.enumerate {
            match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    let p0 = t.elems[0].clone();
                    if !matches!(p0, Pat::Wild(_)) {
                        self.bind_pat_plain(&p0);
                        binds.push(parse_quote!(let #p0 = #idx;));
                    }
                    let p1 = t.elems[1].clone();
                    bind_one(self, &p1, &idx, &base, byval, cells, it.kind, &mut binds);
                }
                _ => crate::lost("enumerate pattern"),
            }
        } else if let Some(z) = &it.zip {
            match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    bind_one(self, &t.elems[0], &idx, &base, byval, cells, it.kind, &mut binds);
                    bind_one(self, &t.elems[1], &idx, &z.base, !z.byref, false, z.kind, &mut binds);
                }
                _ => crate::lost("zip pattern"),
            }
        } else {
            bind_one(self, pat, &idx, &base, byval, cells, it.kind, &mut binds);
        }
        body_pre.extend(binds);
        if !it.rev {
            body_pre.extend(ps(&format!("{iv} = {iv} + 1;")));
        }
        let mut stmts: Vec<Stmt> = vec![];
        if let Some(k) = self.note(&format!("loop {n}")) {
            stmts.extend(ps(&format!("vx_loop!({k});")));
        }
        stmts.extend(body_pre);
        stmts.extend(self.note_stmt(&format!("head {n}")));
        let mut b: Block = Block { brace_token: Default::default(), stmts: body };
        // a tail expression of a loop body is a statement
        self.visit_block_mut(&mut b);
        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        self.note_exits(n, &mut b.stmts);
        stmts.extend(b.stmts);
        stmts.extend(self.note_stmt(&format!("tail {n}")));
        self.pop();
        let bb = Block { brace_token: Default::default(), stmts };
        let w = Expr::While(ExprWhile {
            attrs: vec![],
            label,
            while_token: Default::default(),
            cond: Box::new(cond),
            body: bb,
        });
        out.push(Stmt::Expr(w, None));
        out.extend(self.note_stmt(&format!("after {n}")));
        (out, n)
    }

    fn closure1(&self, e: &Expr) -> (Pat, Vec<Stmt>, Expr) {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut stmts = vec![];
                let val = match &*c.body {
                    Expr::Block(b) if b.label.is_none() => {
                        let mut ss = b.block.stmts.clone();
                        match ss.pop() {
                            Some(Stmt::Expr(e, None)) => {
                                stmts = ss;
                                e
                            }
                            _ => crate::lost("closure without tail"),
                        }
                    }
                    e => e.clone(),
                };
                (c.inputs[0].clone(), stmts, val)
            }
            _ => crate::lost(format!("closure expected: {}", s(e))),
        }
    }

    /// `return x` inside a closure body becomes `{ r = x; break/continue }`: only supported through
    /// a labelled block, so we turn closures with `return` into a helper local evaluated by a loop.
    fn has_return(st: &[Stmt], e: &Expr) -> bool {
        struct V(bool);
        impl<'x> Visit<'x> for V {
            fn visit_expr_return(&mut self, _: &'x ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
        }
        let mut v = V(false);
        for x in st {
            v.visit_stmt(x);
        }
        v.visit_expr(e);
        v.0
    }
    fn replace_return(st: &mut Vec<Stmt>, var: &Ident, lab: &Lifetime) {
        struct V<'x>(&'x Ident, &'x Lifetime);
        impl<'x> VisitMut for V<'x> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Return(r) = e {
                    let v = r.expr.clone().unwrap();
                    let (var, lab) = (self.0, self.1);
                    *e = parse_quote!({ #var = #v; break #lab; });
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        let mut v = V(var, lab);
        for x in st {
            v.visit_stmt_mut(x);
        }
    }

    /// Desugar `.find_map/.find/.position/.rposition/.any/.all` with a closure.
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !["find_map", "find", "position", "rposition", "any", "all"].contains(&n.as_str()) || m.args.len() != 1 {
            return None;
        }
        if !matches!(m.args[0], Expr::Closure(_)) {
            return None;
        }
        let mut it = self.iter_src(&m.receiver);
        if n == "rposition" {
            it.rev = true;
        }
        let (mut pat, mut st, mut val) = self.closure1(&m.args[0]);
        if n == "find" {
            // closure takes a reference to the item: `|s|` with s: &&T; body uses auto-deref or *s
            if let Pat::Reference(r) = &pat {
                pat = (*r.pat).clone();
            }
        }
        if Self::has_return(&st, &val) {
            // evaluate the closure body inside a one-shot labelled loop
            let v = format_ident(&self.fresh("c"));
            let lab: Lifetime = parse_str(&format!("'{v}")).unwrap();
            Self::replace_return(&mut st, &v, &lab);
            let mut inner = st.clone();
            inner.push(parse_quote!(#v = #val;));
            inner.push(parse_quote!(break #lab;));
            let ty: Type = parse_quote!(bool);
            st = vec![
                parse_quote!(let mut #v: #ty = false;),
                Stmt::Expr(parse_quote!(#lab: loop { #(#inner)* }), None),
            ];
            val = parse_quote!(#v);
        }
        let r = format_ident(&self.fresh("r"));
        let (init, fin): (Expr, Vec<Stmt>) = match n.as_str() {
            "find_map" => (parse_quote!(None), vec![parse_quote!(if let Some(vx_v) = #val { #r = Some(vx_v); break; })]),
            "find" => {
                let mut names = vec![];
                pat_names(&pat, &mut names);
                let p = format_ident(&names[0]);
                (parse_quote!(None), vec![parse_quote!(if #val { #r = Some(#p); break; })])
            }
            "position" | "rposition" => {
                let iv = format_ident(&format!("vx_i{}", self.nloop + 1));
                let e: Expr = if n == "position" { parse_quote!(#iv - 1) } else { parse_quote!(#iv) };
                (parse_quote!(None), vec![parse_quote!(if #val { #r = Some(#e); break; })])
            }
            "any" => (parse_quote!(false), vec![parse_quote!(if #val { #r = true; break; })]),
            "all" => (parse_quote!(true), vec![parse_quote!(if !(#val) { #r = false; break; })]),
            _ => unreachable!(),
        };
        let mut body = st;
        body.extend(fin);
        // `let mut r = init;` is written inside the block
        let (mut out, _) = self.build_loop(it, &pat, body, None);
        let mut stmts: Vec<Stmt> = vec![match n.as_str() {
            "position" | "rposition" => parse_quote!(let mut #r: Option<usize> = #init;),
            _ => {
                let key = format!("let-type {r}");
                match self.spec.notes.iter().find(|(k, _)| *k == key) {
                    Some((k, t)) => {
                        self.used.push(k.clone());
                        let ty: Type = parse_str(t.trim()).unwrap();
                        parse_quote!(let mut #r: #ty = #init;)
                    }
                    None => parse_quote!(let mut #r = #init;),
                }
            }
        }];
        stmts.append(&mut out);
        stmts.push(Stmt::Expr(parse_quote!(#r), None));
        Some(parse_quote!({ #(#stmts)* }))
    }

    /// `.iter().map(|p| e).map(Literal::x)` and `.iter().map(|p| r).collect::<Result<..>>()?` as loops
    /// that push to a vector
    fn map_chain(&mut self, e: &Expr) -> Option<Expr> {
        let map_of = |e: &Expr| -> Option<(Expr, Expr)> {
            if let Expr::MethodCall(m) = e {
                if m.method == "map" && m.args.len() == 1 {
                    return Some(((*m.receiver).clone(), m.args[0].clone()));
                }
            }
            None
        };
        let (src, clos, fallible) = match e {
            Expr::MethodCall(m) if m.method == "map" => {
                let (r, p) = map_of(e)?;
                if !s(&p).starts_with("Literal ::") {
                    return None;
                }
                let (it, c) = map_of(&r)?;
                (it, c, false)
            }
            Expr::Try(t) => match &*t.expr {
                Expr::MethodCall(m) if m.method == "collect" && s(&m.turbofish).contains("Result") => {
                    let (it, c) = map_of(&m.receiver)?;
                    (it, c, true)
                }
                _ => return None,
            },
            _ => return None,
        };
        let it = self.iter_src(&src);
        let (pat, mut st, val) = self.closure1(&clos);
        let v = format_ident(&self.fresh("m"));
        if fallible {
            st.push(parse_quote!(match #val { Ok(vx_x) => #v.push((vx_x) as i128), Err(vx_x) => return Err(vx_x) }));
        } else {
            st.push(parse_quote!(#v.push((#val) as i128);));
        }
        let (out, _) = self.build_loop(it, &pat, st, None);
        Some(parse_quote!({ let mut #v: Vec<i128> = Vec::new(); #(#out)* #v }))
    }

    fn do_let(&mut self, l: &mut Local, out: &mut Vec<Stmt>) {
        let name = match &l.pat {
            Pat::Ident(pi) if pi.by_ref.is_none() && pi.subpat.is_none() => Some(pi.ident.to_string()),
            _ => None,
        };
        if let (Some(name), Some(init)) = (&name, &l.init) {
            let init_e = (*init.expr).clone();
            // let x = V.get(a) / V.get_mut(a)
            if let Some((recv, arg, is_mut, which)) = Self::vecref_get(&init_e) {
                let mut recv = recv;
                let mut arg = strip(&arg);
                self.visit_expr_mut(&mut recv);
                self.visit_expr_mut(&mut arg);
                let recv = strip(&recv);
                if is_mut || which == "the_states" {
                    let idn = format_ident(&format!("{name}__id"));
                    out.push(parse_quote!(let #idn: usize = #arg.id;));
                    self.bind(name, Bind::Alias(parse_quote!(#recv.data[#idn])));
                } else {
                    let id = format_ident(name);
                    out.push(parse_quote!(let #id = vx_snap(&#recv.data[#arg.id]);));
                    self.bind(name, Bind::Plain);
                }
                return;
            }
            // let x = cell.borrow() / borrow_mut()
            if let Some(r) = Self::borrow_call(&init_e) {
                if let Some(p) = self.cell_place(&r) {
                    // freeze: the index variable may be shadowed by this very let
                    if let (Bind::Cell(c), Expr::Path(pp)) = (
                        match &r {
                            Expr::Path(pp) => self.lookup(&s(pp)),
                            _ => Bind::Plain,
                        },
                        &r,
                    ) {
                        let i = pp.path.get_ident().unwrap();
                        let idn = format_ident(&format!("{name}__ix"));
                        out.push(parse_quote!(let #idn: usize = #i;));
                        self.bind(name, Bind::Alias(parse_quote!(#c[#idn])));
                    } else {
                        self.bind(name, Bind::Alias(p));
                    }
                    return;
                }
            }
            // let x = &place_of_cells[i]  (handle of a RefCell)
            if let Expr::Reference(rf) = &init_e {
                if let Expr::Index(ix) = &*rf.expr {
                    if matches!(&*ix.expr, Expr::Field(f) if matches!(&f.member, Member::Named(i) if i == "actions"))
                        && !matches!(&*ix.index, Expr::Range(_))
                    {
                        let mut b = (*ix.expr).clone();
                        let mut i = (*ix.index).clone();
                        self.visit_expr_mut(&mut b);
                        self.visit_expr_mut(&mut i);
                        let id = format_ident(name);
                        out.push(parse_quote!(let #id: usize = #i;));
                        self.bind(name, Bind::Cell(b.clone()));
                        self.cells_in_scope.push(b);
                        return;
                    }
                }
            }
        }
        if let Some(init) = &mut l.init {
            self.visit_expr_mut(&mut init.expr);
            if let Some((_, d)) = &mut init.diverge {
                self.visit_expr_mut(d);
            }
        }
        if let Pat::Type(t) = &mut l.pat {
            TyRw.visit_type_mut(&mut t.ty);
        }
        self.bind_pat_plain(&l.pat);
        if let Some(n) = &name {
            if let Some(t) = self.spec.notes.iter().find(|(k, _)| k == &format!("let-type {n}") && !self.used.contains(k)) {
                self.used.push(t.0.clone());
                let ty: Type = parse_str(t.1.trim()).unwrap();
                let p = l.pat.clone();
                l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(ty) });
            }
        }
        out.push(Stmt::Local(l.clone()));
    }

    fn default_block(&mut self, b: &mut Block) {
        self.push();
        let ncells = self.cells_in_scope.len();
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let n = stmts.len();
        for (si, mut st) in stmts.into_iter().enumerate() {
            // anchors by call name
            let calls = shallow_calls(&st);
            let mut after_keys = vec![];
            for c in calls {
                let k = self.calls.entry(c.clone()).or_insert(0);
                *k += 1;
                let k = *k;
                for suffix in [format!("{c}"), format!("{c}#{k}")] {
                    if k > 1 && suffix == c {
                        continue;
                    }
                    out.extend(self.note_stmt(&format!("before-call {suffix}")));
                    after_keys.push(format!("after-call {suffix}"));
                }
            }
            if let Stmt::Expr(Expr::If(_), _) = &st {
                self.ifs += 1;
                let k = self.ifs;
                out.extend(self.note_stmt(&format!("before-if {k}")));
                after_keys.push(format!("after-if {k}"));
            }
            if let Stmt::Expr(Expr::Assign(a), _) = &st {
                let nm = s(&a.left).replace(' ', "");
                let k = self.assigns.entry(nm.clone()).or_insert(0);
                *k += 1;
                let k = *k;
                out.extend(self.note_stmt(&format!("before-assign {nm}#{k}")));
                after_keys.push(format!("after-assign {nm}#{k}"));
            }
            if let Stmt::Expr(Expr::Return(_), _) = &st {
                self.nret += 1;
                let k = self.nret;
                out.extend(self.note_stmt(&format!("before-return {k}")));
            }
            match &mut st {
                Stmt::Local(l) => {
                    let mut names = vec![];
                    pat_names(&l.pat, &mut names);
                    self.do_let(l, &mut out);
                    for nm in names {
                        let k = self.lets.entry(nm.clone()).or_insert(0);
                        *k += 1;
                        let k = *k;
                        if k == 1 {
                            let x = self.note_stmt(&format!("after-let {nm}"));
                            out.extend(x);
                        }
                        let x = self.note_stmt(&format!("after-let {nm}#{k}"));
                        out.extend(x);
                    }
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => out.push(st),
                Stmt::Expr(e, semi) => {
                    // drop(x)
                    if let Expr::Call(c) = &*e {
                        if s(&c.func) == "drop" {
                            continue;
                        }
                    }
                    // for loops in statement position
                    if let Expr::ForLoop(f) = &*e {
                        let f = f.clone();
                        let it = self.iter_src(&f.expr);
                        let (v, _) = self.build_loop(it, &f.pat, f.body.stmts, f.label);
                        let _ = &semi;
                        out.extend(v);
                    } else if let Expr::While(_) | Expr::Loop(_) = &*e {
                        let v = self.while_loop(e.clone());
                        out.extend(v);
                    } else if let Expr::Closure(_) = &*e {
                        crate::lost("closure statement");
                    } else {
                        let is_tail = si + 1 == n && semi.is_none();
                        self.visit_expr_mut(e);
                        let mut sm = semi.clone();
                        if !is_tail && sm.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::Unsafe(_)) {
                            sm = Some(Default::default());
                        }
                        out.push(Stmt::Expr(e.clone(), sm));
                    }
                }
                Stmt::Macro(m) => {
                    let has_semi = m.semi_token.is_some();
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    self.visit_expr_mut(&mut e);
                    let semi = if has_semi || si + 1 != n { Some(Default::default()) } else { None };
                    if semi.is_some() && s(&e).replace(' ', "") == "vx_lifecycle_panic(yy)" {
                        e = pe("vx_lifecycle_panic::<()>(yy)");
                    }
                    if semi.is_some() && s(&e).replace(' ', "") == "vx_unreachable()" {
                        e = pe("vx_unreachable::<()>()");
                    }
                    if !s(&e).trim().is_empty() && s(&e) != "()" {
                        out.push(Stmt::Expr(e, semi));
                    }
                }
            }
            for k in after_keys {
                let x = self.note_stmt(&k);
                if !x.is_empty() {
                    // a tail expression cannot be followed by a note
                    if let Some(Stmt::Expr(_, semi @ None)) = out.last_mut() {
                        *semi = Some(Default::default());
                    }
                    out.extend(x);
                }
            }
        }
        b.stmts = out;
        self.cells_in_scope.truncate(ncells);
        self.pop();
    }

    fn while_loop(&mut self, e: Expr) -> Vec<Stmt> {
        self.nloop += 1;
        let n = self.nloop;
        let mut out = self.note_stmt(&format!("before {n}"));
        let (label, cond, mut body) = match e {
            Expr::While(w) => (w.label, Some(*w.cond), w.body),
            Expr::Loop(l) => (l.label, None, l.body),
            _ => unreachable!(),
        };
        let mut pre = vec![];
        if let Some(k) = self.note(&format!("loop {n}")) {
            pre.extend(ps(&format!("vx_loop!({k});")));
        }
        let head = self.note_stmt(&format!("head {n}"));
        self.push();
        let ex: Expr = match cond {
            Some(Expr::Let(l)) => {
                // while let PAT = E { B }  =>  loop { match E { PAT => {B}, _ => break } }
                let mut sc = *l.expr;
                self.visit_expr_mut(&mut sc);
                self.bind_pat_plain(&l.pat);
                let pat = l.pat;
                self.visit_block_mut(&mut body);
                self.note_exits(n, &mut body.stmts);
                let tail = self.note_stmt(&format!("tail {n}"));
                let stmts = body.stmts;
                let brk = self.note_stmt(&format!("before-break {n}"));
                parse_quote!(#label loop { #(#pre)* match #sc { #pat => { #(#head)* #(#stmts)* #(#tail)* } _ => { #(#brk)* break; } } })
            }
            Some(mut c) => {
                self.visit_expr_mut(&mut c);
                self.visit_block_mut(&mut body);
                self.note_exits(n, &mut body.stmts);
                let tail = self.note_stmt(&format!("tail {n}"));
                let stmts = body.stmts;
                parse_quote!(#label while #c { #(#pre)* #(#head)* #(#stmts)* #(#tail)* })
            }
            None => {
                self.visit_block_mut(&mut body);
                self.note_exits(n, &mut body.stmts);
                let tail = self.note_stmt(&format!("tail {n}"));
                let stmts = body.stmts;
                parse_quote!(#label loop { #(#pre)* #(#head)* #(#stmts)* #(#tail)* })
            }
        };
        self.pop();
        out.push(Stmt::Expr(ex, None));
        out.extend(self.note_stmt(&format!("after {n}")));
        out
    }

    pub fn run(&mut self, b: &mut Block) {
        self.default_block(b);
        let mut pre = self.note_stmt("start");
        let end = self.note_stmt("end");
        if !end.is_empty() {
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::Loop(_) ) => {
                    let mut st: Vec<Stmt> = vec![parse_quote!(let vx_ret = #e;)];
                    st.extend(end);
                    st.push(Stmt::Expr(parse_quote!(vx_ret), None));
                    b.stmts.extend(st);
                }
                x => {
                    b.stmts.extend(x);
                    b.stmts.extend(end);
                }
            }
        }
        pre.append(&mut b.stmts);
        b.stmts = pre;
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Vec,
    Range,
}
struct Iter {
    kind: Kind,
    base: Expr,
    lo: Expr,
    hi: Option<Expr>,
    byref: bool,
    enumerate: bool,
    rev: bool,
    zip: Option<Box<Iter>>,
}
impl Iter {
    fn vec(base: Expr, byref: bool) -> Iter {
        Iter { kind: Kind::Vec, base, lo: pe("0"), hi: None, byref, enumerate: false, rev: false, zip: None }
    }
    fn slice(base: &Expr, r: &ExprRange) -> Iter {
        let lo = r.start.clone().map(|x| *x).unwrap_or_else(|| pe("0"));
        let hi = r.end.clone().map(|x| *x).map(|x| match r.limits {
            RangeLimits::HalfOpen(_) => x,
            RangeLimits::Closed(_) => parse_quote!(#x + 1),
        });
        Iter { kind: Kind::Vec, base: base.clone(), lo, hi, byref: true, enumerate: false, rev: false, zip: None }
    }
}

pub fn format_ident(n: &str) -> Ident {
    Ident::new(n, proc_macro2::Span::call_site())
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.default_block(b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.push();
        self.bind_pat_plain(&a.pat);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
        }
        self.visit_pat_mut(&mut a.pat);
        self.visit_expr_mut(&mut a.body);
        self.pop();
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        TyRw.visit_type_mut(t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.spec.opts.contains_key("slice") {
            if let Some(x) = self.map_chain(e) {
                *e = x;
                return;
            }
        }
        match e {
            Expr::If(i) => {
                let mut snap: Option<(Ident, Expr)> = None;
                // if let YYMinorType::YYroot(root) = X { A } else { B }
                if let Expr::Let(l) = &*i.cond {
                    if let Pat::TupleStruct(t) = &*l.pat {
                        if self.tmpl && s(&t.path).replace(' ', "") == "YYMinorType::YYroot" && t.elems.len() == 1 {
                            let x = (*l.expr).clone();
                            let p = t.elems[0].clone();
                            let a = i.then_branch.stmts.clone();
                            let b = i.else_branch.as_ref().map(|e| (*e.1).clone()).unwrap_or_else(|| pe("{}"));
                            let mut n: Expr = parse_quote!(if vx_is_root(&#x) { let #p = vx_into_root(#x); #(#a)* } else #b);
                            self.visit_expr_mut(&mut n);
                            *e = n;
                            return;
                        }
                    }
                }
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    self.push();
                    // handles of cells stored in an Option: the name is an index
                    let mut names = vec![];
                    pat_names(&l.pat, &mut names);
                    let pat = l.pat.clone();
                    self.bind_pat_plain(&pat);
                    self.visit_block_mut(&mut i.then_branch);
                    self.pop();
                    // reads of other cells of the collection a binding borrows from
                    if let Expr::Reference(r) = &*l.expr {
                        if r.mutability.is_some() {
                            if let Some(coll) = cell_collection(&r.expr) {
                                snap = snapshot_reads(&mut i.then_branch, &coll);
                            }
                        }
                    }
                } else {
                    self.visit_expr_mut(&mut i.cond);
                    self.visit_block_mut(&mut i.then_branch);
                }
                if let Some((_, el)) = &mut i.else_branch {
                    self.visit_expr_mut(el);
                }
                if let Some((id, coll)) = snap {
                    let x = e.clone();
                    *e = parse_quote!({ let #id = vx_snap(&#coll); #x });
                }
                return;
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let x = e.clone();
                let st = match x {
                    Expr::ForLoop(f) => {
                        let it = self.iter_src(&f.expr);
                        self.build_loop(it, &f.pat, f.body.stmts, f.label).0
                    }
                    x => self.while_loop(x),
                };
                *e = parse_quote!({ #(#st)* });
                return;
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.chain(m) {
                    *e = x;
                    return;
                }
                let name = m.method.to_string();
                if name == "map_or" && m.args.len() == 2 {
                    let (pat, st, val) = self.closure1(&m.args[1]);
                    let (d, r) = (&m.args[0], &m.receiver);
                    let mut x: Expr = parse_quote!(match #r { None => #d, Some(#pat) => { #(#st)* #val } });
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
                // V.get(x)
                if let Some((recv, arg, _, _)) = Self::vecref_get(&Expr::MethodCall(m.clone())) {
                    let mut recv = recv;
                    let mut arg = strip(&arg);
                    self.visit_expr_mut(&mut recv);
                    self.visit_expr_mut(&mut arg);
                    *e = Self::vecref_place(&recv, &arg);
                    return;
                }
                // x.borrow()
                if let Some(r) = Self::borrow_call(&Expr::MethodCall(m.clone())) {
                    if let Some(p) = self.cell_place(&r) {
                        *e = p;
                        return;
                    }
                    if let (Expr::Path(p), Some(c)) = (&r, self.cells_in_scope.last().cloned()) {
                        if let Some(i) = p.path.get_ident() {
                            *e = parse_quote!(#c[#i]);
                            return;
                        }
                    }
                    let mut r = r;
                    self.visit_expr_mut(&mut r);
                    *e = r;
                    return;
                }
                // first().unwrap(), last().unwrap()
                if name == "unwrap" && m.args.is_empty() {
                    if let Expr::MethodCall(i) = &*m.receiver {
                        let inm = i.method.to_string();
                        if i.args.is_empty() && (inm == "first" || inm == "last") {
                            let mut r = (*i.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            *e = if inm == "first" { parse_quote!(#r[0]) } else { parse_quote!(#r[#r.len() - 1]) };
                            return;
                        }
                    }
                }
                if name == "sort_by" || name == "sort_by_key" {
                    self.nsort += 1;
                    let k = self.nsort;
                    let key = format!("sort {k}");
                    let t = match self.spec.notes.iter().find(|(a, _)| *a == key) {
                        Some((_, t)) => t.clone(),
                        None => crate::lost(format!("{}: sort {k} has no contract", self.spec.name)),
                    };
                    self.used.push(key);
                    let mut recv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut recv);
                    // v[lo..].sort_by(..)
                    let (mut base, mut lo) = (recv.clone(), pe("0"));
                    if let Expr::Index(ix) = &recv {
                        if let Expr::Range(r) = &*ix.index {
                            if r.end.is_some() {
                                crate::lost("sort of a slice with an end");
                            }
                            base = (*ix.expr).clone();
                            lo = r.start.clone().map(|x| *x).unwrap_or_else(|| pe("0"));
                        }
                    }
                    // text: line 1 = call with RECV; line 2.. = header of the closure function with BODY
                    let (call, rest) = t.split_once('\n').unwrap();
                    let call = call.replace("RECVBASE", &s(&base)).replace("RECVLO", &s(&lo)).replace("RECV", &s(&recv));
                    if let Expr::Closure(c) = &m.args[0] {
                        self.push();
                        for p in &c.inputs {
                            self.bind_pat_plain(p);
                        }
                        let mut body = (*c.body).clone();
                        // local functions, by the contract given for them
                        if let Expr::Block(b) = &mut body {
                            let old = std::mem::take(&mut b.block.stmts);
                            for st in old {
                                if let Stmt::Item(Item::Fn(f)) = &st {
                                    let key = format!("nested {}", f.sig.ident);
                                    let t = match self.spec.notes.iter().find(|(a, _)| *a == key) {
                                        Some((_, t)) => t.clone(),
                                        None => crate::lost(format!("{}: no contract for {key}", self.spec.name)),
                                    };
                                    self.used.push(key);
                                    let mut fb = (*f.block).clone();
                                    self.visit_block_mut(&mut fb);
                                    self.extra_fns.push(t.replace("BODY", &s(&fb)));
                                } else {
                                    b.block.stmts.push(st);
                                }
                            }
                        }
                        let names: Vec<String> = c.inputs.iter().map(|p| s(p)).collect();
                        self.visit_expr_mut(&mut body);
                        self.pop();
                        let mut hdr = rest.to_string();
                        for (i, n) in names.iter().enumerate() {
                            hdr = hdr.replace(&format!("ARG{i}"), n);
                        }
                        // keep only the tail call when the closure has local items
                        self.extra_fns.push(hdr.replace("BODY", &format!("{{ {} }}", s(&body))));
                    }
                    *e = pe(&call);
                    return;
                }
                if name == "reverse" && m.args.is_empty() {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(vx_reverse(&mut #r));
                    return;
                }
                if name == "extend" && m.args.len() == 1 {
                    m.method = format_ident("vx_extend");
                }
                // Option<&[T]>::map(|s| s.to_owned())
                if name == "map" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if let (1, Some(Pat::Ident(x)), Expr::MethodCall(b)) = (c.inputs.len(), c.inputs.first(), strip(&c.body)) {
                            if b.method == "to_owned" && b.args.is_empty() && s(&b.receiver) == x.ident.to_string() {
                                let mut r = (*m.receiver).clone();
                                self.visit_expr_mut(&mut r);
                                *e = parse_quote!(vx_map_owned(#r));
                                return;
                            }
                        }
                    }
                }
                // V.get_mut(a).x.extend(&V.get(b).y): two cells of one collection (the dynamic borrow
                // check sees to that they are two)
                if name == "extend" && m.args.len() == 1 {
                    if let Expr::Reference(a) = &m.args[0] {
                        let (mut rc, mut ax) = ((*m.receiver).clone(), (*a.expr).clone());
                        self.visit_expr_mut(&mut rc);
                        self.visit_expr_mut(&mut ax);
                        if cell_collection(&rc).is_some() && cell_collection(&rc) == cell_collection(&ax) {
                            *e = parse_quote!({ let vx_a = vx_snap(&#ax); #rc.vx_extend(&vx_a) });
                            return;
                        }
                    }
                }
                if name == "cloned" && m.args.is_empty() {
                    m.method = format_ident("vx_cloned");
                }
                if name == "resize" {
                    m.method = format_ident("vx_resize");
                }
                if (name == "clone" || name == "to_owned") && m.args.is_empty() {
                    // x[i..].to_owned()
                    if let Expr::Index(ix) = &*m.receiver {
                        if let Expr::Range(r) = &*ix.index {
                            let mut b = (*ix.expr).clone();
                            let mut lo = r.start.clone().map(|x| *x).unwrap_or_else(|| pe("0"));
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut lo);
                            if r.end.is_some() {
                                crate::lost("slice clone with end");
                            }
                            *e = parse_quote!(vx_clone_from(&#b, #lo));
                            return;
                        }
                    }
                    m.method = format_ident("vx_clone");
                }
                if name == "cmp" && m.args.len() == 1 {
                    // tuple comparison
                    if let (Expr::Tuple(a), Expr::Reference(r)) = (strip(&m.receiver), &m.args[0]) {
                        if let Expr::Tuple(b) = &*r.expr {
                            let mut acc: Option<Expr> = None;
                            for (x, y) in a.elems.iter().zip(&b.elems).rev() {
                                let (mut x, mut y) = (x.clone(), y.clone());
                                self.visit_expr_mut(&mut x);
                                self.visit_expr_mut(&mut y);
                                let c: Expr = parse_quote!(#x.vx_cmp(&#y));
                                acc = Some(match acc {
                                    None => c,
                                    Some(z) => parse_quote!(match #c { Ordering::Equal => #z, vx_o => vx_o }),
                                });
                            }
                            *e = acc.unwrap();
                            return;
                        }
                    }
                    m.method = format_ident("vx_cmp");
                }
                // user-defined callee with several RefMut arguments: copy in / copy out
                if m.args.iter().any(|a| matches!(a, Expr::Reference(r) if r.mutability.is_some() && Self::borrow_call(&r.expr).is_some())) {
                    let mut pre: Vec<Stmt> = vec![];
                    let mut post: Vec<Stmt> = vec![];
                    let mut call = m.clone();
                    for a in call.args.iter_mut() {
                        if let Expr::Reference(r) = a {
                            if let Some(b) = Self::borrow_call(&r.expr) {
                                let p = match self.cell_place(&b) {
                                    Some(p) => p,
                                    None => crate::lost("borrow_mut argument"),
                                };
                                let t = format_ident(&self.fresh("a"));
                                pre.push(parse_quote!(let mut #t = vx_snap(&#p);));
                                post.push(parse_quote!(vx_put(&mut #p, #t);));
                                *a = parse_quote!(&mut #t);
                                continue;
                            }
                        }
                        self.visit_expr_mut(a);
                    }
                    self.visit_expr_mut(&mut call.receiver);
                    let r = format_ident(&self.fresh("r"));
                    *e = parse_quote!({ #(#pre)* let #r = #call; #(#post)* #r });
                    return;
                }
                if s(&m.receiver) == "src" {
                    *e = parse_quote!(vx_sink());
                    return;
                }
                visit_mut::visit_expr_method_call_mut(self, m);
                return;
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if let Bind::Alias(a) = self.lookup(&n) {
                        *e = a;
                        return;
                    }
                    if self.tmpl && n.starts_with("YY") && n.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
                        *e = pe(&format!("{n}()"));
                        return;
                    }
                }
                return;
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && s(&b.right).replace(' ', "").starts_with("Ordering::") {
                    self.visit_expr_mut(&mut b.left);
                    let (l, r) = (&b.left, &b.right);
                    *e = match b.op {
                        BinOp::Eq(_) => parse_quote!(matches!(#l, #r)),
                        _ => parse_quote!(!matches!(#l, #r)),
                    };
                    return;
                }
                if let BinOp::BitOrAssign(_) = b.op {
                    self.visit_expr_mut(&mut b.left);
                    self.visit_expr_mut(&mut b.right);
                    let (l, r) = (&b.left, &b.right);
                    let t = format_ident(&self.fresh("b"));
                    *e = parse_quote!({ let #t: bool = #r; if #t { #l = true; } });
                    return;
                }
            }
            Expr::Call(c) => {
                let f = s(&c.func).replace(' ', "");
                match f.as_str() {
                    "RefCell::new" => {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = a;
                        return;
                    }
                    "std::mem::take" | "mem::take" => {
                        c.func = Box::new(pe(if self.spec.opts.contains_key("front") { "vx_take_any" } else { "vx_take" }));
                    }
                    "cmp::min" => c.func = Box::new(pe("vx_min")),
                    "cmp::max" => c.func = Box::new(pe("vx_max")),
                    "ActionDetail::cmp" => c.func = Box::new(pe("action_detail_cmp")),
                    "YYMinorType::YY0" => {
                        *e = pe("vx_minor_unit()");
                        return;
                    }
                    "YYMinorType::YYerr" => c.func = Box::new(pe("vx_minor_err")),
                    "YYStack::new" => c.func = Box::new(pe("Vec::new")),
                    "usize::try_from" => c.func = Box::new(pe("vx_usize_try_from")),
                    _ => {}
                }
                if f.starts_with("Literal::") {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = a;
                    return;
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                let parse_args = || -> Vec<Expr> {
                    use syn::punctuated::Punctuated;
                    m.mac
                        .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                        .map(|p| p.into_iter().collect())
                        .unwrap_or_default()
                };
                match n.as_str() {
                    "assert" | "debug_assert" => {
                        let a = parse_args();
                        let mut c = a[0].clone();
                        self.visit_expr_mut(&mut c);
                        *e = parse_quote!(vx_assert(#c));
                    }
                    "assert_eq" | "assert_ne" => {
                        let a = parse_args();
                        let (mut x, mut y) = (a[0].clone(), a[1].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut y);
                        *e = if n == "assert_eq" { parse_quote!(vx_assert(#x == #y)) } else { parse_quote!(vx_assert(#x != #y)) };
                    }
                    "unreachable" => *e = pe("vx_unreachable()"),
                    "panic" => {
                        *e = if self.spec.opts.contains_key("lifecycle_panic") { pe("vx_lifecycle_panic(yy)") } else { pe("vx_unreachable()") }
                    }
                    "format" => *e = pe("vx_format()"),
                    "println" | "print" | "eprintln" => *e = pe("()"),
                    "parse_quote" if self.spec.opts.contains_key("rettype") => {
                        // the name of an integer type
                        let t = m.mac.tokens.to_string();
                        if !["i8", "i16", "i32", "u8", "u16", "u32"].contains(&t.as_str()) {
                            crate::lost(format!("integer type {t}"));
                        }
                        *e = pe(&format!("VxIntTy::{t}"));
                    }
                    "quote" | "parse_quote" | "quote_spanned" => *e = pe("vx_tokens()"),
                    "matches" => {
                        let ts = m.mac.tokens.clone();
                        let (sc, pat) = parse_matches(ts);
                        let mut sc = sc;
                        self.visit_expr_mut(&mut sc);
                        *e = parse_quote!(match #sc { #pat => true, _ => false });
                    }
                    "vx_accept_code" => *e = pe("vx_accept(yy, yygotominor)"),
                    "vx_rule_code" => *e = pe("vx_rule_code(yy, yyruleno)?"),
                    _ => {}
                }
                return;
            }
            Expr::Struct(st) => {
                // drop PhantomData fields
                let f = std::mem::take(&mut st.fields);
                for x in f {
                    let n = s(&x.member);
                    if n != "_phantom" && n != "_pd" {
                        st.fields.push(x);
                    }
                }
            }
            Expr::Match(m) => {
                // match (yyruleno, &mut yy.extra) { <the generated arms> }
                if m.arms.len() == 1 && s(&m.arms[0].body).replace(' ', "") == "vx_rule_code!()" {
                    *e = pe("vx_rule_code(yy, yyruleno)?");
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn parse_matches(ts: proc_macro2::TokenStream) -> (Expr, Pat) {
    struct M(Expr, Pat);
    impl parse::Parse for M {
        fn parse(i: parse::ParseStream) -> Result<M> {
            let e: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi(i)?;
            let _: Option<Token![,]> = i.parse()?;
            Ok(M(e, p))
        }
    }
    match parse2::<M>(ts) {
        Ok(M(e, p)) => (e, p),
        Err(e) => crate::lost(format!("matches!: {e}")),
    }
}
