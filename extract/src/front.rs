//! `front` option of @@fn: source-to-source steps taken before the general rewriting, for the
//! functions that read the declarations.
//!  - Option methods with a closure (`and_then`, `or_else`, `unwrap_or_else`, `is_some_and`) as `match`
//!  - a local closure that is only called is written out where it is called
//!  - `X.iter_mut().filter(|p| c).collect::<Vec<_>>()` as the positions, and `if let [p] = &mut v[..]`
//!    as "there is one position" and a borrow of that element
//!  - `X.into_iter().map(|p| {..; Ok(v)}).collect::<Result<Vec<_>>>()?` as a loop that pushes
//!  - `X.into_iter().next().unwrap()` as the first element
//!  - `vec![..]`, `parse_quote!(..)` (template with numbered holes), `.first()`, `format!`
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn ident(n: &str) -> Ident {
    Ident::new(n, proc_macro2::Span::call_site())
}
fn s(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn closure(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match e {
        Expr::Closure(c) => Some((c.inputs.iter().map(untype).collect(), (*c.body).clone())),
        _ => None,
    }
}
fn untype(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

/// the tokens of a quotation with its interpolations numbered, and the interpolated names
fn holes(ts: TokenStream, names: &mut Vec<Ident>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '#' => {
                names.push(id.clone());
                let n = proc_macro2::Literal::usize_unsuffixed(names.len());
                out.extend(quote!(# #n));
                i += 2;
                continue;
            }
            (TokenTree::Group(g), _) => {
                let inner = holes(g.stream(), names);
                out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), inner))]);
            }
            (t, _) => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

pub struct Front {
    /// local closures
    clos: Vec<(String, Vec<Pat>, Expr)>,
    /// names that hold positions, and what they are positions in
    pos: Vec<(String, Expr)>,
}

impl Front {
    pub fn run(b: &mut Block) {
        let mut f = Front { clos: vec![], pos: vec![] };
        f.visit_block_mut(b);
    }
    fn call_named(&self, n: &str, arg: Expr) -> Option<Expr> {
        let (_, ps, body) = self.clos.iter().rev().find(|c| c.0 == n)?;
        let p = &ps[0];
        Some(parse_quote!({ let #p = #arg; #body }))
    }
    fn apply(&self, f: &Expr, arg: Expr) -> Option<Expr> {
        if let Some((ps, body)) = closure(f) {
            if ps.len() == 1 {
                let p = &ps[0];
                return Some(parse_quote!({ let #p = #arg; #body }));
            }
        }
        if let Expr::Path(p) = f {
            return self.call_named(&s(p), arg);
        }
        None
    }
}

impl VisitMut for Front {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let (nc, np) = (self.clos.len(), self.pos.len());
        let old = std::mem::take(&mut b.stmts);
        for mut st in old {
            if let Stmt::Local(l) = &st {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    let name = pi.ident.clone();
                    // let f = |p| e;
                    if let Some((ps, body)) = closure(&init.expr) {
                        self.clos.push((name.to_string(), ps, body));
                        continue;
                    }
                    if let Expr::MethodCall(c) = &*init.expr {
                        if c.method == "collect" {
                            if let Expr::MethodCall(fl) = &*c.receiver {
                                if fl.method == "filter" {
                                    if let (Expr::MethodCall(it), Some((ps, body))) = (&*fl.receiver, closure(&fl.args[0])) {
                                        if it.method == "iter_mut" {
                                            let x = (*it.receiver).clone();
                                            let p = &ps[0];
                                            let lp: Stmt = parse_quote!(for (vx_k, #p) in #x.iter().enumerate() { if #body { #name.push(vx_k); } });
                                            self.pos.push((name.to_string(), x));
                                            let first: Stmt = parse_quote!(let mut #name: Vec<usize> = Vec::new(););
                                            b.stmts.push(first);
                                            st = lp;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Stmt::Local(l) = &st {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Try(t) = &*init.expr {
                        if let Expr::MethodCall(c) = &*t.expr {
                            if let (true, Expr::MethodCall(m)) = (c.method == "collect" && s(&c.turbofish).contains("Result"), &*c.receiver) {
                                if m.method == "map" {
                                    if let Some((ps, Expr::Block(bl))) = closure(&m.args[0]) {
                                        let mut stm = bl.block.stmts.clone();
                                        let v = match stm.pop() {
                                            Some(Stmt::Expr(Expr::Call(k), None)) if s(&k.func) == "Ok" => k.args[0].clone(),
                                            _ => crate::lost("fallible map without Ok(..)"),
                                        };
                                        let (src, p, name) = (&m.receiver, &ps[0], &pi.ident);
                                        let a: Stmt = parse_quote!(let mut vx_m = Vec::new(););
                                        let mut lp: Stmt = parse_quote!(for #p in #src { #(#stm)* vx_m.push(#v); });
                                        let z: Stmt = parse_quote!(let #name = vx_m;);
                                        self.visit_stmt_mut(&mut lp);
                                        b.stmts.extend([a, lp, z]);
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut st);
            b.stmts.push(st);
        }
        self.clos.truncate(nc);
        self.pos.truncate(np);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // if let [p] = &mut v[..] { A }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if let (Pat::Slice(ps), Expr::Reference(r)) = (&*l.pat, &*l.expr) {
                    if let Expr::Index(ix) = &*r.expr {
                        let n = s(&ix.expr);
                        if let (Some((_, x)), 1, None) = (self.pos.iter().rev().find(|q| q.0 == n), ps.elems.len(), &i.else_branch) {
                            let (v, p, a) = (&ix.expr, &ps.elems[0], &i.then_branch.stmts);
                            let mut n: Expr = parse_quote!(if #v.len() == 1 { let vx_one: usize = #v[0]; let #p = &mut #x[vx_one]; #(#a)* });
                            visit_mut::visit_expr_mut(self, &mut n);
                            *e = n;
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                match (n.as_str(), m.args.len()) {
                    ("and_then", 1) => self.apply(&m.args[0], parse_quote!(vx_x)).map(|b| parse_quote!(match #r { None => None, Some(vx_x) => #b })),
                    ("is_some_and", 1) => self.apply(&m.args[0], parse_quote!(vx_x)).map(|b| parse_quote!(match #r { None => false, Some(vx_x) => #b })),
                    ("or_else", 1) => closure(&m.args[0]).map(|(_, b)| parse_quote!(match #r { None => #b, Some(vx_x) => Some(vx_x) })),
                    ("unwrap_or_else", 1) => closure(&m.args[0]).map(|(_, b)| parse_quote!(match #r { None => #b, Some(vx_x) => vx_x })),
                    ("unwrap", 0) if s(r).ends_with(".chars().next()") => match &**r {
                        Expr::MethodCall(nx) => match &*nx.receiver {
                            Expr::MethodCall(ch) => {
                                let x = &ch.receiver;
                                Some(parse_quote!(vx_char0(&#x)))
                            }
                            _ => None,
                        },
                        _ => None,
                    },
                    ("unwrap", 0) if s(r).ends_with(".into_iter().next()") => match &**r {
                        Expr::MethodCall(nx) => match &*nx.receiver {
                            Expr::MethodCall(it) => {
                                let x = &it.receiver;
                                Some(parse_quote!(vx_snap(&#x[0])))
                            }
                            _ => None,
                        },
                        _ => None,
                    },
                    ("as_ref", 0) if s(r).ends_with(".to_string()") => match &**r {
                        // id.to_string().as_ref()
                        Expr::MethodCall(t) => {
                            let x = &t.receiver;
                            Some(parse_quote!(#x.vx_name()))
                        }
                        _ => None,
                    },
                    ("first", 0) => Some(parse_quote!(#r.vx_first())),
                    _ => None,
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if c.args.len() == 1 => self.call_named(&s(p), c.args[0].clone()),
                _ => None,
            },
            Expr::Reference(r) => match &*r.expr {
                Expr::Macro(m) if m.mac.path.is_ident("format") => {
                    let a: Vec<Expr> = m
                        .mac
                        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                        .map(|p| p.into_iter().collect())
                        .unwrap_or_default();
                    if a.len() != 2 {
                        crate::lost("format");
                    }
                    let (t, x) = (&a[0], &a[1]);
                    Some(parse_quote!(vx_format_name(#t, #x)))
                }
                _ => None,
            },
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let a: Vec<Expr> = m
                    .mac
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_else(|_| crate::lost("vec!"));
                match a.len() {
                    0 => Some(parse_quote!(Vec::new())),
                    1 => {
                        let x = &a[0];
                        Some(parse_quote!(vx_vec1(#x)))
                    }
                    _ => crate::lost("vec!"),
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("parse_quote") => {
                let mut names = vec![];
                let t = holes(m.mac.tokens.clone(), &mut names).to_string();
                let f = ident(&format!("vx_quote{}", names.len()));
                Some(parse_quote!(#f(#t #(, &#names)*)))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
