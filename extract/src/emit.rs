//! Printing a unit: extracted types and functions with the contracts spliced in.
use crate::rewrite::{format_ident, Rw, TyRw};
use crate::source::Source;
use crate::unit::{FnSpec, Part, Unit};
use quote::ToTokens;
use std::io::Write;
use std::process::{Command, Stdio};
use syn::visit_mut::VisitMut;
use syn::*;

fn rustfmt(text: &str) -> String {
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    c.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() {
        return text.to_string();
    }
    String::from_utf8(o.stdout).unwrap()
}

fn fix_type(it: &Item, drop_fields: &[String]) -> String {
    let mut it = it.clone();
    match &mut it {
        Item::Struct(st) => {
            st.attrs.clear();
            st.vis = parse_quote!(pub);
            if let Fields::Named(f) = &mut st.fields {
                let old = std::mem::take(&mut f.named);
                for mut x in old {
                    let n = x.ident.as_ref().unwrap().to_string();
                    if n == "_phantom" || n == "_pd" || drop_fields.contains(&n) {
                        continue;
                    }
                    x.attrs.clear();
                    x.vis = parse_quote!(pub);
                    f.named.push(x);
                }
            }
            if let Fields::Unnamed(f) = &mut st.fields {
                for x in f.unnamed.iter_mut() {
                    x.vis = parse_quote!(pub);
                }
            }
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
            }
        }
        Item::Type(t) => {
            // type SymbolId = VecRefId<Symbol>
            return format!(
                "#[derive(Structural, PartialEq, Eq, Clone, Copy)]\npub struct {} {{ pub id: usize }}\n",
                t.ident
            );
        }
        _ => {}
    }
    TyRw.visit_item_mut(&mut it);
    it.to_token_stream().to_string()
}

fn find_matching(text: &str, open: usize) -> usize {
    let b = text.as_bytes();
    let mut d = 0i32;
    let mut i = open;
    while i < b.len() {
        match b[i] {
            b'<' => d += 1,
            b'>' if i > 0 && b[i - 1] != b'-' => {
                d -= 1;
                if d == 0 {
                    return i;
                }
            }
            _ => {}
        }
        i += 1;
    }
    panic!("unbalanced")
}

fn emit_fn(src: &Source, f: &FnSpec) -> String {
    let tmpl = f.from == "tmpl";
    let (mut sig, mut block, _) = src
        .find_fn(&f.name, f.imp.as_deref(), tmpl, f.opts.get("nth").map(|n| n.parse().unwrap()))
        .unwrap_or_else(|| crate::lost(format!("function {} not found (or not unique)", f.name)));
    if let Some(r) = &f.rename {
        sig.ident = format_ident(r);
    }
    TyRw.visit_signature_mut(&mut sig);
    if tmpl {
        if let ReturnType::Type(_, t) = &mut sig.output {
            if t.to_token_stream().to_string().replace(' ', "") == "Option<Self::Item>" {
                **t = parse_quote!(Option<ExpectedToken>);
            }
        }
    }
    // `mut self` by value: a mutable local
    let mut mut_self = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            mut_self = true;
            struct V;
            impl VisitMut for V {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        p.path = parse_quote!(vx_self);
                    }
                }
            }
            V.visit_block_mut(&mut block);
        }
    }
    let stub = f.opts.contains_key("stub");
    if stub {
        block = parse_str("{ unimplemented!() }").unwrap();
        if f.opts.contains_key("slice") {
            sig.output = parse_quote!(-> VResult<VxOut>);
        }
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &mut *t.pat {
                    i.mutability = None;
                }
            }
        }
    } else if let Some(t) = f.opts.get("slice") {
        let list = |t: &String| -> Vec<String> { t.split(',').map(|x| x.to_string()).collect() };
        let ign = f.opts.get("sliceignore").map(list).unwrap_or_default();
        crate::slice::slice(&mut block, &list(t), &ign, &src.mut_methods());
        sig.output = parse_quote!(-> VResult<VxOut>);
    }
    if let Some(t) = f.opts.get("rettype") {
        let t: Type = parse_str(t).unwrap();
        sig.output = parse_quote!(-> #t);
    }
    let mut notes: Vec<String> = vec![];
    let mut rw = Rw::new(f, &mut notes, tmpl);
    if !stub {
        if f.opts.contains_key("front") {
            crate::front::Front::run(&mut block);
        }
        rw.run(&mut block);
    }
    let used = rw.used.clone();
    let extra = rw.extra_fns.clone();
    for (k, _) in &f.notes {
        if !stub && !used.contains(k) {
            crate::lost(format!("anchor `{k}` of function {}", f.name));
        }
    }
    // signature
    if let (Some(r), ReturnType::Type(_, t)) = (&f.ret, &sig.output) {
        let id = format_ident(&format!("vx_ret_{r}"));
        let t = t.clone();
        sig.output = parse_quote!(-> #id<#t>);
    }
    let mut stmts: Vec<Stmt> = parse_str::<Block>("{ vx_sig!(); }").unwrap().stmts;
    if mut_self {
        stmts.extend(parse_str::<Block>("{ let mut vx_self = self; }").unwrap().stmts);
    }
    stmts.append(&mut block.stmts);
    block.stmts = stmts;
    let is_pub = f.opts.contains_key("pub");
    let body = format!("{} {} {}", if is_pub { "pub" } else { "" }, sig.to_token_stream(), block.to_token_stream());
    let wrap = f.imp.is_some() && sig.receiver().is_some() || f.opts.contains_key("inimpl");
    let imp_ty = f.opts.get("implas").cloned().or(f.imp.clone()).unwrap_or_default();
    let attrs = &if stub { format!("#[verifier::external_body]\n{}", f.attrs) } else { f.attrs.clone() };
    let mut text = if wrap {
        rustfmt(&format!("impl {imp_ty} {{ vx_attrs!(); {body} {} }}", if extra.is_empty() { String::new() } else { String::new() }))
    } else {
        rustfmt(&body)
    };
    text = text.replace("vx_attrs!();", attrs);
    if !wrap {
        text = format!("{attrs}{text}");
    }
    // return name
    while let Some(p) = text.find("vx_ret_") {
        let lt = p + text[p..].find('<').unwrap();
        let gt = find_matching(&text, lt);
        let name = text[p + 7..lt].to_string();
        let ty = text[lt + 1..gt].to_string();
        text = format!("{}({name}: {ty}){}", &text[..p], &text[gt + 1..]);
    }
    // contract
    let p = text.find("vx_sig!();").unwrap();
    let b = text[..p].rfind('{').unwrap();
    // the vacuity run: every precondition must be satisfiable, so this must fail
    let vac = if !stub && std::env::var("VX_VACUITY").is_ok() { "\nassert(false);\n" } else { "" };
    text = format!("{}\n{}\n{{{vac}{}", &text[..b], f.sig, &text[p + "vx_sig!();".len()..]);
    // loops
    while let Some(p) = text.find("vx_loop!(") {
        let e = p + text[p..].find(");").unwrap();
        let k: usize = text[p + 9..e].trim().parse().unwrap();
        let b = text[..p].rfind('{').unwrap();
        text = format!("{}\n{}\n{{{}", &text[..b], notes[k], &text[e + 2..]);
    }
    while let Some(p) = text.find("vx_note!(") {
        let e = p + text[p..].find(");").unwrap();
        let k: usize = text[p + 9..e].trim().parse().unwrap();
        text = format!("{}\n{}\n{}", &text[..p], notes[k], &text[e + 2..]);
    }
    for x in extra {
        text.push('\n');
        text.push_str(&x);
        text.push('\n');
    }
    text
}

pub fn emit(src: &Source, u: &Unit) -> String {
    let mut out = String::new();
    for p in &u.parts {
        match p {
            Part::Raw(t) => out.push_str(t),
            Part::Type { name, opts } => {
                let tmpl = opts.get("from").map(|x| x == "tmpl").unwrap_or(false);
                let drop: Vec<String> = opts.get("drop").map(|d| d.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
                if name == "Parser" && tmpl {
                    let f = src
                        .tmpl_fields
                        .iter()
                        .find(|(n, _)| n == name)
                        .unwrap_or_else(|| crate::lost("fields of Parser"));
                    let fields = f.1.clone();
                    let it: Item = parse_quote!(pub struct Parser #fields);
                    out.push_str(&rustfmt(&fix_type(&it, &drop)));
                    continue;
                }
                let it = src.find_type(name, tmpl).unwrap_or_else(|| crate::lost(format!("type {name}")));
                if let Some(a) = opts.get("attr") {
                    out.push_str(&format!("#[{}]\n", a.replace(';', " ")));
                }
                out.push_str(&rustfmt(&fix_type(&it, &drop)));
            }
            Part::Fn(f) => {
                out.push_str(&format!("\n// ---- extracted: {} ----\n", f.rename.as_ref().unwrap_or(&f.name)));
                out.push_str(&emit_fn(src, f));
                out.push_str("// ---- end ----\n");
            }
        }
        out.push('\n');
    }
    out
}
