//! Reading the sources: the parser module itself, and the code templates inside `quote!` blocks.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::visit::Visit;

pub struct Source {
    pub file: syn::File,
    pub tmpl: Vec<syn::Item>,
    pub tmpl_fields: Vec<(String, syn::FieldsNamed)>,
    pub consts: Vec<String>,
}

/// What an interpolation `#name` inside a template stands for.
fn interp(name: &str) -> Option<&'static str> {
    Some(match name {
        "yy_generics_impl" | "yy_generics" | "yy_generics_where" | "yy_generics_token"
        | "yy_generics_impl_token" | "yy_generics_where_token" => "",
        "yyerrtype" => "ErrT",
        "yyextratype" => "ExtraT",
        "yyroottype" => "RootT",
        "error_ty" => "ErrorSymT",
        "yycodetype" => "i32",
        "yyactiontype" => "i32",
        "yy_shift_ofst_type" | "yy_reduce_ofst_type" => "i32",
        "yystackoverflow" => "user_stack_overflow(token, extra)",
        "yyparsefail" => "user_parse_fail(extra)",
        "yysyntaxerror" => "user_syntax_error(token, extra, expected)",
        "yyparser" => "",
        "yyroot" => "YYroot",
        "impl_parser" => "",
        "extra_token" => "ExtraTokT",
        "error_yydt" => "YYerr",
        "yystacktype" => "Vec",
        _ => return None,
    })
}

/// `let NAME = ... quote!(A) ... quote!(B)`: the first template, for templates spliced into others
struct LetQuote<'n>(&'n str, Option<TokenStream>);
impl<'a, 'n> Visit<'a> for LetQuote<'n> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if p.ident == self.0 && self.1.is_none() {
                let mut q = Quotes(vec![], vec![]);
                q.visit_expr(&i.expr);
                self.1 = q.0.first().map(|x| x.1.clone());
            }
        }
        syn::visit::visit_local(self, l);
    }
}
thread_local! { static ACCEPT: std::cell::RefCell<Option<TokenStream>> = const { std::cell::RefCell::new(None) }; }

fn expand(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' && i + 1 < toks.len() => match &toks[i + 1] {
                TokenTree::Ident(id) => {
                    let n = id.to_string();
                    if n == "accept_code" {
                        let a = ACCEPT.with(|a| a.borrow().clone()).unwrap_or_else(|| crate::lost("accept code"));
                        out.push(TokenTree::Group(Group::new(Delimiter::Brace, expand(a))));
                        i += 2;
                        continue;
                    }
                    let t: TokenStream = match interp(&n) {
                        Some(s) => s.parse().unwrap(),
                        None => format!("interp_{n}").parse().unwrap(),
                    };
                    out.extend(t);
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    // #( ... ) sep *
                    let s = g.stream().to_string().replace(' ', "");
                    i += 2;
                    if matches!(&toks.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                        i += 1;
                    }
                    if matches!(&toks.get(i), Some(TokenTree::Punct(p)) if p.as_char() == '*') {
                        i += 1;
                    }
                    let t = match s.as_str() {
                        "#yyrules" => "_ => vx_rule_code!()".to_string(),
                        s => format!("vx_rep_{}", s.replace(|c: char| !c.is_alphanumeric(), "_")),
                    };
                    out.extend(t.parse::<TokenStream>().unwrap());
                    continue;
                }
                _ => {}
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), expand(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
                continue;
            }
            _ => {}
        }
        out.push(toks[i].clone());
        i += 1;
    }
    out.into_iter().collect()
}

struct Quotes(Vec<(String, TokenStream)>, Vec<(String, String)>);
impl<'a> Visit<'a> for Quotes {
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "quote" || n == "parse_quote" {
            self.0.push((n, m.tokens.clone()));
        } else if n == "quote_spanned" {
            // strip `span =>`
            let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
            for i in 0..toks.len().saturating_sub(1) {
                if let (TokenTree::Punct(a), TokenTree::Punct(b)) = (&toks[i], &toks[i + 1]) {
                    if a.as_char() == '=' && b.as_char() == '>' {
                        self.0.push((n, toks[i + 2..].iter().cloned().collect()));
                        break;
                    }
                }
            }
        }
    }
}

impl Source {
    /// names of the functions of the file that take `&mut self`
    pub fn mut_methods(&self) -> std::collections::BTreeSet<String> {
        struct V(std::collections::BTreeSet<String>);
        impl<'a> Visit<'a> for V {
            fn visit_signature(&mut self, s: &'a syn::Signature) {
                if let Some(syn::FnArg::Receiver(r)) = s.inputs.first() {
                    if r.mutability.is_some() {
                        self.0.insert(s.ident.to_string());
                    }
                }
            }
        }
        let mut v = V(Default::default());
        v.visit_file(&self.file);
        v.0
    }
    pub fn load(repo: &str) -> Source {
        let path = format!("{repo}/pomelo-impl/src/parser/mod.rs");
        let text = std::fs::read_to_string(&path).unwrap_or_else(|e| crate::lost(format!("{path}: {e}")));
        let mut file = syn::parse_file(&text).unwrap_or_else(|e| crate::lost(format!("{path}: {e}")));
        // decl.rs holds Associativity
        let dpath = format!("{repo}/pomelo-impl/src/decl.rs");
        if let Ok(t) = std::fs::read_to_string(&dpath) {
            if let Ok(f) = syn::parse_file(&t) {
                file.items.extend(f.items);
            }
        }
        let mut lq = LetQuote("accept_code", None);
        lq.visit_file(&file);
        ACCEPT.with(|a| *a.borrow_mut() = lq.1);
        let mut q = Quotes(Vec::new(), Vec::new());
        q.visit_file(&file);
        let mut tmpl = Vec::new();
        let mut tmpl_fields = Vec::new();
        for (kind, ts) in q.0 {
            let ex = expand(ts);
            if let Ok(f) = syn::parse2::<syn::File>(ex.clone()) {
                tmpl.extend(f.items);
            } else if kind == "parse_quote" {
                if let Ok(f) = syn::parse2::<syn::FieldsNamed>(ex.clone()) {
                    tmpl_fields.push(("Parser".to_string(), f));
                }
            } else {
                // a template that contains impl items only
                let wrapped: TokenStream = format!("impl VxWrap {{ {} }}", ex).parse().unwrap();
                if let Ok(i) = syn::parse2::<syn::Item>(wrapped) {
                    tmpl.push(i);
                }
            }
        }
        let _ = BTreeMap::<(), ()>::new();
        Source { file, tmpl, tmpl_fields, consts: Vec::new() }
    }

    pub fn find_fn(&self, name: &str, imp: Option<&str>, tmpl: bool, nth: Option<usize>) -> Option<(syn::Signature, syn::Block, bool)> {
        let items = if tmpl { &self.tmpl } else { &self.file.items };
        fn ty_name(t: &syn::Type) -> String {
            match t {
                syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => String::new(),
            }
        }
        let mut found = Vec::new();
        for it in items {
            match it {
                syn::Item::Fn(f) if imp.is_none() && f.sig.ident == name => {
                    found.push((f.sig.clone(), (*f.block).clone(), false))
                }
                syn::Item::Impl(i) if imp.is_some() && ty_name(&i.self_ty) == imp.unwrap() => {
                    for ii in &i.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name {
                                found.push((f.sig.clone(), f.block.clone(), true));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(n) = nth {
            return found.into_iter().nth(n);
        }
        if found.len() == 1 {
            found.pop()
        } else {
            None
        }
    }

    pub fn find_type(&self, name: &str, tmpl: bool) -> Option<syn::Item> {
        let items = if tmpl { &self.tmpl } else { &self.file.items };
        items
            .iter()
            .find(|it| match it {
                syn::Item::Struct(s) => s.ident == name,
                syn::Item::Enum(s) => s.ident == name,
                syn::Item::Type(s) => s.ident == name,
                _ => false,
            })
            .cloned()
    }
}
