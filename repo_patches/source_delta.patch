From 08e715666e786920c557e9c25894ddf53098c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 01/17] fix: refuse a token that is its own fallback

%fallback A A; made the macro loop forever.
---
 pomelo-impl/src/parser/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..d8d3fbe 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1878,19 +1878,14 @@ impl Pomelo {
                 {
                     let mut fallback = fallback;
                     loop {
+                        if syms.iter().any(|(_, s)| *s == fallback) {
+                            return error_span(fb.span(), "Fallback directive creates a loop");
+                            //tested
+                        }
                         let fb_b = self.the_symbols.get(fallback);
                         match fb_b.fallback {
                             None => break,
-                            Some(fb_next) => {
-                                if syms.iter().any(|(_, s)| *s == fb_next) {
-                                    return error_span(
-                                        fb.span(),
-                                        "Fallback directive creates a loop",
-                                    );
-                                    //tested
-                                }
-                                fallback = fb_next;
-                            }
+                            Some(fb_next) => fallback = fb_next,
                         }
                     }
                 }
-- 
2.43.0


From e21059effb39f5e629583de6ec9b03d2ace24f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 02/17] fix: drop the reduce action when a nonassoc conflict
 becomes an error

Both the error and the reduce were left active for the same look-ahead,
and whichever came last in the action list ended up in the table.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index d8d3fbe..c735080 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1190,7 +1190,7 @@ impl Pomelo {
                 match (precx, precy) {
                     (Some(px), Some(py)) => match precedence_cmp(px, py) {
                         Ordering::Less => (false, SHResolved(x), Reduce(y)),
-                        Ordering::Equal => (false, Error, Reduce(y)),
+                        Ordering::Equal => (false, Error, RDResolved(y)),
                         Ordering::Greater => (false, Shift(x), RDResolved(y)),
                     },
                     _ => (true, Shift(x), SRConflict(y)),
-- 
2.43.0


From 3ee6e5b2d3a9ca54a480b4b325c7e5ac3484cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 03/17] fix: resolve every reduction against a nonassoc error

After a shift became an error because of one rule, a second rule for the
same look-ahead was never compared, so a conflict could go unreported.
---
 pomelo-impl/src/parser/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c735080..71b77d8 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1196,6 +1196,21 @@ impl Pomelo {
                     _ => (true, Shift(x), SRConflict(y)),
                 }
             }
+            /* A shift turned into an error by another rule, because its token is nonassoc,
+             ** still has to be compared with this rule */
+            (Error, Reduce(y)) => {
+                let precx = self.the_symbols.get(apx.look_ahead).precedence;
+                let precy = self.the_rules.get(y).precedence;
+
+                match (precx, precy) {
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
+                        Ordering::Less => (false, NotUsed, Reduce(y)),
+                        Ordering::Equal => (true, Error, RRConflict(y)),
+                        Ordering::Greater => (false, Error, RDResolved(y)),
+                    },
+                    _ => (true, Error, SRConflict(y)),
+                }
+            }
             (Reduce(x), Reduce(y)) => {
                 let precx = self.the_rules.get(x).precedence;
                 let precy = self.the_rules.get(y).precedence;
-- 
2.43.0


From 423b2ad5e1cc715cdd9ed11fdc73c00471510bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 04/17] fix: do not settle reduce/reduce conflicts by
 associativity

Two rules with the same precedence were silently resolved by the
associativity of the first one instead of being reported.
---
 pomelo-impl/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 71b77d8..d4e3094 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1215,8 +1215,10 @@ impl Pomelo {
                 let precx = self.the_rules.get(x).precedence;
                 let precy = self.the_rules.get(y).precedence;
 
+                /* Associativity is a property of the look-ahead token, it cannot choose
+                 ** between two rules */
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From 869964b831d461e415a23d9343090d72756b29a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 05/17] fix: consider negative offsets when choosing the type
 of YY_SHIFT_OFST

Only the maximum was considered, so an offset below -128 was truncated.
---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index d4e3094..e19b95f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2476,7 +2476,8 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type =
+            minimum_signed_type(cmp::max(max_tkn_ofst, -yy_shift_use_dflt) as usize);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From 8d650d12398f76706d82cf44dd1e13ea950628f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 06/17] fix: consider negative offsets when choosing the type
 of YY_REDUCE_OFST

Only the maximum was considered, so an offset below -128 was truncated.
---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e19b95f..d274e99 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2499,7 +2499,8 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type =
+            minimum_signed_type(cmp::max(max_nt_ofst, -yy_reduce_use_dflt) as usize);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From 8851c079cd685dcc948d70f2bbb9037250783979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 07/17] fix: no default action when the wildcard can be reduced

The default was only avoided if the wildcard could be shifted. If it had a
reduce of its own, tokens moved to the default were taken as the wildcard.
---
 pomelo-impl/src/parser/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index d274e99..09a50dc 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1301,16 +1301,14 @@ impl Pomelo {
 
                 for (iap, ap) in stp.actions.iter().enumerate() {
                     let ap = ap.borrow();
+                    if self.wildcard == Some(ap.look_ahead) && self.compute_action(&ap).is_some() {
+                        uses_wildcard = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
-- 
2.43.0


From 87dfcf6c3be60982517b73e1d2f736e8b71d7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 08/17] fix: refuse a second %stack_size also when no type is
 given

---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 09a50dc..e261e68 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -265,6 +265,7 @@ pub struct Pomelo {
 
 struct ParserData {
     precedence: i32,
+    stack_size: bool,
 }
 
 #[derive(Debug)]
@@ -554,7 +555,10 @@ impl Pomelo {
         pomelo.symbol_new("$", NewSymbolType::Terminal);
         pomelo.error_symbol = pomelo.symbol_new("error", NewSymbolType::NonTerminal);
 
-        let mut pdata = ParserData { precedence: 0 };
+        let mut pdata = ParserData {
+            precedence: 0,
+            stack_size: false,
+        };
 
         for decl in decls {
             pomelo.parse_one_decl(&mut pdata, decl)?;
@@ -1966,9 +1970,10 @@ impl Pomelo {
                 self.extra_token = Some(ty);
             }
             Decl::StackSize(limit, ty) => {
-                if self.stack_type.is_some() {
+                if pdt.stack_size {
                     return error_span(ty.span(), "Stack size already defined");
                 }
+                pdt.stack_size = true;
                 self.stack_limit = limit;
                 self.stack_type = ty;
             }
-- 
2.43.0


From 2c374e0f0d02f61318b1000799ba4fbec34d5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 09/17] fix: report an empty token class instead of panicking

---
 pomelo-impl/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e261e68..c5921fb 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2165,8 +2165,10 @@ impl Pomelo {
                     //MultiTerminals have the type of the first child.
                     //The type of the children need be the same only if an alias is used, so we
                     //cannot check it here
-                    let first = self.the_symbols.get(ss.first().unwrap());
-                    first.data_type.clone()
+                    match ss.first() {
+                        Some(first) => self.the_symbols.get(first).data_type.clone(),
+                        None => return error(format!("Token class {} has no tokens", sp.name)),
+                    }
                 }
                 SymbolType::Terminal => sp.data_type.clone(),
                 SymbolType::NonTerminal { .. } => sp.data_type.clone(),
-- 
2.43.0


From 2fa6554244f07dfef5e6de2dcbbffa6a8a2bf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 10/17] fix: type of optional token classes and of optional
 symbols with %default_type

The option was always Option<()>, which failed to compile.
---
 pomelo-impl/src/parser/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5921fb..f484252 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -658,11 +658,18 @@ impl Pomelo {
         //We consume the optional_tokens map, it is no longer needed
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
-            let dt = self
-                .the_symbols
-                .get(sym_r)
-                .data_type
-                .clone()
+            let dt = {
+                let sym_r = self.the_symbols.get(sym_r);
+                match &sym_r.typ {
+                    //MultiTerminals have the type of the first child
+                    MultiTerminal(ss) => ss
+                        .first()
+                        .and_then(|first| self.the_symbols.get(first).data_type.clone()),
+                    _ => sym_r.data_type.clone(),
+                }
+            };
+            let dt = dt
+                .or_else(|| self.default_type.clone())
                 .unwrap_or_else(|| parse_quote!(()));
             self.the_symbols.get_mut(sym_l).data_type = Some(parse_quote!(Option<#dt>));
             let sym_l = SymbolSpan(sym_l, span);
-- 
2.43.0


From 192e59779d15f70af5375ef74c3db99c4244405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 11/17] fix: an untyped symbol with an alias may hold a token
 with a type

A typed token that falls back to an untyped one, used with an alias,
reached unreachable!("impossible pattern") at run time.
---
 pomelo-impl/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f484252..4758aff 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2993,7 +2993,7 @@ impl Pomelo {
 
         for i in (0..rp.rhs.len()).rev() {
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
-            code.extend(quote!(let #yypi = yy.yystack.pop().unwrap();));
+            code.extend(quote!(let mut #yypi = yy.yystack.pop().unwrap();));
         }
 
         let unit_type = parse_quote!(());
@@ -3003,6 +3003,11 @@ impl Pomelo {
         for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let r = self.the_symbols.get(r);
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
+            if alias.is_some() && r.dt_num == 0 {
+                //The token on the stack may have a type even if this symbol has not, when it
+                //got here as a fallback or as the wildcard of a compound
+                code.extend(quote!(#yypi.minor = YYMinorType::YY0(());));
+            }
             yymatch.push(quote!(#yypi.minor));
             if let (Some(alias), MultiTerminal(ss)) = (alias, &r.typ) {
                 for or in &ss[1..] {
-- 
2.43.0


From 3d975fc3c7d553f2b0c5804702800d16c6285e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 12/17] fix: report a shift/shift conflict of a state with
 itself

The macro panicked with "RefCell already mutably borrowed".
---
 pomelo-impl/src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 4758aff..f0030a0 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1132,9 +1132,13 @@ impl Pomelo {
         /* Resolve conflicts */
         let mut nconflict = 0;
         for stp in &self.states {
-            self.the_states.get_mut(stp).actions.sort_by(|a, b| {
+            //Take the actions out while sorting, because a shift/shift conflict compares the
+            //target states, and one of them may be this very state
+            let mut actions = std::mem::take(&mut self.the_states.get_mut(stp).actions);
+            actions.sort_by(|a, b| {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
+            self.the_states.get_mut(stp).actions = actions;
             let stp = self.the_states.get(stp);
             let len = stp.actions.len();
             for i in 0..len {
-- 
2.43.0


From 12b3cb89f8f61f4c2230985b2aff88dfa4cd1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 13/17] fix: refuse token classes inside of token classes or
 compounds

Their tokens were never recognized by the parser, and a class containing
itself made the macro panic.
---
 pomelo-impl/src/parser/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f0030a0..fe764b3 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2161,7 +2161,8 @@ impl Pomelo {
         //Maps the Type to the equivalent dt_num
         let mut types = HashMap::<Type, usize>::new();
 
-        for sp in &self.symbols {
+        for id in &self.symbols {
+            let sp = id;
             if let Some(wildcard) = &self.wildcard {
                 if sp == wildcard {
                     continue;
@@ -2173,6 +2174,11 @@ impl Pomelo {
             /* Determine the data_type of each symbol and fill its dt_num */
             let data_type = match &sp.typ {
                 SymbolType::MultiTerminal(ss) => {
+                    for s in ss {
+                        if s == id || !matches!(self.the_symbols.get(s).typ, Terminal) {
+                            return error(format!("{} contains a token class", sp.name));
+                        }
+                    }
                     //MultiTerminals have the type of the first child.
                     //The type of the children need be the same only if an alias is used, so we
                     //cannot check it here
-- 
2.43.0


From 04df54eb9ffe0bb39c56cd0c5e8cfb2d62e678a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 14/17] fix: always find a free offset for a set of actions

When no offset tried was free the set was put at the end of the table
without checking, where it could take in the last action of another
state: 's ::= e; e ::= A A;' accepted a lone A.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index fe764b3..4237cf6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -415,7 +415,7 @@ impl ActTab {
                  ** If no holes are found, i is left at self.n_action, which means the
                  ** transaction will be appended. */
                 let mut r = self.a_action.len();
-                'ia: for i in 0..self.a_action.len() + max_lookahead {
+                'ia: for i in 0..=self.a_action.len() + max_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
                         if let Some(Some(_)) = self.a_action.get(k) {
-- 
2.43.0


From de7f92bcfa9a17e9124ca59184cd9afe6cdfd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 15/17] fix: forward the value of a token class in a rule
 without code

---
 pomelo-impl/src/parser/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 4237cf6..d87d801 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -748,7 +748,14 @@ impl Pomelo {
                         .rhs
                         .iter_mut()
                         .filter(|SymbolAlias(symbol, _, _)| {
-                            self.the_symbols.get(symbol).data_type.is_some()
+                            let symbol = self.the_symbols.get(symbol);
+                            match &symbol.typ {
+                                //MultiTerminals have the type of the first child
+                                MultiTerminal(ss) => ss.first().is_some_and(|first| {
+                                    self.the_symbols.get(first).data_type.is_some()
+                                }),
+                                _ => symbol.data_type.is_some(),
+                            }
                         })
                         .collect::<Vec<_>>();
                     if let [SymbolAlias(_, _, alias)] = &mut rtyped[..] {
-- 
2.43.0


From fb9d57c23d029b66b03b676d65defbd88383ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 16/17] fix: refuse directives for tokens on token classes

---
 pomelo-impl/src/parser/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index d87d801..7f3a6ff 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -570,6 +570,22 @@ impl Pomelo {
             return error("Grammar must have some rules"); //tested
         }
 
+        //A token class is not a token by itself, these would silently have no effect on it
+        for id in &pomelo.symbols {
+            let s = pomelo.the_symbols.get(id);
+            let is_class = |id: &SymbolId| {
+                matches!(pomelo.the_symbols.get(id).typ, MultiTerminal(_))
+            };
+            if s.fallback.as_ref().is_some_and(is_class)
+                || is_class(id)
+                    && (s.fallback.is_some()
+                        || s.precedence.is_some()
+                        || pomelo.wildcard.as_ref() == Some(id))
+            {
+                return error(format!("{}: directive used on a token class", s.name));
+            }
+        }
+
         Ok(pomelo)
     }
     pub fn module_name(&self) -> &Ident {
-- 
2.43.0


From a1720bb7b59a2d1d44d37e00c9831c5d8f4b64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:57 +0000
Subject: [PATCH 17/17] fix: accept with an untyped start symbol when another
 symbol has type ()

---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7f3a6ff..bec016e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2978,7 +2978,8 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
+        //An untyped start symbol has no entry, even if another symbol is of type ()
+        let accept_code = match start.data_type.as_ref().and_then(|ty| types.get(ty)) {
             Some(n) => {
                 let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
                 quote!(
-- 
2.43.0

