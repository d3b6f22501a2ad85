From 54538749bdbd04f57ee935b4e9e6dd4af22e2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/20] fix: make the generated code independent of HashMap
 iteration order

The rules of optional symbols and the stack value types were emitted in
the (random) iteration order of a HashMap, so that expanding the same
grammar twice could give different code.
---
 pomelo-impl/src/parser/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..92493db 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -256,7 +256,7 @@ pub struct Pomelo {
     has_fallback: bool,           //True if any %fallback is seen in the grammar
     default_type: Option<Type>,   //The %default_type
     start: Option<SymbolId>,
-    optional_tokens: HashMap<SymbolId, SymbolSpan>,
+    optional_tokens: Vec<(SymbolId, SymbolSpan)>, //In order of appearance, so that the output is deterministic
     extra_token: Option<Type>,
     stack_type: Option<Type>,
     stack_limit: usize,
@@ -544,7 +544,7 @@ impl Pomelo {
             has_fallback: false,
             default_type: None,
             start: None,
-            optional_tokens: HashMap::new(),
+            optional_tokens: Vec::new(),
             extra_token: None,
             stack_type: None,
             stack_limit: 100,
@@ -1994,7 +1994,8 @@ impl Pomelo {
                             };
                             if optional {
                                 let sym_r = self.symbol_new_t(&tok, nst);
-                                if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
+                                let sym_l = self.optional_tokens.iter().find(|(s, _)| *s == sym_r);
+                                if let Some((_, sym_l)) = sym_l {
                                     sym_l.clone()
                                 } else {
                                     let sym_l = self.symbol_new_s(
@@ -2002,7 +2003,7 @@ impl Pomelo {
                                         NewSymbolType::NonTerminal,
                                     );
                                     let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.insert(sym_r, sym_l.clone());
+                                    self.optional_tokens.push((sym_r, sym_l.clone()));
                                     sym_l
                                 }
                             } else {
@@ -2220,7 +2221,10 @@ impl Pomelo {
             }
         };
 
-        let minor_types = types.iter().map(|(k, v)| {
+        //The iteration order of a HashMap is random, but the generated code should not be
+        let mut sorted_types = types.iter().collect::<Vec<_>>();
+        sorted_types.sort_by_key(|(_, v)| **v);
+        let minor_types = sorted_types.into_iter().map(|(k, v)| {
             let ident = Ident::new(&format!("YY{}", v), Span::call_site());
             quote!(#ident(#k))
         });
-- 
2.43.0


From f2950048d7f70491cf9bae182324af35ae1372cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 02/20] fix: do not fold reductions into a default where the
 wildcard can be reduced

Only a wildcard that could be shifted was considered, but if the wildcard
is the look-ahead of a reduction the tokens whose own reduction became the
default one are mistaken for it too.
---
 pomelo-impl/src/parser/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 92493db..5116349 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1284,16 +1284,16 @@ impl Pomelo {
 
                 for (iap, ap) in stp.actions.iter().enumerate() {
                     let ap = ap.borrow();
+                    // Any look-ahead folded into the default would be parsed as the wildcard,
+                    // if that has an action of its own, shift or reduce, in this state.
+                    if Some(ap.look_ahead) == self.wildcard && self.compute_action(&ap).is_some() {
+                        uses_wildcard = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
-- 
2.43.0


From 3c5132a93e551476ae3d0d91f0f0b155ca35986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 03/20] fix: report reduce-reduce conflicts between rules of
 equal precedence

They were silently resolved by the associativity of the precedence level,
even in favour of the later rule, while the documentation says that the
first one is used and that the conflict is reported.
---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 5116349..72b0379 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1201,7 +1201,8 @@ impl Pomelo {
                 let precy = self.the_rules.get(y).precedence;
 
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    //Associativity says nothing about choosing between two rules
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From 6861e14a28ffae48d7f85a7701d184e83f465e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 04/20] fix: reject a fallback token that is its own fallback

%fallback Id Id X; was accepted and made the macro loop forever.
---
 pomelo-impl/src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 72b0379..63f83ff 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1876,6 +1876,9 @@ impl Pomelo {
 
                 // Check that the new fallbacks do not create a fallback-loop.
                 // That would cause a stack overflow in runtime.
+                if syms.iter().any(|(_, s)| *s == fallback) {
+                    return error_span(fb.span(), "Fallback directive creates a loop");
+                }
                 {
                     let mut fallback = fallback;
                     loop {
-- 
2.43.0


From bbf5ac50563868741abe7f4ef7ef8b778ba3ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 05/20] fix: choose a type for the table offsets that can hold
 the negative ones

Only the greatest offset was considered, so a grammar with many symbols
could have its negative offsets wrap silently, breaking the parser.
---
 pomelo-impl/src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 63f83ff..8a6e4e0 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -491,6 +491,12 @@ fn minimum_signed_type(max: usize) -> Ident {
     }
 }
 
+//The signed type that can hold every number between both ends
+fn minimum_signed_type_range(min: i32, max: i32) -> Ident {
+    //i8 can hold -0x80..0x80, and so on
+    minimum_signed_type(cmp::max(max, -(min + 1)) as usize)
+}
+
 fn minimum_unsigned_type(max: usize) -> Ident {
     if max < 0x100 {
         parse_quote!(u8)
@@ -2472,7 +2478,7 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type = minimum_signed_type_range(yy_shift_use_dflt, max_tkn_ofst);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
@@ -2494,7 +2500,7 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type = minimum_signed_type_range(yy_reduce_use_dflt, max_nt_ofst);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From 8b82583b3a4abd3eed59db48e19ec475f26694d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 06/20] fix: honour the ? of an optional compound symbol

A|B? was parsed as if the ? was not there. An optional token class has
the type of its first token, too.
---
 pomelo-impl/src/parser/mod.rs | 49 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 8a6e4e0..4c67eb2 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -660,12 +660,18 @@ impl Pomelo {
         //We consume the optional_tokens map, it is no longer needed
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
-            let dt = self
-                .the_symbols
-                .get(sym_r)
-                .data_type
-                .clone()
-                .unwrap_or_else(|| parse_quote!(()));
+            let dt = {
+                let sym = self.the_symbols.get(sym_r);
+                match &sym.typ {
+                    //MultiTerminals have the type of the first child
+                    MultiTerminal(ss) => {
+                        let first = self.the_symbols.get(ss.first().unwrap());
+                        first.data_type.clone()
+                    }
+                    _ => sym.data_type.clone(),
+                }
+            };
+            let dt = dt.unwrap_or_else(|| parse_quote!(()));
             self.the_symbols.get_mut(sym_l).data_type = Some(parse_quote!(Option<#dt>));
             let sym_l = SymbolSpan(sym_l, span);
 
@@ -2004,18 +2010,7 @@ impl Pomelo {
                             };
                             if optional {
                                 let sym_r = self.symbol_new_t(&tok, nst);
-                                let sym_l = self.optional_tokens.iter().find(|(s, _)| *s == sym_r);
-                                if let Some((_, sym_l)) = sym_l {
-                                    sym_l.clone()
-                                } else {
-                                    let sym_l = self.symbol_new_s(
-                                        &format!("_{}", self.optional_tokens.len()),
-                                        NewSymbolType::NonTerminal,
-                                    );
-                                    let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.push((sym_r, sym_l.clone()));
-                                    sym_l
-                                }
+                                self.optional_symbol(sym_r, tok.span())
                             } else {
                                 self.symbol_new_t_span(&tok, nst)
                             }
@@ -2037,7 +2032,11 @@ impl Pomelo {
                             } else {
                                 unreachable!();
                             }
-                            SymbolSpan(mt, span)
+                            if optional {
+                                self.optional_symbol(mt, span)
+                            } else {
+                                SymbolSpan(mt, span)
+                            }
                         };
                         Ok(SymbolAlias(tok, span, alias))
                     })
@@ -2060,6 +2059,18 @@ impl Pomelo {
         Ok(())
     }
 
+    /* Get the non-terminal that stands for the given symbol when it is optional. */
+    fn optional_symbol(&mut self, sym_r: SymbolId, span: Span) -> SymbolSpan {
+        let sym_l = self.optional_tokens.iter().find(|(s, _)| *s == sym_r);
+        if let Some((_, sym_l)) = sym_l {
+            return sym_l.clone();
+        }
+        let name = format!("_{}", self.optional_tokens.len());
+        let sym_l = SymbolSpan(self.symbol_new_s(&name, NewSymbolType::NonTerminal), span);
+        self.optional_tokens.push((sym_r, sym_l.clone()));
+        sym_l
+    }
+
     fn create_rule(
         &mut self,
         span: Span,
-- 
2.43.0


From 18e82aeddbd902161729fa975c8f8e3b433e99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 07/20] fix: optional symbols of the default type

The Option of an optional symbol without its own type ignored
%default_type, and the generated code did not compile.
---
 pomelo-impl/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 4c67eb2..52240e6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -671,7 +671,9 @@ impl Pomelo {
                     _ => sym.data_type.clone(),
                 }
             };
-            let dt = dt.unwrap_or_else(|| parse_quote!(()));
+            let dt = dt
+                .or_else(|| self.default_type.clone())
+                .unwrap_or_else(|| parse_quote!(()));
             self.the_symbols.get_mut(sym_l).data_type = Some(parse_quote!(Option<#dt>));
             let sym_l = SymbolSpan(sym_l, span);
 
-- 
2.43.0


From cc84b49d7fbdd3179dd3b4698c39b106f98e74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 08/20] fix: aliases of untyped symbols that stand for a typed
 token

A typed token can fall back to an untyped one, but an alias of the
latter made the reduction panic with 'impossible pattern'.
---
 pomelo-impl/src/parser/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 52240e6..2e1a251 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -3004,7 +3004,13 @@ impl Pomelo {
         for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let r = self.the_symbols.get(r);
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
-            yymatch.push(quote!(#yypi.minor));
+            if alias.is_some() && r.dt_num == 0 {
+                //An untyped symbol may be standing for a typed token, if it is a fallback,
+                //so there is no telling the type in the stack, but its value is always ().
+                yymatch.push(quote!(()));
+            } else {
+                yymatch.push(quote!(#yypi.minor));
+            }
             if let (Some(alias), MultiTerminal(ss)) = (alias, &r.typ) {
                 for or in &ss[1..] {
                     if r.dt_num != self.the_symbols.get(or).dt_num {
@@ -3019,17 +3025,19 @@ impl Pomelo {
 
         let mut yypattern = Vec::new();
         for SymbolAlias(r, _, alias) in &rp.rhs {
-            let yydt = Ident::new(
-                &format!("YY{}", self.the_symbols.get(r).dt_num),
-                Span::call_site(),
-            );
+            let dt_num = self.the_symbols.get(r).dt_num;
+            let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
                 Some(alias) => {
                     if Some(r) == self.wildcard.as_ref() {
                         return error_span(alias.span(), "Wildcard token must not have an alias");
                         //tested
                     }
-                    yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    if dt_num == 0 {
+                        yypattern.push(quote!(#alias))
+                    } else {
+                        yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    }
                 }
                 None => yypattern.push(quote!(_)),
             }
-- 
2.43.0


From 440d875656e6f39e8dd0867c128e8bc69afcdac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 09/20] fix: a parser whose user code panics is failed

If an action panicked and the panic was caught, the parser could be used
again with part of its stack lost, and even accept.
---
 pomelo-impl/src/parser/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 2e1a251..0d5b174 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2623,6 +2623,12 @@ impl Pomelo {
                         _ => false,
                     }
                 }
+                fn is_accepted(&self) -> bool {
+                    match self {
+                        YYStatus::Accepted(_) => true,
+                        _ => false,
+                    }
+                }
             }
 
             #yyparser
@@ -2726,9 +2732,13 @@ impl Pomelo {
                 if !yy.yystatus.is_normal() {
                     panic!("Cannot call parse after failure");
                 }
+                /* If the user code panics then part of the stack is lost, so this is a failure
+                 ** unless proven otherwise.
+                 */
+                yy.yystatus = YYStatus::Failed;
                 let res = yy_parse_token_2(yy, yymajor, yyminor);
-                if res.is_err() {
-                    yy.yystatus = YYStatus::Failed;
+                if res.is_ok() && !yy.yystatus.is_accepted() {
+                    yy.yystatus = YYStatus::Normal;
                 }
                 res
             }
@@ -2737,7 +2747,7 @@ impl Pomelo {
                 #yy_generics_where
             {
 
-                while yy.yystatus.is_normal() {
+                while !yy.yystatus.is_accepted() {
                     let yyact = yy_find_shift_action(yy, yymajor);
                     if yyact < YYNSTATE {
                         assert!(yymajor != 0);  /* Impossible to shift the $ token */
-- 
2.43.0


From 5a7c372e1c0148c18fe511e79310374b8ab1af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 10/20] fix: drop the reduction that loses a %nonassoc conflict

It was kept along with the error action for the same token, and unless it
happened to become the default action of the state it ended up in the
action table instead of the error.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 0d5b174..49bae76 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1204,7 +1204,7 @@ impl Pomelo {
                 match (precx, precy) {
                     (Some(px), Some(py)) => match precedence_cmp(px, py) {
                         Ordering::Less => (false, SHResolved(x), Reduce(y)),
-                        Ordering::Equal => (false, Error, Reduce(y)),
+                        Ordering::Equal => (false, Error, RDResolved(y)),
                         Ordering::Greater => (false, Shift(x), RDResolved(y)),
                     },
                     _ => (true, Shift(x), SRConflict(y)),
-- 
2.43.0


From bc1e8442814a766bbe5b51cac03d7637c3efd1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 11/20] fix: expected tokens in %nonassoc errors

If the reduction of the rest of the tokens was made the default action
then every token of the grammar, but the wrong one, was listed.
---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 49bae76..3dfa7e6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1253,6 +1253,7 @@ impl Pomelo {
                 let mut nbest = 0;
                 let mut rbest = None;
                 let mut uses_wildcard = false;
+                let mut has_error = false;
                 let stp = self.the_states.get(stp);
 
                 // ignored_actions will be actions that do not participate in the compression.
@@ -1304,6 +1305,9 @@ impl Pomelo {
                     if Some(ap.look_ahead) == self.wildcard && self.compute_action(&ap).is_some() {
                         uses_wildcard = true;
                     }
+                    if let Error = ap.detail {
+                        has_error = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
@@ -1344,9 +1348,10 @@ impl Pomelo {
 
                 /* Do not make a default if the number of rules to default
                  ** is not at least 1 or if the wildcard token is a possible
-                 ** lookahead.
+                 ** lookahead. Nor if some token is explicitly an error here
+                 ** (%nonassoc): every other token would look as expected.
                  */
-                if nbest < 1 || uses_wildcard {
+                if nbest < 1 || uses_wildcard || has_error {
                     continue;
                 }
                 let rbest = rbest.unwrap();
-- 
2.43.0


From 90ea32538950ae05b13027830bb980323bcbb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 12/20] fix: do not overlap action sets at the end of the table

The offsets tried stopped one short of the first that is certain to fit, and
then the set went right after the last entry without any check. With a single
lookahead there, the state could read the end of input entry of another.
---
 pomelo-impl/src/parser/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 3dfa7e6..f14e50e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -411,10 +411,9 @@ impl ActTab {
             None => {
                 /* Look for holes in the aAction[] table that fit the current
                  ** aLookahead[] transaction.  Leave i set to the offset of the hole.
-                 ** If no holes are found, i is left at self.n_action, which means the
-                 ** transaction will be appended. */
-                let mut r = self.a_action.len();
-                'ia: for i in 0..self.a_action.len() + max_lookahead {
+                 ** The last offset tried is past any entry of the table, so it always fits. */
+                let mut r = self.a_action.len() + max_lookahead;
+                'ia: for i in 0..=self.a_action.len() + max_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
                         if let Some(Some(_)) = self.a_action.get(k) {
-- 
2.43.0


From 9ef1f9e267c6baa345e481cf36c9319685adb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 13/20] fix: do not borrow a state while its own actions are
 compared

A state that shifts to itself and has another action on the same token
made the sort panic instead of reporting the conflict.
---
 pomelo-impl/src/parser/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f14e50e..37856b2 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1134,9 +1134,13 @@ impl Pomelo {
         /* Resolve conflicts */
         let mut nconflict = 0;
         for stp in &self.states {
-            self.the_states.get_mut(stp).actions.sort_by(|a, b| {
+            /* The comparison looks into the states, even into this very one if it
+             ** shifts to itself, so it must not be borrowed while sorting */
+            let mut actions = std::mem::take(&mut self.the_states.get_mut(stp).actions);
+            actions.sort_by(|a, b| {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
+            self.the_states.get_mut(stp).actions = actions;
             let stp = self.the_states.get(stp);
             let len = stp.actions.len();
             for i in 0..len {
@@ -1387,9 +1391,13 @@ impl Pomelo {
                     }
                 }
             }
-            self.the_states.get_mut(stp).actions.sort_by(|a, b| {
+            /* The comparison looks into the states, even into this very one if it
+             ** shifts to itself, so it must not be borrowed while sorting */
+            let mut actions = std::mem::take(&mut self.the_states.get_mut(stp).actions);
+            actions.sort_by(|a, b| {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
+            self.the_states.get_mut(stp).actions = actions;
         }
     }
 
-- 
2.43.0


From 254fa979bbe32cea36d7ffc24b3711ee49dd2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 14/20] fix: weigh every rule against a token that %nonassoc
 makes an error

---
 pomelo-impl/src/parser/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 37856b2..8a9004e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1227,6 +1227,21 @@ impl Pomelo {
                     _ => (true, Reduce(x), RRConflict(y)),
                 }
             }
+            /* The shift has already been turned into an error by another rule of the same
+             ** precedence (%nonassoc), but it still competes with this one. */
+            (Error, Reduce(y)) => {
+                let precx = self.the_symbols.get(apx.look_ahead).precedence;
+                let precy = self.the_rules.get(y).precedence;
+
+                match (precx, precy) {
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
+                        Ordering::Less => (false, NotUsed, Reduce(y)),
+                        Ordering::Equal => (true, Error, RRConflict(y)),
+                        Ordering::Greater => (false, Error, RDResolved(y)),
+                    },
+                    _ => (true, Error, SRConflict(y)),
+                }
+            }
             /* The REDUCE/SHIFT case cannot happen because SHIFTs come before
              ** REDUCEs on the list.  If we reach this point it must be because
              ** the parser conflict had already been resolved. */
-- 
2.43.0


From 10ea30b40ca4c402ef589f35b5c8c1d7cf0c3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 15/20] fix: report a second %stack_size when the first one
 names no type

---
 pomelo-impl/src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 8a9004e..03e0905 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -259,7 +259,7 @@ pub struct Pomelo {
     optional_tokens: Vec<(SymbolId, SymbolSpan)>, //In order of appearance, so that the output is deterministic
     extra_token: Option<Type>,
     stack_type: Option<Type>,
-    stack_limit: usize,
+    stack_limit: Option<usize>,
     verbose: bool,
 }
 
@@ -552,7 +552,7 @@ impl Pomelo {
             optional_tokens: Vec::new(),
             extra_token: None,
             stack_type: None,
-            stack_limit: 100,
+            stack_limit: None,
             verbose: false,
         };
 
@@ -2001,10 +2001,10 @@ impl Pomelo {
                 self.extra_token = Some(ty);
             }
             Decl::StackSize(limit, ty) => {
-                if self.stack_type.is_some() {
+                if self.stack_limit.is_some() {
                     return error_span(ty.span(), "Stack size already defined");
                 }
-                self.stack_limit = limit;
+                self.stack_limit = Some(limit);
                 self.stack_type = ty;
             }
             Decl::Verbose => {
@@ -2167,7 +2167,7 @@ impl Pomelo {
             Some(ref ty) => Cow::Borrowed(ty),
             None => Cow::Owned(parse_quote!(std::vec::Vec)),
         };
-        let yystacklimit = self.stack_limit;
+        let yystacklimit = self.stack_limit.unwrap_or(100);
 
         src.extend(quote! {
             const YYNOCODE: i32 = #yynocode;
@@ -2262,7 +2262,7 @@ impl Pomelo {
             Some(ref c) => Cow::Borrowed(c),
             None => {
                 //stack_limit == 0, means unlimited, so the code will never be called
-                let c = if self.stack_limit == 0 {
+                let c = if yystacklimit == 0 {
                     parse_quote!({ unreachable!() })
                 } else {
                     parse_quote!({ Default::default() })
-- 
2.43.0


From 3fe66b9485620ec25b5bbf7986831aac91c4b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 16/20] fix: take a token class within a class or compound for
 its tokens

Its members were never looked at: the class itself was shifted as if it were
a token, so the grammar was accepted but none of its tokens were. A class
without tokens, or that contains itself, made the macro panic; now it is
reported.
---
 pomelo-impl/src/parser/mod.rs | 46 +++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 03e0905..83c8573 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -571,8 +571,54 @@ impl Pomelo {
             return error("Grammar must have some rules"); //tested
         }
 
+        pomelo.flatten_token_classes()?;
+
         Ok(pomelo)
     }
+    //The rest of the code expects the members of every MultiTerminal to be Terminals, but a token
+    //may have become a class after being listed in another class or compound.
+    fn flatten_token_classes(&mut self) -> syn::Result<()> {
+        fn flatten(
+            the_symbols: &VecRef<Symbol>,
+            path: &mut Vec<SymbolId>,
+            sym: SymbolId,
+            res: &mut Vec<SymbolId>,
+        ) -> syn::Result<()> {
+            let s = the_symbols.get(sym);
+            let sub_sym = match &s.typ {
+                MultiTerminal(sub_sym) => sub_sym,
+                _ => {
+                    res.push(sym);
+                    return Ok(());
+                }
+            };
+            if path.contains(&sym) {
+                return error(format!("Token class {} contains itself", s.name));
+            }
+            if sub_sym.is_empty() {
+                return error(format!("Token class {} has no tokens", s.name));
+            }
+            path.push(sym);
+            for ss in sub_sym {
+                flatten(the_symbols, path, *ss, res)?;
+            }
+            path.pop();
+            Ok(())
+        }
+
+        let mut classes = Vec::new();
+        for sym in &self.symbols {
+            if let MultiTerminal(_) = &self.the_symbols.get(sym).typ {
+                let mut sub_sym = Vec::new();
+                flatten(&self.the_symbols, &mut Vec::new(), *sym, &mut sub_sym)?;
+                classes.push((*sym, sub_sym));
+            }
+        }
+        for (sym, sub_sym) in classes {
+            self.the_symbols.get_mut(sym).typ = MultiTerminal(sub_sym);
+        }
+        Ok(())
+    }
     pub fn module_name(&self) -> &Ident {
         &self.module
     }
-- 
2.43.0


From 7c9bf0fb659200dbc38a79756b211ab55cd74d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:49 +0000
Subject: [PATCH 17/20] fix: report a token class given precedence, a fallback
 or the role of wildcard

Such a directive was accepted, and had no effect at all.
---
 pomelo-impl/src/parser/mod.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 83c8573..2b04d34 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -572,9 +572,44 @@ impl Pomelo {
         }
 
         pomelo.flatten_token_classes()?;
+        pomelo.check_token_classes()?;
 
         Ok(pomelo)
     }
+    //A token class is not a token, wherever it was declared, so these directives do not apply to it
+    fn check_token_classes(&self) -> syn::Result<()> {
+        let is_class = |sym: SymbolId| matches!(self.the_symbols.get(sym).typ, MultiTerminal(_));
+
+        for sym in &self.symbols {
+            let s = self.the_symbols.get(sym);
+            if is_class(*sym) && s.precedence.is_some() {
+                return error(format!("Precedence cannot be assigned to token class {}", s.name));
+            }
+            if let Some(fb) = s.fallback {
+                if is_class(*sym) || is_class(fb) {
+                    return error(format!(
+                        "Fallback must be a token, not a token class: {}",
+                        self.the_symbols.get(if is_class(fb) { fb } else { *sym }).name
+                    ));
+                }
+            }
+        }
+        if let Some(wildcard) = self.wildcard {
+            if is_class(wildcard) {
+                return error(format!(
+                    "Wildcard must be a token, not a token class: {}",
+                    self.the_symbols.get(wildcard).name
+                ));
+            }
+        }
+        for rp in &self.rules {
+            let rp = self.the_rules.get(rp);
+            if rp.prec_sym.map_or(false, is_class) {
+                return error_span(rp.span, "The precedence symbol must be a token");
+            }
+        }
+        Ok(())
+    }
     //The rest of the code expects the members of every MultiTerminal to be Terminals, but a token
     //may have become a class after being listed in another class or compound.
     fn flatten_token_classes(&mut self) -> syn::Result<()> {
-- 
2.43.0


From 59931b778c65e2e459b99af56470dba7ac8f9c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:59 +0000
Subject: [PATCH 18/20] fix: compare the generic parameters of Token and Parser
 by name

A parameter with a default value in Token, or with its bounds written in
another place in Parser, was said not to be in Parser.
---
 pomelo-impl/src/parser/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 2b04d34..b65ed29 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -9,7 +9,7 @@ use crate::decl::*;
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::ToTokens;
 use syn::{
-    Attribute, Block, Fields, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
+    Attribute, Block, Fields, GenericParam, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
     spanned::Spanned,
 };
 
@@ -2324,7 +2324,14 @@ impl Pomelo {
         }
 
         for g in yytoken.generics.params.iter() {
-            if !yyparser.generics.params.iter().any(|p| p == g) {
+            //Only the names matter, the bounds may be written elsewhere and the defaults are optional
+            let same_param = |p: &GenericParam| match (p, g) {
+                (GenericParam::Lifetime(p), GenericParam::Lifetime(g)) => p.lifetime == g.lifetime,
+                (GenericParam::Type(p), GenericParam::Type(g)) => p.ident == g.ident,
+                (GenericParam::Const(p), GenericParam::Const(g)) => p.ident == g.ident,
+                _ => false,
+            };
+            if !yyparser.generics.params.iter().any(same_param) {
                 return error_span(g.span(), "Generic parameter in Token is not in Parser");
                 //tested
             }
-- 
2.43.0


From 9bb1a403fd03024af31c7901d02ad4a59dd83f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 19/20] fix: accept an untyped start symbol when some other
 symbol has type ()

The type of the start symbol was looked up among the declared ones, and an
untyped one was mistaken for a symbol declared of type (): end_of_input()
panicked with "unexpected root type".
---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index b65ed29..5fbe4e4 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -3071,7 +3071,8 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
+        //An untyped start symbol is not the same as one of type `()`, so do not look for its type
+        let accept_code = match Some(start.dt_num).filter(|n| *n != 0) {
             Some(n) => {
                 let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
                 quote!(
-- 
2.43.0


From ad7a9d28d2e9cb733bf36f9457cac3ccdd1c61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:47 +0000
Subject: [PATCH 20/20] fix: a token that a class has in several ways is a
 single member of it

---
 pomelo-impl/src/parser/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 5fbe4e4..3e5c6e9 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -611,11 +611,13 @@ impl Pomelo {
         Ok(())
     }
     //The rest of the code expects the members of every MultiTerminal to be Terminals, but a token
-    //may have become a class after being listed in another class or compound.
+    //may have become a class after being listed in another class or compound. A token that is a
+    //member in several ways is still a single member.
     fn flatten_token_classes(&mut self) -> syn::Result<()> {
         fn flatten(
             the_symbols: &VecRef<Symbol>,
             path: &mut Vec<SymbolId>,
+            done: &mut Vec<SymbolId>,
             sym: SymbolId,
             res: &mut Vec<SymbolId>,
         ) -> syn::Result<()> {
@@ -623,21 +625,27 @@ impl Pomelo {
             let sub_sym = match &s.typ {
                 MultiTerminal(sub_sym) => sub_sym,
                 _ => {
-                    res.push(sym);
+                    if !res.contains(&sym) {
+                        res.push(sym);
+                    }
                     return Ok(());
                 }
             };
             if path.contains(&sym) {
                 return error(format!("Token class {} contains itself", s.name));
             }
+            if done.contains(&sym) {
+                return Ok(());
+            }
             if sub_sym.is_empty() {
                 return error(format!("Token class {} has no tokens", s.name));
             }
             path.push(sym);
             for ss in sub_sym {
-                flatten(the_symbols, path, *ss, res)?;
+                flatten(the_symbols, path, done, *ss, res)?;
             }
             path.pop();
+            done.push(sym);
             Ok(())
         }
 
@@ -645,7 +653,13 @@ impl Pomelo {
         for sym in &self.symbols {
             if let MultiTerminal(_) = &self.the_symbols.get(sym).typ {
                 let mut sub_sym = Vec::new();
-                flatten(&self.the_symbols, &mut Vec::new(), *sym, &mut sub_sym)?;
+                flatten(
+                    &self.the_symbols,
+                    &mut Vec::new(),
+                    &mut Vec::new(),
+                    *sym,
+                    &mut sub_sym,
+                )?;
                 classes.push((*sym, sub_sym));
             }
         }
-- 
2.43.0

