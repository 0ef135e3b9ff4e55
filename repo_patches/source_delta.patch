From 7f42e73a08339487c30945c113778abbbc2c83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 01/20] fix: FIRST/FOLLOW computation never ended for cycles of
 three or more rules

first_step and follow_step replaced the non terminals of a set by their own
sets, so names in longer cycles (A -> B x, B -> C y, C -> A z), or copied from
rules without a FOLLOW entry, alternated for ever and Tabler::new hung. Keep
the names while iterating, which makes every step only grow, and drop them at
the end.
---
 src/tabler.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..bb31662 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -102,6 +102,10 @@ where
 
     pub fn proc_first(&mut self) {
         self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        let grammar = &self.grammar;
+        for firsts in self.first.values_mut() {
+            firsts.retain(|t| grammar.is_terminal(t));
+        }
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -112,6 +116,10 @@ where
 
     pub fn proc_follow(&mut self) {
         self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        let grammar = &self.grammar;
+        for follows in self.follow.values_mut() {
+            follows.retain(|t| grammar.is_terminal(t));
+        }
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -128,9 +136,10 @@ where
         for (name, firsts) in input {
             table.insert(name.clone(), Set::new());
             for first in firsts {
-                if self.grammar.is_terminal(first) {
-                    table.get_mut(name).unwrap().insert(first.clone());
-                } else {
+                // Non terminals are kept, so a step only grows the sets. Otherwise, cycles between
+                // rules would make them alternate forever
+                table.get_mut(name).unwrap().insert(first.clone());
+                if !self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().extend(
                         input
                             .get(first)
@@ -157,9 +166,8 @@ where
             table.insert(noterm.clone(), Set::new());
             for term in terms {
                 let entry = table.get_mut(noterm).unwrap();
-                if self.grammar.is_terminal(term) {
-                    entry.insert(term.clone());
-                } else if let Some(set) = input.get(term) {
+                entry.insert(term.clone());
+                if let Some(set) = input.get(term) {
                     entry.extend(set.clone());
                 }
             }
-- 
2.43.0


From dcd7db343a5a529a447e08321450d76f4b691580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 02/20] fix: LALR lookaheads reaching an already processed
 state were lost

update_closures propagated only through the kernel items of an updated state,
so the closure items of a state behind the worklist kept stale lookaheads in
their targets and the parser rejected valid sentences (A -> a | C B; B -> a;
C -> b A a). Go back to the updated state in the worklist instead.
---
 src/lalr.rs | 43 ++++++-------------------------------------
 1 file changed, 6 insertions(+), 37 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..bffe9d9 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -126,10 +126,14 @@ where
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
+                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                         continue;
                     };
-                    if self.table.kernels[&nk] == idx && nk != row {
+                    // Every state behind (or in) `idx` was already propagated, so its new
+                    // lookaheads need to be propagated again
+                    let updated = self.table.kernels[&nk];
+                    if updated <= idx {
+                        idx = updated;
                         continue 'gen;
                     }
                 } else {
@@ -146,41 +150,6 @@ where
         }
     }
 
-    #[must_use]
-    pub fn update_closures(
-        &mut self,
-        main: &State<T>,
-        inc: State<T>,
-        closures: State<T>,
-    ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
-        let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
-
-        'regen: loop {
-            for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
-                    continue;
-                };
-                let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                    continue;
-                };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
-                }
-            }
-            break;
-        }
-        Some(new_kernel)
-    }
-
     #[must_use]
     pub fn update_state(
         &mut self,
-- 
2.43.0


From 174ae544126aa4e321fea5ee736f52578297e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 03/20] fix: Dfa::parse panicked, since reset dropped the
 initial state

reset left the state stack empty while new starts it with state 0, so the
first reduction back to the initial state underflowed the stack.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From c3c2dd3416f44a144ab1222bdc20feb9efd26ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 04/20] fix: a driver that rejected trailing tokens reported
 success when restarted

accept marked the driver as finished before finding out that the buffer still
had tokens, so the next start returned Ok(()) for the rejected input.
---
 src/dfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..7c54a58 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -128,8 +128,8 @@ where
     /// # Errors
     /// When finished parse without consume entire buffer, raises an `Error::IncompleteExec`
     pub fn accept(&mut self) -> BaseResult<(), Error<M>> {
-        self.finished = true;
         if self.buffer.peek().is_none() {
+            self.finished = true;
             Ok(())
         } else {
             Err(Error::IncompleteExec)
-- 
2.43.0


From 6008a7d4a26a6dd9bc24458da2087e2cff136f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 05/20] fix: a token named as a non terminal made the parser
 loop for ever

The goto entry of the non terminal was followed without consuming the token,
growing the state stack endlessly for rules like Word -> Alpha Word. Such a
token is unexpected.
---
 src/dfa.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 7c54a58..85a7fa1 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -152,6 +152,14 @@ where
                 .peek()
                 .map_or_else(|| &self.eof, |t| &t.ty)
                 .clone();
+            // Only a reduction can follow a goto. For a buffered token, which it wouldn't consume, it
+            // could be followed for ever
+            if let Some(row) = self.table.get(self.top) {
+                if let Some(Action::Goto(_)) = row.get(&symbol) {
+                    let expecteds = row.keys().cloned().collect();
+                    return Err(Error::UnexpectedToken(symbol, expecteds));
+                }
+            }
             self.travel(&symbol)?;
         }
         Ok(())
-- 
2.43.0


From 9418f5f688c7862ff3c32ed18243f78fa622c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 06/20] fix: unexpected token errors listed non terminals as
 expected tokens

The expected list of Error::UnexpectedToken is documented as the correct
tokens, but had the row's goto entries (rule names) too.
---
 src/dfa.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index 85a7fa1..4424c49 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -156,7 +156,7 @@ where
             // could be followed for ever
             if let Some(row) = self.table.get(self.top) {
                 if let Some(Action::Goto(_)) = row.get(&symbol) {
-                    let expecteds = row.keys().cloned().collect();
+                    let expecteds = Self::expecteds(row);
                     return Err(Error::UnexpectedToken(symbol, expecteds));
                 }
             }
@@ -165,6 +165,14 @@ where
         Ok(())
     }
 
+    /// The tokens with an action in a table row, i.e. without the gotos of the non terminals
+    fn expecteds(row: &Map<M, Action<M>>) -> Vec<M> {
+        row.iter()
+            .filter(|(_, act)| !matches!(act, Action::Goto(_)))
+            .map(|(symbol, _)| symbol.clone())
+            .collect()
+    }
+
     /// # Errors
     /// None
     pub fn goto(&mut self, to: usize) -> BaseResult<(), Error<M>> {
@@ -180,7 +188,7 @@ where
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
         let action = state.get(symbol).ok_or_else(|| {
-            let expecteds = state.keys().cloned().collect();
+            let expecteds = Self::expecteds(state);
             Error::UnexpectedToken(symbol.clone(), expecteds)
         })?;
         match action {
-- 
2.43.0


From 403e0bcfc9b5e72c1a4d2c350aaaf96605a3e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 07/20] fix: a cycle of single symbol reductions (A -> A) made
 the parser loop for ever

---
 src/dfa.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 4424c49..ee6f0ce 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -145,6 +145,7 @@ where
     /// # Errors
     /// The same of `dfa::travel`
     pub fn trace(&mut self, mut f: impl FnMut(&mut Self)) -> BaseResult<(), Error<M>> {
+        let mut units = 0;
         while !self.finished {
             f(self);
             let symbol = self
@@ -160,7 +161,20 @@ where
                     return Err(Error::UnexpectedToken(symbol, expecteds));
                 }
             }
+            let height = self.states.len();
             self.travel(&symbol)?;
+            // Only reductions of a single symbol keep the height. After more of them than there are
+            // states, some state was seen again for the same token: a cycle (A -> B, B -> A) that
+            // would be followed for ever
+            units = if self.states.len() == height {
+                units + 1
+            } else {
+                0
+            };
+            if units > self.table.len() && !self.finished {
+                let expecteds = self.table.get(self.top).map(Self::expecteds);
+                return Err(Error::UnexpectedToken(symbol, expecteds.unwrap_or_default()));
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 3610130629b3391c64edd8cfbe536309168715f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 08/20] fix: block comments ending in several stars ran on to
 the next comment

---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 60489d5..2d85ce1 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -83,7 +83,7 @@ pub enum Sym {
     StrLit,
 
     /// Block comment
-    #[regex(r#"/\*([^\*]|\*[^//])*\*/"#, logos::skip)]
+    #[regex(r#"/\*[^*]*\*+([^*/][^*]*\*+)*/"#, logos::skip)]
     BlockComment,
 
     /// Line comment
-- 
2.43.0


From 89c817d298bb39cfbe12d5441337bee9de9ae875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 09/20] fix: code blocks ending in several braces ran on to the
 next code block

---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 2d85ce1..4c22f11 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -91,7 +91,7 @@ pub enum Sym {
     LineComment,
 
     /// Matches a entire function tail definition: arrow ("->"), return type and a expression
-    #[regex(r#"(->)([^\}]|\}[^%])*\}%"#)]
+    #[regex(r#"->[^}]*\}+([^}%][^}]*\}+)*%"#)]
     CodeBlock,
 
     #[error]
-- 
2.43.0


From e7d765af6e496e94c8893c741c9d045d9946ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 10/20] fix: labels of absent parts in nested groups were bound
 to other symbols

---
 wop/src/builder.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..db2dc9d 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -1,9 +1,5 @@
 use crate::{Ast, Gramem, RulePipe, Sym};
-use std::{
-    collections::{HashMap, HashSet},
-    fmt::Write,
-    str::FromStr,
-};
+use std::{collections::HashMap, fmt::Write, str::FromStr};
 
 pub type SrcRef = lrp::Span;
 
@@ -223,11 +219,8 @@ impl Builder {
                             for alias in &prods[0].aliases {
                                 if !ignored_prod.aliases.iter().any(|a| a.alias == alias.alias) {
                                     let item_alias = ItemAlias {
-                                        alias: alias.alias,
                                         optional: Some(false),
-                                        index: 0,
-                                        final_index: None,
-                                        clone,
+                                        ..alias.clone()
                                     };
                                     ignored_prod.aliases.push(item_alias);
                                 }
@@ -262,29 +255,25 @@ impl Builder {
     /// in `base`. Also, adds a `None` alias for the productions that doesn't have a alias defined
     /// in another.
     pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
-        let base_aliases: HashSet<_> = base.aliases.iter().map(|a| a.alias).collect();
-        let prods_aliases: HashSet<_> = productions
+        let sub_aliases: Vec<_> = productions
             .iter()
-            .flat_map(|a| a.aliases.iter())
-            .map(|a| a.alias)
+            .flat_map(|p| p.aliases.iter())
+            .filter(|a| !base.aliases.iter().any(|b| b.alias == a.alias))
+            .cloned()
             .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
         for prod in productions.iter_mut() {
-            for alias_name in &prods_aliases {
+            for sub_alias in &sub_aliases {
                 if let Some(prod_alias) = prod
                     .aliases
                     .iter_mut()
-                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
+                    .find(|a| a.alias.from_source(src) == sub_alias.alias.from_source(src))
                 {
-                    prod_alias.optional = Some(true);
+                    // It may already be optional, and even absent here, by its own
+                    prod_alias.optional.get_or_insert(true);
                 } else {
                     let item_alias = ItemAlias {
-                        alias: **alias_name,
                         optional: Some(false),
-                        index: 0,
-                        // FIXME: Will it ALWAYS be nothing?
-                        final_index: None,
-                        clone: false,
+                        ..sub_alias.clone()
                     };
                     prod.aliases.push(item_alias);
                 }
-- 
2.43.0


From e9b96a0e5e98a2eba829b8d553b32c12ee6950c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 11/20] fix: a labelled group was bound to a run of the wrong
 length when a variant expands

---
 wop/src/builder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index db2dc9d..97d969e 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -70,9 +70,10 @@ impl ItemAlias {
             // aren't a real type declaration inside this struct, we bind the type from `toks[0]`
             // and set to `None`. Also, it needs to be shadowed to prevent mutations.
             Some(false) => {
+                let any = self.final_index.map_or("0", |_| "0..0");
                 writeln!(
                     out,
-                    "let mut {alias} = Some({prefix}0{suffix}); {alias} = None; let {alias} = {alias};"
+                    "let mut {alias} = Some({prefix}{any}{suffix}); {alias} = None; let {alias} = {alias};"
                 )
             }
             None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
@@ -193,6 +194,10 @@ impl Builder {
                 Sym::IdentPath => prod.production.push(*get_definition(false)),
                 Sym::Rule => match item.item.item {
                     Ast::Rule(ref variants) => {
+                        if alias.is_some() {
+                            let group = prod.aliases.last_mut().unwrap();
+                            group.final_index = Some(group.index);
+                        }
                         let mut prods = Vec::new();
                         for (variant, a) in variants {
                             assert_eq!(
@@ -201,11 +206,14 @@ impl Builder {
                                 "sub-rules like {} shouldn't have a codeblock",
                                 g.item.span.from_source(src)
                             );
+                            let mut news = self.get_from_single_production(&prod, variant, src);
                             if alias.is_some() {
-                                prod.aliases.last_mut().unwrap().final_index =
-                                    Some(prod.production.len() + variant.len());
+                                // the variant may itself expand to productions of other lengths
+                                for new in &mut news {
+                                    new.aliases[prod.aliases.len() - 1].final_index =
+                                        Some(new.production.len());
+                                }
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
-- 
2.43.0


From f8edc6cc14459649dc6312a1c9ec19eb95e81564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 12/20] fix: rules named by a path gave reductors with names
 that don't compile

---
 wop/src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 97d969e..b167f25 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -367,6 +367,8 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
+        // a rule may be named by a path, which can't be a part of an identifier
+        let fn_name = name.replace(|c: char| !c.is_alphanumeric(), "_");
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -374,14 +376,14 @@ impl Builder {
             }
             writeln!(
                     out,
-                    "\tfn lrp_wop_{name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
+                    "\tfn lrp_wop_{fn_name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
                     prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                 )
                 .unwrap();
         }
         write!(out, "\tmap.insert({name}, vec![").unwrap();
         for (i, _) in prods.iter().enumerate() {
-            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
+            write!(out, "lrp_wop_{fn_name}_{i}, ").unwrap();
         }
         out.push_str("\t]);\n\n");
     }
-- 
2.43.0


From d5d04cedb423f032235af207f4280cb999acdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 13/20] fix: the front end marked every labelled item as cloned

---
 wop/src/out.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..da6b8e1 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From 1a46f698e33ec8590400af51526a46e316e62fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:34 +0000
Subject: [PATCH 14/20] fix: a rule defined twice under differently spaced
 paths silently replaced the first

---
 wop/src/builder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index b167f25..bb18599 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -131,12 +131,14 @@ impl Builder {
             rules.extend(self.get_production(&[base], &prod.0, src));
         }
 
+        // a path is the same rule whatever is written between its parts (`a::b` and `a :: b`)
+        let rule_src = rule_ident.from_source(src);
+        let rule_name = crate::lexer(rule_src)
+            .map(|tk| tk.item.span.from_source(rule_src).to_string())
+            .collect();
         assert!(
-            self.rules
-                .insert(rule_ident.from_source(src).to_string(), rules)
-                .is_none(),
-            "rule {} was already defined",
-            rule_ident.from_source(src)
+            self.rules.insert(rule_name, rules).is_none(),
+            "rule {rule_src} was already defined"
         );
     }
 
-- 
2.43.0


From 2de8f6d74266efea17ebb3483f4a9b0e0bf2df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 15/20] fix: the wop tool built a front end from a file it
 could not read

It went on with whatever had been read before the error, overwrote out.rs with
the rules of that part, and stopped with an index out of bounds when nothing had
been read.
---
 wop/src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 0d58c0c..92c9408 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -18,7 +18,9 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     let mut dfa = wop::build_parser(lexer);
 
-    let res = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
+    let res: Result<(), Box<dyn std::error::Error>> = match dfa
+        .trace(|st| println!("{:?}", st.stack_fmt()))
+    {
         Err(e) => {
             println!("FATAL: {e}");
             println!("source:");
@@ -30,7 +32,11 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
         }
     };
     println!("PARSING OUTPUT:");
-    print_nested(&dfa.items[0], "", 0, &file);
+    if let Some(item) = dfa.items.first() {
+        print_nested(item, "", 0, &file);
+    }
+    // what was read before the error isn't the whole description: build nothing from it
+    res?;
 
     println!("BUILDING OUTPUT");
     let mut builder = Builder::new("Gramem".to_string());
@@ -66,7 +72,7 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         builder.dump_reductor(&file),
     )?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
-    res
+    Ok(())
 }
 
 const TAB_C: &str = "  ";
-- 
2.43.0


From 128c1614bc0ee054e67fae85a2b3cb3e3b5df92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 16/20] fix: the wop tool reported success when its output
 could not be written

---
 wop/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 92c9408..8bc3a64 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -71,6 +71,8 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         wop::builder::REDUCTOR_LINTS,
         builder.dump_reductor(&file),
     )?;
+    // dropping the writer would ignore its errors
+    writer.flush()?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
     Ok(())
 }
-- 
2.43.0


From a40f0151b19a2ecfb9af9217a12ff6aecc1e1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:53 +0000
Subject: [PATCH 17/20] fix: reducing more symbols than the stack holds
 panicked instead of the documented errors

---
 src/dfa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index ee6f0ce..cfa4ef6 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -219,6 +219,12 @@ where
     /// If there isn't a previous state, raises an `Error::MissingPreviousState`
     pub fn reduce(&mut self, name: &M, prod: &Production<M>) -> BaseResult<(), Error<M>> {
         let len = self.items.len();
+        if len < prod.0.len() {
+            return Err(Error::UnexpectedEof);
+        }
+        if self.states.len() <= prod.0.len() {
+            return Err(Error::MissingPreviousState);
+        }
         let items = &self.items[len - prod.0.len()..];
         // TODO: Create a custom Error
         debug_assert!(
-- 
2.43.0


From b2f98fab3135a5d998876689a553ac0012da399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:03 +0000
Subject: [PATCH 18/20] fix: the lrp tool printed traces for ever once its
 input had ended

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ba4743a..76eaad3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,9 @@ fn main() {
         io::stdout().flush().unwrap();
 
         let mut input = String::new();
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            break;
+        }
 
         #[allow(clippy::needless_collect)]
         let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();
-- 
2.43.0


From ef260e5fba059f0ee45e5f329f8961a4daf5cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:03 +0000
Subject: [PATCH 19/20] fix: the printed action table had no title for its
 column of states, shifting those of the rules

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 76eaad3..712aa92 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -137,10 +137,12 @@ where
                 (ts, nts)
             });
 
+    let title = |t: &T| Cell::new(&format!("{t:?}"));
     let rows: Vec<_> = terminals
         .iter()
-        .chain(nonterminals.iter())
-        .map(|t| Cell::new(&format!("{t:?}")))
+        .map(title)
+        .chain(std::iter::once(Cell::new("state")))
+        .chain(nonterminals.iter().map(title))
         .collect();
 
     out.set_titles(Row::new(rows));
-- 
2.43.0


From 67ad89e04917d922aaec11e18890f94d23bcd463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:17 +0000
Subject: [PATCH 20/20] fix: keep the reductors of rules like a::b and a__b
 apart

---
 wop/src/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index bb18599..2f65cff 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -369,8 +369,9 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
-        // a rule may be named by a path, which can't be a part of an identifier
-        let fn_name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+        // a rule may be named by a path, which can't be a part of an identifier; underscores are doubled
+        // so that different rules (`a::b` and `a__b`) keep different functions
+        let fn_name = name.replace('_', "__").replace("::", "_p");
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
-- 
2.43.0

