From fb5b40ae5770f39af8c642a575156bcaa164f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 1/6] fix: print a nonterminal without a production as
 <identifier> when generating

The README documents that generation prints the identifier of a nonterminal
it can't find a production for as a nonterminal, i.e. `<identifier>`; the
bare name was printed instead.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..8d9ccbc 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(format!("<{ident}>")),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From ea7e61b185a70c34201426819f24f2bab37f1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 2/6] fix: build_parser accepts a nonterminal defined without
 alternatives, as validate does

ParseGrammar::new recorded a left hand side only while walking its
alternatives, so a production with none was reported as undefined although
Grammar::validate accepts it.
---
 src/parser/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..2e777d1 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -40,14 +40,18 @@ impl<'gram, 'a> ParseGrammar<'gram> {
         let n = grammar.production_count();
         sets.reserve(n, n.saturating_mul(2));
 
+        // a production without alternatives still defines its nonterminal
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
+                sets.record_lhs(nt.as_str());
+            }
+        }
+
         let flat_prod_iter = grammar
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
         for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
-                sets.record_lhs(nt.as_str());
-            }
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From 761666049eabf1178ca2469557dce8be04bc5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 3/6] fix: generated group names never equal a nonterminal the
 text only references

Fresh __anonN names avoided only left hand sides, so a reference to an
undefined <__anon0> silently became a reference to the generated group.
---
 src/parsers/mod.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..8a7338c 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -396,19 +396,38 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 
 /// Normalize a parsed grammar (with `Group` and `Optional`) into a `Grammar` that uses only
 /// `Term::Terminal` and `Term::Nonterminal`. Anonymous names (`__anon0`, `__anon1`, …) are chosen
-/// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
+/// so they do not clash with any nonterminal defined or referenced in the text (e.g. `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        collect_names(rhs, &mut used_names);
+    }
+
+    /// Collect every nonterminal name referenced in the expressions, including nested groups.
+    fn collect_names(exprs: &[ParsedExpression], used: &mut crate::HashSet<String>) {
+        for expr in exprs {
+            let ParsedExpression::Terms(terms) = expr;
+            for term in terms {
+                match term {
+                    ParsedTerm::Simple(Term::Nonterminal(nt)) => {
+                        used.insert(nt.clone());
+                    }
+                    ParsedTerm::Simple(Term::Terminal(_)) => {}
+                    ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {
+                        collect_names(exprs, used);
+                    }
+                }
+            }
+        }
     }
 
     let mut out_prods = Vec::new();
     let mut anon_prods = Vec::new();
 
-    /// Pick a fresh name that does not collide with user-defined LHS or other generated names.
+    /// Pick a fresh name that does not collide with user-written or other generated names.
     fn fresh_anon_name(used: &mut crate::HashSet<String>, counter: &mut usize) -> String {
         loop {
             let candidate = format!("__anon{}", counter);
-- 
2.43.0


From 276e84ac596196f2959274a089d69dcf924542d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:12 +0000
Subject: [PATCH 4/6] fix: accept whitespace and comments after an opening '('
 or '['

Layout between tokens is insignificant everywhere else in a grammar, also
before the closing ')' or ']', but '( <a> )' and '[ <a> ]' were rejected.
---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8a7338c..a7c67fc 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0


From 8bd942ee13f7f61a4da1b745ad91b7f6b1909c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:54 +0000
Subject: [PATCH 5/6] fix: weighted choice no longer overflows when the weights
 sum past u32::MAX

The weights were summed as u32: a debug build panicked, and a release build
wrapped, so that e.g. Weighted::new(0x8000_0000, 0) over two recursive
alternatives saw a total of 0 and could choose a zero-weight alternative.
---
 src/generation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..eb336e0 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,20 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        let mut total: u64 = 0;
+        for &w in weights {
+            total = total.saturating_add(u64::from(w));
+        }
         if total == 0 {
             return random_index(rng, fallback_len);
         }
-        let mut r = rng.random_range(0..total);
+        // Draw as u32 whenever the total fits, so that seeded choices stay as they were.
+        let mut r = match u32::try_from(total) {
+            Ok(total) => u64::from(rng.random_range(0..total)),
+            Err(_) => rng.random_range(0..total),
+        };
         for (i, &w) in weights.iter().enumerate() {
+            let w = u64::from(w);
             if r < w {
                 return i;
             }
-- 
2.43.0


From 7e5de7ec87704737bc4a6ab155e1dd4ceb2f2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:47 +0000
Subject: [PATCH 6/6] fix: grammar! and production! keep productions and
 alternatives in the order written

---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 8d9ccbc..28136eb 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions, in the order they were written
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..6632c76 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions in the order they were written
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0

