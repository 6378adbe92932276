From c1247920849a4273e5728b087bac98dd77a10d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 01/19] fix: a quotient transition id with nothing on its left
 side has leaves too

---
 src/TransitionSystems/transition_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..ae402bf 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -52,7 +52,7 @@ impl TransitionID {
                 index_right
             }
             TransitionID::Simple(_) | TransitionID::None => {
-                if current_leaves.len() <= index {
+                while current_leaves.len() <= index {
                     current_leaves.push(Vec::new());
                 }
                 current_leaves[index].push(self.clone());
-- 
2.43.0


From 82ad2964da3993ca6beb1a6fbf99c69777cae2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 02/19] fix: a step without any leaves does not shorten the
 component paths

---
 src/TransitionSystems/transition_id.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index ae402bf..55b1447 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -97,10 +97,10 @@ impl TransitionID {
 
         for transitionID in path {
             let leaves = transitionID.get_leaves();
+            if leaves.len() != amount {
+                return Err(format!("Could not split into components because first transition has {} components but {:?} has {} components", amount, leaves, leaves.len()));
+            }
             for (componentIndex, transition) in leaves.iter().enumerate() {
-                if leaves.len() != amount {
-                    return Err(format!("Could not split into components because first transition has {} components but {:?} has {} components", amount, leaves, leaves.len()));
-                }
                 paths[componentIndex].push(
                     transition
                         .iter()
-- 
2.43.0


From d54c121b37b05b51d7be790b8535edd49c577baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 03/19] fix: saved expressions keep the structure of their
 operands

---
 .../Expressions/arith_expression.rs           | 20 ++++++++++++++-----
 .../Expressions/bool_expression.rs            | 19 ++++++++++++++----
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..ba160ac 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -58,19 +58,19 @@ impl ArithExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("-"), right.encode_term()].concat()
             }
             ArithExpression::Addition(left, right) => {
-                [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("+"), right.encode_term()].concat()
             }
             ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("*"), right.encode_term()].concat()
             }
             ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("/"), right.encode_term()].concat()
             }
             ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("%"), right.encode_term()].concat()
             }
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
@@ -78,6 +78,16 @@ impl ArithExpression {
         }
     }
 
+    /// Encodes the operand of an operator, in parentheses unless it is a single term
+    fn encode_term(&self) -> String {
+        match self {
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) | ArithExpression::Int(_) => {
+                self.encode_expr()
+            }
+            _ => format!("({})", self.encode_expr()),
+        }
+    }
+
     pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
         let mut new_constraint = 0;
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..61c2c97 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -63,15 +63,15 @@ impl BoolExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             BoolExpression::AndOp(left, right) => [
-                left.encode_expr(),
+                self.encode_operand(left),
                 String::from(" && "),
-                right.encode_expr(),
+                self.encode_operand(right),
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
-                left.encode_expr(),
+                self.encode_operand(left),
                 String::from(" || "),
-                right.encode_expr(),
+                self.encode_operand(right),
             ]
             .concat(),
             BoolExpression::LessEQ(left, right) => {
@@ -93,6 +93,17 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes an operand of `self`, in parentheses if it is of the other connective
+    fn encode_operand(&self, operand: &BoolExpression) -> String {
+        match (self, operand) {
+            (BoolExpression::AndOp(_, _), BoolExpression::OrOp(_, _))
+            | (BoolExpression::OrOp(_, _), BoolExpression::AndOp(_, _)) => {
+                format!("({})", operand.encode_expr())
+            }
+            _ => operand.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
-- 
2.43.0


From b114e293423fb415f7838cab195cc23ba6eadfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 04/19] fix: negative numbers are saved in a form that can be
 read back

---
 src/ModelObjects/Expressions/arith_expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index ba160ac..22c2444 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -74,6 +74,8 @@ impl ArithExpression {
             }
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
+            // The grammar has no negative numbers
+            ArithExpression::Int(num) if *num < 0 => format!("(0-{})", num.unsigned_abs()),
             ArithExpression::Int(num) => num.to_string(),
         }
     }
-- 
2.43.0


From 084c6a57646ecbd6caaf3346f000f6273bab1e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 05/19] fix: constants written as arithmetic count for the
 bounds of a clock

---
 .../Expressions/arith_expression.rs           | 39 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 22c2444..f17038c 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -171,7 +171,44 @@ impl ArithExpression {
             _ => {}
         }
 
-        0
+        // The constant may be spread over both sides, as in x+1<=2*3 or x-y<5
+        if left.mentions(clock, clock_name) || right.mentions(clock, clock_name) {
+            left.constant_bound().saturating_add(right.constant_bound())
+        } else {
+            0
+        }
+    }
+
+    fn mentions(&self, clock: ClockIndex, clock_name: &str) -> bool {
+        match self {
+            ArithExpression::Difference(left, right)
+            | ArithExpression::Addition(left, right)
+            | ArithExpression::Multiplication(left, right)
+            | ArithExpression::Division(left, right)
+            | ArithExpression::Modulo(left, right) => {
+                left.mentions(clock, clock_name) || right.mentions(clock, clock_name)
+            }
+            ArithExpression::Clock(id) => *id == clock,
+            ArithExpression::VarName(name) => name == clock_name,
+            ArithExpression::Int(_) => false,
+        }
+    }
+
+    /// A value that the constants of the expression cannot exceed in sum, with any signs
+    fn constant_bound(&self) -> i32 {
+        match self {
+            ArithExpression::Difference(left, right) | ArithExpression::Addition(left, right) => {
+                left.constant_bound().saturating_add(right.constant_bound())
+            }
+            ArithExpression::Multiplication(left, right) => {
+                left.constant_bound().saturating_mul(right.constant_bound())
+            }
+            ArithExpression::Division(left, _) | ArithExpression::Modulo(left, _) => {
+                left.constant_bound()
+            }
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) => 0,
+            ArithExpression::Int(num) => num.saturating_abs(),
+        }
     }
 
     pub fn iterate_constraints<F>(&self, function: &mut F)
-- 
2.43.0


From 747e4a5150d87d9f03fe13b902ef3c3c2d8eee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 06/19] fix: undo updates from the last to the first when
 computing allowed valuations

---
 src/ModelObjects/transition.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..429956a 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // Undone from the last to the first, as a later update of the same clock overrides an earlier one
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
-- 
2.43.0


From f7051293f9c2a08dbfb1bb4fe2f1d572b226e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 07/19] fix: name the new input of a quotient apart from all
 actions of its operands

---
 src/TransitionSystems/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TransitionSystems/quotient.rs b/src/TransitionSystems/quotient.rs
index e80cd49..1e0017e 100644
--- a/src/TransitionSystems/quotient.rs
+++ b/src/TransitionSystems/quotient.rs
@@ -58,7 +58,7 @@ impl Quotient {
         let mut i = 0;
         let new_input_name = loop {
             let test = format!("quotient_new_input{}", i);
-            if !inputs.contains(&test) {
+            if !T.actions_contain(&test) && !S.actions_contain(&test) {
                 break test;
             }
             i += 1;
-- 
2.43.0


From ece10d3f0e8e97a196f94e46c11aecf7ff2d284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 08/19] fix: forget the states passed on the way to an
 inconsistent one

The consistency check assumed that every state it had passed was consistent,
also those passed while following an output that turned out not to save the
state: another output to the same inconsistent state then counted as saving.
---
 src/System/local_consistency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..06c1f86 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -114,9 +114,12 @@ pub fn consistency_least_helper(
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
+                let passed = passed_list.len();
                 if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
                     return Ok(());
                 }
+                // The states passed on the way to a failure are not known to be consistent
+                passed_list.truncate(passed);
             }
         }
     }
-- 
2.43.0


From 0cd39606035317eebe8d5f4236d3377406e70d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 09/19] fix: refinement also fails when the right side cuts
 delays in the initial pair

---
 src/System/refine.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..9a65ab0 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -143,8 +143,15 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
         initial_locations_2.clone(),
     );
 
-    if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
-        return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
+    match prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
+        InitialPair::Valid => {}
+        InitialPair::Empty => {
+            return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref())
+        }
+        InitialPair::CutsDelaySolutions => {
+            // No action leads to the initial pair
+            return RefinementFailure::cuts_delays(sys1.as_ref(), sys2.as_ref(), "", &initial_pair);
+        }
     }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
@@ -407,18 +414,32 @@ fn build_state_pair(
     BuildResult::Success
 }
 
+enum InitialPair {
+    Valid,
+    Empty,
+    CutsDelaySolutions,
+}
+
 fn prepare_init_state(
     initial_pair: &mut StatePair,
     initial_locations_1: LocationTree,
     initial_locations_2: LocationTree,
-) -> bool {
-    let mut sp_zone = initial_pair.take_zone();
-    sp_zone = initial_locations_1.apply_invariants(sp_zone);
-    sp_zone = initial_locations_2.apply_invariants(sp_zone);
+) -> InitialPair {
+    let s_invariant = initial_locations_1.apply_invariants(initial_pair.take_zone());
+    let sp_zone = initial_locations_2.apply_invariants(s_invariant.clone());
+
+    // As for all other pairs, the invariant of T (right) must not cut delay solutions from S (left)
+    let cuts_delays = !s_invariant.subset_eq(&sp_zone.clone().down());
 
     initial_pair.set_zone(sp_zone);
 
-    !initial_pair.ref_zone().is_empty()
+    if initial_pair.ref_zone().is_empty() {
+        InitialPair::Empty
+    } else if cuts_delays {
+        InitialPair::CutsDelaySolutions
+    } else {
+        InitialPair::Valid
+    }
 }
 
 fn check_preconditions(
-- 
2.43.0


From 96a3f65a245182de7cdd2c4159350edf78d84c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 10/19] fix: the input enabler undoes updates from the last to
 the first

---
 src/System/input_enabler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..2e6d670 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,8 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    // The last update decides the value, so they are undone from the last to the first
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From 865fcdd97fa4ca4daea2d95c62eecce6ae8fc98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 11/19] fix: give clocks of a combined component different
 names

---
 src/System/save_component.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..61b53fa 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -80,7 +80,12 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
             if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
+                let mut name = format!("{}{}", k, comp_id);
+                // The new name may be that of another clock
+                while clocks.contains_key(&name) {
+                    name.push('_');
+                }
+                clocks.insert(name, *v);
             } else {
                 clocks.insert(k.clone(), *v);
             }
-- 
2.43.0


From af0e54e3c37678ca0fe07bb0243bb8b16ccf544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 12/19] fix: read state expressions with 'or' and 'not' in
 queries

---
 src/DataReader/parse_queries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..3ac4e3a 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -82,6 +82,7 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
 fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
     PRATT
         .map_primary(|pair| match pair.as_rule() {
+            Rule::state => parse_state(pair.into_inner().next().unwrap()),
             Rule::andExpr | Rule::orExpr => {
                 let rule = pair.as_rule();
 
@@ -123,7 +124,7 @@ fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
             Rule::bool_false => StateExpression::Bool(false),
             _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
         })
-        .parse(pair.into_inner())
+        .parse(std::iter::once(pair))
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
-- 
2.43.0


From 08169f236cd75bff3c5d9b75cca15fcaa8de9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 13/19] fix: refuse disjunctions of locations, not those of
 clock constraints

---
 src/System/extract_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..0a2a2d7 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -74,9 +74,9 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             for expr in exprs {
                 res.append(&mut get_locations(expr)?);
             }
-            if res.len() != 1 {
+            if !res.is_empty() {
                 return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
+                    "We do not support disjunctions of locations: {:?}",
                     expr
                 ));
             }
-- 
2.43.0


From ddd0e9f4152cae2c1e8fad42b8f5cbb838f9b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 14/19] fix: refuse locations of components that are not in the
 system

---
 src/System/extract_state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 0a2a2d7..ce9b440 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -50,6 +50,15 @@ pub fn get_state(
         ));
     }
 
+    // Check that the locations are those of components in the system
+    if let Some(loc) = locations.iter().find(|loc| {
+        !components
+            .iter()
+            .any(|c| c.name == loc.component && c.special_id == loc.special_id)
+    }) {
+        return Err(format!("There is no component for location {}", loc));
+    }
+
     let loc_tree = construct_location_tree(&locations, recipe, system)?;
 
     let zone =
-- 
2.43.0


From 34118bd4b96d60b8570f82638c7bcfdf1d1bf1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 15/19] fix: equal components of one name are ambiguous too

---
 src/System/extract_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index ce9b440..b60e197 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -23,7 +23,7 @@ pub fn get_state(
     if let Some((c1, c2)) = components
         .iter()
         .cartesian_product(components.iter())
-        .filter(|(&c1, &c2)| c1 != c2)
+        .filter(|(&c1, &c2)| !std::ptr::eq(c1, c2))
         .find(|(c1, c2)| c1.name == c2.name && c1.special_id == c2.special_id)
     {
         return Err(format!(
-- 
2.43.0


From b7970d04a97ece995ca99c85b3f0f5704e2f6e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 16/19] fix: read names that start with 'not' in state
 expressions

---
 src/DataReader/grammars/query_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..8fe30ba 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -54,7 +54,7 @@ andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
 
 orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
 
-subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
+subExpr = _{parenthesizedSubExp | compExpr | locExpr | notExpr | bool_true | bool_false}
 
 locExpr = { variable }
 
-- 
2.43.0


From 6462949ab6a00683c2e79180135fe87742255ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:29 +0000
Subject: [PATCH 17/19] fix: print the name of a saved component behind save-as

---
 src/ModelObjects/Expressions/query_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/query_expression.rs b/src/ModelObjects/Expressions/query_expression.rs
index 78d78f2..0139954 100644
--- a/src/ModelObjects/Expressions/query_expression.rs
+++ b/src/ModelObjects/Expressions/query_expression.rs
@@ -61,7 +61,7 @@ impl Display for SystemExpression {
 impl Display for SaveExpression {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self.name {
-            Some(name) => write!(f, "{} save-as {}", name, self.system),
+            Some(name) => write!(f, "{} save-as {}", self.system, name),
             None => write!(f, "{}", self.system),
         }
     }
-- 
2.43.0


From 584059c0600e64ea9a6d6395073e690eff435fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 18/19] fix: simplifying nested sums keeps the signs of their
 operands

x-1+2 was simplified to x-(1+2), and 9-(x+2) and 3-(5-x) to x+7 and
(3-5)-x, because a clock was lifted out of an operand without regard to
the operator around it. Sums with clocks are refused as operands of
products, like clocks are; (x+1)*2 was taken to be x+2.
---
 .../Expressions/arith_expression.rs           | 63 ++++++++++++++-----
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index f17038c..8cbbe3c 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -292,10 +292,25 @@ impl ArithExpression {
             ArithExpression::Difference(l, r) => {
                 if l.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(l, r, None)?;
-                    l.move_clock_and_vars(Operation::Dif(false))?
+                    let nested = switch.is_none();
+                    let moved = l.move_clock_and_vars(Operation::Dif(false))?;
+                    // (x-s)-r is x-(s+r)
+                    if nested && matches!(moved, Some((_, Operation::Dif(false)))) {
+                        switch = Some(ArithExpression::Addition(l.clone(), r.clone()));
+                    }
+                    moved
                 } else if r.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(r, l, None)?;
-                    r.move_clock_and_vars(Operation::Dif(true))?
+                    let nested = switch.is_none();
+                    match r.move_clock_and_vars(Operation::Dif(true))? {
+                        // l-(x+s) is (l-s)-x
+                        Some((x, Operation::Add(_))) if nested => Some((x, Operation::Dif(true))),
+                        // l-(s-x) is x+(l-s)
+                        Some((x, Operation::Dif(true))) if nested => {
+                            Some((x, Operation::Add(false)))
+                        }
+                        moved => moved,
+                    }
                 } else {
                     None
                 }
@@ -303,10 +318,22 @@ impl ArithExpression {
             ArithExpression::Addition(l, r) => {
                 if l.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(l, r, None)?;
-                    l.move_clock_and_vars(Operation::Add(false))?
+                    let moved = l.move_clock_and_vars(Operation::Add(false))?;
+                    // (x-s)+r is x-(s-r)
+                    if matches!(moved, Some((_, Operation::Dif(false)))) {
+                        switch = Some(ArithExpression::Difference(l.clone(), r.clone()));
+                    }
+                    moved
                 } else if r.clock_var_count() > 0 {
                     switch = ArithExpression::clone_expr(r, l, None)?;
-                    r.move_clock_and_vars(Operation::Add(true))?
+                    match r.move_clock_and_vars(Operation::Add(true))? {
+                        // l+(x-s) is x+(l-s)
+                        Some((x, Operation::Dif(false))) => {
+                            switch = Some(ArithExpression::Difference(l.clone(), r.clone()));
+                            Some((x, Operation::Add(false)))
+                        }
+                        moved => moved,
+                    }
                 } else {
                     None
                 }
@@ -375,16 +402,24 @@ impl ArithExpression {
         cloner: &ArithExpression,
         err_msg: Option<&str>,
     ) -> Result<Option<ArithExpression>, String> {
-        if let ArithExpression::Clock(_) = *checker {
-            if let Some(e) = err_msg {
-                Err(e.to_string())
-            } else {
-                Ok(Some(cloner.clone()))
-            }
-        } else if let ArithExpression::VarName(_) = *checker {
-            Ok(Some(cloner.clone()))
-        } else {
-            Ok(None)
+        if let Some(e) = err_msg.filter(|_| checker.has_clock()) {
+            return Err(e.to_string());
+        }
+        match checker {
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) => Ok(Some(cloner.clone())),
+            _ => Ok(None),
+        }
+    }
+
+    fn has_clock(&self) -> bool {
+        match self {
+            ArithExpression::Difference(l, r)
+            | ArithExpression::Addition(l, r)
+            | ArithExpression::Multiplication(l, r)
+            | ArithExpression::Division(l, r)
+            | ArithExpression::Modulo(l, r) => l.has_clock() || r.has_clock(),
+            ArithExpression::Clock(_) => true,
+            ArithExpression::VarName(_) | ArithExpression::Int(_) => false,
         }
     }
 
-- 
2.43.0


From 6bf9b7ffd25b3271ae701b226d97cf3d14a62025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 19/19] fix: a clock inside a subtracted difference has its
 sign turned

x-(3-y)<=5 constrained x-y instead of being refused, x-(y-3)<=2 was
refused.
---
 src/EdgeEval/constraint_applyer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..35cc245 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -205,22 +205,24 @@ fn get_clock_val(
         ArithExpression::Difference(l, r) => {
             if let ArithExpression::Clock(x) = **l {
                 nxt_expr = Some(&**r);
-                nxt_negated = true;
-                Clock::pos(x)
+                nxt_negated = !negated;
+                Clock::new(x, negated)
             } else if let ArithExpression::Clock(x) = **r {
                 nxt_expr = Some(&**l);
-                Clock::neg(x)
+                nxt_negated = negated;
+                Clock::new(x, !negated)
             } else {
                 return Err(String::from("No Clocks"));
             }
         }
         ArithExpression::Addition(l, r) => {
+            nxt_negated = negated;
             if let ArithExpression::Clock(x) = **l {
                 nxt_expr = Some(&**r);
-                Clock::pos(x)
+                Clock::new(x, negated)
             } else if let ArithExpression::Clock(x) = **r {
                 nxt_expr = Some(&**l);
-                Clock::pos(x)
+                Clock::new(x, negated)
             } else {
                 return Err(String::from("No Clocks"));
             }
-- 
2.43.0

