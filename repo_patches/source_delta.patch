From 0c5c28d34b601fba9c790e14e29997b4da7a51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 01/62] fix: canonicalization: variables whose coefficients
 cancel out contribute nothing to a sum

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..ba81c72 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -111,25 +111,26 @@ impl<'a> Canonicalizer<'a> {
             use std::cmp::Ordering::*;
             res.extend(
                 map.into_iter()
-                    .map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
+                    .filter_map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
                         Less => {
                             let x = neg - pos;
-                            if x.is_one() {
+                            Some(if x.is_one() {
                                 Canonicalizer::negate(v.into())
                             } else {
                                 let neg_coeff = Canonicalizer::negate(Constant::Numeral(x).into());
                                 Mul([neg_coeff, v.into()].into()).into()
-                            }
+                            })
                         }
                         Greater => {
                             let x = pos - neg;
-                            if x.is_one() {
+                            Some(if x.is_one() {
                                 v.into()
                             } else {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
-                            }
+                            })
                         }
-                        Equal => v.into(),
+                        // The occurrences of `v` cancel out
+                        Equal => None,
                     }),
             );
             res
-- 
2.43.0


From 576bc9bc10cbf893109018c0421ab3646b3d42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 02/62] fix: fold integer constraints without variables to
 true/false instead of panicking

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 67 ++++++++++++-------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index ba81c72..72707a9 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -15,7 +15,7 @@ use aws_smt_ir::{
 use either::Either;
 use num_traits::{One, Zero};
 use smallvec::{smallvec, SmallVec};
-use std::{collections::BTreeMap, iter};
+use std::{cmp::Ordering, collections::BTreeMap, iter};
 
 pub struct Canonicalizer<'a> {
     context: &'a mut Ctx,
@@ -207,6 +207,39 @@ impl<'a> Canonicalizer<'a> {
         };
         (Plus(args).into(), rhs)
     }
+
+    /// Compares the two sides of a normalized constraint if no variables remain in it.
+    fn compare_constants(l: &Term, r: &Term) -> Option<Ordering> {
+        match l {
+            Term::OtherOp(op) => match op.as_ref() {
+                Op::Arith(ArithOp::Plus(args)) if args.is_empty() => {
+                    int_term(r).map(|(x, pos)| match (x.is_zero(), pos) {
+                        (true, _) => Ordering::Equal,
+                        (false, true) => Ordering::Less,
+                        (false, false) => Ordering::Greater,
+                    })
+                }
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
+    fn normalize_eq(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::compare_constants(&l, &r) {
+            Some(ord) => (ord == Ordering::Equal).into(),
+            None => CoreOp::Eq([l, r].into()).into(),
+        }
+    }
+
+    fn normalize_gte(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::compare_constants(&l, &r) {
+            Some(ord) => (ord != Ordering::Less).into(),
+            None => Op::Arith(ArithOp::Gte([l, r].into())).into(),
+        }
+    }
 }
 
 impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
@@ -227,10 +260,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Eq(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    chained(args, |l, r| {
-                        let (l, r) = Self::normalize_constraint(l, r);
-                        CoreOp::Eq([l, r].into()).into()
-                    })
+                    chained(args, Self::normalize_eq)
                 } else {
                     CoreOp::Eq(args).into()
                 }
@@ -245,15 +275,9 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                 );
                 if sort == ISort::int() {
                     let res = Term::from(self.context.fresh_var(sort)?);
-                    let if_true = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), consq);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_true = Self::normalize_eq(res.clone(), consq);
                     self.new_asserts.push(implies(cond.clone(), if_true));
-                    let if_false = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), alt);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_false = Self::normalize_eq(res.clone(), alt);
                     self.new_asserts.push(implies(!cond, if_false));
                     res
                 } else {
@@ -265,10 +289,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Distinct(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    pairwise(&args, |x, y| {
-                        let (l, r) = Self::normalize_constraint(x, y);
-                        !Term::from(CoreOp::Eq([l, r].into()))
-                    })
+                    pairwise(&args, |x, y| !Self::normalize_eq(x, y))
                 } else {
                     CoreOp::Distinct(args).into()
                 }
@@ -281,10 +302,6 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
         use ArithOp::*;
         use Op::*;
 
-        let normalize_gte = |l, r| {
-            let (l, r) = Self::normalize_constraint(l, r);
-            Gte([l, r].into()).into()
-        };
         let op = match op.super_fold_with(self)? {
             Arith(Plus(args)) => Self::canonicalize_plus(args),
             Arith(Neg(arg)) => Self::negate(arg),
@@ -303,10 +320,10 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                 }
                 _ => anyhow::bail!("term invalid in LIA: {}", Mul(args)),
             },
-            Arith(Gte(args)) => chained(args, normalize_gte),
-            Arith(Gt(args)) => chained(args, |l, r| !normalize_gte(r, l)),
-            Arith(Lte(args)) => chained(args, |l, r| normalize_gte(r, l)),
-            Arith(Lt(args)) => chained(args, |l, r| !normalize_gte(l, r)),
+            Arith(Gte(args)) => chained(args, Self::normalize_gte),
+            Arith(Gt(args)) => chained(args, |l, r| !Self::normalize_gte(r, l)),
+            Arith(Lte(args)) => chained(args, |l, r| Self::normalize_gte(r, l)),
+            Arith(Lt(args)) => chained(args, |l, r| !Self::normalize_gte(l, r)),
             op => op.into(),
         };
         Ok(op)
-- 
2.43.0


From e8bfeee8fa3b296642bcf24d58859787c0975ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 03/62] fix: solution bound: constraints with a moved
 right-hand-side variable are not always separation constraints

---
 amzn-smt-eager-arithmetic/src/stats.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..956aa43 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -1,7 +1,7 @@
 //! Validation of quantifier-free ALL arithmetic SMT formulas.
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use super::Constant;
+use super::{int_term, Constant};
 use anyhow::anyhow;
 use aws_smt_ir::{
     logic::{
@@ -95,17 +95,20 @@ impl Stats {
                 },
                 _ => bad(),
             };
-            // Check if this is the LHS of a separation constraint (SC)
+            let rhs_is_const = args.get(1).map_or(false, |rhs| int_term(rhs).is_some());
+            // Check if this is a separation constraint (SC)
             match lhs {
                 // x >= c (SC)
-                [Term::Variable(_)] => {}
+                [Term::Variable(_)] if rhs_is_const => {}
+                // x >= y === x - y >= 0 (SC)
+                [Term::Variable(_)] if matches!(args.get(1), Some(Term::Variable(_))) => {}
                 // -x >= c === x <= -c (SC)
                 [Term::OtherOp(op)]
                 // x - y >= c (SC)
                 | [Term::Variable(_), Term::OtherOp(op)]
                 // y - x >= c (SC)
                 | [Term::OtherOp(op), Term::Variable(_)]
-                    if matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))) => {}
+                    if rhs_is_const && matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))) => {}
                 // Not a separation constraint
                 _ => {
                     k += 1;
@@ -319,6 +322,12 @@ impl<'a> StatsVisitor<'a> {
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
+                if let (Term::OtherOp(op), None) = (l, int_term(r)) {
+                    if let Op::Arith(ArithOp::Plus(args)) = op.as_ref() {
+                        // A variable on the right-hand side also counts towards the width
+                        try_break!(self.with_stats(|s| s.w = s.w.max(args.len() + 1)));
+                    }
+                }
                 self.expecting = Expecting::Formula;
                 self.current_partition = None;
                 ControlFlow::CONTINUE
-- 
2.43.0


From 90f169edfde079691ed76f266cbc71558eaeab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 04/62] fix: decode integer solutions wider than 63 bits
 without overflowing

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..b72f706 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -569,23 +569,23 @@ impl Encoder {
                 Variable::Int(v) => {
                     let bits = self.int_var_bits(v);
                     let len = bits.len();
-                    let val = bits
+                    // Sums of the powers of two with positive and negative (sign bit) weights
+                    let (mut pos, mut neg) = (Numeral::zero(), Numeral::zero());
+                    for (bit, _) in bits
                         .enumerate()
                         .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
-                            if bit == len - 1 {
-                                -x
-                            } else {
-                                x
-                            }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
+                    {
+                        let x = Numeral::from(1u8) << bit;
+                        if bit == len - 1 {
+                            neg += x;
+                        } else {
+                            pos += x;
+                        }
+                    }
+                    let val = if pos >= neg {
+                        Constant::Numeral(pos - neg).into()
                     } else {
-                        Op::Arith(ArithOp::Neg(abs)).into()
+                        Op::Arith(ArithOp::Neg(Constant::Numeral(neg - pos).into())).into()
                     };
                     (symbol, val)
                 }
-- 
2.43.0


From 07893f673b78bcb6912a184881591fa40ae73065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 05/62] fix: bit-vector literals and solutions are ordered
 most-significant bit first

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index b72f706..a6302af 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -68,8 +68,10 @@ impl InterLogicFolder<ALL> for Encoder {
     }
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
-        if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+        if let Some(Constant::Binary(mut bits)) = var.to_bitvec_literal() {
+            // `to_bitvec_literal()` produces the least-significant bit first
+            bits.reverse();
+            Ok(Constant::Binary(bits).into())
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -245,7 +247,8 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
+            // Binary constants store the most-significant bit first
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
             Constant::Hexadecimal(_) => {
                 todo!("hexadecimal bit iterator")
             }
@@ -593,6 +596,7 @@ impl Encoder {
                 Variable::Bv(bv) => {
                     let bits = self
                         .bit_vec_bits(&bv)
+                        .rev()
                         .map(|bit| bit.evaluate(assignment).unwrap());
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
-- 
2.43.0


From c36f4acc4fcab73e427fce59f8bde14cfebafbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 06/62] fix: support hexadecimal bit-vector literals and
 comparisons between literals

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index a6302af..d1dc4e1 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -243,14 +243,21 @@ impl Encoder {
     fn constant_bits(
         c: &Constant,
     ) -> anyhow::Result<
-        impl Iterator<Item = Bit> + DoubleEndedIterator + ExactSizeIterator + Clone + '_,
+        impl Iterator<Item = Bit> + DoubleEndedIterator + ExactSizeIterator + Clone,
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
             // Binary constants store the most-significant bit first
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
-            Constant::Hexadecimal(_) => {
-                todo!("hexadecimal bit iterator")
+            Constant::Binary(bits) => {
+                let bits: Vec<Bit> = bits.iter().rev().copied().map_into().collect();
+                Ok(Either::Right(bits.into_iter()))
+            }
+            Constant::Hexadecimal(digits) => {
+                let digits = digits.iter().rev();
+                let bits: Vec<Bit> = digits
+                    .flat_map(|digit| (0..4).map(move |bit| (digit >> bit & 1 == 1).into()))
+                    .collect();
+                Ok(Either::Right(bits.into_iter()))
             }
             c => bail!("expected integer or bit-vector constant, got: {}", c),
         }
@@ -540,7 +547,10 @@ impl Encoder {
             &l,
             &r,
             |x, y| Self::encode_unsigned_gte_bitwise(x.map_into().zip(y.map_into())),
-            |l, r| bail!("todo"),
+            |l, r| {
+                let (l, r) = (Self::constant_bits(l)?, Self::constant_bits(r)?);
+                Self::encode_unsigned_gte_bitwise(l.map_into().zip(r.map_into()))
+            },
         )
     }
 
-- 
2.43.0


From e26eb8a4a7bdff15e54fd2ad29e101ca9d0774bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:08 +0000
Subject: [PATCH 07/62] fix: report sums over non-integer variables as
 unsupported instead of panicking

---
 amzn-smt-eager-arithmetic/src/stats.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 956aa43..0423e38 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -370,11 +370,10 @@ impl Visitor<ALL> for StatsVisitor<'_> {
     fn visit_var(&mut self, var: &IVar<QualIdentifier>) -> ControlFlow<Self::BreakTy> {
         match self.expecting {
             Expecting::Summand | Expecting::Variable | Expecting::Sum | Expecting::Rhs => {
-                debug_assert_eq!(
-                    self.context.const_sort(var.sym()),
-                    Some(&ISort::int()),
-                    "sums contain integer variables"
-                );
+                // Sums contain integer variables
+                if self.context.const_sort(var.sym()) != Some(&ISort::int()) {
+                    return ControlFlow::Break(self.invalid(var.clone()));
+                }
                 self.set_current_patition(var.clone());
                 self.with_stats(|stats| {
                     stats.vars.insert(var.sym().clone());
-- 
2.43.0


From e1b5c1ceca3b21923ce87763537ebcc9a03730fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 08/62] fix: encode multiplication by a constant with a number
 of additions logarithmic in the constant

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index d1dc4e1..f6fa4b6 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -132,8 +132,15 @@ impl InterLogicFolder<ALL> for Encoder {
                         let x = x.fold_with(self)?;
                         let (c, pos) = int_term(c)
                             .expect("canonicalization produced malformed multiplication");
-                        let c = c.to_usize().unwrap();
-                        let sum = (0..c).try_fold(z, |acc, _| self.encode_plus(acc, x.clone()))?;
+                        // Double-and-add, starting with the most-significant bit of `c`
+                        let sum = (0..c.bits()).rev().try_fold(z, |acc, bit| {
+                            let acc = self.encode_plus(acc.clone(), acc)?;
+                            if c.bit(bit) {
+                                self.encode_plus(acc, x.clone())
+                            } else {
+                                Ok(acc)
+                            }
+                        })?;
                         if pos {
                             sum
                         } else {
-- 
2.43.0


From d129f1ce51b8d200d2906315d2f8048f10ea3e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 09/62] fix: reject incremental commands instead of solving all
 assertions together

---
 amzn-smt-eager-arithmetic/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index d580e37..a6d985c 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -14,7 +14,7 @@ use aws_smt_ir::{
     },
     model::Model,
     smt2parser::{concrete::Constant, Numeral},
-    Ctx, ISort, IVar, Logic, Script, Sorted, Term, UnknownSort,
+    Command, Ctx, ISort, IVar, Logic, Script, Sorted, Term, UnknownSort,
 };
 use either::Either;
 use std::{
@@ -116,7 +116,7 @@ fn encode_inner(
     impl FnOnce(Model<ALL>) -> Model<ALL>,
 )> {
     let start = Instant::now();
-    let uflia = Script::<Term>::parse(smt)?;
+    let uflia = Script::<Term>::parse(smt)?.try_map(reject_incremental)?;
     println!("Parse time: {:?}", start.elapsed());
     let start = Instant::now();
     let mut ctx = Ctx::default();
@@ -146,6 +146,19 @@ fn encode_inner(
     Ok((cnf, mapping, encoder, reconstruct_ackermannized_funcs))
 }
 
+/// All assertions of a script are solved together, so commands that retract or add some of them
+/// temporarily are not supported.
+fn reject_incremental(cmd: Command<Term>) -> anyhow::Result<Command<Term>> {
+    match cmd {
+        Command::Push { .. }
+        | Command::Pop { .. }
+        | Command::Reset
+        | Command::ResetAssertions
+        | Command::CheckSatAssuming { .. } => Err(anyhow!("unsupported command: {}", cmd)),
+        cmd => Ok(cmd),
+    }
+}
+
 fn int_term(t: &Term) -> Option<(&Numeral, bool)> {
     use ArithOp::*;
     use Op::*;
-- 
2.43.0


From 6ce6302df931c4119769af7eb9975772dbff3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 10/62] fix: a sum whose terms all cancel out is the constant 0

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 72707a9..257e073 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -173,6 +173,8 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            // An empty sum would have no sort
+            Equal if args.is_empty() => return Constant::Numeral(Numeral::zero()).into(),
             Equal => (),
         }
         Plus(args).into()
-- 
2.43.0


From 9eddfa30fbd73b070bed6d98709b28c78e689fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 11/62] fix: variadic xor is translated as nested binary xor

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 257e073..5121ae6 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -296,6 +296,10 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     CoreOp::Distinct(args).into()
                 }
             }
+            // The CNF translation of a negated `xor` is only right for two arguments
+            CoreOp::Xor(args) if args.len() > 2 => (args.into_iter())
+                .reduce(|l, r| l ^ r)
+                .expect("xor has more than two arguments"),
             op => op.into(),
         })
     }
-- 
2.43.0


From 135ad61479a97630f84cbc683c620e0f51212739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 12/62] fix: report an incomplete assignment of the SAT solver
 instead of panicking

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 34 +++++++++++++----------
 amzn-smt-eager-arithmetic/src/lib.rs      |  2 +-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index f6fa4b6..5707295 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -581,8 +581,16 @@ impl Encoder {
     }
 
     /// Reconstructs a solution to the formula encoded by `self` given a solution to its boolean encoding.
-    pub fn decode(mut self, assignment: &HashMap<BoolVariable, bool>) -> HashMap<ISymbol, Term> {
+    /// Fails if the solution does not assign a value to all of the variables it is made of.
+    pub fn decode(
+        mut self,
+        assignment: &HashMap<BoolVariable, bool>,
+    ) -> anyhow::Result<HashMap<ISymbol, Term>> {
         let var_map = std::mem::take(&mut self.var_map);
+        let evaluate = |bit: Bit| {
+            bit.evaluate(assignment)
+                .ok_or_else(|| anyhow!("incomplete assignment: no value for {:?}", bit))
+        };
         var_map
             .into_iter()
             .map(|(symbol, var)| match var {
@@ -591,12 +599,12 @@ impl Encoder {
                     let len = bits.len();
                     // Sums of the powers of two with positive and negative (sign bit) weights
                     let (mut pos, mut neg) = (Numeral::zero(), Numeral::zero());
-                    for (bit, _) in bits
-                        .enumerate()
-                        .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                    {
-                        let x = Numeral::from(1u8) << bit;
-                        if bit == len - 1 {
+                    for (i, bit) in bits.enumerate() {
+                        if !evaluate(bit)? {
+                            continue;
+                        }
+                        let x = Numeral::from(1u8) << i;
+                        if i == len - 1 {
                             neg += x;
                         } else {
                             pos += x;
@@ -607,15 +615,13 @@ impl Encoder {
                     } else {
                         Op::Arith(ArithOp::Neg(Constant::Numeral(neg - pos).into())).into()
                     };
-                    (symbol, val)
+                    Ok((symbol, val))
                 }
-                Variable::Bool(v) => (symbol, assignment[&v].into()),
+                Variable::Bool(v) => Ok((symbol, evaluate(Bit(Either::Right(v)))?.into())),
                 Variable::Bv(bv) => {
-                    let bits = self
-                        .bit_vec_bits(&bv)
-                        .rev()
-                        .map(|bit| bit.evaluate(assignment).unwrap());
-                    (bv.sym().clone(), Constant::Binary(bits.collect()).into())
+                    let bits: anyhow::Result<_> =
+                        self.bit_vec_bits(&bv).rev().map(evaluate).collect();
+                    Ok((bv.sym().clone(), Constant::Binary(bits?).into()))
                 }
             })
             .collect()
diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index a6d985c..019dee8 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -89,7 +89,7 @@ fn reconstruct(
     });
     match satisfying_assignment {
         Some(assignment) => {
-            let decoded = encoder.decode(&assignment);
+            let decoded = encoder.decode(&assignment)?;
             let mut model = Model::new();
             for (sym, val) in decoded {
                 let sort = val.sort(&mut Default::default())?;
-- 
2.43.0


From 318fe1413247095d8c54c7a8f8f6c998982fd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 13/62] fix: report ite with branches of different sorts
 instead of panicking

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 5121ae6..cef9b28 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -270,10 +270,11 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
             // TODO: can the bound be computed with `ite` and `distinct` applications left as-is?
             CoreOp::Ite(cond, consq, alt) => {
                 let sort = consq.sort(self.context)?;
-                debug_assert_eq!(
-                    alt.sort(self.context)?,
-                    sort,
-                    "ite branches are of different sorts"
+                anyhow::ensure!(
+                    alt.sort(self.context)? == sort,
+                    "ite branches are of different sorts: {} and {}",
+                    consq,
+                    alt
                 );
                 if sort == ISort::int() {
                     let res = Term::from(self.context.fresh_var(sort)?);
-- 
2.43.0


From a12c1d2742e9fe3e293cc6109142ca1ce9dada4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 14/62] fix: encode reports errors of the sink that occur while
 the CNF is flushed

---
 amzn-smt-eager-arithmetic/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index 019dee8..e8e4ebd 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -101,9 +101,13 @@ fn reconstruct(
     }
 }
 
-pub fn encode(smt: impl io::BufRead, cnf_sink: impl Write) -> anyhow::Result<()> {
+pub fn encode(smt: impl io::BufRead, mut cnf_sink: impl Write) -> anyhow::Result<()> {
     let (cnf, _, _, _) = encode_inner(smt)?;
-    cnf.write_dimacs(cnf_sink)
+    // `write_dimacs()` ignores errors while flushing its buffer, so don't pass it the sink directly
+    let mut dimacs = vec![];
+    cnf.write_dimacs(&mut dimacs)
+        .and_then(|()| cnf_sink.write_all(&dimacs))
+        .and_then(|()| cnf_sink.flush())
         .context("Unable to write CNF encoding to sink")
 }
 
-- 
2.43.0


From a0da45494b9acf499cd38d70086e02a0ced9d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 15/62] fix: report errors while reading the problem instead of
 solving the part read so far

---
 amzn-smt-eager-arithmetic/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index e8e4ebd..af1ae3a 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -112,7 +112,7 @@ pub fn encode(smt: impl io::BufRead, mut cnf_sink: impl Write) -> anyhow::Result
 }
 
 fn encode_inner(
-    smt: impl io::BufRead,
+    mut smt: impl io::BufRead,
 ) -> anyhow::Result<(
     CnfTerm,
     HashMap<BoolVariable, cnf::Variable>,
@@ -120,7 +120,11 @@ fn encode_inner(
     impl FnOnce(Model<ALL>) -> Model<ALL>,
 )> {
     let start = Instant::now();
-    let uflia = Script::<Term>::parse(smt)?.try_map(reject_incremental)?;
+    // The parser takes read errors for the end of the input, so read all of it up front
+    let mut input = vec![];
+    smt.read_to_end(&mut input)
+        .context("Unable to read SMT-LIB problem")?;
+    let uflia = Script::<Term>::parse(input.as_slice())?.try_map(reject_incremental)?;
     println!("Parse time: {:?}", start.elapsed());
     let start = Instant::now();
     let mut ctx = Ctx::default();
-- 
2.43.0


From 5a7dc4b3a49f6b5eb025a77a1aff7308913b9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 16/62] fix: ignore get-value instead of panicking while
 encoding its terms

---
 amzn-smt-eager-arithmetic/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index af1ae3a..a791d79 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -125,6 +125,10 @@ fn encode_inner(
     smt.read_to_end(&mut input)
         .context("Unable to read SMT-LIB problem")?;
     let uflia = Script::<Term>::parse(input.as_slice())?.try_map(reject_incremental)?;
+    // Requests for values don't constrain them and cannot be encoded
+    let uflia: Script<Term> = (uflia.into_iter())
+        .filter(|cmd| !matches!(cmd, Command::GetValue { .. }))
+        .collect();
     println!("Parse time: {:?}", start.elapsed());
     let start = Instant::now();
     let mut ctx = Ctx::default();
-- 
2.43.0


From 66ed490d38f0474e5bff4932afad25fd3d3e4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 17/62] fix: reject comparisons of bit-vectors of different
 widths

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 24 +++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5707295..af3f33a 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -5,7 +5,7 @@ use super::{
     Variable,
 };
 use crate::{canonicalize::Canonicalizer, int_term, Bit};
-use anyhow::{anyhow, bail, Context};
+use anyhow::{anyhow, bail, ensure, Context};
 use aws_smt_ir::{
     args,
     fold::{Fold, InterLogicFolder, SuperFold},
@@ -549,15 +549,27 @@ impl Encoder {
     }
 
     fn encode_bvuge(&mut self, l: Reduced, r: Reduced) -> anyhow::Result<Reduced> {
+        fn unsigned_gte(
+            l: impl ExactSizeIterator<Item = Bit>,
+            r: impl ExactSizeIterator<Item = Bit>,
+        ) -> anyhow::Result<Reduced> {
+            ensure!(
+                l.len() == r.len(),
+                "comparison of bit-vectors of different widths: {} and {}",
+                l.len(),
+                r.len()
+            );
+            Ok(Encoder::encode_unsigned_gte_bitwise(
+                l.map_into().zip(r.map_into()),
+            ))
+        }
+
         encode_bitwise_op!(
             self,
             &l,
             &r,
-            |x, y| Self::encode_unsigned_gte_bitwise(x.map_into().zip(y.map_into())),
-            |l, r| {
-                let (l, r) = (Self::constant_bits(l)?, Self::constant_bits(r)?);
-                Self::encode_unsigned_gte_bitwise(l.map_into().zip(r.map_into()))
-            },
+            |x, y| unsigned_gte(x, y)?,
+            |l, r| unsigned_gte(Self::constant_bits(l)?, Self::constant_bits(r)?)?,
         )
     }
 
-- 
2.43.0


From daabff72efe1c076ea0f25963c3efe3d9a4cf641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 18/62] fix: updater: guess QF_SLIA for scripts with arithmetic

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..950faa2 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -7,8 +7,10 @@
 use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{
+    fold::Fold, logic::all::Op, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm,
+};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -200,14 +202,18 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
                 StringOp::ReLoop(indices, t.args[0].clone()).into()
             }
-            "+" | "-" | ">" | "<" | ">=" | "<=" | "*" => {
-                self.has_arith = true;
-                t.into()
-            }
             _ => t.into(),
         })
     }
 
+    /// visit operations of the theories, and note whether there is any arithmetic
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        if let Op::Arith(_) = op.as_ref() {
+            self.has_arith = true;
+        }
+        op.super_fold_with(self).map(Into::into)
+    }
+
     fn fold_set_logic(&mut self, logic: ISymbol) -> Result<Command, Self::Error> {
         self.logic = Some(logic.0.clone());
         Ok(Command::SetLogic { symbol: logic })
-- 
2.43.0


From 68ea63ac6d2f0440e41eaadd1bc60622e20c4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 19/62] fix: updater: scripts of set-option commands only do
 not panic

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 950faa2..d2ef341 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -239,10 +239,10 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
         } else {
             "QF_S"
         };
-        let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
-            i += 1;
-        }
+        let i = v
+            .iter()
+            .position(|c| !matches!(c, Command::SetOption { .. }))
+            .unwrap_or(v.len());
         v.insert(
             i,
             Command::SetLogic {
-- 
2.43.0


From bab465766c880f9fce9b18351a0ea62d004c7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 20/62] fix: updater: escape sequences that follow an
 incomplete \x are converted

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index d2ef341..94c01a6 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -111,7 +111,8 @@ fn convert_z3escapes(s: &str) -> String {
                 } else {
                     new_string.push('x');
                     new_string.push(c);
-                    state = State::Base;
+                    // the character may start another escape sequence
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 }
             }
 
@@ -121,12 +122,14 @@ fn convert_z3escapes(s: &str) -> String {
                     new_string.push(x);
                     new_string.push(c);
                     new_string.push('}');
+                    state = State::Base;
                 } else {
                     new_string.push('x');
                     new_string.push(x);
                     new_string.push(c);
+                    // the character may start another escape sequence
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 };
-                state = State::Base;
             }
         }
     }
-- 
2.43.0


From b2e7fa2eca32348b4c80b52eb5406f7e0d785aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 21/62] fix: updater: report errors while reading the script
 instead of converting the part read so far

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 94c01a6..deb08a5 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -6,7 +6,7 @@
 // SPDX-License-Identifier: Apache-2.0
 use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
-use aws_smt_ir::smt2parser::concrete::*;
+use aws_smt_ir::smt2parser::{concrete::*, Position};
 use aws_smt_ir::{
     fold::Fold, logic::all::Op, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm,
 };
@@ -23,9 +23,14 @@ type Command = IRCommand<Term>;
 /// in SMT-LIB syntax.
 ///
 pub fn parse(
-    smtlib: impl std::io::BufRead,
+    mut smtlib: impl std::io::BufRead,
 ) -> Result<impl Iterator<Item = Command>, ParseError<ALL>> {
-    Ok(Script::<Term>::parse(smtlib)?.into_iter())
+    // The parser takes read errors for the end of the input, so read all of it up front
+    let mut input = vec![];
+    smtlib.read_to_end(&mut input).map_err(|e| {
+        Error::ParsingError(Position::default(), format!("unable to read input: {}", e))
+    })?;
+    Ok(Script::<Term>::parse(input.as_slice())?.into_iter())
 }
 
 /// basic visitor; we are going to modernize some of the string functions
-- 
2.43.0


From 7caa0e20d2dd2006d05bb8550410fa34a55a8a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 22/62] fix: transformer: report errors while reading the
 script instead of transforming the part read so far

---
 amzn-smt-string-transformer/src/transpiler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..882ffb8 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -24,7 +24,7 @@ use crate::string_fcts::*;
 use crate::string_mappings;
 use crate::transpiler_visitors::*;
 use aws_smt_ir::fold::IntraLogicFolder;
-use aws_smt_ir::smt2parser::concrete::*;
+use aws_smt_ir::smt2parser::{concrete::*, Position};
 use aws_smt_ir::IConst;
 use aws_smt_ir::{
     fold::Fold, logic::ALL, Command as IRCommand, ISymbol, ParseError, Script, Term as IRTerm,
@@ -37,9 +37,14 @@ type Command = IRCommand<Term>;
 
 /// parse an smtlib query into an iterator of Commands
 pub fn parse(
-    smtlib: impl std::io::BufRead,
+    mut smtlib: impl std::io::BufRead,
 ) -> Result<impl Iterator<Item = Command>, ParseError<ALL>> {
-    Ok(Script::<Term>::parse(smtlib)?.into_iter())
+    // The parser takes read errors for the end of the input, so read all of it up front
+    let mut input = vec![];
+    smtlib.read_to_end(&mut input).map_err(|e| {
+        Error::ParsingError(Position::default(), format!("unable to read input: {}", e))
+    })?;
+    Ok(Script::<Term>::parse(input.as_slice())?.into_iter())
 }
 
 /// struct representing string properties to maintain when mapping to new strings.
-- 
2.43.0


From 299497bb68df45e515d9d1665a219315f864c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 23/62] fix: prediction: report benchmarks that cannot be read
 instead of counting the part read so far

---
 amzn-smt-prediction/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index 3da613c..f1b5e2f 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -191,11 +191,11 @@ fn main() -> std::io::Result<()> {
         println!("{}", file_name);
 
         // Open benchmark file
-        let b_file = File::open(&file_name)?;
-        let file_reader = BufReader::new(b_file);
+        // (the parser takes read errors for the end of the input, so read all of it up front)
+        let benchmark = std::fs::read(&file_name)?;
 
         // Parse formulas
-        let formulas = Script::<Term>::parse(file_reader);
+        let formulas = Script::<Term>::parse(benchmark.as_slice());
 
         match formulas {
             Ok(script) => {
-- 
2.43.0


From 26f27be375e2f67b5d0e634a050a015e7cbead8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 24/62] fix: updater: do not insert set-logic before set-option
 commands that follow a set-info

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index deb08a5..8070401 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -240,7 +240,8 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
         .unwrap();
 
     // Guess the logic and add a (set-logic ..) command if it's missing.
-    // To be safe, we insert the (set-logic ..) after any (set-option ...) commands.
+    // To be safe, we insert the (set-logic ..) after any (set-option ...) commands at the start
+    // of the script, which may be mixed with (set-info ..) commands.
     if modernize_builder.logic.is_none() && !v.is_empty() {
         let guess = if modernize_builder.has_arith {
             "QF_SLIA"
@@ -249,7 +250,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
         };
         let i = v
             .iter()
-            .position(|c| !matches!(c, Command::SetOption { .. }))
+            .position(|c| !matches!(c, Command::SetOption { .. } | Command::SetInfo { .. }))
             .unwrap_or(v.len());
         v.insert(
             i,
-- 
2.43.0


From a462c5d4a16c5dd717b48bfd5e009528c4f3cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 25/62] fix: report invalid tokens between commands instead of
 ignoring the rest of the problem

---
 amzn-smt-eager-arithmetic/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index a791d79..bb5d8ce 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -124,7 +124,7 @@ fn encode_inner(
     let mut input = vec![];
     smt.read_to_end(&mut input)
         .context("Unable to read SMT-LIB problem")?;
-    let uflia = Script::<Term>::parse(input.as_slice())?.try_map(reject_incremental)?;
+    let uflia = parse_all(input)?.try_map(reject_incremental)?;
     // Requests for values don't constrain them and cannot be encoded
     let uflia: Script<Term> = (uflia.into_iter())
         .filter(|cmd| !matches!(cmd, Command::GetValue { .. }))
@@ -158,6 +158,24 @@ fn encode_inner(
     Ok((cnf, mapping, encoder, reconstruct_ackermannized_funcs))
 }
 
+/// Parses a script to its very end. The parser takes an invalid token between two commands for the
+/// end of the input, so make sure that it gets to a command that is added after the last one.
+fn parse_all(mut input: Vec<u8>) -> anyhow::Result<Script<Term>> {
+    const END: &str = "end of amzn-smt-eager-arithmetic input";
+    write!(input, "\n(echo \"{}\")", END)?;
+    let mut commands: Vec<_> = Script::<Term>::parse(input.as_slice())?
+        .into_iter()
+        .collect();
+    let parsed = commands.len();
+    match commands.pop() {
+        Some(Command::Echo { message }) if message == END => Ok(commands.into_iter().collect()),
+        _ => Err(anyhow!(
+            "invalid token after {} commands of the SMT-LIB problem",
+            parsed
+        )),
+    }
+}
+
 /// All assertions of a script are solved together, so commands that retract or add some of them
 /// temporarily are not supported.
 fn reject_incremental(cmd: Command<Term>) -> anyhow::Result<Command<Term>> {
-- 
2.43.0


From 3ccde5b3a7f7c80659c798f24163247ddc18f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 26/62] fix: updater: report invalid tokens between commands
 instead of converting the part before them

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 8070401..6c81025 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -30,7 +30,22 @@ pub fn parse(
     smtlib.read_to_end(&mut input).map_err(|e| {
         Error::ParsingError(Position::default(), format!("unable to read input: {}", e))
     })?;
-    Ok(Script::<Term>::parse(input.as_slice())?.into_iter())
+    // It also takes an invalid token between two commands for the end of the input, so make sure
+    // that it gets to a command that is added after the last one
+    const END: &str = "end of amzn-smt-string-fct-updater input";
+    input.extend(format!("\n(echo \"{}\")", END).bytes());
+    let mut commands: Vec<_> = Script::<Term>::parse(input.as_slice())?
+        .into_iter()
+        .collect();
+    let parsed = commands.len();
+    match commands.pop() {
+        Some(Command::Echo { message }) if message == END => Ok(commands.into_iter()),
+        _ => Err(Error::ParsingError(
+            Position::default(),
+            format!("invalid token after {} commands", parsed),
+        )
+        .into()),
+    }
 }
 
 /// basic visitor; we are going to modernize some of the string functions
-- 
2.43.0


From 356f583709b7d5fe2135a4f3929bc92cca1e8679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 27/62] fix: transformer: report invalid tokens between
 commands instead of transforming the part before them

---
 amzn-smt-string-transformer/src/transpiler.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 882ffb8..8309f05 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -44,7 +44,22 @@ pub fn parse(
     smtlib.read_to_end(&mut input).map_err(|e| {
         Error::ParsingError(Position::default(), format!("unable to read input: {}", e))
     })?;
-    Ok(Script::<Term>::parse(input.as_slice())?.into_iter())
+    // It also takes an invalid token between two commands for the end of the input, so make sure
+    // that it gets to a command that is added after the last one
+    const END: &str = "end of amzn-smt-string-transformer input";
+    input.extend(format!("\n(echo \"{}\")", END).bytes());
+    let mut commands: Vec<_> = Script::<Term>::parse(input.as_slice())?
+        .into_iter()
+        .collect();
+    let parsed = commands.len();
+    match commands.pop() {
+        Some(Command::Echo { message }) if message == END => Ok(commands.into_iter()),
+        _ => Err(Error::ParsingError(
+            Position::default(),
+            format!("invalid token after {} commands", parsed),
+        )
+        .into()),
+    }
 }
 
 /// struct representing string properties to maintain when mapping to new strings.
-- 
2.43.0


From 1f39e9e1f1fd5eaf729e68185e8d7c88773bfd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 28/62] fix: prediction: report invalid tokens between commands
 instead of counting the part before them

---
 amzn-smt-prediction/src/main.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index f1b5e2f..0e1058d 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -7,7 +7,7 @@ use std::process::exit;
 use aws_smt_ir::{
     logic::{all::Op, StringOp, ALL},
     visit::{ControlFlow, SuperVisit, Visitor},
-    IOp, Script, Term,
+    Command, IOp, Script, Term,
 };
 
 #[derive(Default, Debug)]
@@ -192,13 +192,26 @@ fn main() -> std::io::Result<()> {
 
         // Open benchmark file
         // (the parser takes read errors for the end of the input, so read all of it up front)
-        let benchmark = std::fs::read(&file_name)?;
+        let mut benchmark = std::fs::read(&file_name)?;
+        // It also takes an invalid token between two commands for the end of the input, so make
+        // sure that it gets to a command that is added after the last one
+        const END: &str = "end of amzn-smt-prediction input";
+        benchmark.extend(format!("\n(echo \"{}\")", END).bytes());
 
         // Parse formulas
         let formulas = Script::<Term>::parse(benchmark.as_slice());
 
         match formulas {
             Ok(script) => {
+                match script.as_ref().last() {
+                    Some(Command::Echo { message }) if message == END => {}
+                    _ => {
+                        println!("Error on current benchmark.");
+                        eprintln!("invalid token after {} commands", script.as_ref().len());
+                        exit(1);
+                    }
+                }
+
                 let mut counter = StringCounter::default();
 
                 // Count the String predicates
-- 
2.43.0


From 122d3c97b9d84dd0f6debafe2c58d3d619511bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 29/62] fix: prediction: word count features have as many
 entries as the buckets in use

---
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 90162a8..fe10e33 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -39,7 +39,7 @@ def get_bucket_labels(buckets=default_buckets):
 def get_features(fp_count_out, buckets=default_buckets):
 
     # Initialize feature vector with all zeros
-    features = [0 for i in range(len(default_buckets)+1)]
+    features = [0 for i in range(len(buckets)+1)]
 
     for l in fp_count_out:
         num_words = int(l.strip())
-- 
2.43.0


From 949cf5727b5821cdd07a630995f2e21cab9b6652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 30/62] fix: prediction: strip the suffix .smt2 of benchmark
 names, not all its characters at both ends

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5237a92..5735b86 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -31,7 +31,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').removesuffix('.smt2')
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 6847885..b3f696b 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -78,7 +78,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').removesuffix('.smt2')
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index fe10e33..a22528e 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -98,7 +98,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').removesuffix('.smt2')
 
         print(b_name)
  
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index 9c7b4c6..bd8467f 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -42,7 +42,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').removesuffix('.smt2')
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
         fp_count_out = open(path_to_write + '/' + solver + "_count_" + b_name, 'w') # Path where we will write the word counts
-- 
2.43.0


From 849fcfa4983294e86491d8912c23492cd036e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 31/62] fix: prediction: solvers that time out without any
 output

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py    | 4 ++--
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 54e82d9..c086db1 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -297,7 +297,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
         raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
     if v == 'Full': print("Done.\n")
 
     # Parse the output to generate the features
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index b3f696b..d8e0c89 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -25,7 +25,7 @@ def get_cvc4_output(b_path, fmf):
         out = raw_out.stdout.strip()
 
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
@@ -38,7 +38,7 @@ def get_z3_output(b_path):
         raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 8402b89..9ee8efa 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -74,7 +74,7 @@ def run_eager_arithmetic(b_path, timeout):
     except subprocess.TimeoutExpired as e:
         print('EA Timeout')
         elapsed = None
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
         print(out)
 
     feature_string = parse_eager_encoding_output(out, b_path)
-- 
2.43.0


From a5d19187eb052d9cf14575bf3f594ca0bfbbed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 32/62] fix: prediction: benchmark lists without a newline at
 the end

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5735b86..8912795 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -29,7 +29,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = l.replace('/', '_').removesuffix('.smt2')
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index d8e0c89..27110a9 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -76,7 +76,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = l.replace('/', '_').removesuffix('.smt2')
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index a22528e..226f3a0 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -97,7 +97,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = b_path.replace('/', '_').removesuffix('.smt2')
 
         print(b_name)
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index bd8467f..feaa44f 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -41,7 +41,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = b_path.replace('/', '_').removesuffix('.smt2')
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 9ee8efa..e2868f0 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -102,7 +102,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
 
         print(str(i) + ": " + b_path)
-- 
2.43.0


From 6b5c73729c91077218b5144ea51916aa801aa188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 33/62] fix: prediction: benchmark names with dots are
 modernized

---
 amzn-smt-prediction/scripts/modernize_benchmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/modernize_benchmarks.py b/amzn-smt-prediction/scripts/modernize_benchmarks.py
index 5185629..3f598d3 100644
--- a/amzn-smt-prediction/scripts/modernize_benchmarks.py
+++ b/amzn-smt-prediction/scripts/modernize_benchmarks.py
@@ -7,7 +7,7 @@
 #       doing it this way allows the same benchmark list to be used for both this script and
 #       the parser).
 import sys, subprocess
-from os.path import isfile
+from os.path import isfile, splitext
 
 path_to_exec = "../../amzn-smt-string-fct-updater/release/amzn-smt-string-fct-updater"
 
@@ -26,7 +26,7 @@ if __name__=='__main__':
     fp_in = open(sys.argv[1])
 
     for l in fp_in:
-        name     = l.split('.')[0][:-4] # Get the filename, stripping off the file extension and "_upt"
+        name     = splitext(l.rstrip('\n'))[0][:-4] # Get the filename, stripping off the file extension and "_upt"
         filename = sys.argv[2] + name
         raw_out  = subprocess.run([path_to_exec, filename], capture_output=True, text=True)
 
-- 
2.43.0


From ed650a57319c30492b8d04dfae194d671ae6e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 34/62] fix: prediction: pass problems to the eager solver by
 --instance

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index c086db1..a9e8120 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -294,7 +294,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
     # Cuts off after 5 seconds, after which encoding is generally done and it is on to solving, which isn't necessary here
     if v == 'Full': print("Generating features... (calling amzn-smt-eager-arithmetic)")
     try:
-        raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
+        raw_out = subprocess.run([path_to_ea_exec, "solve", "--instance", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
         out = str(e.stdout or b'', 'utf-8')
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index e2868f0..79b4ebe 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -67,7 +67,7 @@ def run_eager_arithmetic(b_path, timeout):
     start = time()
 
     try:
-        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", b_path], capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", "--instance", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = time() - start
         out = raw_out.stdout.strip()
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-- 
2.43.0


From 7cf7eb73a677b7661670462def073e7e8110f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 35/62] fix: prediction: statistics of partitions whose
 variables have braces or ' bits' in their names

---
 amzn-smt-prediction/scripts/generate_predictions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index a9e8120..064a4de 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -74,8 +74,8 @@ def parse_eager_encoding_output(out, problem_file):
     # So if the output format changes, this very well could break
     for l in out.splitlines():
         if l.startswith("Partition"):
-            start = l.index('{') + 2
-            stop  = l.index(' bits')
+            start = l.rindex('{') + 2
+            stop  = l.rindex(' bits')
             pruned = l[start:stop]
             pruned = pruned.replace(' }', '')
 
-- 
2.43.0


From e818dad87b530c83a769c29934b4a75800e78228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 36/62] fix: transformer: literals next to a string function do
 not replace the function in the call graph

---
 amzn-smt-string-transformer/src/callgraph.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..bb5565a 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -96,6 +96,8 @@ pub struct NodeSetData {
 pub struct CallnodeData {
     /// string function associated with this node (NO_OP if it's a constraint var node)
     pub string_fct: StringFct,
+    /// relevant arguments of the string function (taken from the literals it is applied to)
+    pub string_fct_args: StringFctArgs,
     /// string literals directly used to construct this node
     pub string_lits_built_from: BTreeSet<String>,
     /// information on the nodes this node is used to build (think: transitive parents);
@@ -114,8 +116,10 @@ impl CallnodeData {
     /// constructor: takes a string function and list of string literals.
     /// the propagated information all starts as None on node initialization
     pub fn new(sfc: StringFct, lits: BTreeSet<String>) -> Self {
+        let elems: Vec<_> = lits.iter().cloned().collect();
         Self {
             string_fct: sfc,
+            string_fct_args: sfc.get_args(&elems[..]),
             string_lits_built_from: lits,
             used_to_build: None,
             built_from: None,
@@ -125,8 +129,7 @@ impl CallnodeData {
 
     /// get this node's string function and associated function arguments
     pub fn get_string_fct_arg_pair(&self) -> (StringFct, StringFctArgs) {
-        let elems: Vec<_> = self.string_lits_built_from.iter().cloned().collect();
-        (self.string_fct, self.string_fct.get_args(&elems[..]))
+        (self.string_fct, self.string_fct_args.clone())
     }
 }
 
@@ -252,18 +255,17 @@ impl CallGraph {
         }
         // update siblings with the new sibling nodes, and new sibling strings
         for sib_id in &sib_ids {
+            // the sibling strings are added to the literals of the node, which keeps its function
+            let mut data = self.get_data_for_ind(sib_id)?.clone();
+            data.string_lits_built_from
+                .extend(sib_strings.iter().cloned());
             self.forest.update_node_at_index(
                 *sib_id,
                 NodeModStruct::<NodeId, CallnodeData> {
                     parent: None,
                     child: None,
                     siblings: Some(sib_ids.clone()),
-                    data: if !sib_strings.is_empty() {
-                        // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
-                    } else {
-                        None
-                    },
+                    data: Some(data),
                 },
             )?;
         }
-- 
2.43.0


From 69b7f7fffbd32be895c2372c5022de407b3f09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 37/62] fix: transformer: substrings at numeric positions
 depend on the lengths of literals

---
 amzn-smt-string-transformer/src/string_fcts.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 96329a3..832bff6 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -217,7 +217,6 @@ impl StringFct {
             | Self::ReplaceAll
             | Self::ReplaceRe
             | Self::ReplaceReAll
-            | Self::Substr
             | Self::SuffixOf
             | Self::ToRe => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
@@ -295,6 +294,16 @@ impl StringFct {
                     keep_prefix_suffix: false,
                 })
             }
+            // substrings are taken at numeric positions, so length is relevant as well
+            Self::Substr => {
+                set_props = set_props.update_with_truths(StringSetProperties::Some {
+                    len: true,
+                    ranges: HashSet::new(),
+                    keep_ints: KeepInts::No,
+                    keep_substrings: true,
+                    keep_prefix_suffix: false,
+                })
+            }
             // keep both length and the relevant substrings
             Self::IndexOf | Self::SingStrAt => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
-- 
2.43.0


From eed9582f905088a06d477fc24c685b8a09e4117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 38/62] fix: transformer: literals with digits are mapped to
 the end

---
 amzn-smt-string-transformer/src/string_mappings.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..3f974ff 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -121,19 +121,21 @@ pub fn gen_string_keep_ranges(
     let mut cur_range: Option<&RangeParams> = None;
     // iterate over the string to be mapped, character by character
     for c in s.chars() {
+        let new_range = char_map.get_range_for_char(c);
         // if we're keeping ints (decimal)
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
-                break;
+                cur_range = new_range;
+                continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                break;
+                cur_range = new_range;
+                continue;
             }
             _ => {}
         }
-        let new_range = char_map.get_range_for_char(c);
         // get the next char
         // if it's a range, just use the first value in the range
         // if it's not a range, just get the next available value
-- 
2.43.0


From 9ecd5b5e31f2a6ac092840d408df5809e9d4f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 39/62] fix: transformer: no-reconstruct gives up when no
 characters are left instead of searching forever

---
 .../src/string_mappings.rs                    | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 3f974ff..8640d7a 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -116,7 +116,7 @@ pub fn gen_string_keep_ranges(
     len_bool: bool,
     keep_ints: KeepInts,
     consider_substrings: bool,
-) -> String {
+) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
     // iterate over the string to be mapped, character by character
@@ -174,20 +174,15 @@ pub fn gen_string_keep_ranges(
     }
     // deal with the case that this generated string is already in the map
     // this is where we consider substrings if this argument is true
-    let repeat_fix = fix_repeated_string(
+    fix_repeated_string(
         s.to_string(),
-        to_ret.clone(),
+        to_ret,
         char_map,
         100u8, // number of retries allowed
         keep_ints,
         consider_substrings,
         len_bool,
-    );
-    if let Ok(to_ret) = repeat_fix {
-        to_ret
-    } else {
-        map_string_char_to_char(s, char_map).unwrap()
-    }
+    )
 }
 
 /// check to see if a mapped string is already in the map.
@@ -229,6 +224,10 @@ fn fix_repeated_string(
                     })
                 )))
     }) {
+        // error out if there are no more characters to try: every offset is past the ASCII ones
+        if retry_add > 127 {
+            return Err(StringMapError::RemapRetryCountExceeded);
+        }
         // get next non-range char in the charmap
         let next_char = char::from_u32(update_and_get_next_char(
             char_map,
@@ -697,7 +696,7 @@ fn gen_gap_mapped(
     len_bool: bool,
     keep_ints: KeepInts,
 ) -> Result<String, StringMapError> {
-    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true);
+    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true)?;
     // last bool is consider_substrings
     let gap_mapped = fix_repeated_string(
         gap_string, gap_mapped, char_map, 100u8, keep_ints, true, len_bool,
@@ -845,7 +844,7 @@ pub fn map_string_no_reconstruct(
                         to_ret = gen_string_freeforall(s, char_map)?;
                     } else if !keep_substrings {
                         // range case! keep ranges (if there's none, that is fine)
-                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false);
+                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false)?;
                     } else {
                         // keep substrings should have already been mapped, so now bail and map with char-to-char
                         to_ret = map_string_char_to_char(s, char_map).unwrap();
-- 
2.43.0


From f9478455448a2e89e08db747ece40232e73b4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 40/62] fix: transformer: no-reconstruct falls back to
 char-to-char if substring relations are lost

---
 amzn-smt-string-transformer/src/transpiler.rs | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 8309f05..4e6bad1 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -658,6 +658,44 @@ impl CharMap {
         }
     }
 
+    /// check that the string map relates the mapped literals like the literals themselves, as far
+    /// as substrings are to be kept: they contain each other and can overlap in the same cases,
+    /// and at the same positions if lengths are to be kept too
+    fn keeps_substring_relations(&self) -> bool {
+        // the literals with substrings to be kept: original, mapped, and are lengths to be kept?
+        let lits: Vec<(Vec<char>, Vec<char>, bool)> = self
+            .string_map
+            .iter()
+            .filter_map(|(s, mapped)| match self.string_lit_props.get(s) {
+                Some(StringSetProperties::Some {
+                    len,
+                    keep_substrings: true,
+                    ..
+                }) => Some((s.chars().collect(), mapped.chars().collect(), *len)),
+                _ => None,
+            })
+            .collect();
+        // do the strings agree where they overlap, if the second one starts at the given index?
+        let agree = |s1: &[char], s2: &[char], index: usize| {
+            s1[index..].iter().zip(s2).all(|(c1, c2)| c1 == c2)
+        };
+        // the positions where the second string is in the first one, or overlaps its end
+        let overlaps = |s1: &[char], s2: &[char]| -> (Vec<usize>, Vec<usize>) {
+            (0..s1.len())
+                .filter(|index| agree(s1, s2, *index))
+                .partition(|index| index + s2.len() <= s1.len())
+        };
+        lits.iter().all(|(s1, mapped1, len1)| {
+            lits.iter().all(|(s2, mapped2, len2)| {
+                let orig = overlaps(s1, s2);
+                let mapped = overlaps(mapped1, mapped2);
+                orig.0.is_empty() == mapped.0.is_empty()
+                    && orig.1.is_empty() == mapped.1.is_empty()
+                    && (orig == mapped || !*len1 || !*len2)
+            })
+        })
+    }
+
     /// get rid of strings that have their mid_strings remapped but aren't remapped themselves.
     /// no need to check prefix/suffix separately, bc these are included in the mid_strings.
     /// this is required because mappings of one string where the substrings are remapped but their
@@ -978,6 +1016,19 @@ pub fn transform_ast(
             }
         }
         var_index += 1;
+        // the mapping of a literal can clash with those of literals of other variables, so check
+        // them all at the end; this also restarts with char_to_char
+        if var_index == string_vars.len()
+            && !char_map.char_to_char
+            && !char_map.keeps_substring_relations()
+        {
+            char_map.char_to_char = true;
+            char_map.string_map.clear();
+            replace_terms.clear();
+            failed_mod_constraint_vars.clear();
+            mod_constraint_vars.clear();
+            var_index = 0;
+        }
     }
 
     // if we were mapping strings, then at the end remap the range endpoints to their correct chars
-- 
2.43.0


From 16f79b276ee83cdc9d93bba5c1cf537b47f9809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 41/62] fix: transformer: re.range and re.allchar depend on the
 lengths of literals

---
 amzn-smt-string-transformer/src/string_fcts.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 832bff6..c00a822 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -199,7 +199,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReAllChar
             | Self::ReCompl
             | Self::ReDiff
             | Self::ReIntersect
@@ -253,7 +252,7 @@ impl StringFct {
                     let mut range_set: HashSet<(char, char)> = HashSet::new();
                     range_set.insert((c1, c2));
                     set_props = set_props.update_with_truths(StringSetProperties::Some {
-                        len: false,
+                        len: true, // a range only matches single characters
                         ranges: range_set,
                         keep_ints: KeepInts::No,
                         keep_substrings: true, // specific chars matter with range
@@ -264,8 +263,9 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions)
-            Self::Len | Self::ReLoop | Self::RePow => {
+            // length-specific functions (loop and pow mean a specific number of repetitions, and
+            // allchar only matches single characters)
+            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From 9568c01fc025c778d7c545eb6fa7c08a30e5da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 42/62] fix: transformer: expand let binders so that strings
 bound by them are related

---
 .../src/transpiler_visitors.rs                        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..ad53290 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -9,10 +9,10 @@
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
 use aws_smt_ir::args::Arguments;
-use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
+use aws_smt_ir::fold::{Fold, IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar};
+use aws_smt_ir::{CoreOp, IConst, ILet, ISort, ISymbol, IVar};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -192,6 +192,13 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         }
     }
 
+    /// visit let binders
+    /// replace the bound variables with their terms: string functions of these are related to each
+    /// other, and the bound variables can have the names of variables that are renamed
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        l.term.clone().substitute(&l.bindings).fold_with(self)
+    }
+
     /// visit constant declarations
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
-- 
2.43.0


From 4c320fbe84264089e2054e761e4de536649b1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 43/62] fix: transformer: keep equations between a string
 function and another term

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..e6f24e9 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,11 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // the first assertion is the definition of the variable, any other
+                            // one is an equation of the query
+                            if v.sym_str().starts_with("new_var")
+                                && !self.string_fct_calls.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
-- 
2.43.0


From 81ba8ec89473d169325b6bbbc6e76f6094d1d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 44/62] fix: transformer: terms bound by a let binder are not
 captured by inner binders

---
 .../src/transpiler_visitors.rs                     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index ad53290..cb99be3 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -48,6 +48,8 @@ pub struct IdentifyStringsBuilder {
     /// list of original constraint variables that appear in a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
+    /// terms of the variables bound by the surrounding let binders
+    let_bindings: HashMap<ISymbol, Term>,
 }
 
 /// member functions for the IdentifyStringsBuilder struct
@@ -196,7 +198,14 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// replace the bound variables with their terms: string functions of these are related to each
     /// other, and the bound variables can have the names of variables that are renamed
     fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
-        l.term.clone().substitute(&l.bindings).fold_with(self)
+        let bindings = (l.bindings.iter())
+            .map(|(sym, t)| Ok((sym.clone(), t.clone().fold_with(self)?)))
+            .collect::<Result<Vec<_>, Self::Error>>()?;
+        let outer = self.let_bindings.clone();
+        self.let_bindings.extend(bindings);
+        let term = l.term.clone().fold_with(self);
+        self.let_bindings = outer;
+        term
     }
 
     /// visit constant declarations
@@ -255,6 +264,9 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// if the symbol is one of the variables we have renamed, then
     /// replace it with the new name
     fn fold_var(&mut self, v: IVar) -> Result<Term, Self::Error> {
+        if let Some(t) = self.let_bindings.get(v.sym()) {
+            return Ok(t.clone());
+        }
         if let Some(sym) = self.alpha_renaming_map.get(v.sym()) {
             return Ok(sym.clone().into());
         }
-- 
2.43.0


From 627c2ac4a6c2a7be7832cbdb712141133a2d38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 45/62] fix: transformer: reconstruct characters of ranges and
 of the original query one to one

---
 amzn-smt-string-transformer/src/mapping_tools.rs | 13 +++++++++++++
 amzn-smt-string-transformer/src/transpiler.rs    | 10 ++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/mapping_tools.rs b/amzn-smt-string-transformer/src/mapping_tools.rs
index f5f11e5..fc276be 100644
--- a/amzn-smt-string-transformer/src/mapping_tools.rs
+++ b/amzn-smt-string-transformer/src/mapping_tools.rs
@@ -216,6 +216,19 @@ impl Mapping {
         for (c1, c2) in &self.char_map {
             re_map.insert(*c2, *c1);
         }
+        // characters that are mapped but that nothing is mapped to do not occur in the transpiled
+        // query, so they can't be kept: they'd be taken for those of the original query. follow
+        // the map to a character that occurs in the transpiled query only
+        let map: HashMap<char, char> = self.char_map.iter().cloned().collect();
+        for c in map.keys() {
+            if !re_map.contains_key(c) {
+                let mut unused = c;
+                for _ in 0..map.len() {
+                    unused = map.get(unused).unwrap_or(unused);
+                }
+                re_map.insert(*c, *unused);
+            }
+        }
         re_map
     }
 
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 4e6bad1..2794409 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -864,7 +864,7 @@ fn initialize_charmap_with_ranges(
 }
 
 /// populate the rest of the ranges.
-/// we'll just map the characters in the mapped range to one of the unused range chars
+/// we'll just map the remaining characters of a range to the unused characters of the mapped range
 /// the purpose: so when we remap, everything in the range gets mapped back to the range
 /// (this is really only relevant for char-to-char remapping)
 fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
@@ -876,8 +876,6 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
 
     for range in char_map.ranges.iter() {
         let mut offset = range.cur_offset; // start offset
-        let mut placeholder_char = range.start_char;
-        let mut found_char = false;
         for range_char in range.start_char..range.end_char {
             if char_map.char_map.get(&range_char).is_none() {
                 if char_map
@@ -886,11 +884,7 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
                 {
                     offset += 1;
                 }
-                if !found_char {
-                    placeholder_char = range_char;
-                    found_char = true;
-                }
-                char_vec.push((placeholder_char, char::from_u32(offset).unwrap()));
+                char_vec.push((range_char, char::from_u32(offset).unwrap()));
                 offset += 1;
             }
         }
-- 
2.43.0


From bdc2478713af77cc6fc5118a61f65500a8e14f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 46/62] fix: transformer: if-then-else over strings relates the
 strings of its branches

---
 .../src/string_fcts.rs                        |  6 ++++++
 .../src/transpiler_visitors.rs                | 21 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index c00a822..b4dc025 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -23,6 +23,7 @@ pub enum StringFct {
     IndexOf,
     InRe,
     IsDigit,
+    Ite,
     Len,
     LexOrd,
     PrefixOf,
@@ -103,6 +104,7 @@ impl StringFct {
             Self::IndexOf | Self::Len | Self::ToCode | Self::ToInt => IdentType::IntType,
             Self::FromCode
             | Self::FromInt
+            | Self::Ite
             | Self::Replace
             | Self::ReplaceAll
             | Self::ReplaceRe
@@ -155,6 +157,7 @@ impl StringFct {
             | Self::FromInt
             | Self::InRe
             | Self::IsDigit
+            | Self::Ite
             | Self::Len
             | Self::LexOrd
             | Self::StrEquality
@@ -197,6 +200,7 @@ impl StringFct {
         match self {
             // no extra properties needed (equality/non-equality always maintained)
             Self::Distinct
+            | Self::Ite
             | Self::StrEquality
             | Self::ReAll
             | Self::ReCompl
@@ -454,4 +458,6 @@ pub const STRING_FCTS: &[(&str, StringFct)] = &[
     ("=", StringFct::StrEquality),
     // also not in smtlib string theory but still a valid operation on strings
     ("distinct", StringFct::Distinct),
+    // also not in smtlib string theory but still a valid operation on strings
+    ("ite", StringFct::Ite),
 ];
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index cb99be3..29ccc2a 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -101,6 +101,24 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// is the term an if-then-else with strings (literals, string vars, or applications of functions
+    /// that return strings) in its branches?
+    fn has_string_branches(&self, t: &Term) -> bool {
+        t.op().map_or(false, |op| {
+            op.args().skip(1).any(|branch| match branch {
+                Term::Constant(c) => matches!(c.as_ref(), Constant::String(_)),
+                Term::Variable(v) => match self.string_var_defn_map.get(v.sym()) {
+                    Some(defn) => {
+                        let sfc = defn.op().and_then(|op| op.func().string_fct());
+                        sfc.map(|sfc| sfc.string_fct_return_type()) == Some(IdentType::StringType)
+                    }
+                    None => self.string_var_list.contains(v.sym()),
+                },
+                _ => false,
+            })
+        })
+    }
+
     /// process a string function application: if it's not already computed,
     /// then make a new var and add new decl-const and asserts where needed
     /// for example:
@@ -132,6 +150,9 @@ impl IdentifyStringsBuilder {
             // only proceed if all args are strings or some of our created string vars
             return None;
         }
+        if sfc == StringFct::Ite && !self.has_string_branches(t) {
+            return None;
+        }
 
         // add new_var to the list of new vars, storing this string function
         let len = self.const_map.len();
-- 
2.43.0


From ec74a845ae9f86070efaa9208e617e6e8b74181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 47/62] fix: transformer: ranges that overlap are mapped to
 ranges that overlap likewise

---
 amzn-smt-string-transformer/src/transpiler.rs | 52 +++++++++++++++++--
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 2794409..b2e9735 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -494,6 +494,18 @@ impl CharMap {
         false
     }
 
+    /// add ranges that overlap each other, all of whose characters are in the map.
+    /// strings are mapped by the ranges of their characters in no-reconstruct mode, which are not
+    /// unique then, so the mapping has to be char-to-char
+    fn add_overlapping_ranges(&mut self, ranges: &[(char, char)]) {
+        for (c1, c2) in ranges {
+            if !self.has_range(*c1, *c2) {
+                self.ranges.push(RangeParams::new(*c1, *c2, 0));
+            }
+        }
+        self.char_to_char = true;
+    }
+
     /// get the range that the given character is in (None if not in a range)
     pub fn get_range_for_char(&self, c: char) -> Option<&RangeParams> {
         self.ranges
@@ -837,10 +849,44 @@ fn initialize_charmap_with_ranges(
         }
     }
 
-    // if we hit an int range and it's already been mapped, no problem
-    // that range will just be skipped
+    // ranges that overlap each other have to be mapped to ranges that overlap in the same characters:
+    // collect the spans of those (the int range may already be mapped, so it has to stay where it is)
+    ranges.extend(char_map.ranges.iter().map(|r| (r.start_char, r.end_char)));
+    let mut spans: Vec<(char, char, Vec<(char, char)>)> = Vec::new();
     for (c1, c2) in ranges {
-        if !char_map.has_range(c1, c2) {
+        match spans.last_mut() {
+            Some((_, end, span_ranges)) if c1 <= *end => {
+                *end = std::cmp::max(*end, c2);
+                span_ranges.push((c1, c2));
+            }
+            _ => spans.push((c1, c2, vec![(c1, c2)])),
+        }
+    }
+    spans.retain(|(start, end, span_ranges)| {
+        let keep = span_ranges.iter().any(|(c1, c2)| char_map.has_range(*c1, *c2));
+        if keep && span_ranges.len() > 1 {
+            char_map.char_map.extend((*start..=*end).map(|c| (c, c)));
+            offset = std::cmp::max(offset, *end as u32 + 1);
+            char_map.add_overlapping_ranges(span_ranges);
+        }
+        !keep
+    });
+
+    for (start, end, span_ranges) in spans {
+        if span_ranges.len() > 1 {
+            // keep the order of all the characters
+            for c in start..=end {
+                while (char_map.illegal_chars.iter()).any(|illegal| *illegal as u32 == offset) {
+                    offset += 1;
+                }
+                char_map
+                    .char_map
+                    .insert(c, char::from_u32(offset).unwrap());
+                offset += 1;
+            }
+            char_map.add_overlapping_ranges(&span_ranges);
+        } else {
+            let (c1, c2) = (start, end);
             let orig_offset = offset;
             let cur_range = RangeParams::new(c1, c2, offset + 1);
             char_map
-- 
2.43.0


From 454145bd977eeb50ddb0791dbed90c3482156681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 48/62] fix: transformer: keep characters whose codes are used,
 not only digits

---
 amzn-smt-string-transformer/src/string_mappings.rs |  3 +++
 amzn-smt-string-transformer/src/transpiler.rs      | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 8640d7a..ceda74b 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -65,6 +65,9 @@ pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String
     ) {
         return Err(StringMapError::MaintainEverythingStringProps);
     }
+    if char_map.keep_chars {
+        return Ok(s.to_string());
+    }
     // return the string with every character mapped
     Ok(s.chars()
         .map(|c| match char_map.char_map.get(&c) {
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index b2e9735..d9b18c7 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -475,6 +475,8 @@ pub struct CharMap {
     /// number of string literals that needed to be mapped char-to-char
     /// (i.e. where every character is treated as an individual substring)
     pub char_to_char_string_lits: HashSet<String>,
+    /// are all characters mapped to themselves? needed if their codes are used
+    pub keep_chars: bool,
 }
 
 /// member functions for the CharMap struct
@@ -745,6 +747,7 @@ impl Default for CharMap {
             illegal_chars: vec!['\\', '\r', '"', '\u{f}', '\u{7f}'],
             persist_string_map: HashMap::default(),
             char_to_char_string_lits: HashSet::new(),
+            keep_chars: false,
         }
     }
 }
@@ -761,8 +764,15 @@ fn initialize_charmap(
     let mut offset = 35u32; // start with printable non-quote chars
     let mut char_map = CharMap::default();
 
-    offset = initialize_charmap_with_keep_ints(partitions, offset, &mut char_map);
-    offset = initialize_charmap_with_ranges(partitions, offset, &mut char_map);
+    // the codes of characters are used as ints: keep all the characters (and with them the ranges)
+    char_map.keep_chars = (partitions.iter().flat_map(|p| &p.string_fcts))
+        .any(|(sfc, _)| matches!(sfc, StringFct::FromCode | StringFct::ToCode));
+    if char_map.keep_chars {
+        char_map.char_to_char = true;
+    } else {
+        offset = initialize_charmap_with_keep_ints(partitions, offset, &mut char_map);
+        offset = initialize_charmap_with_ranges(partitions, offset, &mut char_map);
+    }
 
     // this is only really relevant for the case where we're mapping strings to strings
     // but, it keeps track of the union of string properties from the perspective of the string
-- 
2.43.0


From ee51df20d9c748b0f6708edda6c23d982da59ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 49/62] fix: transformer: map the characters that escape
 sequences denote

---
 .../src/reconstruct_tools.rs                  |  8 ++--
 .../src/string_mappings.rs                    | 42 +++++++++++++++++++
 amzn-smt-string-transformer/src/transpiler.rs |  7 +++-
 .../src/transpiler_visitors.rs                | 15 ++++++-
 4 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 2346589..349fca7 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -4,6 +4,7 @@
 //! option
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
+use crate::string_mappings::{escape, unescape};
 use crate::{mapping_tools, Command, Term};
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::smt2parser::CommandStream;
@@ -190,13 +191,10 @@ pub fn build_string_var_assertions(
         let var_name_str = &var_name.0;
         if new_map.affected_constraint_vars.contains(var_name_str) {
             let reconstructed = reconstruct_string(
-                const_str.chars().collect::<Vec<char>>(),
+                unescape(const_str).chars().collect::<Vec<char>>(),
                 new_map.get_re_map(),
             );
-
-            // the solver doesn't play well with '\u{0}', it seems to be represented as \x00 so just
-            // replace it with this
-            let reconstructed = reconstructed.replace('\u{0}', "\\x00");
+            let reconstructed = escape(&reconstructed);
 
             let un_alpha_map = new_map.get_un_alpha_map();
             let var_name = match un_alpha_map.get(var_name_str) {
diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index ceda74b..2f8f561 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -53,6 +53,48 @@ fn update_and_get_next_char(char_map: &mut CharMap, offset: u32, update_map_offs
     offset
 }
 
+// ------------------------------------------------------------------------------------------------------------- ESCAPE SEQUENCES
+
+/// if the string starts with an escape sequence, get the character it denotes and the rest
+fn strip_escape(s: &str) -> Option<(char, &str)> {
+    let s = s.strip_prefix("\\u")?;
+    let (digits, rest) = match s.strip_prefix('{') {
+        Some(s) => s.split_once('}')?,
+        None => (s.get(..4)?, &s[4..]),
+    };
+    if digits.len() > 5 || !digits.chars().all(|d| d.is_ascii_hexdigit()) {
+        return None;
+    }
+    let code = u32::from_str_radix(digits, 16).ok()?;
+    let c = char::from_u32(code).filter(|_| code < 0x30000)?;
+    Some((c, rest))
+}
+
+/// get the characters that a string literal denotes
+pub fn unescape(literal: &str) -> String {
+    let mut to_ret = String::new();
+    let mut rest = literal;
+    while let Some(c) = rest.chars().next() {
+        let (c, after) = strip_escape(rest).unwrap_or((c, &rest[c.len_utf8()..]));
+        to_ret.push(c);
+        rest = after;
+    }
+    to_ret
+}
+
+/// get a string literal that denotes the given characters
+pub fn escape(s: &str) -> String {
+    s.char_indices()
+        .map(|(ind, c)| {
+            if !(' '..='~').contains(&c) || strip_escape(&s[ind..]).is_some() {
+                format!("\\u{{{:x}}}", c as u32)
+            } else {
+                c.to_string()
+            }
+        })
+        .collect()
+}
+
 // ------------------------------------------------------------------------------------------------------------- CHAR TO CHAR MAPPING
 
 /// transform a given string using the char-to-char mapping strategy, with the mapping specified
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index d9b18c7..c45f952 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -338,7 +338,10 @@ impl IntraLogicFolder<ALL> for StringSwapper {
 
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         Ok(match constant.as_ref() {
-            Constant::String(s) => Constant::String(self.string_map[s.as_str()].clone()).into(),
+            Constant::String(s) => {
+                let mapped_string = &self.string_map[s.as_str()];
+                Constant::String(string_mappings::escape(mapped_string)).into()
+            }
             _ => constant.into(),
         })
     }
@@ -541,7 +544,7 @@ impl CharMap {
         for i in (1..std::cmp::min(s1.len(), s2.len())).rev() {
             // if they're never not equal then the entire string
             // is contained, so already in the map (return None)
-            if s1[0..i] == s2[s2.len() - i..s2.len()] {
+            if s1.is_char_boundary(i) && s2.ends_with(&s1[0..i]) {
                 return Some(&s1[0..i]);
             }
         }
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 29ccc2a..c6b92d1 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -17,7 +17,9 @@ use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
 
-use crate::{callgraph::*, string_fcts::*, transpiler::*, Command, SortExt, Term};
+use crate::{
+    callgraph::*, string_fcts::*, string_mappings, transpiler::*, Command, SortExt, Term,
+};
 
 /// Extension on the smt2parser SyntaxBuilder; adding fields for the things we need to keep track of
 /// during the AST traversal.
@@ -296,9 +298,12 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
 
     /// visit constants
     /// if it's a string constant, add it to the list of string constants
+    /// the characters that escape sequences denote are mapped, not those of the sequences
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         if let Constant::String(s) = constant.as_ref() {
+            let s = string_mappings::unescape(s);
             self.string_consts.insert(s.clone());
+            return Ok(Term::Constant(Constant::String(s).into()));
         }
         Ok(Term::Constant(constant))
     }
@@ -333,6 +338,14 @@ impl IntraLogicFolder<ALL> for SimplifyStringsBuilder {
             None => t.super_fold_with(self),
         }
     }
+
+    /// visit constants that are not part of the terms to be replaced
+    fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
+        Ok(match constant.as_ref() {
+            Constant::String(s) => Constant::String(string_mappings::escape(s)).into(),
+            _ => constant.into(),
+        })
+    }
 }
 
 /// extension to QualIdentifier; adds member functions for converting to/from symbols and for
-- 
2.43.0


From 7d57f8d26be4f083800449cb6cb2d76c7a8a1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 50/62] fix: transformer: no-reconstruct gives up on literals
 that no unused string is found for

---
 amzn-smt-string-transformer/src/string_mappings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 2f8f561..c9c28b1 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -789,7 +789,7 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if cur_tries > retries {
+    if char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
-- 
2.43.0


From 86f715960f280ae13ca9e474f863ccc5d0feea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 51/62] fix: transformer: ranges are mapped to ranges of the
 same size without illegal characters

---
 .../src/string_mappings.rs                    |  2 +-
 amzn-smt-string-transformer/src/transpiler.rs | 35 ++++++++-----------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index c9c28b1..0536e73 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -270,7 +270,7 @@ fn fix_repeated_string(
                 )))
     }) {
         // error out if there are no more characters to try: every offset is past the ASCII ones
-        if retry_add > 127 {
+        if retry_add > 127 || !to_ret.is_ascii() {
             return Err(StringMapError::RemapRetryCountExceeded);
         }
         // get next non-range char in the charmap
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index c45f952..7269299 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -886,38 +886,31 @@ fn initialize_charmap_with_ranges(
     });
 
     for (start, end, span_ranges) in spans {
+        let size = (end as u32) - (start as u32);
+        // the mapped range must have as many characters, none of them illegal
+        while let Some(illegal_char) = (char_map.illegal_chars.iter())
+            .find(|c| (offset..=offset + size).contains(&(**c as u32)))
+        {
+            offset = *illegal_char as u32 + 1;
+        }
         if span_ranges.len() > 1 {
             // keep the order of all the characters
-            for c in start..=end {
-                while (char_map.illegal_chars.iter()).any(|illegal| *illegal as u32 == offset) {
-                    offset += 1;
-                }
-                char_map
-                    .char_map
-                    .insert(c, char::from_u32(offset).unwrap());
-                offset += 1;
+            for (ind, c) in (start..=end).enumerate() {
+                let mapped_char = char::from_u32(offset + ind as u32).unwrap();
+                char_map.char_map.insert(c, mapped_char);
             }
             char_map.add_overlapping_ranges(&span_ranges);
         } else {
-            let (c1, c2) = (start, end);
-            let orig_offset = offset;
-            let cur_range = RangeParams::new(c1, c2, offset + 1);
+            let cur_range = RangeParams::new(start, end, offset + 1);
             char_map
                 .char_map
-                .insert(c1, char::from_u32(offset).unwrap());
-            offset += (c2 as u32) - (c1 as u32);
-            for illegal_char in &char_map.illegal_chars {
-                if (*illegal_char as u32) <= offset && (*illegal_char as u32) > orig_offset {
-                    offset += 1;
-                    break;
-                }
-            }
+                .insert(start, char::from_u32(offset).unwrap());
             char_map
                 .char_map
-                .insert(c2, char::from_u32(offset).unwrap());
-            offset += 1;
+                .insert(end, char::from_u32(offset + size).unwrap());
             char_map.ranges.push(cur_range);
         }
+        offset += size + 1;
     }
     offset
 }
-- 
2.43.0


From 56445183ac1450dc14be2a0314ae0eafc1a367a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 52/62] fix: transformer: variables that are declared again get
 names of their own

---
 .../src/transpiler_visitors.rs                   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index c6b92d1..772b8ce 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -52,6 +52,8 @@ pub struct IdentifyStringsBuilder {
     pub char_level_substring_vars: HashSet<ISymbol>,
     /// terms of the variables bound by the surrounding let binders
     let_bindings: HashMap<ISymbol, Term>,
+    /// number of names given to renamed variables
+    num_renamed: usize,
 }
 
 /// member functions for the IdentifyStringsBuilder struct
@@ -71,6 +73,14 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// name for the next renamed variable; these are aX, where X is an int
+    /// a name can be declared more than once (in different scopes), so the renamed ones are counted
+    fn new_name(&mut self) -> ISymbol {
+        let new_sym = ISymbol::from(format!("a{}", self.num_renamed));
+        self.num_renamed += 1;
+        new_sym
+    }
+
     /// inspect the term parameters (if any), and attach the parent/child in the callgraph
     /// also initialize direct siblings in the args
     fn inspect_parameters(&mut self, var_sym: ISymbol, t: &Term, sfc: StringFct) {
@@ -235,8 +245,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
     fn fold_declare_const(&mut self, symbol: ISymbol, sort: ISort) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
+        let new_sym = self.new_name();
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
         // if it's a string var add it to the list of string vars and the callgraph
@@ -262,8 +271,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         parameters: Vec<ISort>,
         sort: ISort,
     ) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
+        let new_sym = self.new_name();
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
         // if it's a string var add it to the list of string vars and the callgraph
-- 
2.43.0


From 36d89f9b6b1599ea4a194ecbe82459a59bae356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 53/62] fix: transformer: rename the variables of
 check-sat-assuming

---
 amzn-smt-string-transformer/src/transpiler.rs          | 10 +++++++++-
 amzn-smt-string-transformer/src/transpiler_visitors.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 7269299..3182f1c 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -957,7 +957,15 @@ pub fn transform_ast(
     // assertions (initializations)
     // and, renaming vars where needed
     let mut commands = commands
-        .map(|c| c.fold_with(&mut identify_builder))
+        .map(|c| match c {
+            // the literals of this command are no terms, so they are not visited
+            Command::CheckSatAssuming { literals } => Ok(Command::CheckSatAssuming {
+                literals: (literals.into_iter())
+                    .map(|(sym, value)| (identify_builder.renamed(sym), value))
+                    .collect(),
+            }),
+            c => c.fold_with(&mut identify_builder),
+        })
         .collect::<Result<Vec<Command>, _>>()
         .unwrap();
 
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 772b8ce..a9c4226 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -73,6 +73,14 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// the new name of a symbol if it is one of the variables we have renamed
+    pub fn renamed(&self, symbol: ISymbol) -> ISymbol {
+        match self.alpha_renaming_map.get(&symbol) {
+            Some(new_sym) => new_sym.clone(),
+            None => symbol,
+        }
+    }
+
     /// name for the next renamed variable; these are aX, where X is an int
     /// a name can be declared more than once (in different scopes), so the renamed ones are counted
     fn new_name(&mut self) -> ISymbol {
-- 
2.43.0


From 0fac210cd8f5c7694c21d2933e583e21b04771b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 54/62] fix: transformer: sorts are declared before the
 variables that use them

---
 amzn-smt-string-transformer/src/transpiler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 3182f1c..54f309c 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -977,7 +977,14 @@ pub fn transform_ast(
         commands.into_iter().partition(|c| {
             matches!(
                 c,
-                Command::SetLogic { .. } | Command::SetInfo { .. } | Command::SetOption { .. }
+                Command::SetLogic { .. }
+                    | Command::SetInfo { .. }
+                    | Command::SetOption { .. }
+                    // the declarations that are lifted up may use these sorts
+                    | Command::DeclareSort { .. }
+                    | Command::DefineSort { .. }
+                    | Command::DeclareDatatype { .. }
+                    | Command::DeclareDatatypes { .. }
             )
         });
 
-- 
2.43.0


From c841203391924972ba276eb0c7c1b8ba9546919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 55/62] fix: transformer: rename declared functions where they
 are applied

---
 amzn-smt-string-transformer/src/transpiler_visitors.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index a9c4226..2ad75a8 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{Fold, IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ILet, ISort, ISymbol, IVar};
+use aws_smt_ir::{CoreOp, IConst, ILet, ISort, ISymbol, IVar, IUF, UF};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -299,6 +299,14 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(out)
     }
 
+    /// visit applications of functions that are not interpreted
+    /// these are renamed like any other declared function
+    fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
+        let UF { func, args } = uf.as_ref().clone().super_fold_with(self)?;
+        let func = self.renamed(func);
+        Ok(UF { func, args }.into())
+    }
+
     /// visit symbols
     /// if the symbol is one of the variables we have renamed, then
     /// replace it with the new name
-- 
2.43.0


From ec9e05d7a3377c9767def21d8eb71aafa122cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 56/62] fix: transformer: rename the variables that quantifiers
 and function definitions bind

---
 .../src/transpiler_visitors.rs                | 144 ++++++++++++++----
 1 file changed, 115 insertions(+), 29 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 2ad75a8..3442170 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,9 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{Fold, IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ILet, ISort, ISymbol, IVar, IUF, UF};
+use aws_smt_ir::{
+    CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Quantifier, IUF, UF,
+};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -50,8 +52,10 @@ pub struct IdentifyStringsBuilder {
     /// list of original constraint variables that appear in a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
-    /// terms of the variables bound by the surrounding let binders
-    let_bindings: HashMap<ISymbol, Term>,
+    /// terms of the variables bound by the surrounding binders
+    bindings: HashMap<ISymbol, Term>,
+    /// renamed variables that are bound by quantifiers and function definitions
+    bound_vars: HashMap<ISymbol, ISymbol>,
     /// number of names given to renamed variables
     num_renamed: usize,
 }
@@ -89,6 +93,43 @@ impl IdentifyStringsBuilder {
         new_sym
     }
 
+    /// if it's a string var add it to the list of string vars and the callgraph
+    fn add_string_var(&mut self, new_sym: &ISymbol, sort: &ISort) {
+        if sort.get_type() == IdentType::StringType {
+            self.string_var_list.insert(new_sym.clone());
+            let _var_id = self.callgraph.add_constraint_var(
+                new_sym.clone(),
+                CallnodeData::new(StringFct::NO_OP, BTreeSet::new()),
+            );
+        }
+    }
+
+    /// rename the variables of a binder
+    fn bind_vars(&mut self, vars: &[(ISymbol, ISort)]) -> Vec<(ISymbol, ISort)> {
+        (vars.iter())
+            .map(|(symbol, sort)| {
+                let new_sym = self.new_name();
+                self.bound_vars.insert(new_sym.clone(), new_sym.clone());
+                self.add_string_var(&new_sym, sort);
+                let var = Term::Variable(new_sym.clone().into());
+                self.bindings.insert(symbol.clone(), var);
+                (new_sym, sort.clone())
+            })
+            .collect()
+    }
+
+    /// rename the parameters of a function definition, and visit the body
+    fn fold_definition(
+        &mut self,
+        sig: FunctionDec,
+        body: Term,
+    ) -> Result<(FunctionDec, Term), aws_smt_ir::smt2parser::Error> {
+        let parameters = self.bind_vars(&sig.parameters);
+        let term = body.fold_with(self);
+        self.bindings.clear();
+        Ok((FunctionDec { parameters, ..sig }, term?))
+    }
+
     /// inspect the term parameters (if any), and attach the parent/child in the callgraph
     /// also initialize direct siblings in the args
     fn inspect_parameters(&mut self, var_sym: ISymbol, t: &Term, sfc: StringFct) {
@@ -96,12 +137,14 @@ impl IdentifyStringsBuilder {
             let mut ident_args = BTreeSet::new();
             // also track the string literal siblings; these contribute to what a node is built_from
             let mut string_lits = BTreeSet::<String>::new();
-            self.char_level_substring_vars
-                .extend(char_level_substrings_required(
-                    op.args().cloned().collect::<Vec<Term>>().as_slice(),
-                    sfc,
-                    &self.alpha_renaming_map,
-                ));
+            for vars in [&self.alpha_renaming_map, &self.bound_vars] {
+                self.char_level_substring_vars
+                    .extend(char_level_substrings_required(
+                        op.args().cloned().collect::<Vec<Term>>().as_slice(),
+                        sfc,
+                        vars,
+                    ));
+            }
             for arg in op.args() {
                 if let Term::Variable(identifier) = arg {
                     let ident_sym = identifier.sym();
@@ -242,10 +285,10 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let bindings = (l.bindings.iter())
             .map(|(sym, t)| Ok((sym.clone(), t.clone().fold_with(self)?)))
             .collect::<Result<Vec<_>, Self::Error>>()?;
-        let outer = self.let_bindings.clone();
-        self.let_bindings.extend(bindings);
+        let outer = self.bindings.clone();
+        self.bindings.extend(bindings);
         let term = l.term.clone().fold_with(self);
-        self.let_bindings = outer;
+        self.bindings = outer;
         term
     }
 
@@ -256,14 +299,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let new_sym = self.new_name();
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
-        // if it's a string var add it to the list of string vars and the callgraph
-        if sort.get_type() == IdentType::StringType {
-            self.string_var_list.insert(new_sym.clone());
-            let _var_id = self.callgraph.add_constraint_var(
-                new_sym.clone(),
-                CallnodeData::new(StringFct::NO_OP, BTreeSet::new()),
-            );
-        }
+        self.add_string_var(&new_sym, &sort);
         let out = Command::DeclareConst {
             symbol: new_sym,
             sort,
@@ -282,14 +318,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let new_sym = self.new_name();
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
-        // if it's a string var add it to the list of string vars and the callgraph
-        if sort.get_type() == IdentType::StringType {
-            self.string_var_list.insert(new_sym.clone());
-            let _var_id = self.callgraph.add_constraint_var(
-                new_sym.clone(),
-                CallnodeData::new(StringFct::NO_OP, BTreeSet::new()),
-            );
-        }
+        self.add_string_var(&new_sym, &sort);
         let out = Command::DeclareFun {
             symbol: new_sym,
             parameters,
@@ -299,6 +328,63 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(out)
     }
 
+    /// visit quantifiers
+    /// the bound variables are renamed as well, string variables are constraint variables
+    fn fold_quantifier(&mut self, q: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let (Quantifier::Forall(vars, term) | Quantifier::Exists(vars, term)) = q.as_ref();
+        let outer = self.bindings.clone();
+        let vars = self.bind_vars(vars);
+        let term = term.clone().fold_with(self);
+        self.bindings = outer;
+        Ok(match q.as_ref() {
+            Quantifier::Forall(..) => Quantifier::Forall(vars, term?),
+            Quantifier::Exists(..) => Quantifier::Exists(vars, term?),
+        }
+        .into())
+    }
+
+    /// visit function definitions
+    /// these are renamed like declared functions
+    fn fold_define_fun(&mut self, sig: FunctionDec, body: Term) -> Result<Command, Self::Error> {
+        let (sig, term) = self.fold_definition(sig, body)?;
+        let name = self.new_name();
+        self.alpha_renaming_map.insert(sig.name, name.clone());
+        let sig = FunctionDec { name, ..sig };
+        Ok(Command::DefineFun { sig, term })
+    }
+
+    /// same as visiting function definitions, but the bodies may use the function
+    fn fold_define_fun_rec(
+        &mut self,
+        sig: FunctionDec,
+        body: Term,
+    ) -> Result<Command, Self::Error> {
+        let name = self.new_name();
+        self.alpha_renaming_map.insert(sig.name.clone(), name.clone());
+        let (sig, term) = self.fold_definition(sig, body)?;
+        let sig = FunctionDec { name, ..sig };
+        Ok(Command::DefineFunRec { sig, term })
+    }
+
+    /// same as visiting function definitions, but the bodies may use all the functions
+    fn fold_define_funs_rec(
+        &mut self,
+        funs: Vec<(FunctionDec, Term)>,
+    ) -> Result<Command, Self::Error> {
+        for (sig, _) in &funs {
+            let name = self.new_name();
+            self.alpha_renaming_map.insert(sig.name.clone(), name);
+        }
+        let funs = (funs.into_iter())
+            .map(|(sig, body)| {
+                let (sig, term) = self.fold_definition(sig, body)?;
+                let name = self.renamed(sig.name);
+                Ok((FunctionDec { name, ..sig }, term))
+            })
+            .collect::<Result<Vec<_>, Self::Error>>()?;
+        Ok(Command::DefineFunsRec { funs })
+    }
+
     /// visit applications of functions that are not interpreted
     /// these are renamed like any other declared function
     fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
@@ -311,7 +397,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// if the symbol is one of the variables we have renamed, then
     /// replace it with the new name
     fn fold_var(&mut self, v: IVar) -> Result<Term, Self::Error> {
-        if let Some(t) = self.let_bindings.get(v.sym()) {
+        if let Some(t) = self.bindings.get(v.sym()) {
             return Ok(t.clone());
         }
         if let Some(sym) = self.alpha_renaming_map.get(v.sym()) {
-- 
2.43.0


From 32e949ca28fb8c6eb4c946cddf2ac31ffb61df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 57/62] fix: transformer: give up on functions, arrays and
 other sorts of strings

---
 amzn-smt-string-transformer/src/transpiler.rs |  2 +
 .../src/transpiler_visitors.rs                | 55 ++++++++++++++++++-
 2 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 54f309c..f4d48e1 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -1140,6 +1140,8 @@ pub fn transform_ast(
     // a mapping of a string that came from another query)
     char_map.prune_persist_string_map();
 
+    failed_mod_constraint_vars.extend(&identify_builder.unsupported_vars);
+
     // construct mapping object
     let mapping_obj = Mapping::new(
         &char_vec,
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 3442170..d8a1e6b 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -56,6 +56,9 @@ pub struct IdentifyStringsBuilder {
     bindings: HashMap<ISymbol, Term>,
     /// renamed variables that are bound by quantifiers and function definitions
     bound_vars: HashMap<ISymbol, ISymbol>,
+    /// declarations of functions, arrays etc. of strings: how the strings that they take and return
+    /// relate to each other isn't tracked, so string literals can't be transformed
+    pub unsupported_vars: HashSet<ISymbol>,
     /// number of names given to renamed variables
     num_renamed: usize,
 }
@@ -93,6 +96,14 @@ impl IdentifyStringsBuilder {
         new_sym
     }
 
+    /// keep track of the declaration if it involves strings but is no string var
+    fn check_supported(&mut self, new_sym: &ISymbol, parameters: &[ISort], sort: &ISort) {
+        let is_var = parameters.is_empty() && sort.get_type() == IdentType::StringType;
+        if !is_var && parameters.iter().chain([sort]).any(has_strings) {
+            self.unsupported_vars.insert(new_sym.clone());
+        }
+    }
+
     /// if it's a string var add it to the list of string vars and the callgraph
     fn add_string_var(&mut self, new_sym: &ISymbol, sort: &ISort) {
         if sort.get_type() == IdentType::StringType {
@@ -110,6 +121,7 @@ impl IdentifyStringsBuilder {
             .map(|(symbol, sort)| {
                 let new_sym = self.new_name();
                 self.bound_vars.insert(new_sym.clone(), new_sym.clone());
+                self.check_supported(&new_sym, &[], sort);
                 self.add_string_var(&new_sym, sort);
                 let var = Term::Variable(new_sym.clone().into());
                 self.bindings.insert(symbol.clone(), var);
@@ -124,6 +136,13 @@ impl IdentifyStringsBuilder {
         sig: FunctionDec,
         body: Term,
     ) -> Result<(FunctionDec, Term), aws_smt_ir::smt2parser::Error> {
+        // the arguments are not related to the parameters
+        if (sig.parameters.iter().map(|(_, sort)| sort))
+            .chain([&sig.result])
+            .any(has_strings)
+        {
+            self.unsupported_vars.insert(sig.name.clone());
+        }
         let parameters = self.bind_vars(&sig.parameters);
         let term = body.fold_with(self);
         self.bindings.clear();
@@ -245,6 +264,17 @@ impl IdentifyStringsBuilder {
     }
 }
 
+/// does the sort, or one of those it is made of, have strings as its values?
+fn has_strings(sort: &ISort) -> bool {
+    sort.get_type() == IdentType::StringType
+        || match sort.as_ref() {
+            aws_smt_ir::Sort::Simple { .. } => false,
+            aws_smt_ir::Sort::Parameterized { parameters, .. } => {
+                parameters.iter().any(has_strings)
+            }
+        }
+}
+
 /// create the assertion for a new var (think: variable initialization)
 /// example: given "new_var1" and term t, this creates an assertion
 /// (assert (= new_var1 t))
@@ -299,6 +329,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let new_sym = self.new_name();
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
+        self.check_supported(&new_sym, &[], &sort);
         self.add_string_var(&new_sym, &sort);
         let out = Command::DeclareConst {
             symbol: new_sym,
@@ -318,7 +349,10 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let new_sym = self.new_name();
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
-        self.add_string_var(&new_sym, &sort);
+        self.check_supported(&new_sym, &parameters, &sort);
+        if parameters.is_empty() {
+            self.add_string_var(&new_sym, &sort);
+        }
         let out = Command::DeclareFun {
             symbol: new_sym,
             parameters,
@@ -343,6 +377,22 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         .into())
     }
 
+    /// visit sort definitions
+    /// variables of a sort that is another name for strings are not known to be strings
+    fn fold_define_sort(
+        &mut self,
+        symbol: ISymbol,
+        parameters: Vec<ISymbol>,
+        sort: ISort,
+    ) -> Result<Command, Self::Error> {
+        self.check_supported(&symbol, &[sort.clone()], &sort);
+        Ok(Command::DefineSort {
+            symbol,
+            parameters,
+            sort,
+        })
+    }
+
     /// visit function definitions
     /// these are renamed like declared functions
     fn fold_define_fun(&mut self, sig: FunctionDec, body: Term) -> Result<Command, Self::Error> {
@@ -360,7 +410,8 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         body: Term,
     ) -> Result<Command, Self::Error> {
         let name = self.new_name();
-        self.alpha_renaming_map.insert(sig.name.clone(), name.clone());
+        self.alpha_renaming_map
+            .insert(sig.name.clone(), name.clone());
         let (sig, term) = self.fold_definition(sig, body)?;
         let sig = FunctionDec { name, ..sig };
         Ok(Command::DefineFunRec { sig, term })
-- 
2.43.0


From cac239999b22c64b3847ff7e934634d7dc4dbfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 58/62] fix: transformer: normalise the variables of the listed
 subformulas

---
 .../src/subformula_parser.rs                  | 80 +++++++++++++------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index e6f24e9..b50eb88 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -9,7 +9,7 @@ use crate::{transpiler::IdentType, Command, SortExt, Term};
 use aws_smt_ir::{
     fold::{Fold, IntraLogicFolder, SuperFold},
     logic::ALL,
-    CoreOp, ISort, ISymbol, IVar,
+    CoreOp, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier,
 };
 use serde::{Deserialize, Serialize};
 use std::{
@@ -195,32 +195,70 @@ pub fn reconstruct_orig_query_shape(commands: Vec<Command>) -> Vec<Command> {
 /// Folder to "normalize" the variable names
 /// we're going to rename them in order of appearance, to v_n (nth appearance)
 /// the point: so subterms are equal over different vars
-/// this only works over function applications; otherwise just returns the same term
+#[derive(Default)]
 struct VariableNameNormalizer {
     cur_vars: HashMap<ISymbol, ISymbol>,
+    num_vars: usize,
 }
 
-impl IntraLogicFolder<ALL> for VariableNameNormalizer {
-    type Error = Infallible;
+impl VariableNameNormalizer {
+    /// give a variable the next name
+    fn add_var(&mut self, sym: &ISymbol) -> ISymbol {
+        let new_name: ISymbol = format!("v{}", self.num_vars).into();
+        self.num_vars += 1;
+        self.cur_vars.insert(sym.clone(), new_name.clone());
+        new_name
+    }
 
-    fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
-        match term {
-            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
-            _ => Ok(term),
+    /// the bound variables are other variables than those of the same name outside of the binder
+    fn restore(&mut self, outer: HashMap<ISymbol, ISymbol>, bound: Vec<&ISymbol>) {
+        for sym in bound {
+            match outer.get(sym) {
+                Some(name) => self.cur_vars.insert(sym.clone(), name.clone()),
+                None => self.cur_vars.remove(sym),
+            };
         }
     }
+}
+
+impl IntraLogicFolder<ALL> for VariableNameNormalizer {
+    type Error = Infallible;
 
     fn fold_var(&mut self, var: IVar) -> Result<Term, Self::Error> {
-        let cur_vars = &mut self.cur_vars;
-        let new = if let Some(new_name) = cur_vars.get(var.sym()) {
-            new_name.clone()
-        } else {
-            let new_var_name: ISymbol = format!("v{}", cur_vars.len()).into();
-            cur_vars.insert(var.sym().clone(), new_var_name.clone());
-            new_var_name
+        let new = match self.cur_vars.get(var.sym()) {
+            Some(new_name) => new_name.clone(),
+            None => self.add_var(var.sym()),
         };
         Ok(Term::Variable(new.into()))
     }
+
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        let terms = (l.bindings.iter())
+            .map(|(_, t)| t.clone().fold_with(self))
+            .collect::<Result<Vec<_>, _>>()?;
+        let outer = self.cur_vars.clone();
+        let bindings = (l.bindings.iter().zip(terms))
+            .map(|((sym, _), t)| (self.add_var(sym), t))
+            .collect();
+        let term = l.term.clone().fold_with(self)?;
+        self.restore(outer, l.bindings.iter().map(|(sym, _)| sym).collect());
+        Ok(Let { bindings, term }.into())
+    }
+
+    fn fold_quantifier(&mut self, q: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let (Quantifier::Forall(vars, term) | Quantifier::Exists(vars, term)) = q.as_ref();
+        let outer = self.cur_vars.clone();
+        let new_vars = (vars.iter())
+            .map(|(sym, sort)| (self.add_var(sym), sort.clone()))
+            .collect();
+        let term = term.clone().fold_with(self)?;
+        self.restore(outer, vars.iter().map(|(sym, _)| sym).collect());
+        Ok(match q.as_ref() {
+            Quantifier::Forall(..) => Quantifier::Forall(new_vars, term),
+            Quantifier::Exists(..) => Quantifier::Exists(new_vars, term),
+        }
+        .into())
+    }
 }
 
 /// JSON representation of a list of subformulas
@@ -277,18 +315,14 @@ pub fn find_string_subforumlas(
         });
     }
 
-    let mut normalizer = VariableNameNormalizer {
-        cur_vars: HashMap::new(),
-    };
     string_subforumla_builder
         .sub_terms
         .iter()
-        .map(|t| {
-            normalizer.cur_vars.clear();
-            match t.fold_with(&mut normalizer) {
+        .map(
+            |t| match t.fold_with(&mut VariableNameNormalizer::default()) {
                 Ok(t) => t,
                 Err(e) => match e {},
-            }
-        })
+            },
+        )
         .collect::<Vec<Term>>()
 }
-- 
2.43.0


From cb708848d32e585cbca20d9c2bf65fe1da2ad9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 59/62] fix: transformer: stored literals are used again only
 if their ranges are still mapped alike

---
 .../src/string_mappings.rs                        |  4 +++-
 amzn-smt-string-transformer/src/transpiler.rs     | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 0536e73..9ae8972 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -605,7 +605,8 @@ pub fn gen_string_keep_substrings(
             // if keep_ranges is true, then req_ranges can't be empty
             if (req_len_bool >= &len_bool)
                 && &KeepInts::merge(req_keep_ints, keep_ints) == req_keep_ints
-                && (!keep_ranges || !req_ranges.is_empty())
+                && (!keep_ranges
+                    || (!req_ranges.is_empty() && char_map.keeps_ranges(s, mapped_to)))
             {
                 char_map.string_map.insert(s.to_string(), mapped_to.clone());
                 return Ok(mapped_to.clone());
@@ -865,6 +866,7 @@ pub fn map_string_no_reconstruct(
 				            && ranges
 				                .iter()
 				                .all(|r| req_ranges.contains(r))
+				            && (ranges.is_empty() || char_map.keeps_ranges(s, mapped_to))
                         {
                             // for ranges: if we don't care about ranges it doesn't matter
                             // if keep_ranges is true, then req_ranges can't be empty
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f4d48e1..6551d4b 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -535,6 +535,21 @@ impl CharMap {
         None
     }
 
+    /// check that the characters of the mapped string are in the mapped ranges like the original
+    /// ones are in the original ranges; ranges can be mapped differently than when a string of the
+    /// persistent map was mapped
+    pub fn keeps_ranges(&self, s: &str, mapped: &str) -> bool {
+        s.chars().count() == mapped.chars().count()
+            && s.chars().zip(mapped.chars()).all(|(c, mapped_c)| {
+                self.ranges.iter().all(|r| {
+                    let mapped_start = self.char_map.get(&r.start_char).unwrap();
+                    let mapped_end = self.char_map.get(&r.end_char).unwrap();
+                    (r.start_char..=r.end_char).contains(&c)
+                        == (mapped_start..=mapped_end).contains(&&mapped_c)
+                })
+            })
+    }
+
     /// find if something is a prefix of s1 that is also a suffix of s2
     fn get_prefix_suffix<'a>(s1: &'a str, s2: &'a str) -> Option<&'a str> {
         // start at 1 so we are comparing at least one char always
-- 
2.43.0


From 4ebf7f2bee1cb69e399cc42438956f814437e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 60/62] fix: transformer: escape sequences of surrogate code
 points denote one character

---
 .../src/string_mappings.rs                    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 9ae8972..9881cd1 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -66,16 +66,33 @@ fn strip_escape(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let code = u32::from_str_radix(digits, 16).ok()?;
-    let c = char::from_u32(code).filter(|_| code < 0x30000)?;
+    let c = char_for_code(code).filter(|_| code < 0x30000)?;
     Some((c, rest))
 }
 
+/// get the character that stands for the given code point: string literals can contain surrogate
+/// code points, which are no `char`s, so those and all later code points are shifted past them
+fn char_for_code(code: u32) -> Option<char> {
+    char::from_u32(if code < 0xd800 { code } else { code + 0x800 })
+}
+
+/// get the code point that the given character stands for
+fn code_for_char(c: char) -> u32 {
+    match c as u32 {
+        code if code < 0xd800 => code,
+        code => code - 0x800,
+    }
+}
+
 /// get the characters that a string literal denotes
 pub fn unescape(literal: &str) -> String {
     let mut to_ret = String::new();
     let mut rest = literal;
     while let Some(c) = rest.chars().next() {
-        let (c, after) = strip_escape(rest).unwrap_or((c, &rest[c.len_utf8()..]));
+        let (c, after) = strip_escape(rest).unwrap_or_else(|| {
+            let after = &rest[c.len_utf8()..];
+            (char_for_code(c as u32).unwrap_or(c), after)
+        });
         to_ret.push(c);
         rest = after;
     }
@@ -87,7 +104,7 @@ pub fn escape(s: &str) -> String {
     s.char_indices()
         .map(|(ind, c)| {
             if !(' '..='~').contains(&c) || strip_escape(&s[ind..]).is_some() {
-                format!("\\u{{{:x}}}", c as u32)
+                format!("\\u{{{:x}}}", code_for_char(c))
             } else {
                 c.to_string()
             }
-- 
2.43.0


From 3ef7e54d292092e82baa84652f791b2ea2874a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 61/62] fix: transformer: constructors and selectors keep their
 names, and datatypes of strings are given up on

---
 amzn-smt-string-transformer/src/transpiler.rs | 16 ++++++++++-
 .../src/transpiler_visitors.rs                | 28 +++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 6551d4b..2627317 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -967,11 +967,25 @@ pub fn transform_ast(
     use_char_to_char: bool,
 ) -> (Vec<Command>, Mapping) {
     let mut identify_builder = IdentifyStringsBuilder::default();
+    let commands: Vec<Command> = commands.collect();
+    for c in &commands {
+        match c {
+            Command::DeclareDatatype { symbol, datatype } => {
+                identify_builder.add_datatype(symbol, datatype)
+            }
+            Command::DeclareDatatypes { datatypes } => {
+                for (symbol, _, datatype) in datatypes {
+                    identify_builder.add_datatype(symbol, datatype)
+                }
+            }
+            _ => {}
+        }
+    }
 
     // visit the AST, building up the new lists of declarations and
     // assertions (initializations)
     // and, renaming vars where needed
-    let mut commands = commands
+    let mut commands = (commands.into_iter())
         .map(|c| match c {
             // the literals of this command are no terms, so they are not visited
             Command::CheckSatAssuming { literals } => Ok(Command::CheckSatAssuming {
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index d8a1e6b..5a77a94 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -59,6 +59,8 @@ pub struct IdentifyStringsBuilder {
     /// declarations of functions, arrays etc. of strings: how the strings that they take and return
     /// relate to each other isn't tracked, so string literals can't be transformed
     pub unsupported_vars: HashSet<ISymbol>,
+    /// names of constructors and selectors: these aren't renamed, so no variable gets their names
+    reserved_names: HashSet<ISymbol>,
     /// number of names given to renamed variables
     num_renamed: usize,
 }
@@ -91,11 +93,32 @@ impl IdentifyStringsBuilder {
     /// name for the next renamed variable; these are aX, where X is an int
     /// a name can be declared more than once (in different scopes), so the renamed ones are counted
     fn new_name(&mut self) -> ISymbol {
-        let new_sym = ISymbol::from(format!("a{}", self.num_renamed));
+        let new_sym = self.unreserved(format!("a{}", self.num_renamed));
         self.num_renamed += 1;
         new_sym
     }
 
+    /// symbol of that name, which is extended if a constructor or selector has it
+    fn unreserved(&self, mut name: String) -> ISymbol {
+        while self.reserved_names.contains(&ISymbol::from(name.clone())) {
+            name.push('_');
+        }
+        ISymbol::from(name)
+    }
+
+    /// keep track of the constructors and selectors of a datatype
+    pub fn add_datatype(&mut self, symbol: &ISymbol, datatype: &DatatypeDec<ISymbol, ISort>) {
+        for constructor in &datatype.constructors {
+            self.reserved_names.insert(constructor.symbol.clone());
+            for (selector, sort) in &constructor.selectors {
+                self.reserved_names.insert(selector.clone());
+                if has_strings(sort) {
+                    self.unsupported_vars.insert(symbol.clone());
+                }
+            }
+        }
+    }
+
     /// keep track of the declaration if it involves strings but is no string var
     fn check_supported(&mut self, new_sym: &ISymbol, parameters: &[ISort], sort: &ISort) {
         let is_var = parameters.is_empty() && sort.get_type() == IdentType::StringType;
@@ -237,12 +260,11 @@ impl IdentifyStringsBuilder {
         }
 
         // add new_var to the list of new vars, storing this string function
-        let len = self.const_map.len();
+        let new_var_name = self.unreserved(format!("new_var{}", self.const_map.len()));
         let var_sym = match self.const_map.entry(t.clone()) {
             Entry::Occupied(o) => o.get().clone(),
             Entry::Vacant(v) => {
                 let new_var_type = sfc.string_fct_return_type();
-                let new_var_name = ISymbol::from(format!("new_var{}", len));
                 self.decl_const_list
                     .push(Self::new_var_decl_const(new_var_name.clone(), new_var_type));
                 self.string_var_defn_map
-- 
2.43.0


From b1b9b2eabb574d32dcabd4c81a1648bd39d478a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 62/62] fix: transformer: analysis script ignores empty lines
 of the list of queries

---
 amzn-smt-string-transformer/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/data_processing.py b/amzn-smt-string-transformer/data_processing.py
index d14cce4..f5c3327 100644
--- a/amzn-smt-string-transformer/data_processing.py
+++ b/amzn-smt-string-transformer/data_processing.py
@@ -204,7 +204,7 @@ else:
 		query_file_list = sys.argv[2]
 		try:
 			with open(query_file_list) as f:
-				all_queries = [fname.split(".")[0] for fname in f.read().split("\n")]
+				all_queries = [fname.split(".")[0] for fname in f.read().split("\n") if fname]
 		except:
 			all_queries = []
 	os.chdir(data_dir)
-- 
2.43.0

