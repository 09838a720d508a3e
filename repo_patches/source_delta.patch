From 7754c29771bfbb103683f54b68f967ba9aae93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 01/22] fix: accumulate reverse seeds of repeated dependents

A value that is listed as dependent more than once lost all but its last
weight in Tape::first_order_reverse.
---
 src/tape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..f2e06f2 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From ec41a7cb5ea819645145835de89ee20b82ceb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 02/22] fix: column() of abs-normal blocks multiplies by a
 column vector

It passed a row vector to mul_right, which panics unless the block has
exactly one column.
---
 src/drivers/abs_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..806792e 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,8 +220,8 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
-                ind[i] = 1.0;
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
+                ind[(i, 0)] = 1.0;
                 self.mul_right(&ind)
             }
         }
-- 
2.43.0


From d57623786aae090322531ba3eca9f26ed1f9baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 03/22] fix: default checkpoint budget of a chain of one
 function

The default was the chain length, but reverse_sequence needs at least two
checkpoints, so a chain of a single function always panicked.
---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From bc3501396aaf40e723bb4e1e1c890a74dc7ef596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 04/22] fix: numeric conversions of AFloat keep fraction and
 range

The provided ToPrimitive methods go through i64, so converting an AFloat
to a float truncated it to an integer (and failed beyond 64 bits).
---
 src/afloat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..0c47f21 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,22 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_i128(&self) -> Option<i128> {
+        self.v.to_i128()
+    }
+
+    fn to_u128(&self) -> Option<u128> {
+        self.v.to_u128()
+    }
+
+    fn to_f32(&self) -> Option<f32> {
+        self.v.to_f32()
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From aef829d5b1d13aa7a91fe91bc7c3774566a037a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 05/22] fix: AFloat::abs_sub is the positive difference

It returned the absolute difference, unlike the Float contract and f64.
---
 src/afloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 0c47f21..ae24457 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -386,7 +386,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        (self - other).max(Self::zero())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From 89596dc0afe724c7b7de0285e8d9f25cd5078840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 06/22] fix: AFloat::epsilon is that of the underlying float

The provided method returns f32::EPSILON for every type.
---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index ae24457..6ec2359 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -307,6 +307,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(neg_zero);
     float_constant!(min_value);
     float_constant!(min_positive_value);
+    float_constant!(epsilon);
     float_constant!(max_value);
 
     float_passthrough!(bool, is_nan);
-- 
2.43.0


From fea778d86d126e6358a151716d1904e988978f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 07/22] fix: derivatives of powf at a zero base or exponent

x^0 is constant in x and 0^y is constant in y > 0, but at x = 0 both
derivatives came out as NaN (0 * inf).
---
 src/operation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..44149f8 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,12 +68,12 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
+            let rv1 = if dx != S::zero() && y != S::zero() {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
             };
-            let rv2 = if dy != S::zero() {
+            let rv2 = if dy != S::zero() && !(x == S::zero() && y > S::zero()) {
                 x.ln() * x.powf(y) * dy
             } else {
                 S::zero()
@@ -318,8 +318,12 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
-                vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
+                if y != 0.0 {
+                    vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                }
+                if !(x == 0.0 && y > 0.0) {
+                    vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
+                }
             }
             OpCode::Abs => {
                 panic!("Abs-function encountered in first_order_reverse");
-- 
2.43.0


From 37002747f4f3dc5320afefc549d60e2a80a15fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 08/22] fix: cubic root of negative AFloats

It was computed as x^(1/3), which is NaN for every negative x, unlike the
Float contract and f64. Make it an elementary operation.
---
 src/afloat.rs    | 5 +----
 src/operation.rs | 9 +++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 6ec2359..26aef26 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -344,6 +344,7 @@ impl<S: Float> Float for AFloat<S> {
     float_elemental!(asin, Asin);
     float_elemental!(acos, Acos);
     float_elemental!(atan, Atan);
+    float_elemental!(cbrt, Cbrt);
     float_elemental2!(powf, Powf);
 
     fn mul_add(self, a: Self, b: Self) -> Self {
@@ -390,10 +391,6 @@ impl<S: Float> Float for AFloat<S> {
         (self - other).max(Self::zero())
     }
 
-    fn cbrt(self) -> Self {
-        self.powf(Self::one() / <Self as NumCast>::from(3.0).unwrap())
-    }
-
     fn hypot(self, other: Self) -> Self {
         (self.powi(2) + other.powi(2)).sqrt()
     }
diff --git a/src/operation.rs b/src/operation.rs
index 44149f8..1beb952 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -19,6 +19,7 @@ pub enum OpCode {
     Acos,
     Atan,
     Powf,
+    Cbrt,
 }
 
 pub(crate) fn zero_order_value<S: Float>(opcode: OpCode, arg1: S, arg2: Option<S>) -> S {
@@ -37,6 +38,7 @@ pub(crate) fn zero_order_value<S: Float>(opcode: OpCode, arg1: S, arg2: Option<S
         OpCode::Acos => arg1.acos(),
         OpCode::Atan => arg1.atan(),
         OpCode::Powf => arg1.powf(arg2.unwrap()),
+        OpCode::Cbrt => arg1.cbrt(),
         _ => panic!("Invalid opcode in zero_order_value"),
     }
 }
@@ -80,6 +82,13 @@ pub(crate) fn first_order_value<S: Float>(
             };
             rv1 + rv2
         }
+        OpCode::Cbrt => {
+            if darg1 != S::zero() {
+                darg1 / (S::from(3.0).unwrap() * arg1.cbrt().powi(2))
+            } else {
+                S::zero()
+            }
+        }
         _ => panic!("Invalid opcode in first_order_value"),
     }
 }
-- 
2.43.0


From e7de5e34b85cbc5c609e3e1c49a8c9c71baf5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 09/22] fix: attributes on adv_fn! functions with destructured
 arguments

The attribute was transcribed with its fragment specifier, so any attribute
or doc comment on such a function was a syntax error.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index da363d1..ab307a6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -81,7 +81,7 @@ macro_rules! adv_fn {
         }
     } => {
         adv_fn! {
-            $(#[$attr:meta])*
+            $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
                 $(
-- 
2.43.0


From 535dd1d1ebb9feb8eb1c91b8846cf22710fb5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 10/22] fix: C++ operators with a plain double on the left

Subtraction, multiplication and division all computed a sum.
---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From 569c185816ff6908f2a9f673b5f0d994d5389f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 11/22] fix: C++ copy self-assignment used its value after
 freeing it

---
 src/cxx/ADouble.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..04fb48b 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,9 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
+	auto val = ::adv_adouble_copy(other.m_impl->val);
 	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
-- 
2.43.0


From 9091e78a18b885c03e2c9bbca7de8fa7e2828927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 12/22] fix: reverse_sequence with a checkpoint budget far
 beyond the sequence

The capacity reserved for checkpoints was the whole budget, so a budget that
does not limit anything (e.g. usize::MAX) panicked or exhausted memory.
---
 src/drivers/checkpointing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drivers/checkpointing.rs b/src/drivers/checkpointing.rs
index 271afc1..d22f384 100644
--- a/src/drivers/checkpointing.rs
+++ b/src/drivers/checkpointing.rs
@@ -103,7 +103,9 @@ where
     assert!(ncheckpoints >= 2);
 
     // Store x at index 0 as the first checkpoint
-    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints);
+    // (there are never more checkpoints than elements, however large the budget is)
+    let mut checkpoints: VecDeque<(usize, T)> =
+        VecDeque::with_capacity(ncheckpoints.min(nsteps + 1));
     checkpoints.push_back((0, x));
 
     // Length of the not-yet reversed sequence
-- 
2.43.0


From 4e10a9fb65048e8389b88a1130533cd01479f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 13/22] fix: take tapes atomically

AContext::tape locked the recording once per part, so a tape taken while
another thread declared an input and recorded with it could use values that
were never defined.
---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..ff44c8f 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,13 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        // One lock for all parts: other threads may be recording
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0


From 73f660e09fda8944527bcd239522bf9cb10c3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 14/22] fix: early returns in adv_fn bodies bypassed the result
 length check

A return statement in the body left the generated function before the number
of results was compared with the declaration. The declared number is now also
evaluated before the body, which may consume its arguments.
---
 src/macros.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index ab307a6..d69f6aa 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -56,10 +56,13 @@ macro_rules! adv_fn {
             f64: $crate::Arithmetic<Scalar, Scalar>,
         {
             assert_eq!($arg_name.nrows(), $($arg_dim)*);
-            let result = {
+            let result_dim: usize = $($result_dim)*;
+            // Called as a closure so that early returns do not bypass the check below
+            #[allow(clippy::redundant_closure_call)]
+            let result = (|| -> $crate::DVector<Scalar> {
                 $($tt)*
-            };
-            assert_eq!(result.nrows(), $($result_dim)*);
+            })();
+            assert_eq!(result.nrows(), result_dim);
             result
         }
 
-- 
2.43.0


From 79936a1f5bfff8e650963914c960b55da7dad551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 15/22] fix: derivative of a quotient when the square of the
 divisor over- or underflows

For divisors beyond 1e154 or below 1e-154 in magnitude the derivative of x / y
came out as zero, infinite or NaN, in both directions.
---
 src/operation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 1beb952..ba808f5 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -54,7 +54,7 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Add => darg1 + darg2.unwrap(),
         OpCode::Sub => darg1 - darg2.unwrap(),
         OpCode::Mul => darg1 * arg2.unwrap() + arg1 * darg2.unwrap(),
-        OpCode::Div => (darg1 * arg2.unwrap() - arg1 * darg2.unwrap()) / arg2.unwrap().powi(2),
+        OpCode::Div => (darg1 - arg1 / arg2.unwrap() * darg2.unwrap()) / arg2.unwrap(),
         OpCode::Sin => darg1 * arg1.cos(),
         OpCode::Cos => -darg1 * arg1.sin(),
         OpCode::Tan => darg1 * (S::one() / arg1.cos().powi(2)),
@@ -317,8 +317,8 @@ impl Operation {
                 // vbar_j += vbar_i * ∂v_i/∂v_j = vbar_i * 1/v_k
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * -v_j/(v_k^2)
                 vbar[self.arg1.unwrap()] += vbar[self.vid] * 1.0 / v[self.arg2.unwrap()];
-                vbar[self.arg2.unwrap()] +=
-                    vbar[self.vid] * (-v[self.arg1.unwrap()] / v[self.arg2.unwrap()].powi(2));
+                vbar[self.arg2.unwrap()] += vbar[self.vid]
+                    * (-v[self.arg1.unwrap()] / v[self.arg2.unwrap()] / v[self.arg2.unwrap()]);
             }
             OpCode::Powf => {
                 // v_i = v_j^v_k
-- 
2.43.0


From 1a34ec619ed95ac2939ca79bdacd8d858ecfadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 16/22] fix: increment of an absolute value away from its kink
 was rounded to the value

The increment was the difference of two absolute values, which loses the
derivative of |x| (all of it beyond 2^53) where the sign does not change.
---
 src/operation.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/operation.rs b/src/operation.rs
index ba808f5..c10a0cd 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -58,7 +58,17 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Sin => darg1 * arg1.cos(),
         OpCode::Cos => -darg1 * arg1.sin(),
         OpCode::Tan => darg1 * (S::one() / arg1.cos().powi(2)),
-        OpCode::Abs => (arg1 + darg1).abs() - arg1.abs(),
+        OpCode::Abs => {
+            // No rounding of the sum where the increment does not change the sign
+            let sum = arg1 + darg1;
+            if arg1 >= S::zero() && sum >= S::zero() {
+                darg1
+            } else if arg1 <= S::zero() && sum <= S::zero() {
+                -darg1
+            } else {
+                sum.abs() - arg1.abs()
+            }
+        }
         OpCode::Exp => darg1 * arg1.exp(),
         OpCode::Ln => darg1 * (S::one() / arg1),
         OpCode::Asin => darg1 / (S::one() - arg1.powi(2)).sqrt(),
-- 
2.43.0


From 151a4f4d565a2062bcd120645bd1ce9f9700f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 17/22] fix: integer powers in single precision rounded
 exponents beyond 2^24

(-1)^16777217 was 1: the exponent was rounded to the precision of the base,
which may change whether it is odd.
---
 src/afloat.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 26aef26..d46410f 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -356,7 +356,18 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn powi(self, n: i32) -> Self {
-        self.powf(<Self as NumCast>::from(n).unwrap())
+        let exponent = <Self as NumCast>::from(n).unwrap();
+        if exponent.to_i32() == Some(n) {
+            self.powf(exponent)
+        } else {
+            // Not a number of this precision, rounding it might change its parity
+            let root = self.powi(n / 2);
+            match n % 2 {
+                0 => root * root,
+                1 => root * root * self,
+                _ => root * root / self,
+            }
+        }
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From 65c859bc4a14e83ae09aff1c68e6d976bfd3676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 18/22] fix: sweeps of a tape silently ignored surplus entries
 of the direction or the weights

---
 src/tape.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tape.rs b/src/tape.rs
index f2e06f2..46701b8 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -73,6 +73,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
 
     /// Calculate adjoint of Jacobian
     fn first_order_forward(&self, dx: &DVector<f64>) -> DVector<f64> {
+        assert_eq!(dx.nrows(), self.num_indeps());
         let v = self.values();
         let mut dv = vec![0.0; v.len()];
         for (idx, vid) in self.indeps().iter().enumerate() {
@@ -90,6 +91,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
 
     /// Calculate reverse-adjoint of Jacobian
     fn first_order_reverse(&self, ybar: &DVector<f64>) -> DVector<f64> {
+        assert_eq!(ybar.nrows(), self.num_deps());
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-- 
2.43.0


From 1d91097071e6c643d8d0029da65f15f00b378eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 19/22] fix: abs_normal accepted points of the wrong length,
 unlike the other drivers

---
 src/drivers/abs_normal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index 806792e..7ffdd69 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -289,6 +289,7 @@ pub struct AbsNormalForm {
 /// Derive a dense Abs-Normal form from a function
 #[allow(clippy::many_single_char_names)]
 pub fn abs_normal(func: &dyn Function, x: &DVector<f64>) -> AbsNormalForm {
+    assert_eq!(x.nrows(), func.n());
     let tape = func.tape(x);
     let abs_tape = AbsNormalTape::new(tape);
     let n = abs_tape.n();
-- 
2.43.0


From b9bee561cf1634ef1bca7fea9d9faebc7bf5b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 20/22] fix: refuse foreign dependents without poisoning the
 recording

set_dep() asserted while holding the lock of the recording. A caught panic left
the recording and all numbers recorded in it unusable.
---
 src/acontext.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index ff44c8f..8cd9101 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -98,12 +98,13 @@ impl AContext {
 
     /// Mark a variable as dependent
     pub fn set_dep<S: Float>(&mut self, x: &AFloat<S>) {
+        if let Some((cid, _)) = x.context() {
+            // Not while holding the lock, panicking would poison it
+            assert_eq!(cid, self.cid());
+        }
         let mut inner = self.inner.lock().unwrap();
         let vid = match x.context() {
-            Some((cid, vid)) => {
-                assert_eq!(cid, inner.cid());
-                vid
-            }
+            Some((_, vid)) => vid,
             None => {
                 // Record constant
                 let vid = inner.vals.len();
-- 
2.43.0


From 4df898fcb12493b8338381ad59b362f7e6f2dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 21/22] fix: derivatives of powers and cubic roots of nested
 active numbers

Where the first derivative of an argument vanishes, its derivatives were dropped,
because comparisons only look at the value.
---
 src/afloat.rs    | 22 +++++++++++++---------
 src/operation.rs | 24 +++++++++++++++++-------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index d46410f..ada1828 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -44,15 +44,19 @@ impl<S: Float> AFloat<S> {
     }
 
     /// Operation
-    fn from_op(opcode: OpCode, mut arg1: Self, mut arg2: Option<Self>) -> Self {
+    fn from_op(opcode: OpCode, arg1: Self, arg2: Option<Self>) -> Self {
+        Self::from_op_with(opcode, arg1, arg2, arg2.map(|x| x.dv))
+    }
+
+    /// Operation with a separate first-order value of the second argument
+    fn from_op_with(
+        opcode: OpCode,
+        mut arg1: Self,
+        mut arg2: Option<Self>,
+        darg2: Option<S>,
+    ) -> Self {
         let v = zero_order_value(opcode, arg1.v, arg2.map(|x| x.v));
-        let dv = first_order_value(
-            opcode,
-            arg1.v,
-            arg2.map(|x| x.v),
-            arg1.dv,
-            arg2.map(|x| x.dv),
-        );
+        let dv = first_order_value(opcode, arg1.v, arg2.map(|x| x.v), arg1.dv, darg2);
         let mut this = Self::new(v, dv);
 
         let mut cid = None;
@@ -358,7 +362,7 @@ impl<S: Float> Float for AFloat<S> {
     fn powi(self, n: i32) -> Self {
         let exponent = <Self as NumCast>::from(n).unwrap();
         if exponent.to_i32() == Some(n) {
-            self.powf(exponent)
+            Self::from_op_with(OpCode::Powf, self, Some(exponent), None)
         } else {
             // Not a number of this precision, rounding it might change its parity
             let root = self.powi(n / 2);
diff --git a/src/operation.rs b/src/operation.rs
index c10a0cd..f200aec 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -78,22 +78,32 @@ pub(crate) fn first_order_value<S: Float>(
             let x = arg1;
             let y = arg2.unwrap();
             let dx = darg1;
-            let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() && y != S::zero() {
+            // Comparisons only see the value of active numbers. Hence vanishing increments only
+            // lead to a plain zero where the product is undefined.
+            let (x0, y0) = (S::from(x).unwrap(), S::from(y).unwrap());
+
+            let rv1 = if dx != S::zero() && y != S::zero()
+                || (darg2.is_some() || y != S::zero()) && (y0 * x0.powf(y0 - S::one())).is_finite()
+            {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
             };
-            let rv2 = if dy != S::zero() && !(x == S::zero() && y > S::zero()) {
-                x.ln() * x.powf(y) * dy
-            } else {
-                S::zero()
+            let rv2 = match darg2 {
+                Some(dy)
+                    if !(x == S::zero() && y > S::zero())
+                        && (dy != S::zero() || (x0.ln() * x0.powf(y0)).is_finite()) =>
+                {
+                    x.ln() * x.powf(y) * dy
+                }
+                // No increment of the exponent
+                _ => S::zero(),
             };
             rv1 + rv2
         }
         OpCode::Cbrt => {
-            if darg1 != S::zero() {
+            if darg1 != S::zero() || arg1 != S::zero() {
                 darg1 / (S::from(3.0).unwrap() * arg1.cbrt().powi(2))
             } else {
                 S::zero()
-- 
2.43.0


From e3490f7ab047f5c934f583c14eae3610381f2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:57 +0000
Subject: [PATCH 22/22] fix: adv_fn! with destructured arguments can be called
 by path

The macro called itself by its plain name, so that this form did not
compile where adv_fn itself was not imported.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index d69f6aa..fd3a7e6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -83,7 +83,7 @@ macro_rules! adv_fn {
             $($tt:tt)*
         }
     } => {
-        adv_fn! {
+        $crate::adv_fn! {
             $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
-- 
2.43.0

