From 89db8c370ff5f295d41797b404db647dfbfa8b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 01/20] fix: accumulate the weights of repeated dependents in
 the reverse sweep

---
 src/tape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..f2e06f2 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From 44db204e4d11fd41871a549a6752babd0cdc8faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 02/20] fix: extract abs-normal matrix columns with a column
 vector

---
 src/drivers/abs_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..806792e 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,8 +220,8 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
-                ind[i] = 1.0;
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
+                ind[(i, 0)] = 1.0;
                 self.mul_right(&ind)
             }
         }
-- 
2.43.0


From 76a95b1be87027e2035a58105abc4acc4d99509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 03/20] fix: default to a valid checkpoint count for chains of
 one function

---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From 2160cfdc3cacbda2154b90865e96227262c198de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 04/20] fix: abs_sub is the positive difference

---
 src/afloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..b92f008 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -370,7 +370,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        (self - other).max(Self::zero())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From 8826ce6a3ce39ad8e62835c7a7f59fe942fbd06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 05/20] fix: converting an AFloat to a float keeps its
 fractional part

---
 src/afloat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index b92f008..a355a66 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,10 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From 9bd6843104247fa0ecb012587729c0ab30b8de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 06/20] fix: epsilon of an AFloat is that of its underlying
 type

---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index a355a66..6c77a75 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -296,6 +296,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(min_value);
     float_constant!(min_positive_value);
     float_constant!(max_value);
+    float_constant!(epsilon);
 
     float_passthrough!(bool, is_nan);
     float_passthrough!(bool, is_infinite);
-- 
2.43.0


From e1c2cca4b7cea6540eeff29d98c63b64860bc312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 07/20] fix: accept attributes on adv_fn functions with
 destructured arguments

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index da363d1..ab307a6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -81,7 +81,7 @@ macro_rules! adv_fn {
         }
     } => {
         adv_fn! {
-            $(#[$attr:meta])*
+            $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
                 $(
-- 
2.43.0


From f02c5bd28f3051da5b3d161559d3a756dd25700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 08/20] fix: adv_fn with destructured arguments works when it
 is not imported

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index ab307a6..80e1a45 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -80,7 +80,7 @@ macro_rules! adv_fn {
             $($tt:tt)*
         }
     } => {
-        adv_fn! {
+        $crate::adv_fn! {
             $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
-- 
2.43.0


From 03637e155d521820e4b82c47f4d705a2c2f41190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 09/20] fix: take a tape as one consistent snapshot of its
 context

---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..9574f55 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,13 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        // Copy everything under one lock so that concurrent recording cannot tear the tape
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0


From 5b8a7dc715401c1a182d074b0f2ae48cda7528dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 10/20] fix: C++ operators with a double on the left apply
 their own operation

---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From 890ffb1e34f4a9943ab79e143cc36a6a3ef3ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 11/20] fix: C++ ADouble survives copy assignment to itself

---
 src/cxx/ADouble.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..218e1ff 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,10 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
-	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	if (this != &other) {
+		::adv_adouble_free(m_impl->val);
+		m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	}
 	return *this;
 }
 
-- 
2.43.0


From 1cd5fc9916806e557324915ee6aa35d97ff1f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 12/20] fix: the derivative of x^0 by x is zero at zero too

---
 src/operation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..2189e66 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,7 +68,8 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
+            // A power of zero is constant in its base (also at zero)
+            let rv1 = if dx != S::zero() && !(x.is_zero() && y.is_zero()) {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
@@ -318,7 +319,10 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                // A power of zero is constant in its base (also at zero)
+                if x != 0.0 || y != 0.0 {
+                    vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                }
                 vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
             }
             OpCode::Abs => {
-- 
2.43.0


From 296781331451d846285d49447eb513ec3b41465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 13/20] fix: powers of nested scalars keep the derivative of a
 zero tangent

---
 src/operation.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 2189e66..1ff6fc8 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,17 +68,23 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
+            // A zero tangent must not turn an infinite factor into NaN. It may only be skipped then:
+            // for nested scalars it can be zero in value but still have a derivative.
+            let scaled = |factor: S, tangent: S| {
+                if tangent.is_zero() && !factor.is_finite() {
+                    S::zero()
+                } else {
+                    factor * tangent
+                }
+            };
+
             // A power of zero is constant in its base (also at zero)
-            let rv1 = if dx != S::zero() && !(x.is_zero() && y.is_zero()) {
-                y * x.powf(y - S::one()) * dx
-            } else {
+            let rv1 = if x.is_zero() && y.is_zero() {
                 S::zero()
-            };
-            let rv2 = if dy != S::zero() {
-                x.ln() * x.powf(y) * dy
             } else {
-                S::zero()
+                scaled(y * x.powf(y - S::one()), dx)
             };
+            let rv2 = scaled(x.ln() * x.powf(y), dy);
             rv1 + rv2
         }
         _ => panic!("Invalid opcode in first_order_value"),
-- 
2.43.0


From cd9e7df2ae2b790ff945e23a123a150abc27d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 14/20] fix: tape sweeps refuse directions and weights of the
 wrong length

---
 src/tape.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tape.rs b/src/tape.rs
index f2e06f2..46701b8 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -73,6 +73,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
 
     /// Calculate adjoint of Jacobian
     fn first_order_forward(&self, dx: &DVector<f64>) -> DVector<f64> {
+        assert_eq!(dx.nrows(), self.num_indeps());
         let v = self.values();
         let mut dv = vec![0.0; v.len()];
         for (idx, vid) in self.indeps().iter().enumerate() {
@@ -90,6 +91,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
 
     /// Calculate reverse-adjoint of Jacobian
     fn first_order_reverse(&self, ybar: &DVector<f64>) -> DVector<f64> {
+        assert_eq!(ybar.nrows(), self.num_deps());
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-- 
2.43.0


From 07cb6925b1a7f87fb9c98c89c7c6334c5f4e4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 15/20] fix: reverse_sequence reserves no more checkpoints than
 the sequence can need

Permitting a very large number of checkpoints (as a way to say unlimited)
panicked with a capacity overflow or aborted in the allocator.
---
 src/drivers/checkpointing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drivers/checkpointing.rs b/src/drivers/checkpointing.rs
index 271afc1..34ea7f5 100644
--- a/src/drivers/checkpointing.rs
+++ b/src/drivers/checkpointing.rs
@@ -103,7 +103,9 @@ where
     assert!(ncheckpoints >= 2);
 
     // Store x at index 0 as the first checkpoint
-    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints);
+    // There is never more than one checkpoint per state, however many are permitted
+    let mut checkpoints: VecDeque<(usize, T)> =
+        VecDeque::with_capacity(ncheckpoints.min(nsteps + 1));
     checkpoints.push_back((0, x));
 
     // Length of the not-yet reversed sequence
-- 
2.43.0


From 02ca52d4d624412440f4a6af0698ee8e48982066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 16/20] fix: a refused mark leaves the recording it was asked
 of usable

---
 src/acontext.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 9574f55..f1d7846 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -101,7 +101,12 @@ impl AContext {
         let mut inner = self.inner.lock().unwrap();
         let vid = match x.context() {
             Some((cid, vid)) => {
-                assert_eq!(cid, inner.cid());
+                let own_cid = inner.cid();
+                if cid != own_cid {
+                    // Refuse without poisoning this context
+                    drop(inner);
+                    panic!("Variable of context {} marked in context {}", cid, own_cid);
+                }
                 vid
             }
             None => {
-- 
2.43.0


From 269c6169ca6706edcd871455c8fdab5d34734943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 17/20] fix: derivatives of quotients whose denominator's
 square leaves the range

x / 1e-170 had the derivative inf, x / 1e170 the derivative 0.
---
 src/operation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 1ff6fc8..b0ae302 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -52,7 +52,7 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Add => darg1 + darg2.unwrap(),
         OpCode::Sub => darg1 - darg2.unwrap(),
         OpCode::Mul => darg1 * arg2.unwrap() + arg1 * darg2.unwrap(),
-        OpCode::Div => (darg1 * arg2.unwrap() - arg1 * darg2.unwrap()) / arg2.unwrap().powi(2),
+        OpCode::Div => (darg1 - arg1 / arg2.unwrap() * darg2.unwrap()) / arg2.unwrap(),
         OpCode::Sin => darg1 * arg1.cos(),
         OpCode::Cos => -darg1 * arg1.sin(),
         OpCode::Tan => darg1 * (S::one() / arg1.cos().powi(2)),
@@ -315,8 +315,10 @@ impl Operation {
                 // vbar_j += vbar_i * ∂v_i/∂v_j = vbar_i * 1/v_k
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * -v_j/(v_k^2)
                 vbar[self.arg1.unwrap()] += vbar[self.vid] * 1.0 / v[self.arg2.unwrap()];
-                vbar[self.arg2.unwrap()] +=
-                    vbar[self.vid] * (-v[self.arg1.unwrap()] / v[self.arg2.unwrap()].powi(2));
+                // The square of v_k may leave the range where the derivative does not
+                vbar[self.arg2.unwrap()] -= vbar[self.vid]
+                    * (v[self.arg1.unwrap()] / v[self.arg2.unwrap()])
+                    / v[self.arg2.unwrap()];
             }
             OpCode::Powf => {
                 // v_i = v_j^v_k
-- 
2.43.0


From b7e2a720841440c2afb0e3aedc98d57a2a531bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 18/20] fix: derivative of the logarithm at subnormal numbers

The reciprocal of the argument overflows there, a zero first-order value
or adjoint became NaN.
---
 src/operation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index b0ae302..2d94edb 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -58,7 +58,7 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Tan => darg1 * (S::one() / arg1.cos().powi(2)),
         OpCode::Abs => (arg1 + darg1).abs() - arg1.abs(),
         OpCode::Exp => darg1 * arg1.exp(),
-        OpCode::Ln => darg1 * (S::one() / arg1),
+        OpCode::Ln => darg1 / arg1,
         OpCode::Asin => darg1 / (S::one() - arg1.powi(2)).sqrt(),
         OpCode::Acos => -darg1 / (S::one() - arg1.powi(2)).sqrt(),
         OpCode::Atan => darg1 / (S::one() + arg1.powi(2)),
@@ -339,8 +339,13 @@ impl Operation {
             _ => {
                 // Unary function
                 // vbar_j += vbar_i * ∂v_i/∂v_j
-                vbar[self.arg1.unwrap()] += vbar[self.vid]
-                    * first_order_value(self.opcode, v[self.arg1.unwrap()], None, 1.0, None);
+                vbar[self.arg1.unwrap()] += first_order_value(
+                    self.opcode,
+                    v[self.arg1.unwrap()],
+                    None,
+                    vbar[self.vid],
+                    None,
+                );
             }
         }
     }
-- 
2.43.0


From 60b5a020260c4d906a7625dd4e08f6d8e9859bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 19/20] fix: arc sine and arc cosine of the constants 1 and -1
 have no NaN derivative

acos(-1) is a common way to write pi.
---
 src/operation.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 2d94edb..9888875 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -41,6 +41,18 @@ pub(crate) fn zero_order_value<S: Float>(opcode: OpCode, arg1: S, arg2: Option<S
     }
 }
 
+/// Product of a derivative and a tangent
+///
+/// A zero tangent must not turn an infinite factor into NaN. It may only be skipped then:
+/// for nested scalars it can be zero in value but still have a derivative.
+fn scaled<S: Float>(factor: S, tangent: S) -> S {
+    if tangent.is_zero() && !factor.is_finite() {
+        S::zero()
+    } else {
+        factor * tangent
+    }
+}
+
 pub(crate) fn first_order_value<S: Float>(
     opcode: OpCode,
     arg1: S,
@@ -59,8 +71,8 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Abs => (arg1 + darg1).abs() - arg1.abs(),
         OpCode::Exp => darg1 * arg1.exp(),
         OpCode::Ln => darg1 / arg1,
-        OpCode::Asin => darg1 / (S::one() - arg1.powi(2)).sqrt(),
-        OpCode::Acos => -darg1 / (S::one() - arg1.powi(2)).sqrt(),
+        OpCode::Asin => scaled(S::one() / (S::one() - arg1.powi(2)).sqrt(), darg1),
+        OpCode::Acos => scaled(-S::one() / (S::one() - arg1.powi(2)).sqrt(), darg1),
         OpCode::Atan => darg1 / (S::one() + arg1.powi(2)),
         OpCode::Powf => {
             let x = arg1;
@@ -68,16 +80,6 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            // A zero tangent must not turn an infinite factor into NaN. It may only be skipped then:
-            // for nested scalars it can be zero in value but still have a derivative.
-            let scaled = |factor: S, tangent: S| {
-                if tangent.is_zero() && !factor.is_finite() {
-                    S::zero()
-                } else {
-                    factor * tangent
-                }
-            };
-
             // A power of zero is constant in its base (also at zero)
             let rv1 = if x.is_zero() && y.is_zero() {
                 S::zero()
-- 
2.43.0


From 71a110404c57f0649522ff5029a5cf9a243a6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 20/20] fix: values of adjoint zero contribute nothing where
 they have no derivative

A result such as sqrt(x) at 0 made the reverse mode gradient of every
other result NaN.
---
 src/operation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operation.rs b/src/operation.rs
index 9888875..cf6a05a 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -284,6 +284,10 @@ impl Operation {
         // ∂s/∂v_i = sum_j ∂s/∂v_j * ∂v_j/∂v_i  + ...
         // vbar_i := ∂s/∂v_i
         // => vbar_i = sum_j vbar_j * ∂v_j/∂v_i
+        if self.opcode != OpCode::Abs && vbar[self.vid] == 0.0 {
+            // Contributes nothing, also where the operation has no finite derivative
+            return;
+        }
         match self.opcode {
             OpCode::Nop => {}
             OpCode::Const => {}
-- 
2.43.0

