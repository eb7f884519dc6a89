From b10b8756b27567e7e37b05214341a343f14b3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 1/6] fix: allow calling the allocating to_ortho of a space

The bound [usize; N]: Dimension can never be satisfied (the dimension type is
Dim<[usize; N]>), so BaseSpaceFromOrtho::to_ortho could not be called at all.
---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0


From 9d0ca2f7f787f601b9d32a01eb4d28f02a73a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 2/6] fix: last rows of the product with a biharmonic stencil

For the four last orthogonal coefficients dot_inplace used low2[n-6] instead of
low2[n-5] and read v[n-4], v[n-3], low2[n-4] and low2[n-3], which are past the
end: the stencil has no second subdiagonal there.
---
 src/chebyshev/stencils/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..e9e6846 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,12 +398,12 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) =
+                *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) =
+                *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0


From 5ff55c28a40bb825d4e8b86295badd8ab35fb634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 3/6] fix: gradient of a 3-D space along the last axis

The base of the second axis was used for the third one.
---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From 5148730703715fa29464f5f83a185dfdbcb815c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 4/6] fix: gradient of FourierC2c for negative wavenumbers

Coefficient n-1-k belongs to the wavenumber -(k+1), as in wavenumber() and
diffmat(), not to k.
---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From c2049cc568823baf35f870deaca9add15cf674ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 5/6] fix: gradient of a Chebyshev base with two points reads
 past the end

---
 src/chebyshev/ortho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..b74b900 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -416,8 +416,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From e919c46c57c97db23a7f4fe294178936b0ff6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 6/6] fix: check the receive array of a gather before
 communicating

gather_{x,y}_inplace_root panicked about a wrong receive array only after it had
taken the data of all other ranks.
---
 src/space_mpi/decomp2d/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space_mpi/decomp2d/mod.rs b/src/space_mpi/decomp2d/mod.rs
index 5bc01a2..16b17d6 100644
--- a/src/space_mpi/decomp2d/mod.rs
+++ b/src/space_mpi/decomp2d/mod.rs
@@ -340,6 +340,7 @@ impl<'a> Decomp2d<'a> {
 
         // send buffer
         check_shape(snd, self.x_pencil.sz);
+        check_shape(rcv, self.n_global);
         let mut send = vec![T::zero(); self.x_pencil.length()];
         let mut snd_view = snd.view();
         snd_view.swap_axes(0, 1);
@@ -358,7 +359,6 @@ impl<'a> Decomp2d<'a> {
             }
             // copy receive buffer into receiving array
             // *todo*: prevent copy by referencing?
-            check_shape(rcv, self.n_global);
             rcv.swap_axes(0, 1);
             for (s, m) in rcv.iter_mut().zip(recv.iter()) {
                 *s = *m;
@@ -440,6 +440,7 @@ impl<'a> Decomp2d<'a> {
         let root_process = self.world.process_at_rank(root_rank);
         // send buffer
         check_shape(snd, self.y_pencil.sz);
+        check_shape(rcv, self.n_global);
         let mut send = vec![T::zero(); self.y_pencil.length()];
         for (s, m) in send.iter_mut().zip(snd.iter()) {
             *s = *m;
@@ -456,7 +457,6 @@ impl<'a> Decomp2d<'a> {
             }
             // copy receive buffer into receiving array
             // *todo*: prevent copy by referencing?
-            check_shape(rcv, self.n_global);
             for (s, m) in rcv.iter_mut().zip(recv.iter()) {
                 *s = *m;
             }
-- 
2.43.0

