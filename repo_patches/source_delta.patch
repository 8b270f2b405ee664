From 99f5a73af3ef9d2d019b799e6c8078199ca75df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:24 +0000
Subject: [PATCH 01/21] fix: factorialk overflowed past its last factor
 although the result is representable

---
 sci-rs/src/special/factorial.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..2c5f466 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -280,11 +280,14 @@ where
 
     let mut result = Int::one();
 
-    while start <= stop {
+    loop {
         result = result * start;
+        // `start + step` may not be representable past the last factor
+        if stop - start < step {
+            return result;
+        }
         start = start + step;
     }
-    result
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1f4244666bf1261846db89887f6df7215767f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:24 +0000
Subject: [PATCH 02/21] fix: comb overflowed in intermediate products although
 the result is representable

---
 sci-rs/src/special/combinatorics.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 68cac5c..1962cf5 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -128,13 +128,24 @@ where
     if k > n || n < Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    let m = n + Int::one();
-    let n_terms = (min(k, n - k) + Int::one()).to_usize().unwrap();
-    (1..n_terms).fold(Int::one(), |result, i| {
-        result * (m - Int::from_usize(i).unwrap()) / Int::from_usize(i).unwrap()
+    let n_terms = min(k, n - k).to_usize().unwrap();
+    (0..n_terms).fold(Int::one(), |result, i| {
+        let num = n - Int::from_usize(i).unwrap();
+        let den = Int::from_usize(i + 1).unwrap();
+        // Divide before multiplying: no intermediate exceeds the partial binomials
+        let g = gcd(result, den);
+        (result / g) * (num / (den / g))
     })
 }
 
+fn gcd<Int: PrimInt>(a: Int, b: Int) -> Int {
+    if b.is_zero() {
+        a
+    } else {
+        gcd(b, a % b)
+    }
+}
+
 fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
 where
     Int: PrimInt + FromPrimitive,
-- 
2.43.0


From 90322aa8ede23445960151f34a8cb0eaad0eb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:24 +0000
Subject: [PATCH 03/21] fix: perm overflowed at the largest n of the type
 although the result is representable

---
 sci-rs/src/special/combinatorics.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 1962cf5..8bee54c 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -164,11 +164,13 @@ where
         return Int::zero();
     }
 
-    let start = (n - k + Int::one()).to_usize().unwrap();
-    let end = (n + Int::one()).to_usize().unwrap();
-    (start..end).fold(Int::one(), |result, val| {
-        result * Int::from_usize(val).unwrap()
-    })
+    let mut result = Int::one();
+    let mut val = n;
+    while val > n - k {
+        result = result * val;
+        val = val - Int::one();
+    }
+    result
 }
 
 fn primint_stirling2<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From defa22a03d36fa052041bf2900f2dede18286494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:04 +0000
Subject: [PATCH 04/21] fix: autocorr_fast32 dropped the products past the last
 full tile

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 7857eb3ed32d84ac75748ebef7f9178ed98b9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 05/21] fix: Valid convolution was empty when in2 is longer
 than in1

---
 sci-rs/src/signal/convolve.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..4cfe4ec 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -74,11 +74,8 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
     match mode {
         ConvolveMode::Full => full_convolution,
         ConvolveMode::Valid => {
-            if n1 >= n2 {
-                full_convolution[(n2 - 1)..(n1)].to_vec()
-            } else {
-                Vec::new()
-            }
+            // The samples that do not rely on zero-padding, whichever input is the longer one
+            full_convolution[(n1.min(n2) - 1)..n1.max(n2)].to_vec()
         }
         ConvolveMode::Same => {
             let start = (n2 - 1) / 2;
-- 
2.43.0


From 75b3f0a6e4ab30a812a4f63a06aaeeea6f281a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:05 +0000
Subject: [PATCH 06/21] fix: companion_dyn wrote out of bounds when the data is
 longer than m

---
 sci-rs/src/linalg/companion.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..03371dc 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -29,9 +29,7 @@ where
         <DefaultAllocator as allocator::Allocator<Dyn, Dyn>>::Buffer<T>,
     >::zeros(m - 1, m - 1);
     for (i, t) in itr {
-        unsafe {
-            *m.get_unchecked_mut(i) = t;
-        }
+        m[i] = t;
     }
     m
 }
-- 
2.43.0


From f2b2be8e0fbaec13dad3138b9ec969759811e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:08 +0000
Subject: [PATCH 07/21] fix: Chebyshev II design asked for rp instead of rs, so
 cheby2_dyn always panicked

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From 9e7dedf6019c06e6660b7cf5ecf1e5299e3b5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:08 +0000
Subject: [PATCH 08/21] fix: cheby1_dyn and cheby2_dyn default to the
 documented lowpass

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..5bbbfba 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        btype.or(Some(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        btype.or(Some(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0


From 0dad7266d409407f7c1b8ec90d91e9d52a47de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:51 +0000
Subject: [PATCH 09/21] fix: zpk2sos kept a rounding-size imaginary part on
 roots it had classified as real

---
 sci-rs/src/signal/filter/design/cplx.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..be3f76d 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -70,9 +70,14 @@ where
     });
 
     // Split reals from conjugate pairs
-    let (zr, zc): (Vec<_>, Vec<_>) = z
+    let (zr, zc): (Vec<Complex<F>>, Vec<Complex<F>>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    // Within tolerance of the real axis is real
+    let zr: Vec<_> = zr
+        .into_iter()
+        .map(|zi| Complex::new(zi.re, F::zero()))
+        .collect();
 
     if zr.len() == z.len() {
         // Input is entirely real
-- 
2.43.0


From 3c6bfed870c5e034532d35b6147c704da8bd6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:02 +0000
Subject: [PATCH 10/21] fix: minimal pairing panicked on an odd number of real
 poles and on a lone real zero

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..6014fca 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,7 +169,7 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let sos_si = if !matches!(pairing, ZpkPairing::Minimal) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(
@@ -177,7 +177,7 @@ where
                     vec![p1, Complex::zero()],
                     F::one(),
                 )
-            } else if !z.is_empty() {
+            } else if z.iter().any(|zi| zi.im.is_zero()) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(vec![z1], vec![p1], F::one())
@@ -221,7 +221,7 @@ where
                 if !z1.im.is_zero() {
                     let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one());
                     sos.push(sos_si);
-                } else if !z.is_empty() {
+                } else if z.iter().any(|zi| zi.im.is_zero()) {
                     let z2_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                     let z2 = z.remove(z2_idx);
                     assert!(z2.im.is_zero());
-- 
2.43.0


From 815bb50ae40832c72ffe5b578eb9cec165cbdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:56 +0000
Subject: [PATCH 11/21] fix: analog second-order sections placed the numerator
 at the wrong powers of s

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 26 ++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6014fca..c3d24e0 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -176,13 +176,14 @@ where
                     vec![z1, Complex::zero()],
                     vec![p1, Complex::zero()],
                     F::one(),
+                    analog,
                 )
             } else if z.iter().any(|zi| zi.im.is_zero()) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
-                single_zpksos_dyn(vec![z1], vec![p1], F::one())
+                single_zpksos_dyn(vec![z1], vec![p1], F::one(), analog)
             } else {
-                single_zpksos_dyn(Vec::new(), vec![p1], F::one())
+                single_zpksos_dyn(Vec::new(), vec![p1], F::one(), analog)
             };
             sos.push(sos_si);
         } else if p.len() + 1 == z.len()
@@ -195,7 +196,8 @@ where
             // We *must* pair with a complex zero
             let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Complex);
             let z1 = z.remove(z1_idx);
-            let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p1.conj()], F::one());
+            let sos_si =
+                single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p1.conj()], F::one(), analog);
             sos.push(sos_si);
         } else {
             let p2 = if p1.im.is_zero() {
@@ -219,20 +221,21 @@ where
                 let z1 = z.remove(z1_idx);
 
                 if !z1.im.is_zero() {
-                    let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one());
+                    let sos_si =
+                        single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one(), analog);
                     sos.push(sos_si);
                 } else if z.iter().any(|zi| zi.im.is_zero()) {
                     let z2_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                     let z2 = z.remove(z2_idx);
                     assert!(z2.im.is_zero());
-                    let sos_si = single_zpksos_dyn(vec![z1, z2], vec![p1, p2], F::one());
+                    let sos_si = single_zpksos_dyn(vec![z1, z2], vec![p1, p2], F::one(), analog);
                     sos.push(sos_si);
                 } else {
-                    let sos_si = single_zpksos_dyn(vec![z1], vec![p1, p2], F::one());
+                    let sos_si = single_zpksos_dyn(vec![z1], vec![p1, p2], F::one(), analog);
                     sos.push(sos_si);
                 }
             } else {
-                let sos_si = single_zpksos_dyn(vec![], vec![p1, p2], F::one());
+                let sos_si = single_zpksos_dyn(vec![], vec![p1, p2], F::one(), analog);
                 sos.push(sos_si);
             }
         }
@@ -283,11 +286,16 @@ where
 
 /// """Create one second-order section from up to two zeros and poles"""
 #[cfg(feature = "alloc")]
-fn single_zpksos_dyn<F>(z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F) -> Sos<F>
+fn single_zpksos_dyn<F>(z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F, analog: bool) -> Sos<F>
 where
     F: Float + RealField,
 {
-    let ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
+    let mut ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
+    if analog {
+        // Powers of s end at the constant term, powers of 1/z start at it
+        ba.b.rotate_right(2 - z.len());
+        ba.a.rotate_right(2 - p.len());
+    }
     if ba.b.len() != 3 || ba.a.len() != 3 {
         panic!(
             "SOS must have 3 coefficients has {} and {}",
-- 
2.43.0


From 00d2709edcc5f40c76674583e8574f229c80c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:04 +0000
Subject: [PATCH 12/21] fix: analog Ba output lost the degree difference
 between numerator and denominator

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 5bbbfba..7b4178a 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -203,7 +203,14 @@ where
     let output = output.unwrap_or(FilterOutputType::Ba);
     match output {
         FilterOutputType::Zpk => DigitalFilter::Zpk(zpk),
-        FilterOutputType::Ba => DigitalFilter::Ba(zpk2tf_dyn(2 * order, &zpk.z, &zpk.p, zpk.k)),
+        FilterOutputType::Ba => {
+            let mut ba = zpk2tf_dyn(2 * order, &zpk.z, &zpk.p, zpk.k);
+            if analog {
+                // Keep the numerator's degree in s relative to the denominator's
+                ba.b.rotate_right(zpk.p.len() - zpk.z.len());
+            }
+            DigitalFilter::Ba(ba)
+        }
         FilterOutputType::Sos => DigitalFilter::Sos(zpk2sos_dyn(order, zpk, None, Some(analog))),
     }
 }
-- 
2.43.0


From 3fa25838b9c7786354f828b8ef71acb694742147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:45 +0000
Subject: [PATCH 13/21] fix: python_plot wrote a script that fails on NaN and
 infinite samples

---
 sci-rs/src/plot.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sci-rs/src/plot.rs b/sci-rs/src/plot.rs
index 02ff7e7..0b60a1c 100644
--- a/sci-rs/src/plot.rs
+++ b/sci-rs/src/plot.rs
@@ -13,6 +13,7 @@ pub fn python_plot(xs: Vec<&[f32]>) {
 import matplotlib.pyplot as plt
 import matplotlib.gridspec as gridspec
 from scipy.signal import correlate
+from math import inf, nan as NaN # as the samples are written
 
 xs = {:?}
 fig = plt.figure(figsize=(12, 12))
-- 
2.43.0


From 6f26e263adc76160760ea9f0689078d3c978f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:22 +0000
Subject: [PATCH 14/21] fix: conjugate matching mispaired roots that share a
 real part up to rounding

---
 sci-rs/src/signal/filter/design/cplx.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index be3f76d..03cf6e7 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -131,26 +131,9 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
-                Ordering::Less => Ordering::Less,
-                Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
-            }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        for chunk in [&mut zp[start..stop], &mut zn[start..stop]] {
+            chunk.sort_unstable_by(|a, b| Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap());
+        }
     }
 
     // Check that negatives match positives
-- 
2.43.0


From 32d55f975f72dbb6dc4478c6fa229edca4c1970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 15/21] fix: refuse companion matrices of declared length below
 two without relying on overflow checks

companion_dyn with m = 0 in a build without overflow checks asked for a
usize::MAX x usize::MAX matrix whose element count wraps to one, and then wrote
ones below its diagonal far outside the allocation.
---
 sci-rs/src/linalg/companion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 03371dc..605d7d2 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -16,6 +16,7 @@ where
     I: Iterator<Item = B>,
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
+    assert!(m >= 2, "Invalid data length");
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
-- 
2.43.0


From aad8ddf962efb06d7b1c3263a776946903766851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:28 +0000
Subject: [PATCH 16/21] fix: keep bandpass images of imaginary zeros conjugate
 without std

Without std, Complex::powi and Complex::sqrt go through polar form, so
lp2bp_zpk_dyn moved purely imaginary zeros off the imaginary axis by rounding,
in opposite directions for the two members of a pair. For wide bands this
exceeded the conjugate tolerance and Chebyshev II bandpass designs panicked
when second-order sections were asked for.
---
 sci-rs/src/signal/filter/design/lp2bp_zpk.rs | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
index 35b9b66..72850f7 100644
--- a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
@@ -88,7 +88,7 @@ where
 
     let z_bp_t = z_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_dyn(*zi * *zi - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let mut z_bp = z_bp_t
         .iter()
@@ -98,7 +98,7 @@ where
 
     let p_bp_t = p_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_dyn(*zi * *zi - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let p_bp = p_bp_t
         .iter()
@@ -115,6 +115,24 @@ where
     ZpkFormatFilter::new(z_bp, p_bp, k_bp)
 }
 
+/// Principal square root. Real radicands give exactly real or imaginary roots in every
+/// configuration, so that the images of imaginary zeros remain conjugates of each other.
+#[cfg(feature = "alloc")]
+fn sqrt_dyn<F>(x: Complex<F>) -> Complex<F>
+where
+    F: RealField + Float,
+{
+    if !x.im.is_zero() {
+        x.sqrt()
+    } else if !Float::is_sign_negative(x.re) {
+        Complex::new(Float::sqrt(x.re), x.im)
+    } else if Float::is_sign_negative(x.im) {
+        Complex::new(F::zero(), -Float::sqrt(-x.re))
+    } else {
+        Complex::new(F::zero(), Float::sqrt(-x.re))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 52a94cf28a91e5dcdd42ccc49eda1fe2c182b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 17/21] fix: median of n values takes linear space

Quick select around the middle element removed one value per level for peaked
signals and kept every level's copies alive: quadratic time and memory (2.4 GB
for 40000 samples), deep recursion, and out of memory or a stack overflow for
longer ones.
---
 sci-rs/src/stats.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 95cc980..b0016d0 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -5,42 +5,21 @@ use num_traits::{Float, Num, NumCast, Signed};
 #[cfg(feature = "alloc")]
 use alloc::vec::Vec;
 
-// Quick select finds the `i`th smallest element with 2N comparisons
+// Quick select finds the `k`th smallest element
 #[cfg(feature = "alloc")]
 fn quickselect<B, T>(y: &[B], k: usize) -> T
 where
     B: Borrow<T>,
     T: Num + NumCast + PartialOrd + Copy,
 {
-    use num_traits::{Num, NumCast};
-
-    let n = y.len();
-    if n == 1 {
-        return *y[0].borrow();
-    }
-
-    let pivot = y.get(n / 2).unwrap().borrow();
-    let lower = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() < *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let lowers = lower.len();
-    let upper = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() > *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let uppers = upper.len();
-    let pivots = n - lowers - uppers;
-
-    if k < lowers {
-        quickselect(&lower, k)
-    } else if k < lowers + pivots {
-        *pivot
-    } else {
-        quickselect(&upper, k - lowers - pivots)
-    }
+    // Linear time and space in the worst case; values that cannot be compared sort last
+    let mut y = y.iter().map(|yi| *yi.borrow()).collect::<Vec<T>>();
+    let (_, kth, _) = y.select_nth_unstable_by(k, |a, b| {
+        let unordered = |v: &T| v.partial_cmp(v).is_none();
+        a.partial_cmp(b)
+            .unwrap_or_else(|| unordered(a).cmp(&unordered(b)))
+    });
+    *kth
 }
 
 ///
-- 
2.43.0


From cd0ed23430438f6e649de468d9fc5113923d15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 18/21] fix: Savitzky-Golay smoothing does not reserve an
 iterator's upper size bound

---
 sci-rs/src/signal/filter/savgol_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index b237131..c2ab464 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -48,7 +48,8 @@ where
 
     // Pad with nearest edge value
     let size_hint = y.size_hint();
-    let mut data = Vec::with_capacity(size_hint.1.unwrap_or(size_hint.0));
+    // The upper bound may be far above what is yielded
+    let mut data = Vec::with_capacity(size_hint.0);
     let mut y = y;
     let Some(nearest) = y.next() else {
         return vec![];
-- 
2.43.0


From 7e2c8247d589a2ec5cd1f577ae397d48f597f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 19/21] fix: refuse section counts whose coefficient count
 overflows in from_scipy_dyn

---
 sci-rs/src/signal/filter/design/sos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/sos.rs b/sci-rs/src/signal/filter/design/sos.rs
index 31dd008..f500862 100644
--- a/sci-rs/src/signal/filter/design/sos.rs
+++ b/sci-rs/src/signal/filter/design/sos.rs
@@ -60,7 +60,7 @@ impl<F: RealField + Copy> Sos<F> {
     /// from a vector floats from scipy
     #[cfg(feature = "alloc")]
     pub fn from_scipy_dyn(order: usize, sos: Vec<F>) -> Vec<Sos<F>> {
-        assert!(order * 6 == sos.len());
+        assert!(sos.len() % 6 == 0 && sos.len() / 6 == order);
 
         sos.iter()
             .tuples::<(&F, &F, &F, &F, &F, &F)>()
-- 
2.43.0


From 95ca8b9906b757dccddf699c816c2c2ebc80d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 20/21] fix: refuse signals shorter than a default padding that
 overflows

---
 sci-rs/src/signal/filter/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/ext.rs b/sci-rs/src/signal/filter/ext.rs
index 2665462..0bf0038 100644
--- a/sci-rs/src/signal/filter/ext.rs
+++ b/sci-rs/src/signal/filter/ext.rs
@@ -42,7 +42,7 @@ where
 
     let edge = match padlen {
         Some(padlen) => padlen,
-        None => ntaps * 3,
+        None => ntaps.saturating_mul(3),
     };
 
     assert!(axis < 2);
-- 
2.43.0


From 43cad1180a93d86150ccaeafabba7b0718bc6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 21/21] fix: refuse lags whose sum overflows in autocorr_fast32

---
 sci-rs/src/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index b0016d0..6ce8eee 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -223,7 +223,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
     y: &mut [f32; N],
     x: &mut [f32; M],
 ) -> f32 {
-    assert!(N >= M + SKIP);
+    assert!(N >= M && N - M >= SKIP);
 
     // Subtract the mean
     let sum = y.iter().sum::<f32>();
-- 
2.43.0

