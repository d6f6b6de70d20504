From 190412603cf91fa7b661500797398ce1748693ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 1/7] fix: OneZero and TwoZero clear() also resets the last
 output

---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From 9742cec8dad3a69a3b1e9a7660aa89afc2175ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 2/7] fix: process_block() of an empty block returns the last
 output instead of panicking

---
 src/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..8312de7 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -40,7 +40,10 @@ pub trait Processor<T: Float> {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    match samples.last() {
+      Some(sample) => *sample,
+      None => self.last_out()
+    }
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From bdc1b79dddda0f47de245e2adb45456ee0f53b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 3/7] fix: LinearDelay no longer outputs a stale sample cached
 by next_out()

The cached value survived clear(), set_delay(), tap_in() and the write of the
next input, so calling next_out() changed what process() returned.
---
 src/delay/linear_delay.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..5db8948 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -15,8 +15,6 @@ pub struct LinearDelay<T> {
   /// Delay time as a number of samples, which must be less than or equal to
   /// the size of the delay internal memory.
   delay: f32,
-  do_next_out: bool,
-  next_out: T,
   // Interpolation multiplers
   alpha: T,
   om_alpha: T
@@ -60,8 +58,6 @@ impl<T> LinearDelay<T> where T: Float {
         read_ptr: 0,
         write_ptr: 0,
         delay: 0f32,
-        do_next_out: true,
-        next_out: num::zero(),
         alpha: num::zero(),
         om_alpha: num::zero()
       };
@@ -119,22 +115,15 @@ impl<T> LinearDelay<T> where T: Float {
 
   /// Returns the value that will be output by the next call to `tick()`.
   pub fn next_out(&mut self) -> T {
-    if self.do_next_out {
-      // First half of interpolation
-      self.next_out = self.memory[self.read_ptr] * self.om_alpha;
-      // Second half
-      if self.read_ptr < self.memory.len() - 1 {
-        self.next_out = self.next_out
-                      + (self.memory[self.read_ptr + 1] * self.alpha);
-      }
-      else {
-        self.next_out = self.next_out + (self.memory[0] * self.alpha);
-      }
-
-      self.do_next_out = false
+    // First half of interpolation
+    let next_out = self.memory[self.read_ptr] * self.om_alpha;
+    // Second half
+    if self.read_ptr < self.memory.len() - 1 {
+      next_out + (self.memory[self.read_ptr + 1] * self.alpha)
+    }
+    else {
+      next_out + (self.memory[0] * self.alpha)
     }
-
-    return self.next_out;
   }
 }
 
@@ -147,7 +136,6 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
 
     // interpolate
     self.output = self.next_out();
-    self.do_next_out = true;
 
     // increment read_ptr
     self.read_ptr += 1;
-- 
2.43.0


From d696699374a8d4a931aad521be5125727b4e98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 4/7] fix: LinearDelay::set_delay() computes the read position
 without float rounding

`write_ptr as f32 - delay` lost the fraction for large write positions, gave an
interpolation weight of `len` when it rounded up to the line's end
(LinearDelay::new(1e-9, 10) output -10 for an input of 1) and an out-of-bounds
read for lines longer than 2^24 samples.
---
 src/delay/linear_delay.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 5db8948..d30139a 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -90,21 +90,24 @@ impl<T> LinearDelay<T> where T: Float {
       delay_time = 0f32;
     }
 
-    let mut read_ptr_integer: f32 = self.write_ptr as f32 - delay_time;
     self.delay = delay_time;
 
-    while read_ptr_integer < 0f32 {
-      read_ptr_integer += self.memory.len() as f32;
+    // whole number of samples to step back from the write position
+    let mut whole_delay = delay_time.ceil() as usize;
+    if whole_delay > self.memory.len() - 1 {
+      whole_delay = self.memory.len() - 1;
     }
 
     // save integer part
-    self.read_ptr = read_ptr_integer as usize;
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
+    if self.write_ptr >= whole_delay {
+      self.read_ptr = self.write_ptr - whole_delay;
+    }
+    else {
+      self.read_ptr = self.memory.len() + self.write_ptr - whole_delay;
     }
 
     // save fractional part
-    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
+    self.alpha = num::cast(whole_delay as f32 - delay_time).unwrap();
     self.om_alpha = T::one() - self.alpha;
   }
 
-- 
2.43.0


From 0573191138a197a42804adf7d3bb46acd8271688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 5/7] fix: set_max_delay() keeps the stored samples and the
 current delay

Growing a line whose write position had wrapped moved the read position to
another age and inserted zeros between stored samples.
---
 src/delay/linear_delay.rs | 8 ++++++++
 src/delay/mod.rs          | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index d30139a..e4bd548 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -69,7 +69,15 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
+
+    // Straighten the line, oldest sample first, so that it grows at the old end
+    let len = self.memory.len();
+    self.memory.rotate_left(self.write_ptr);
     self.memory.resize(delay + 1, num::zero());
+    self.write_ptr = len;
+
+    let delay_time = self.delay;
+    self.set_delay(delay_time);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..e2dc702 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,14 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
+      // Straighten the line, oldest sample first, so that it grows at the old end
+      let len = self.memory.len();
+      self.memory.rotate_left(self.write_ptr);
       self.memory.resize(delay + 1, num::zero());
+      self.write_ptr = len;
+
+      let delay_time = self.delay;
+      self.set_delay(delay_time);
     }
   }
 
-- 
2.43.0


From e6d18a9364f120764d4b93d932167b4d3cca1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 6/7] fix: window iterators report the remaining length

ExactSizeIterator::len() has to be the number of items left, and size_hint() has
to agree with it.
---
 src/window/bartlett.rs        | 6 +++++-
 src/window/blackman.rs        | 6 +++++-
 src/window/blackman_harris.rs | 6 +++++-
 src/window/hamming.rs         | 6 +++++-
 src/window/hann.rs            | 6 +++++-
 src/window/triangular.rs      | 6 +++++-
 6 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..4adee83 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,15 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..eb25eb7 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,15 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..d5ac52e 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,15 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..d4d7948 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,15 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..ab3bc7a 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,15 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..35cb5a2 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,15 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From 555329af3768cef760dfedc2bb4996ffbb736657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 7/7] fix: a window of one sample is 1 instead of NaN

---
 src/window/bartlett.rs        | 2 ++
 src/window/blackman.rs        | 2 ++
 src/window/blackman_harris.rs | 2 ++
 src/window/hamming.rs         | 2 ++
 src/window/hann.rs            | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index 4adee83..33227d2 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,8 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index eb25eb7..385c858 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,8 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index d5ac52e..e255652 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,8 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index d4d7948..c8ec180 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,8 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index ab3bc7a..52e518b 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,8 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0

