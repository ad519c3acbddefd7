From 43e78ccb1c4803f2629d39fccfa4af6431303eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 01/22] fix: sub-slice bounds check overflowed and refused
 windows reaching the end

offset + sub_length wrapped in release builds, so get_sub_slice(1, usize::MAX)
returned a view over all of memory; and a window ending exactly at the end of
the buffer was reported as LengthOutOfBound.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..82fd3a7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length > self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From f9c4e8f888c7d5cf8ccf73757fdce4d719a95b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/22] fix: four-sample wrapped read left the buffer for
 indices near isize::MAX

index + 3 overflowed (panic in debug, wrapped in release), so the unwrapped
branch was taken and read far outside the buffer.
---
 src/memory/memory_slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 82fd3a7..cdfdb1d 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -166,7 +166,8 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
-        if index + 3 >= self.length as isize || index < 0 {
+        if index < 0 || index >= self.length as isize - 3 {
+            let index = index.rem_euclid(self.length as isize);
             unsafe {
                 [
                     self.get_wrapped_unchecked(index + 0),
-- 
2.43.0


From 7135564784ed0dbf208d40617061802358051d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/22] fix: checked lerp refused the last element of buffers
 longer than 32

The extra epsilon comparison rounds away for index >= 32, so reading exactly at
the last element returned IndexOutOfBound. Also return IndexOutOfBound for an
empty buffer (length - 1 underflowed) and for a NaN index.
---
 src/memory/memory_slice.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index cdfdb1d..3e60392 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -201,14 +201,12 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if index < 0.0 {
+        if index < 0.0 || index.is_nan() || self.length == 0 {
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
-            return Ok(unsafe { self.get_unchecked(index as usize) });
+        if index == (self.length - 1) as f32 {
+            return self.get(self.length - 1);
         }
 
         let a = self.get(index as usize)?;
-- 
2.43.0


From b2b6ce0b51dcffbdecb360ece3eed495df4016d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 04/22] fix: wrapped lagrange read was shifted and used a
 missing sample

The window starts window/2 - 1 samples before the position, but the position was
evaluated relative to the window start, so an integer position returned an
earlier sample; odd windows interpolated against a zero that is not in the
buffer, and windows below 2 read nothing at all.
---
 src/memory/memory_slice.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 3e60392..a2964f6 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -228,16 +228,14 @@ where
     /// Lagrange Interpolation Data Access
     ///////////////////////////////////////////////////////////////////////////////
 
-    pub fn lagrange_wrapped(&self, index: f32, mut window_size: usize) -> f32 {
+    pub fn lagrange_wrapped(&self, index: f32, window_size: usize) -> f32 {
         let int_index = index.floor() as isize;
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
-        if window_size > 100 {
-            window_size = 100;
-        }
+        let window_size = window_size.clamp(2, 100);
 
         let lower_bound = ((window_size / 2) as isize).neg() + 1;
-        let upper_bound = (window_size / 2) as isize;
+        let upper_bound = lower_bound + window_size as isize - 1;
 
         for i in lower_bound..=upper_bound {
             unsafe {
@@ -246,7 +244,10 @@ where
             }
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        lagrange(
+            &slice[..window_size],
+            index - int_index as f32 + lower_bound.neg() as f32,
+        )
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-- 
2.43.0


From 8c2c575cd261927e1b3f80e73e1d38af18b67fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 05/22] fix: four-point lagrange read evaluated at the absolute
 position

The four samples start at floor(index) but the polynomial was evaluated at index
instead of its fraction, extrapolating for every position >= 1 or < 0.
---
 src/memory/memory_slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index a2964f6..c4605ed 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -251,10 +251,12 @@ where
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let int_index = index.floor() as isize;
+
         unsafe {
             lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                &self.get_slice_of_four_wrapped(int_index)[..],
+                index - int_index as f32,
             )
         }
     }
-- 
2.43.0


From d818ba7900a58fc3d8aba739c2098dea32d07c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 06/22] fix: delay line kept its position when given a shorter
 buffer

Reads and writes then went past the end of the new buffer, forever.
---
 src/delay_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..f6e6da9 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,10 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 00c4ba3fe841fb73b92300f39c076a1f0bb21cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 07/22] fix: delay line dereferenced null when its buffer is
 empty

A delay line over null_mut() is the documented way to assign a buffer later, yet
read() and write_and_advance() accessed the null pointer from safe code.
---
 src/delay_line.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index f6e6da9..41f0ced 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -30,7 +30,7 @@ impl DelayLine {
     }
 
     pub fn read(&self) -> f32 {
-        unsafe { self.buffer.get_unchecked(self.index) }
+        self.buffer.get(self.index).unwrap_or(0.0)
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
@@ -46,22 +46,16 @@ impl DelayLine {
     }
 
     pub fn write_and_advance(&mut self, value: f32) {
-        unsafe {
-            self.buffer.assign_unchecked(self.index, value);
-        }
+        let _ = self.buffer.assign(self.index, value);
 
-        if self.index == self.buffer.len() - 1 {
-            self.index = 0;
-        } else {
-            self.index += 1;
-        }
+        self.advance();
     }
 
     pub fn advance(&mut self) {
-        if self.index == self.buffer.len() - 1 {
+        self.index += 1;
+
+        if self.index >= self.buffer.len() {
             self.index = 0;
-        } else {
-            self.index += 1;
         }
     }
 
-- 
2.43.0


From 92febf8579f1a7956c9515fda5bd4ecc3b36de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 08/22] fix: delay line offset read overflowed for offsets near
 isize::MAX

---
 src/delay_line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index 41f0ced..ef039e5 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -34,7 +34,8 @@ impl DelayLine {
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
-        self.buffer.get_wrapped(self.index as isize + offset)
+        self.buffer
+            .get_wrapped(self.index as isize + offset.rem_euclid(self.buffer.len() as isize))
     }
 
     pub fn read_lerp_wrapped_at(&self, offset: f32) -> f32 {
-- 
2.43.0


From b3b57bcbc9c56ef4b6328819dde29f778d8122dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 09/22] fix: wavetable oscillator read past the end of its
 table every cycle

The last segment interpolated towards the element after the table.
---
 src/oscillator/osc_wavetable.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..06daabd 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -21,10 +21,8 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         let phase = self.acc.next_value_normalized();
 
         // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From 89a2c5172254cce738f052c416fad5bbfbaef32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 10/22] fix: bandlimited rect lookup read past its table at
 0.25 and 0.75

---
 src/float/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..98f9ac0 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -165,22 +165,22 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.5 {
             let f_index = (0.25 - (self - 0.25)) * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self < 1.0 {
             let f_index = (0.25 - (self - 0.75)) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         return 0.0;
-- 
2.43.0


From 1ecb02c9a95c6caa48730842e5f7e87f9beb8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 11/22] fix: normalized phase rounded up to 1.0 at the end of a
 cycle

The rectangle wave then put out 3.0.
---
 src/oscillator/phase_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..8fe4552 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,10 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+        let phase = self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0);
+
+        // the topmost counter values round up to a full cycle
+        phase.min(1.0 - f32::EPSILON / 2.0)
     }
 }
 
-- 
2.43.0


From 6a0b10f706770aa53967050aa1cdd4b00fbd4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 12/22] fix: envelope got stuck at NaN with zero times

A zero time makes the step f32::MAX, so t overflowed to infinity (retriggering
with zero attack and decay) and inf * 0 became NaN (zero decay with full sustain,
zero release from silence); no comparison ever left that state again.
---
 src/envelope.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..923b6cd 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -136,7 +136,7 @@ impl AudioRateADSR {
     // =================
 
     fn next_attack(&mut self) -> f32 {
-        self.t += self.attack;
+        self.t = (self.t + self.attack).min(1.0);
         self.envelope_value = self.t.powf(1.0 / self.slope);
 
         if self.envelope_value >= 1.0 {
@@ -149,7 +149,7 @@ impl AudioRateADSR {
     }
 
     fn next_decay(&mut self) -> f32 {
-        self.t += self.decay;
+        self.t = (self.t + self.decay).min(1.0);
         self.envelope_value =
             ((1.0 - self.t.powf(self.slope)) * (1.0 - self.sustain)) + self.sustain;
 
@@ -162,7 +162,7 @@ impl AudioRateADSR {
     }
 
     fn next_release(&mut self) -> f32 {
-        self.t += self.release;
+        self.t = (self.t + self.release).min(1.0);
         self.envelope_value = (1.0 - self.t.powf(self.slope)) * self.release_val;
 
         // reach idle at ca. -140dB
-- 
2.43.0


From 7c0401da974246108bf14813c567ed8504aa2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 13/22] fix: release started from a stale level after sustain
 was changed

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 923b6cd..6472680 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,10 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => {
+                self.envelope_value = self.sustain;
+                self.envelope_value
+            }
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
-- 
2.43.0


From f8b9e8c9f7c7429be7b31c81d2dd2ec16e41e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 14/22] fix: envelope constructor did not limit the slope like
 set_slope

A slope of 0 left the envelope stuck at NaN.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6472680..1bfc1d0 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -49,7 +49,7 @@ impl AudioRateADSR {
             release: set_time_parameter(release_in_secs, sr),
 
             sr,
-            slope,
+            slope: slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE),
             t: 0.0,
             state: Idle,
             release_val: 0.0,
-- 
2.43.0


From f4bcbdacea3c917d49cec37f7171c5779d803080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 15/22] fix: simpson's rule counted the odd points twice

The sine integral came out 5/3 too large.
---
 src/float/integral.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/float/integral.rs b/src/float/integral.rs
index 343181d..24b3cc7 100644
--- a/src/float/integral.rs
+++ b/src/float/integral.rs
@@ -12,7 +12,6 @@ pub fn simpsons_rule<const N: usize>(f: fn(f32) -> f32, a: f32, b: f32) -> f32 {
         * (f(a)
             + 4.0 * y[1..N].iter().step_by(2).sum::<f32>()
             + 2.0 * y[2..N - 1].iter().step_by(2).sum::<f32>()
-            + 4.0 * y[1..].iter().step_by(2).sum::<f32>()
             + if N % 2 == 0 { f(b) } else { 0.0 });
     integral
 }
-- 
2.43.0


From dc21f62dde22c35b71ddefb96ed21bb9c88307d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 16/22] fix: decibels of 0 were -764 dB instead of -INF outside
 of the unit tests

Without std, log10 is micromath's approximation, which has no special cases: 0 gave
a finite value, infinity gave NaN, and negative numbers overflowed an integer.
---
 src/decibels.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index a9fcc1e..cb942b0 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -20,7 +20,16 @@ pub trait Decibels {
 impl Decibels for f32 {
     #[inline(always)]
     fn to_decibels_unchecked(&self) -> f32 {
-        20.0 * self.log10()
+        // the log10 approximation is only defined for positive finite numbers
+        if self.is_nan() || *self < 0.0 {
+            f32::NAN
+        } else if *self == 0.0 {
+            f32::NEG_INFINITY
+        } else if self.is_infinite() {
+            f32::INFINITY
+        } else {
+            20.0 * self.log10()
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 6bdad9554011eb830b733a5540391dfc8aa8b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 17/22] fix: checked decibel conversions returned Ok(NaN) for
 NaN

---
 src/decibels.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index cb942b0..c808e5d 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -34,7 +34,7 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if self.is_nan() || *self < 0.0 {
             return Err(Nan);
         }
 
@@ -43,7 +43,7 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels_checked(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if self.is_nan() || *self < 0.0 {
             return Err(Nan);
         }
 
-- 
2.43.0


From 224b9eaf42dda2a9815a461cbf248935c3a59b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 18/22] fix: checked set_freq consumed the accumulator

It set the frequency on a value that was dropped right away.
---
 src/oscillator/phase_accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 8fe4552..3e5fe84 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -75,7 +75,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
-- 
2.43.0


From a8933a4f09515b9dd8e8c5f3a6843e5c3d717a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 19/22] fix: checked set_freq never reported BiggerThanNyquist

---
 src/oscillator/phase_accumulator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e5fe84..06665fd 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -84,6 +84,11 @@ impl SoftPhaseAccumulator {
             return Err(Negative);
         }
 
+        // half of the counter range per sample
+        if freq * self.min_step > (u32::MAX / 2) as f32 {
+            return Err(BiggerThanNyquist);
+        }
+
         return Ok(self.set_freq_unchecked(freq));
     }
 }
-- 
2.43.0


From e4140ec172f2a98b919f77e9825a11e440fffe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 20/22] fix: checked lerp accepted a NaN position

---
 src/float/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/interpolation.rs b/src/float/interpolation.rs
index 52e563c..1adf2f4 100644
--- a/src/float/interpolation.rs
+++ b/src/float/interpolation.rs
@@ -20,7 +20,7 @@ pub fn lerp(a: f32, b: f32, interpolate: f32) -> Result<f32, InterpolationError>
         return Err(InterpolationError::InputInfinite);
     }
 
-    if interpolate < 0.0 || interpolate > 1.0 {
+    if interpolate < 0.0 || interpolate > 1.0 || interpolate.is_nan() {
         return Err(InterpolationError::InterpolationRange);
     }
 
-- 
2.43.0


From 1f14f25fc6251bb26fed86844e2639cb6eb4f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 21/22] fix: delay line taps panicked while the buffer is empty

---
 src/delay_line.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index ef039e5..7024908 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -34,15 +34,27 @@ impl DelayLine {
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
+        if self.buffer.len() == 0 {
+            return 0.0;
+        }
+
         self.buffer
             .get_wrapped(self.index as isize + offset.rem_euclid(self.buffer.len() as isize))
     }
 
     pub fn read_lerp_wrapped_at(&self, offset: f32) -> f32 {
+        if self.buffer.len() == 0 {
+            return 0.0;
+        }
+
         self.buffer.lerp_wrapped(self.index as f32 + offset)
     }
 
     pub fn read_lagrange_wrapped_at(&self, offset: f32) -> f32 {
+        if self.buffer.len() == 0 {
+            return 0.0;
+        }
+
         self.buffer.lagrange_wrapped(self.index as f32 + offset, 5)
     }
 
-- 
2.43.0


From 306a833a7886790b35898fde1d81581710aa65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 22/22] fix: fractional wrapped reads beyond the range of an
 i32 returned garbage or panicked

micromath's floor() saturates at the limits of an i32, so the fraction of
such a position became huge: linear reads extrapolated far beyond the
samples and Lagrange reads ran into the assertion of the interpolation.
---
 src/memory/memory_slice.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index c4605ed..03569f7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -215,8 +215,20 @@ where
         Ok(lerp_unchecked(a, b, index - (index as usize) as f32))
     }
 
+    /// `floor()` saturates at the limits of an `i32`. Positions beyond those have no
+    /// fractional part and are moved into the buffer before.
+    #[inline(always)]
+    fn wrap_far_index(&self, index: f32) -> f32 {
+        if index.abs() >= i32::MAX as f32 {
+            index % self.length as f32
+        } else {
+            index
+        }
+    }
+
     #[inline(always)]
     pub fn lerp_wrapped(&self, index: f32) -> f32 {
+        let index = self.wrap_far_index(index);
         let int_index = index.floor() as isize;
         let a = self.get_wrapped(int_index);
         let b = self.get_wrapped(int_index + 1);
@@ -229,6 +241,7 @@ where
     ///////////////////////////////////////////////////////////////////////////////
 
     pub fn lagrange_wrapped(&self, index: f32, window_size: usize) -> f32 {
+        let index = self.wrap_far_index(index);
         let int_index = index.floor() as isize;
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
@@ -251,6 +264,7 @@ where
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let index = self.wrap_far_index(index);
         let int_index = index.floor() as isize;
 
         unsafe {
-- 
2.43.0

