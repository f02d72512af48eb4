From e1f720bed7d9b6cfa3fd8d55c8e2525283728ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 1/4] fix: end the EI shadow in execute_with_limit when EI was
 supplied by the interrupting device

In the interrupt mode 0 the device may put EI on the data bus. The flag set by
it was left set while the following instructions were being executed, so after
reaching the limit is_after_ei() returned true and the next run skipped an
interrupt check, contrary to what stepping with execute_next does.
---
 src/z80.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..127ce6f 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -518,6 +518,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             if tsc.is_past_limit(vc_limit) {
                 return Ok(());
             }
+            // EI may have been provided by the interrupting device in the interrupt mode 0
+            self.last_ei = false;
         }
 
         // let mut prefix = self.prefix;
@@ -560,6 +562,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
                         if tsc.is_past_limit(vc_limit) {
                             return Ok(());
                         }
+                        self.last_ei = false;
                         continue;
                     }
                     Err(cause) => return Err(cause)
-- 
2.43.0


From 755b661755c2485a3e60f4b218818383610f6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 2/4] fix: let an idling HALT end the EI shadow and drop a
 pending prefix

halt() after EI or after a prefix, or enable_interrupts() while halted, left
the CPU in a state in which execute_next would never accept any interrupt and
execute_with_limit failed its debug assertions.
---
 src/z80.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/z80.rs b/src/z80.rs
index 127ce6f..64da4f8 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -471,6 +471,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             return self.irq_no_check::<M,T,F>(control, tsc, debug);
         }
         if self.halt {
+            self.last_ei = false;
+            self.prefix = None;
             tsc.add_m1(self.pc.get16());
             self.inc_r();
             Ok(())
@@ -491,16 +493,17 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         const DEBUG: Option<CpuDebugFn> = None;
 
         if self.halt {
-            debug_assert_eq!(self.prefix, None);
-            debug_assert!(!self.last_ei);
             let pc = self.pc.get16();
             loop {
                 if tsc.is_past_limit(vc_limit) {
                     return Ok(());
                 }
-                if self.iff1 && control.is_irq(tsc.as_timestamp()) {
+                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                     break
                 }
+                // `halt` or `enable_interrupts` might have been called by the user
+                self.last_ei = false;
+                self.prefix = None;
                 tsc.add_m1(pc);
                 self.inc_r();
             }
-- 
2.43.0


From beec56304467320daa76af714737d2725e0a02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 3/4] fix: accept unsigned 16-bit values of RegisterPair given
 as signed integers

---
 src/cpu/registers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/registers.rs b/src/cpu/registers.rs
index 288ec58..a3fc62c 100644
--- a/src/cpu/registers.rs
+++ b/src/cpu/registers.rs
@@ -232,8 +232,8 @@ impl<'de> Visitor<'de> for RegisterPairVisitor {
     }
 
     fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
-        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::i16::MAX) {
-            Ok(RegisterPair::from(value as i16))
+        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::u16::MAX) {
+            Ok(RegisterPair::from(value as u16))
         } else {
             Err(E::custom(format!("RegisterPair out of range: {}", value)))
         }
-- 
2.43.0


From e8c92df6e8a1805e7f2ae6ab2425f1d3457ff5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:04 +0000
Subject: [PATCH 4/4] fix: probe the interrupt line once when
 execute_with_limit leaves the halted state

---
 src/z80.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/z80.rs b/src/z80.rs
index 64da4f8..9e0c4a3 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -492,6 +492,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
     {
         const DEBUG: Option<CpuDebugFn> = None;
 
+        // `true` if the interrupt request has already been probed, when leaving the halted state
+        let mut irq = false;
         if self.halt {
             let pc = self.pc.get16();
             loop {
@@ -499,6 +501,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
                     return Ok(());
                 }
                 if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
+                    irq = true;
                     break
                 }
                 // `halt` or `enable_interrupts` might have been called by the user
@@ -515,7 +518,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         if self.last_ei {
             self.last_ei = false;
         }
-        else if is_int_allowed(self.prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
+        else if irq || is_int_allowed(self.prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
             self.irq_no_check::<M,T,_>(control, tsc, DEBUG)?;
 
             if tsc.is_past_limit(vc_limit) {
-- 
2.43.0

