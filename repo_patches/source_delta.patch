From 5fb644482c688d1cc4a8c0e82e2e38db8fb63220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 1/3] fix: execute_with_limit keeps inhibiting interrupts after
 EI supplied by an interrupting device

---
 src/z80.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..9fe60e6 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -518,6 +518,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             if tsc.is_past_limit(vc_limit) {
                 return Ok(());
             }
+            // the instruction placed on the data bus could have been EI
+            self.last_ei = false;
         }
 
         // let mut prefix = self.prefix;
@@ -560,6 +562,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
                         if tsc.is_past_limit(vc_limit) {
                             return Ok(());
                         }
+                        // the instruction placed on the data bus could have been EI
+                        self.last_ei = false;
                         continue;
                     }
                     Err(cause) => return Err(cause)
-- 
2.43.0


From 1351ad7fa466e2e9991cad97e34ec29865174eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 2/3] fix: a halted Cpu with interrupts just enabled or with a
 pending prefix never accepts interrupts

---
 src/z80.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/z80.rs b/src/z80.rs
index 9fe60e6..3c3b729 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -471,6 +471,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             return self.irq_no_check::<M,T,F>(control, tsc, debug);
         }
         if self.halt {
+            self.last_ei = false;
+            self.prefix = None;
             tsc.add_m1(self.pc.get16());
             self.inc_r();
             Ok(())
@@ -491,16 +493,16 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         const DEBUG: Option<CpuDebugFn> = None;
 
         if self.halt {
-            debug_assert_eq!(self.prefix, None);
-            debug_assert!(!self.last_ei);
             let pc = self.pc.get16();
             loop {
                 if tsc.is_past_limit(vc_limit) {
                     return Ok(());
                 }
-                if self.iff1 && control.is_irq(tsc.as_timestamp()) {
+                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                     break
                 }
+                self.last_ei = false;
+                self.prefix = None;
                 tsc.add_m1(pc);
                 self.inc_r();
             }
-- 
2.43.0


From 2e0b2763013acf11843588c710a9d4114ebe2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:33 +0000
Subject: [PATCH 3/3] fix: deserialize register pairs above 32767 from formats
 which give integers as i64

A register pair is serialized as an unsigned 16-bit integer, but formats which
hand integers over as i64 (TOML) or i32 could not read back its upper half.
---
 src/cpu/registers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/registers.rs b/src/cpu/registers.rs
index 288ec58..a3fc62c 100644
--- a/src/cpu/registers.rs
+++ b/src/cpu/registers.rs
@@ -232,8 +232,8 @@ impl<'de> Visitor<'de> for RegisterPairVisitor {
     }
 
     fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
-        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::i16::MAX) {
-            Ok(RegisterPair::from(value as i16))
+        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::u16::MAX) {
+            Ok(RegisterPair::from(value as u16))
         } else {
             Err(E::custom(format!("RegisterPair out of range: {}", value)))
         }
-- 
2.43.0

