From 5efb48b5665fa087c719c672aebb5c4f8d62b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 01/33] fix: detect duplicate v2 global input count by its own
 field

The duplicate check looked at output_count, so a PSBT with the output count
ahead of the input count was refused and a repeated input count accepted.
---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From 44e95d17046f947c24a526d3cac88022d285eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 02/33] fix: do not preallocate from the untrusted v2 map
 counts

A few bytes claiming a huge input or output count made deserialize panic
with a capacity overflow or abort on a huge allocation.
---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..3ce20c8 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,8 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            // The count is not trustworthy so do not use it to allocate.
+            let mut inputs: Vec<Input> = Vec::new();
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +642,8 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            // The count is not trustworthy so do not use it to allocate.
+            let mut outputs: Vec<Output> = Vec::new();
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From 1e0c61af976a46bca336bc19d98d152e70f7abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 03/33] fix: implement Display and source for the v2
 deserialize and extract errors

Formatting DeserializeError or ExtractTxError, or asking for the source,
panicked in todo!().
---
 src/v2/error.rs   | 24 ++++++++++++++++++++++--
 src/v2/extract.rs | 18 ++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..3999612 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => f.write_str("invalid magic"),
+            InvalidSeparator => f.write_str("invalid separator"),
+            NoMorePairs => f.write_str("no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "global map decode error"; e),
+            DecodeInput(ref e) => write_err!(f, "input map decode error"; e),
+            DecodeOutput(ref e) => write_err!(f, "output map decode error"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..fdcdd49 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => write!(f, "attempted to extract tx from an unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine the lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => None,
+            DetermineLockTime(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From af1fe17ec883ceeafc421f3a2d757e4acd9d5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 04/33] fix: sign for the final sequence number when v2 input
 sequence is unset

The unsigned transaction used zero while the extracted transaction and
BIP-370 use 0xffffffff, so signatures did not commit to the extracted
transaction.
---
 src/v2/map/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..df3acb6 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // BIP-370: if omitted, the sequence is assumed to be the final sequence number.
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From c21cb1332e41d5273245e9c3c87412d23e8c5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 05/33] fix: keep sequence, lock times and unknown fields when
 finalizing v2 inputs

The sequence and required lock times are part of the signed transaction, so
clearing them made the finalized PSBT describe a different transaction than
the one the signatures commit to. BIP-174 says to keep unknown fields.
---
 src/v2/map/input.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index df3acb6..81a7fc9 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -222,15 +222,19 @@ impl Input {
             spent_output_index: self.spent_output_index,
             non_witness_utxo: self.non_witness_utxo.clone(),
             witness_utxo: self.witness_utxo.clone(),
+            // These define the transaction that was signed.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+            // BIP-174: all fields except the UTXO and unknown ones are cleared.
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
 
             // Set below.
             final_script_sig: None,
             final_script_witness: None,
 
             // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -250,8 +254,6 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
-- 
2.43.0


From 769ec04c9138daffcb70fd51a7a558d922375fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 06/33] fix: set final_script_witness when finalizing without a
 witness UTXO

An input counts as finalized only with both fields set, so inputs funded by
a non-witness UTXO never did and the interpreter check panicked.
---
 src/v2/map/input.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 81a7fc9..a48b620 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -262,12 +262,10 @@ impl Input {
             if final_script_witness.is_empty() {
                 return Err(FinalizeError::EmptyWitness);
             }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
         }
+        // A finalized input has both set, for legacy inputs the witness is empty.
+        ret.final_script_sig = Some(final_script_sig);
+        ret.final_script_witness = Some(final_script_witness);
 
         Ok(ret)
     }
-- 
2.43.0


From 110a6669b01242431e45f98e9bea9c6b7ded471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 07/33] fix: do not print scripts to stdout while finalizing v2
 inputs

---
 src/v2/miniscript/finalize.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..9c0779c 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -126,8 +126,6 @@ impl Finalizer {
         };
 
         let witness = Witness::from_slice(&witness);
-        println!("{:#?}", script_sig);
-        println!("{:#?}", witness);
         Ok((script_sig, witness))
     }
 
-- 
2.43.0


From 770d5cbe2c73a46fb6addfcda6f1fce9356ce446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 08/33] fix: check v2 time locks against the transaction when
 finalizing

The satisfier and the interpreter looked at the lock times of the single
input instead of the lock time of the transaction, and ignored final
sequence numbers and the transaction version. Finalizing thus refused
satisfiable inputs and accepted ones that consensus rejects.
---
 src/v2/map/input.rs           | 13 -------------
 src/v2/miniscript/finalize.rs |  6 +++++-
 src/v2/miniscript/mod.rs      |  3 +--
 src/v2/miniscript/satisfy.rs  | 35 +++++++++++++++--------------------
 4 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index a48b620..bedaa90 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -270,19 +270,6 @@ impl Input {
         Ok(ret)
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index 9c0779c..d66b476 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -106,7 +106,11 @@ impl Finalizer {
         let (witness, script_sig) = {
             let spk =
                 &input.funding_utxo().expect("guaranteed by Finalizer invariant").script_pubkey;
-            let sat = InputSatisfier { input };
+            let sat = InputSatisfier {
+                input,
+                tx_version: self.0.global.tx_version,
+                lock_time: self.0.determine_lock_time().expect("guaranteed by Finalizer invariant"),
+            };
 
             if spk.is_p2tr() {
                 // Deal with taproot case separately, we cannot infer the full descriptor for taproot.
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..a8a1957 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -88,8 +88,7 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
+        let cltv = unsigned_tx.lock_time;
         // TODO: is this usage of MAX correct?
         let csv = input.sequence.unwrap_or(Sequence::MAX);
 
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index eb56c62..fd3d663 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -3,7 +3,7 @@
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
 use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
-use crate::bitcoin::{absolute, ecdsa, relative, ScriptBuf};
+use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf, Sequence};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
@@ -16,6 +16,10 @@ use crate::v2::map::input::Input;
 /// [`Satisfier`]: crate::miniscript::Satisfier
 pub(crate) struct InputSatisfier<'a> {
     pub(crate) input: &'a Input,
+    /// The version of the transaction being finalized.
+    pub(crate) tx_version: transaction::Version,
+    /// The lock time of the transaction being finalized.
+    pub(crate) lock_time: absolute::LockTime,
 }
 
 impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
@@ -67,30 +71,21 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pk, sig)| (*pk, *sig))
     }
 
-    // TODO: Verify this is correct.
     fn check_after(&self, n: absolute::LockTime) -> bool {
-        use absolute::LockTime::*;
-
-        match n {
-            Blocks(height) =>
-                if let Some(lock_time) = self.input.min_height {
-                    return height <= lock_time;
-                },
-            Seconds(time) =>
-                if let Some(lock_time) = self.input.min_time {
-                    return time <= lock_time;
-                },
+        // The lock time is only enforced if the sequence is not final.
+        if !self.input.sequence.unwrap_or(Sequence::MAX).enables_absolute_lock_time() {
+            return false;
         }
-        false
+        n.is_implied_by(self.lock_time)
     }
 
-    // TODO: Verify this is correct.
     fn check_older(&self, n: relative::LockTime) -> bool {
-        match self.input.sequence {
-            Some(seq) => match relative::LockTime::from_sequence(seq) {
-                Err(_) => false,
-                Ok(lock_time) => n.is_implied_by(lock_time),
-            },
+        // BIP-68 only applies to transactions version 2 and above.
+        if self.tx_version < transaction::Version::TWO {
+            return false;
+        }
+        match self.input.sequence.unwrap_or(Sequence::MAX).to_relative_lock_time() {
+            Some(lock_time) => n.is_implied_by(lock_time),
             None => false,
         }
     }
-- 
2.43.0


From e2ea97590ce67da9f93a90a930535875fc89c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 09/33] fix: do not panic or clear modifiable flags when v2
 signing adds no signature

If the sighash could not be computed and no key was available the signer
panicked, and flags were cleared although nothing had been signed.
---
 src/v2/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 3ce20c8..f0970d5 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -781,8 +781,6 @@ impl Psbt {
         K: GetKey,
     {
         let msg_sighash_ty_res = self.sighash_ecdsa(input_index, cache);
-        let sighash_ty = msg_sighash_ty_res.clone().ok().map(|(_msg, sighash_ty)| sighash_ty);
-
         let input = &mut self.inputs[input_index]; // Index checked in call to `sighash_ecdsa`.
         let mut used = vec![]; // List of pubkeys used to sign the input.
 
@@ -812,8 +810,12 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // BIP-370: the flags only change if the Signer added a signature.
+        if !used.is_empty() {
+            if let Ok((_msg, sighash_ty)) = msg_sighash_ty_res {
+                self.clear_tx_modifiable(sighash_ty as u8);
+            }
+        }
 
         Ok(used)
     }
-- 
2.43.0


From 0cf30d9c5628e4b1df341c1480c5cc668752eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 10/33] fix: report inconsistent v2 xpub origins instead of
 panicking or replacing

Combining subtracted with overflow when the other derivation was shorter and
no suffix, and replaced the fingerprint when only the fingerprints differed,
contrary to the documented algorithm.
---
 src/v2/map/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..b4abb35 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From e913ca862bfcfba68d87078d5af02d16fdd80502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 11/33] fix: report inconsistent v0 xpub origins instead of
 panicking or replacing

Combining subtracted with overflow when the other derivation was shorter and
no suffix, and replaced the fingerprint when only the fingerprints differed,
contrary to the documented algorithm.
---
 src/v0/bitcoin/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..7a8c527 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 1ced60af40a71817bcf480f313d348b008bd4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 12/33] fix: keep both UTXO fields and the sighash type when
 combining v0 inputs

The non-witness UTXO was dropped when the witness UTXO came from the other
PSBT, but not in the opposite order, and the sighash type of the other PSBT
was ignored, so combining lost data and was not commutative.
---
 src/v0/bitcoin/map/input.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..a236969 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -305,11 +305,8 @@ impl Input {
     /// Combines this [`Input`] with `other` `Input` (as described by BIP 174).
     pub fn combine(&mut self, other: Self) {
         combine!(non_witness_utxo, self, other);
-
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        combine!(witness_utxo, self, other);
+        combine!(sighash_type, self, other);
 
         self.partial_sigs.extend(other.partial_sigs);
         self.bip32_derivation.extend(other.bip32_derivation);
-- 
2.43.0


From 5eb43059c5838d8cb40ab78dec7f2627d0c60ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 13/33] fix: keep both UTXO fields and the sighash type when
 combining v2 inputs

The non-witness UTXO was dropped when the witness UTXO came from the other
PSBT, but not in the opposite order, and the sighash type of the other PSBT
was ignored, so combining lost data and was not commutative.
---
 src/v2/map/input.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index bedaa90..cb87010 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -608,15 +608,10 @@ impl Input {
         v2_combine_option!(min_time, self, other);
         v2_combine_option!(min_height, self, other);
         v2_combine_option!(non_witness_utxo, self, other);
-
-        // TODO: Copied from v0, confirm this is correct.
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        v2_combine_option!(witness_utxo, self, other);
 
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From fca5c02b000893371b80a21f3f9eeb0af7439b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 14/33] fix: refuse to combine v2 PSBTs that are not for the
 same transaction

Differing numbers of inputs or outputs were silently truncated and differing
lock times ignored. The fallback lock time of the other PSBT was dropped.
---
 src/v2/map/global.rs |  2 ++
 src/v2/mod.rs        | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index b4abb35..f3e3998 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -405,6 +405,8 @@ impl Global {
             });
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
+
         // BIP 174: The Combiner must remove any duplicate key-value pairs, in accordance with
         //          the specification. It can pick arbitrarily when conflicts occur.
 
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index f0970d5..4e29d7a 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -675,6 +675,9 @@ impl Psbt {
     ///
     /// See [`combine()`] for a non-consuming version of this function.
     pub fn combine_with(mut self, other: Self) -> Result<Psbt, CombineError> {
+        let id = self.id();
+        let other_id = other.id();
+
         self.global.combine(other.global)?;
 
         for (self_input, other_input) in self.inputs.iter_mut().zip(other.inputs.into_iter()) {
@@ -685,6 +688,11 @@ impl Psbt {
             self_output.combine(other_output)?;
         }
 
+        // Besides differing maps this catches differing counts and lock times.
+        if id != other_id || self.id() != id {
+            return Err(CombineError::TransactionMismatch);
+        }
+
         Ok(self)
     }
 
@@ -1327,6 +1335,8 @@ pub enum CombineError {
     Input(input::CombineError),
     /// Error while combining the output maps.
     Output(output::CombineError),
+    /// The PSBTs are not for the same transaction.
+    TransactionMismatch,
 }
 
 impl fmt::Display for CombineError {
@@ -1337,6 +1347,8 @@ impl fmt::Display for CombineError {
             Global(ref e) => write_err!(f, "error while combining the global maps"; e),
             Input(ref e) => write_err!(f, "error while combining the input maps"; e),
             Output(ref e) => write_err!(f, "error while combining the output maps"; e),
+            TransactionMismatch =>
+                f.write_str("cannot combine PSBTs that are not for the same transaction"),
         }
     }
 }
@@ -1350,6 +1362,7 @@ impl std::error::Error for CombineError {
             Global(ref e) => Some(e),
             Input(ref e) => Some(e),
             Output(ref e) => Some(e),
+            TransactionMismatch => None,
         }
     }
 }
-- 
2.43.0


From a8a2f159d4972ed133ca2873a5daa3609e02293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 15/33] fix: detect missing and duplicate v2 input outpoint
 fields by presence

An all zero txid or an index of 0xffffffff counted as missing, a repeated
field with such a value was accepted, and key data was ignored.
---
 src/v2/map/input.rs | 47 ++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index cb87010..90b1411 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -380,24 +380,26 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
+        // These are placeholder values, replaced below.
         let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
         let mut rv = Self::new(&invalid);
+        let mut previous_txid: Option<Txid> = None;
+        let mut spent_output_index: Option<u32> = None;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => match pair.key.type_value {
+                    PSBT_IN_PREVIOUS_TXID => insert_required_pair(&mut previous_txid, pair)?,
+                    PSBT_IN_OUTPUT_INDEX => insert_required_pair(&mut spent_output_index, pair)?,
+                    _ => rv.insert_pair(pair)?,
+                },
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
-            return Err(DecodeError::MissingPreviousTxid);
-        }
-        if rv.spent_output_index == u32::MAX {
-            return Err(DecodeError::MissingSpentOutputIndex);
-        }
+        rv.previous_txid = previous_txid.ok_or(DecodeError::MissingPreviousTxid)?;
+        rv.spent_output_index = spent_output_index.ok_or(DecodeError::MissingSpentOutputIndex)?;
 
         #[cfg(feature = "silent-payments")]
         {
@@ -415,20 +417,6 @@ impl Input {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
-            PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let txid: Txid = Deserialize::deserialize(&raw_value)?;
-                self.previous_txid = txid;
-            }
-            PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let vout: u32 = Deserialize::deserialize(&raw_value)?;
-                self.spent_output_index = vout;
-            }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
                     self.sequence <= <raw_key: _>|<raw_value: Sequence>
@@ -769,6 +757,21 @@ impl Map for Input {
     }
 }
 
+/// Sets `field` to the value of an unkeyed `pair` that must occur exactly once in an input map.
+fn insert_required_pair<T: Deserialize>(
+    field: &mut Option<T>,
+    pair: raw::Pair,
+) -> Result<(), InsertPairError> {
+    if !pair.key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(pair.key));
+    }
+    if field.is_some() {
+        return Err(InsertPairError::DuplicateKey(pair.key));
+    }
+    *field = Some(Deserialize::deserialize(&pair.value)?);
+    Ok(())
+}
+
 // TODO: This is an exact duplicate of that in v0.
 fn psbt_insert_hash_pair<H>(
     map: &mut BTreeMap<H, Vec<u8>>,
-- 
2.43.0


From f84850abe38164a94d763e3310c77d5d030a2b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 16/33] fix: detect missing and duplicate v2 output amount and
 script by presence

A zero amount counted as missing, so PSBTs with zero value outputs could not
be parsed, repeated zero or empty values were accepted, and key data was
ignored. An output with neither a script nor silent payment info is refused.
---
 src/v2/map/output.rs | 59 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..aba3399 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -106,26 +106,37 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
+        // These are placeholder values, replaced below.
         let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
         let mut rv = Self::new(invalid);
+        let mut amount: Option<Amount> = None;
+        let mut script_pubkey: Option<ScriptBuf> = None;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => match pair.key.type_value {
+                    PSBT_OUT_AMOUNT => insert_required_pair(&mut amount, pair)?,
+                    PSBT_OUT_SCRIPT => insert_required_pair(&mut script_pubkey, pair)?,
+                    _ => rv.insert_pair(pair)?,
+                },
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
-            return Err(DecodeError::MissingValue);
-        }
-        // BIP-375 allows outputs to be missing scriptPubkey
+        rv.amount = amount.ok_or(DecodeError::MissingValue)?;
+
+        // BIP-375 allows silent payment outputs to be missing scriptPubkey
+        #[cfg(feature = "silent-payments")]
+        let needs_script_pubkey = rv.sp_v0_info.is_none();
         #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
-            return Err(DecodeError::MissingScriptPubkey);
-        }
+        let needs_script_pubkey = true;
+
+        rv.script_pubkey = match script_pubkey {
+            Some(script) => script,
+            None if needs_script_pubkey => return Err(DecodeError::MissingScriptPubkey),
+            None => ScriptBuf::default(),
+        };
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
@@ -139,21 +150,6 @@ impl Output {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
-            PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let amount: Amount = Deserialize::deserialize(&raw_value)?;
-                self.amount = amount;
-            }
-            PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
-                self.script_pubkey = script;
-            }
-
             PSBT_OUT_REDEEM_SCRIPT => {
                 v2_impl_psbt_insert_pair! {
                     self.redeem_script <= <raw_key: _>|<raw_value: ScriptBuf>
@@ -265,6 +261,21 @@ impl Output {
     }
 }
 
+/// Sets `field` to the value of an unkeyed `pair` that can occur only once in an output map.
+fn insert_required_pair<T: Deserialize>(
+    field: &mut Option<T>,
+    pair: raw::Pair,
+) -> Result<(), InsertPairError> {
+    if !pair.key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(pair.key));
+    }
+    if field.is_some() {
+        return Err(InsertPairError::DuplicateKey(pair.key));
+    }
+    *field = Some(Deserialize::deserialize(&pair.value)?);
+    Ok(())
+}
+
 impl Map for Output {
     fn get_pairs(&self) -> Vec<raw::Pair> {
         let mut rv: Vec<raw::Pair> = Default::default();
-- 
2.43.0


From 971b7c90e01f0cf28584a13dad49b79a235c6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 17/33] fix: do not write an empty script for silent payment
 outputs without one

BIP-375 lets PSBT_OUT_SCRIPT be absent until the script is computed. Writing
an empty script instead told other software that it had been computed.
---
 src/v2/map/output.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index aba3399..fd1c553 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -285,10 +285,18 @@ impl Map for Output {
             value: self.amount.serialize(),
         });
 
-        rv.push(raw::Pair {
-            key: raw::Key { type_value: PSBT_OUT_SCRIPT, key: vec![] },
-            value: self.script_pubkey.serialize(),
-        });
+        // BIP-375: a silent payment output has no script until it is computed.
+        #[cfg(feature = "silent-payments")]
+        let has_script_pubkey = !(self.script_pubkey.is_empty() && self.sp_v0_info.is_some());
+        #[cfg(not(feature = "silent-payments"))]
+        let has_script_pubkey = true;
+
+        if has_script_pubkey {
+            rv.push(raw::Pair {
+                key: raw::Key { type_value: PSBT_OUT_SCRIPT, key: vec![] },
+                value: self.script_pubkey.serialize(),
+            });
+        }
 
         v2_impl_psbt_get_pair! {
             rv.push(self.redeem_script, PSBT_OUT_REDEEM_SCRIPT)
-- 
2.43.0


From 86069ca62557376be88b49fb7d26917d00a8b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 18/33] fix: reject data after the last map of a v2 PSBT

Declared counts smaller than the number of maps, or any garbage, were
silently accepted and dropped.
---
 src/v2/error.rs | 5 ++++-
 src/v2/mod.rs   | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 3999612..1787143 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -31,6 +31,8 @@ pub enum DeserializeError {
     DecodeInput(input::DecodeError),
     /// Error decoding an output map.
     DecodeOutput(output::DecodeError),
+    /// There is data left after the last map.
+    TrailingData,
 }
 
 impl fmt::Display for DeserializeError {
@@ -44,6 +46,7 @@ impl fmt::Display for DeserializeError {
             DecodeGlobal(ref e) => write_err!(f, "global map decode error"; e),
             DecodeInput(ref e) => write_err!(f, "input map decode error"; e),
             DecodeOutput(ref e) => write_err!(f, "output map decode error"; e),
+            TrailingData => f.write_str("data left after the last map of the psbt"),
         }
     }
 }
@@ -54,7 +57,7 @@ impl std::error::Error for DeserializeError {
         use DeserializeError::*;
 
         match *self {
-            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            InvalidMagic | InvalidSeparator | NoMorePairs | TrailingData => None,
             DecodeGlobal(ref e) => Some(e),
             DecodeInput(ref e) => Some(e),
             DecodeOutput(ref e) => Some(e),
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 4e29d7a..c805d5b 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -652,6 +652,10 @@ impl Psbt {
             outputs
         };
 
+        if !d.is_empty() {
+            return Err(TrailingData);
+        }
+
         Ok(Psbt { global, inputs, outputs })
     }
 
-- 
2.43.0


From e6d4860cbec199c061e9520bd29b4d2d4a0e73f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 19/33] fix: reject data after the last map of a v0 PSBT

More maps than the transaction has inputs and outputs, or any garbage, were
silently accepted and dropped.
---
 src/v0/bitcoin/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v0/bitcoin/serialize.rs b/src/v0/bitcoin/serialize.rs
index def826d..0bbcf1a 100644
--- a/src/v0/bitcoin/serialize.rs
+++ b/src/v0/bitcoin/serialize.rs
@@ -107,6 +107,10 @@ impl Psbt {
             outputs
         };
 
+        if !d.is_empty() {
+            return Err(Error::PartialDataConsumption);
+        }
+
         global.inputs = inputs;
         global.outputs = outputs;
         Ok(global)
-- 
2.43.0


From bfbca65a0e26ac1af439e7a9685e33d750bf4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 20/33] fix: match sets of xprivs by their own fingerprint

A key origin names the fingerprint of the key the path starts from, as the
provider for a single xpriv assumes. The sets compared the fingerprint of
the parent instead and derived an unrelated key when that one matched.
---
 src/v0/bitcoin/mod.rs | 7 +++----
 src/v2/mod.rs         | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7a8c527..4fdcd98 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -809,11 +809,10 @@ impl GetKey for $set<Xpriv> {
     ) -> Result<Option<PrivateKey>, Self::Error> {
         match key_request {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
-            KeyRequest::Bip32((fingerprint, path)) => {
+            KeyRequest::Bip32(_) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
-                        let k = xpriv.derive_priv(secp, &path)?;
-                        return Ok(Some(k.to_priv()));
+                    if let Some(k) = xpriv.get_key(key_request.clone(), secp)? {
+                        return Ok(Some(k));
                     }
                 }
                 Ok(None)
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index c805d5b..06f581d 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1087,11 +1087,10 @@ impl GetKey for $set<Xpriv> {
     ) -> Result<Option<PrivateKey>, Self::Error> {
         match key_request {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
-            KeyRequest::Bip32((fingerprint, path)) => {
+            KeyRequest::Bip32(_) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
-                        let k = xpriv.derive_priv(secp, &path)?;
-                        return Ok(Some(k.to_priv()));
+                    if let Some(k) = xpriv.get_key(key_request.clone(), secp)? {
+                        return Ok(Some(k));
                     }
                 }
                 Ok(None)
-- 
2.43.0


From 3ac50df7a9a30d70366c2d6dbfe6ff09459c3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 21/33] fix: do not panic on v0 outpoint index outside the
 previous transaction

Signing, finalizing and extracting indexed the outputs of the non-witness
UTXO unchecked or considered the error unreachable.
---
 src/v0/bitcoin/mod.rs          | 4 ++--
 src/v0/miniscript/finalizer.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 4fdcd98..1a89eb8 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,7 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
@@ -623,7 +623,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..4e33e93 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From 18a8c75f320b6bf6ae39b97c9fc3ed4ce5093976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 22/33] fix: allow malleable satisfactions in v0
 finalize_inp_mall_mut

---
 src/v0/miniscript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..21c197c 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -680,7 +680,7 @@ impl PsbtExt for Psbt {
         if index >= self.inputs.len() {
             return Err(Error::InputIdxOutofBounds { psbt_inp: self.inputs.len(), index });
         }
-        finalizer::finalize_input(self, index, secp, /*allow_mall*/ false)
+        finalizer::finalize_input(self, index, secp, /*allow_mall*/ true)
     }
 
     fn finalize_inp_mall<C: secp256k1::Verification>(
-- 
2.43.0


From ffc7da7f404b3d20c0cca1975357f2e9a7bd156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 23/33] fix: let v0 signer_checks see both UTXO forms and check
 the nested witness script

The redeem and witness script checks looked at witness_utxo only, so every
honest legacy P2SH input failed with MissingTxOut. The P2SH-P2WSH check
hashed the redeem script instead of the witness script and compared it with
the P2SH scriptPubKey, so every honest nested input failed too. A witness
UTXO for a P2SH spend with a non-witness redeem script was accepted.
---
 src/v0/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..96f5d9b 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -60,6 +60,9 @@ impl Psbt {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
                     Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    // The redeem script is not a witness program so spending it is a legacy spend.
+                    Ok(OutputType::Sh) if input.redeem_script.is_some() =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
@@ -72,20 +75,20 @@ impl Psbt {
             }
 
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
+                match self.spend_utxo(i) {
+                    Ok(tx_out) => {
                         let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
                         if tx_out.script_pubkey != script_pubkey {
                             return Err(SignerChecksError::RedeemScriptMismatch);
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
+                match self.spend_utxo(i) {
+                    Ok(utxo) => {
                         let script_pubkey = &utxo.script_pubkey;
                         if script_pubkey.is_p2wsh() {
                             if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
@@ -95,8 +98,8 @@ impl Psbt {
                             }
                         } else if script_pubkey.is_p2sh() {
                             if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
+                                if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
+                                    != *redeem_script
                                 {
                                     return Err(SignerChecksError::WitnessScriptMismatchShWsh);
                                 }
@@ -105,7 +108,7 @@ impl Psbt {
                             // BIP does not specifically say there should not be a witness script here?
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
@@ -130,11 +133,11 @@ pub enum SignerChecksError {
     WitnessAndNonWitnessUtxo,
     /// Redeem script hash did not match the hash in the script_pubkey.
     RedeemScriptMismatch,
-    /// Missing witness_utxo.
+    /// Missing the UTXO being spent.
     MissingTxOut,
     /// Native segwit p2wsh script_pubkey did not match witness script hash.
     WitnessScriptMismatchWsh,
-    /// Nested segwit p2wsh script_pubkey did not match redeem script hash.
+    /// Nested segwit p2wsh redeem script did not match witness script hash.
     WitnessScriptMismatchShWsh,
 }
 
@@ -149,11 +152,11 @@ impl fmt::Display for SignerChecksError {
             WitnessAndNonWitnessUtxo => write!(f, "input has both witness and non-witness utxos"),
             RedeemScriptMismatch =>
                 write!(f, "redeem script hash did not match the hash in the script_pubkey"),
-            MissingTxOut => write!(f, "missing witness_utxo"),
+            MissingTxOut => write!(f, "missing the utxo being spent"),
             WitnessScriptMismatchWsh =>
                 write!(f, "native segwit p2wsh script_pubkey did not match witness script hash"),
             WitnessScriptMismatchShWsh =>
-                write!(f, "nested segwit p2wsh script_pubkey did not match redeem script hash"),
+                write!(f, "nested segwit p2wsh redeem script did not match witness script hash"),
         }
     }
 }
-- 
2.43.0


From 216be8db85751f173fbfdabba7e2ab314b7ad25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 24/33] fix: keep unknown and proprietary fields when
 finalizing v0 inputs

---
 src/v0/miniscript/finalizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 4e33e93..1227a64 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -445,6 +445,9 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        // BIP-174: everything except the UTXO and unknown fields should be cleared.
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
-- 
2.43.0


From 38ad677a8f1603d7f5eaeeba59923744c685f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 25/33] fix: allow taproot sighash types on inputs without
 ECDSA signatures

An input with SIGHASH_DEFAULT set and only taproot signatures could not be
finalized (v2) or extracted (v0) because the sighash type was required to be
an ECDSA type even though there was no ECDSA signature to compare it with.
---
 src/v0/miniscript/mod.rs | 4 ++++
 src/v2/mod.rs            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 21c197c..f9060c6 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -388,6 +388,10 @@ pub(crate) fn sanity_check(psbt: &Psbt) -> Result<(), Error> {
 
     // Check well-formedness of input data
     for (index, input) in psbt.inputs.iter().enumerate() {
+        // Taproot inputs have no ECDSA signatures and may use a taproot only sighash type.
+        if input.partial_sigs.is_empty() {
+            continue;
+        }
         // TODO: fix this after https://github.com/rust-bitcoin/rust-bitcoin/issues/838
         let target_ecdsa_sighash_ty = match input.sighash_type {
             Some(psbt_hash_ty) => psbt_hash_ty
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 06f581d..2ec3608 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -992,6 +992,10 @@ impl Psbt {
         use PartialSigsSighashTypeError::*;
 
         for (input_index, input) in self.inputs.iter().enumerate() {
+            // Taproot inputs have no ECDSA signatures and may use a taproot only sighash type.
+            if input.partial_sigs.is_empty() {
+                continue;
+            }
             let target_ecdsa_sighash_ty = match input.sighash_type {
                 Some(psbt_hash_ty) => psbt_hash_ty
                     .ecdsa_hash_ty()
-- 
2.43.0


From 9446359be8ed5606fe2f5dcecf95398fe70a5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 26/33] fix: require 33 byte BIP-375 scan keys and ECDH shares

Uncompressed 65 byte keys were accepted and written back in another form.
---
 src/macros.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index 6e5cc88..0a9827b 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -137,8 +137,15 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        // `from_slice` also parses uncompressed keys.
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        if $raw_value.len() != 33 {
+            return Err(InsertPairError::ValueWrongLength($raw_value.len(), 33).into());
+        }
         let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value)
             .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 33))?;
         match $map.entry(scan_key) {
@@ -154,6 +161,10 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        // `from_slice` also parses uncompressed keys.
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
         let value = $crate::v2::dleq::DleqProof::try_from($raw_value.as_slice())
-- 
2.43.0


From 8067b510b68d192a3682b7f8874cd3155b82666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 27/33] fix: read preimage maps from JSON that cannot lend
 strings

---
 src/serde_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..7bb5690 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,8 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0


From 21bd9f0c104400c9f0b363f9d1419dff7226b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 28/33] fix: do not sign a taproot input with a key that is not
 the listed one

If the key source listed for an x-only key is wrong then the key provider
returns some other key. The signature made with it was filed under the
listed key although it is not valid for that key.
---
 src/v0/bitcoin/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 1a89eb8..0056c3b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -431,6 +431,11 @@ impl Psbt {
                 continue;
             };
 
+            // A signature made with some other key is not valid for `xonly`, the key source is wrong.
+            if XOnlyPublicKey::from(sk.public_key(secp)) != xonly {
+                continue;
+            }
+
             // Considering the responsibility of the PSBT's finalizer to extract valid signatures,
             // the goal of this algorithm is to provide signatures to the best of our ability:
             // 1) If the conditions for key path spend are met, proceed to provide the signature for key path spend
-- 
2.43.0


From 1e575d5d473e5988ba8df9e2d0e71166d9b74e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 29/33] fix: resolve key hashes inside tapscripts before
 satisfying them

`Miniscript::substitute_raw_pkh` only replaces a top level fragment, and a
`pkh` is always wrapped in at least `c:`. With a leaf signature for such
a script the satisfier of rust-miniscript then panics in both finalizers.
Resolve the hashes at any depth, and know the keys that signed as well.
---
 src/lib.rs                     |  2 ++
 src/raw_pkh.rs                 | 48 ++++++++++++++++++++++++++++++++++
 src/v0/miniscript/finalizer.rs | 11 ++++++--
 src/v2/miniscript/finalize.rs  | 11 ++++++--
 4 files changed, 68 insertions(+), 4 deletions(-)
 create mode 100644 src/raw_pkh.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3173c0a..578ed6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,8 @@ mod consts;
 mod error;
 #[macro_use]
 mod macros;
+#[cfg(feature = "miniscript")]
+mod raw_pkh;
 #[cfg(feature = "serde")]
 mod serde_utils;
 mod sighash_type;
diff --git a/src/raw_pkh.rs b/src/raw_pkh.rs
new file mode 100644
index 0000000..f19c72b
--- /dev/null
+++ b/src/raw_pkh.rs
@@ -0,0 +1,48 @@
+// SPDX-License-Identifier: CC0-1.0
+
+//! Resolves the raw public key hashes in a miniscript that was inferred from a tapscript.
+
+use bitcoin::hashes::hash160;
+use bitcoin::key::XOnlyPublicKey;
+use miniscript::{Error, Miniscript, Tap, Terminal};
+
+use crate::prelude::{sync::Arc, BTreeMap};
+
+/// Replaces every `expr_raw_pkh` of `ms` whose key is in `map` with a `pk_h`, at any depth.
+///
+/// This is `Miniscript::substitute_raw_pkh`, except that the latter only reaches the top level
+/// fragment (and a `pkh` is always at least wrapped in `c:`). The satisfier of `rust-miniscript`
+/// panics if it has a tapscript signature for an `expr_raw_pkh`.
+pub(crate) fn resolve_raw_pkh(
+    ms: &Miniscript<XOnlyPublicKey, Tap>,
+    map: &BTreeMap<hash160::Hash, XOnlyPublicKey>,
+) -> Result<Miniscript<XOnlyPublicKey, Tap>, Error> {
+    use Terminal::*;
+
+    let go = |sub: &Arc<Miniscript<XOnlyPublicKey, Tap>>| resolve_raw_pkh(sub, map).map(Arc::new);
+
+    let term = match ms.node {
+        RawPkH(ref hash) => match map.get(hash) {
+            Some(pk) => PkH(*pk),
+            None => RawPkH(*hash),
+        },
+        Alt(ref a) => Alt(go(a)?),
+        Swap(ref a) => Swap(go(a)?),
+        Check(ref a) => Check(go(a)?),
+        DupIf(ref a) => DupIf(go(a)?),
+        Verify(ref a) => Verify(go(a)?),
+        NonZero(ref a) => NonZero(go(a)?),
+        ZeroNotEqual(ref a) => ZeroNotEqual(go(a)?),
+        AndV(ref a, ref b) => AndV(go(a)?, go(b)?),
+        AndB(ref a, ref b) => AndB(go(a)?, go(b)?),
+        AndOr(ref a, ref b, ref c) => AndOr(go(a)?, go(b)?, go(c)?),
+        OrB(ref a, ref b) => OrB(go(a)?, go(b)?),
+        OrD(ref a, ref b) => OrD(go(a)?, go(b)?),
+        OrC(ref a, ref b) => OrC(go(a)?, go(b)?),
+        OrI(ref a, ref b) => OrI(go(a)?, go(b)?),
+        Thresh(ref thresh) => Thresh(thresh.translate_ref(go)?),
+        ref leaf => leaf.clone(),
+    };
+
+    Miniscript::from_ast(term)
+}
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 1227a64..99862f8 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -24,6 +24,7 @@ use miniscript::{
 };
 
 use crate::prelude::*;
+use crate::raw_pkh::resolve_raw_pkh;
 use crate::v0::miniscript::{sanity_check, Error, InputError, Psbt, PsbtInputSatisfier};
 use crate::v0::miniscript::util::witness_size;
 
@@ -49,6 +50,10 @@ fn construct_tap_witness(
             let hash = bitcoin_key.to_pubkeyhash(SigType::Schnorr);
             map.insert(hash, bitcoin_key);
         }
+        // A signature without key origin names its key as well.
+        for (key, _leaf_hash) in psbt_input.tap_script_sigs.keys() {
+            map.insert(key.to_pubkeyhash(SigType::Schnorr), *key);
+        }
     }
     assert!(spk.is_p2tr());
 
@@ -71,8 +76,10 @@ fn construct_tap_witness(
             let ms = match Miniscript::<XOnlyPublicKey, Tap>::parse_with_ext(
                 script,
                 &ExtParams::allow_all(),
-            ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+            )
+            .and_then(|ms| resolve_raw_pkh(&ms, &map))
+            {
+                Ok(ms) => ms,
                 Err(..) => continue, // try another script
             };
             let mut wit = if allow_mall {
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index d66b476..2ffe6b0 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -18,6 +18,7 @@ use miniscript::{
 
 use crate::error::{write_err, FundingUtxoError};
 use crate::prelude::*;
+use crate::raw_pkh::resolve_raw_pkh;
 use crate::v2::map::input::{self, Input};
 use crate::v2::miniscript::satisfy::InputSatisfier;
 use crate::v2::miniscript::InterpreterCheckError;
@@ -322,6 +323,10 @@ fn construct_tap_witness(
 
         map.insert(hash, *key);
     }
+    // A signature without key origin names its key as well.
+    for (key, _leaf_hash) in sat.input.tap_script_sigs.keys() {
+        map.insert(key.to_pubkeyhash(SigType::Schnorr), *key);
+    }
 
     // try the key spend path first
     if let Some(sig) = <InputSatisfier as Satisfier<XOnlyPublicKey>>::lookup_tap_key_spend_sig(&sat)
@@ -341,8 +346,10 @@ fn construct_tap_witness(
             let ms = match Miniscript::<XOnlyPublicKey, Tap>::parse_with_ext(
                 script,
                 &ExtParams::allow_all(),
-            ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+            )
+            .and_then(|ms| resolve_raw_pkh(&ms, &map))
+            {
+                Ok(ms) => ms,
                 Err(..) => continue, // try another script
             };
             let mut wit = if allow_mall {
-- 
2.43.0


From 89825ea7a76aedab4279095fe6c91d1f8530a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:20 +0000
Subject: [PATCH 30/33] fix: refuse multipath keys when updating with a
 descriptor

A `DefiniteDescriptorKey` may be a multipath key, deriving from it panics
in rust-miniscript. Return `ConversionError::MultiKey`, which is what the
later calls to `full_derivation_path` were meant to do.
---
 src/v0/miniscript/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index f9060c6..6ba8928 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -21,8 +21,8 @@ use bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
 use bitcoin::{absolute, bip32, relative, transaction, Script, ScriptBuf};
 
 use miniscript::{
-    descriptor, interpreter, DefiniteDescriptorKey, Descriptor, DescriptorPublicKey, MiniscriptKey,
-    Preimage32, Satisfier, SigType, ToPublicKey, TranslatePk, Translator,
+    descriptor, interpreter, DefiniteDescriptorKey, Descriptor, DescriptorPublicKey, ForEachKey,
+    MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey, TranslatePk, Translator,
 };
 
 use crate::v0::bitcoin::{raw, Input, Output, Psbt};
@@ -1088,6 +1088,11 @@ fn update_item_with_descriptor_helper<F: PsbtFields>(
 ) -> Result<(Descriptor<bitcoin::PublicKey>, bool), descriptor::ConversionError> {
     let secp = secp256k1::Secp256k1::verification_only();
 
+    // `DefiniteDescriptorKey` only excludes wildcards, deriving a multipath key panics.
+    if descriptor.for_any_key(|key| key.full_derivation_path().is_none()) {
+        return Err(descriptor::ConversionError::MultiKey);
+    }
+
     let derived = if let Descriptor::Tr(_) = &descriptor {
         let derived = descriptor.derived_descriptor(&secp)?;
 
-- 
2.43.0


From 872c13a998218e318b0ac0a4fa1c36136dfc7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 31/33] fix: report the cause of invalid keys, signatures and
 tap trees through source()

---
 src/serialize.rs        | 10 +++++-----
 src/v0/bitcoin/error.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/serialize.rs b/src/serialize.rs
index 5ee5e67..5413455 100644
--- a/src/serialize.rs
+++ b/src/serialize.rs
@@ -481,21 +481,21 @@ impl std::error::Error for Error {
         match *self {
             InvalidHash(ref e) => Some(e),
             ConsensusEncoding(ref e) => Some(e),
+            InvalidPublicKey(ref e) => Some(e),
+            InvalidSecp256k1PublicKey(ref e) => Some(e),
+            InvalidEcdsaSignature(ref e) => Some(e),
+            InvalidTaprootSignature(ref e) => Some(e),
+            TapTree(ref e) => Some(e),
             LockTime(ref e) => Some(e),
             UnsupportedVersion(ref e) => Some(e),
             NotEnoughData
             | InvalidProprietaryKey
             | NoMorePairs
             | NonStandardSighashType(_)
-            | InvalidPublicKey(_)
-            | InvalidSecp256k1PublicKey(_)
             | InvalidXOnlyPublicKey
-            | InvalidEcdsaSignature(_)
-            | InvalidTaprootSignature(_)
             | InvalidControlBlock
             | InvalidLeafVersion
             | Taproot(_)
-            | TapTree(_)
             | PartialDataConsumption
             | InvalidScanKey { .. }
             | InvalidEcdhShare { .. } => None,
diff --git a/src/v0/bitcoin/error.rs b/src/v0/bitcoin/error.rs
index 0a16f27..f277061 100644
--- a/src/v0/bitcoin/error.rs
+++ b/src/v0/bitcoin/error.rs
@@ -179,6 +179,11 @@ impl std::error::Error for Error {
         match *self {
             InvalidHash(ref e) => Some(e),
             ConsensusEncoding(ref e) => Some(e),
+            InvalidPublicKey(ref e) => Some(e),
+            InvalidSecp256k1PublicKey(ref e) => Some(e),
+            InvalidEcdsaSignature(ref e) => Some(e),
+            InvalidTaprootSignature(ref e) => Some(e),
+            TapTree(ref e) => Some(e),
             Io(ref e) => Some(e),
             InvalidMagic
             | MissingUtxo
@@ -197,15 +202,10 @@ impl std::error::Error for Error {
             | CombineInconsistentKeySources(_)
             | NegativeFee
             | FeeOverflow
-            | InvalidPublicKey(_)
-            | InvalidSecp256k1PublicKey(_)
             | InvalidXOnlyPublicKey
-            | InvalidEcdsaSignature(_)
-            | InvalidTaprootSignature(_)
             | InvalidControlBlock
             | InvalidLeafVersion
             | Taproot(_)
-            | TapTree(_)
             | XPubKey(_)
             | Version(_)
             | PartialDataConsumption
-- 
2.43.0


From 2afb901c75b327e2513b620d1c6e8136b50c68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 32/33] fix: name the hash type in the display of a wrong
 preimage

---
 src/v2/map/input.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 90b1411..48884fb 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -1002,7 +1002,16 @@ pub enum HashType {
 }
 
 impl fmt::Display for HashType {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", stringify!(self)) }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use HashType::*;
+
+        match *self {
+            Ripemd => f.write_str("ripemd"),
+            Sha256 => f.write_str("sha256"),
+            Hash160 => f.write_str("hash160"),
+            Hash256 => f.write_str("hash256"),
+        }
+    }
 }
 
 /// Error finalizing an input.
-- 
2.43.0


From 558d8a6c70ea87dd81cb6e601e78919426a90dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 33/33] fix: report an invalid scan key or ECDH share as an
 invalid key, not as a wrong length

---
 src/macros.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 0a9827b..2d22f29 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -141,13 +141,15 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.len() != 33 {
             return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
         }
-        let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
-            .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key).map_err(|e| {
+            InsertPairError::Deser($crate::serialize::Error::InvalidSecp256k1PublicKey(e))
+        })?;
         if $raw_value.len() != 33 {
             return Err(InsertPairError::ValueWrongLength($raw_value.len(), 33).into());
         }
-        let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value)
-            .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 33))?;
+        let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value).map_err(|e| {
+            InsertPairError::Deser($crate::serialize::Error::InvalidSecp256k1PublicKey(e))
+        })?;
         match $map.entry(scan_key) {
             $crate::prelude::btree_map::Entry::Vacant(empty_key) => {
                 empty_key.insert(value);
@@ -165,8 +167,9 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.len() != 33 {
             return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
         }
-        let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
-            .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key).map_err(|e| {
+            InsertPairError::Deser($crate::serialize::Error::InvalidSecp256k1PublicKey(e))
+        })?;
         let value = $crate::v2::dleq::DleqProof::try_from($raw_value.as_slice())
             .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 64))?;
         match $map.entry(scan_key) {
-- 
2.43.0

