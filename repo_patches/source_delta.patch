From 38db60b86f6fbb419949d5f4820e4143a4279eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 01/12] fix: hmac pads the shortened key, so keys longer than a
 block no longer panic

---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From 9dc11fd17d68a599a3d7d99217b21cfa31f75fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 02/12] fix: hkdf returns exactly the requested number of bytes

---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..9637e70 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut output_key = parts.concat();
+    output_key.truncate(output_length);
+    output_key
 }
 
 
-- 
2.43.0


From 682c3adb10f72df9ae6caa8b0674c41a196701c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 03/12] fix: from_i64 accepts the smallest 64-bit integer

---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..046b7bf 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.unsigned_abs()).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From 57f508fc2af373299107507f5ee9529058fdda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 04/12] fix: shamir reconstruction interpolates through the
 first threshold shares only

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..1ec2f6b 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -131,6 +131,7 @@ where
                 share.clone().mul(
                     shares
                         .iter()
+                        .take(threshold)
                         .filter(|(j, _)| *i != *j)
                         .map(|(j, _)| {
                             T::from_isize(-(*j as isize))
-- 
2.43.0


From 5beef2f721632c4be6d76f5b973e664705430e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 05/12] fix: shamir share generation computes powers in the
 field instead of in usize

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 1ec2f6b..a8d40d2 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -107,7 +107,8 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            let x: T = BigUint::from_usize(x).unwrap().into();
+                            akk + val.clone() * pow(x, *index)
                         }),
                 )
             })
-- 
2.43.0


From d2b3ba36be5ddf899d393ceffe294398419e48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 06/12] fix: keys of missed ratchet messages are stored under
 their own message number

---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..00ccbef 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -484,7 +484,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -492,6 +491,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -516,7 +516,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -524,6 +523,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
-- 
2.43.0


From 0abe1ada1ddb33bd02052ca0beaba786737035d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 07/12] fix: messages skipped at the start of a new ratchet
 chain count towards its length

---
 jester_double_ratchet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 00ccbef..3b18441 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -551,7 +551,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From 5795fdb0316cf1c3d835208ff2665ad2910c23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 08/12] fix: a ratchet step remembers the peer's new public key

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3b18441..ca451ac 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -543,6 +543,7 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
+            self.diffie_hellman_received_key = Some(message.public_key);
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
-- 
2.43.0


From 3f7ce219cc5ce86322e8aac7ba99a644e294bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 09/12] fix: the first message that reaches the initiator need
 not be the first one sent

---
 jester_double_ratchet/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index ca451ac..49fc9a5 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -289,9 +289,22 @@ where
         // update receiving chain
         let (updated_root_key, receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
-        let (receiving_chain_key, message_key) =
+        let (mut receiving_chain_key, mut message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
+        // if earlier messages of this chain were missed, store their keys
+        let mut missed_messages = HashMap::new();
+        for missed_message_number in 0..message.message_number {
+            let (updated_receiving_chain_key, next_message_key) =
+                MessageKdf::derive_key_without_input(receiving_chain_key);
+            missed_messages.insert(
+                (message.public_key.clone(), missed_message_number),
+                message_key,
+            );
+            receiving_chain_key = updated_receiving_chain_key;
+            message_key = next_message_key;
+        }
+
         // decrypt message
         let clear_text = EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
 
@@ -318,10 +331,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages,
             },
             clear_text,
         )
-- 
2.43.0


From 0532ec9af6e2ef424168945f705341dd72accb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 10/12] fix: late messages of an earlier ratchet chain decrypt
 with their stored key

---
 jester_double_ratchet/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 49fc9a5..34d2fe0 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -647,7 +647,16 @@ where
     DHPublicKey: Clone + Eq + Hash,
     State: state::ProtocolState,
 {
-    if protocol.diffie_hellman_received_key.is_none() {
+    if protocol
+        .missed_messages
+        .contains_key(&(message.public_key.clone(), message.message_number))
+    {
+        // the key of this message was stored when it was missed, possibly in a chain that ended since
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
+    } else if protocol.diffie_hellman_received_key.is_none() {
         // this is the first ever message received
         // the message number tells how many messages came before that were missed
         Ok((0, message.message_number))
-- 
2.43.0


From 09be364ae51cbd29d6cbfbf5843112bb1f63e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 11/12] fix: a replayed message of an earlier ratchet chain
 does not start a new chain

---
 jester_double_ratchet/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 34d2fe0..682128e 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -162,6 +162,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_public_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -243,6 +244,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_public_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -335,6 +337,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages,
+                retired_public_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -427,6 +430,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_public_keys: HashSet::new(),
         }
     }
 
@@ -556,7 +560,11 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
-            self.diffie_hellman_received_key = Some(message.public_key);
+            if let Some(retired_public_key) =
+                self.diffie_hellman_received_key.replace(message.public_key)
+            {
+                self.retired_public_keys.insert(retired_public_key);
+            }
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
@@ -650,8 +658,10 @@ where
     if protocol
         .missed_messages
         .contains_key(&(message.public_key.clone(), message.message_number))
+        || protocol.retired_public_keys.contains(&message.public_key)
     {
-        // the key of this message was stored when it was missed, possibly in a chain that ended since
+        // the key of this message was stored when it was missed, possibly in a chain that ended since, or the
+        // message belongs to an ended chain and its key was used already
         Err(ProtocolException::OutOfOrderMessage {
             public_key: message.public_key.clone(),
             message_number: message.message_number,
-- 
2.43.0


From 4539ddfde1ede16fdbe798daa2ddd048dd7b578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 12/12] verif_hooks: message headers readable by verification
 harnesses (guarded by --cfg verif_hooks)

---
 jester_double_ratchet/src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 682128e..6de6adb 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -701,3 +701,30 @@ where
         }
     }
 }
+
+/// Access to message headers for verification harnesses (compiled only with `--cfg verif_hooks`)
+#[cfg(verif_hooks)]
+impl<K, C> DoubleRatchetAlgorithmMessage<K, C> {
+    pub fn verif_new(
+        public_key: K,
+        message_number: usize,
+        previous_chain_length: usize,
+        message: Option<C>,
+    ) -> Self {
+        Self {
+            public_key,
+            message_number,
+            previous_chain_length,
+            message,
+        }
+    }
+
+    pub fn verif_parts(&self) -> (&K, usize, usize, &Option<C>) {
+        (
+            &self.public_key,
+            self.message_number,
+            self.previous_chain_length,
+            &self.message,
+        )
+    }
+}
-- 
2.43.0

