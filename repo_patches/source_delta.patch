From 5054e457ec7e15791fb6186348f79cdd9a44e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:11 +0000
Subject: [PATCH 01/11] Add simulation hooks behind cfg(bip324_sim)

Off by default. They let the simulation checks start a session at an
arbitrary message count.
---
 protocol/src/fschacha20poly1305.rs | 17 +++++++++++++++++
 protocol/src/futures.rs            | 13 +++++++++++++
 protocol/src/io.rs                 | 13 +++++++++++++
 protocol/src/lib.rs                | 20 ++++++++++++++++++++
 4 files changed, 63 insertions(+)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..9f5b0a9 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -175,3 +175,20 @@ impl FSChaCha20 {
         self.chunk_counter += 1;
     }
 }
+
+#[cfg(bip324_sim)]
+impl FSChaCha20Poly1305 {
+    /// Simulation hook: continue as if `n` messages had been processed with the current key.
+    pub fn sim_set_message_count(&mut self, n: u64) {
+        self.message_counter = n;
+    }
+}
+
+#[cfg(bip324_sim)]
+impl FSChaCha20 {
+    /// Simulation hook: continue as if `n` chunks had been processed with the current key.
+    pub fn sim_set_message_count(&mut self, n: u64) {
+        self.chunk_counter = n as _;
+        self.block_counter = (n % REKEY_INTERVAL) as u32 * LENGTH_BYTES;
+    }
+}
diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dd6af62..dceae68 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -254,6 +254,19 @@ pub struct Protocol<R, W> {
     writer: ProtocolWriter<W>,
 }
 
+#[cfg(bip324_sim)]
+impl<R, W> Protocol<R, W> {
+    /// Simulation hook: the cipher of the receiving direction.
+    pub fn sim_inbound(&mut self) -> &mut InboundCipher {
+        &mut self.reader.inbound_cipher
+    }
+
+    /// Simulation hook: the cipher of the sending direction.
+    pub fn sim_outbound(&mut self) -> &mut OutboundCipher {
+        &mut self.writer.outbound_cipher
+    }
+}
+
 impl<R, W> Protocol<R, W>
 where
     R: AsyncRead + Unpin + Send,
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..f564799 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -420,6 +420,19 @@ pub struct Protocol<R, W> {
     writer: ProtocolWriter<W>,
 }
 
+#[cfg(bip324_sim)]
+impl<R, W> Protocol<R, W> {
+    /// Simulation hook: the cipher of the receiving direction.
+    pub fn sim_inbound(&mut self) -> &mut InboundCipher {
+        &mut self.reader.inbound_cipher
+    }
+
+    /// Simulation hook: the cipher of the sending direction.
+    pub fn sim_outbound(&mut self) -> &mut OutboundCipher {
+        &mut self.writer.outbound_cipher
+    }
+}
+
 impl<R, W> Protocol<R, W>
 where
     R: Read,
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..90638c6 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -121,6 +121,8 @@
 //! The protocol supports both genuine packets containing application data and decoy
 //! packets with random data for traffic analysis resistance.
 #![no_std]
+// `bip324_sim` guards hooks for the simulation checks; it is never set in shipped builds.
+#![allow(unknown_lints, unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate std;
@@ -586,6 +588,24 @@ impl InboundCipher {
     }
 }
 
+#[cfg(bip324_sim)]
+impl InboundCipher {
+    /// Simulation hook: jump to the state of a session which received `n` packets.
+    pub fn sim_set_message_count(&mut self, n: u64) {
+        self.length_cipher.sim_set_message_count(n);
+        self.packet_cipher.sim_set_message_count(n);
+    }
+}
+
+#[cfg(bip324_sim)]
+impl OutboundCipher {
+    /// Simulation hook: jump to the state of a session which sent `n` packets.
+    pub fn sim_set_message_count(&mut self, n: u64) {
+        self.length_cipher.sim_set_message_count(n);
+        self.packet_cipher.sim_set_message_count(n);
+    }
+}
+
 /// Encrypts packets to send to the remote peer.
 #[derive(Clone)]
 pub struct OutboundCipher {
-- 
2.43.0


From 19fb51ed7f7eca11c2cdf766d3fa153ba93cd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 02/11] fix: ignore reserved header bits when detecting decoy
 packets

BIP-324 gives meaning only to the ignore bit of the header byte; the
other seven bits must be ignored by the receiver. A decoy with a
reserved bit set was reported as a genuine packet.
---
 protocol/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 90638c6..579588a 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -398,7 +398,8 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        // Only the ignore bit carries meaning, the other bits are reserved and must be ignored.
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From 9a2ac05269a1c2e8e0e5ec070dd71bc609a352e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 03/11] fix: count length chunks of a session with 64 bits

The 32-bit counter overflowed after 2^32 packets in one direction:
a panic in debug builds, a repeated nonce sequence which no other
implementation follows in release builds.
---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index 9f5b0a9..8d0adbe 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_mod = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_mod);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From ec09e6d9468dc566d721d1b8f40569fdc17ca460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 04/11] fix: refuse too small ciphertexts in decrypt_to_vec

The buffer length calculation underflowed for ciphertexts shorter than
an authentication tag instead of returning CiphertextTooSmall.
---
 protocol/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 579588a..9dbed2c 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -575,6 +575,8 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
+
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From f6e70582404d37ea608e5379eb5671ce9c9c9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 05/11] fix: retry interrupted reads while looking for the
 garbage terminator

Every other read of the blocking interface retries EINTR through
read_exact, the raw read in the garbage loop aborted the handshake.
---
 protocol/src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index f564799..d5881a5 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -379,6 +379,7 @@ where
                     Ok(n) => {
                         garbage_buffer.extend_from_slice(&temp[..n]);
                     }
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                     Err(e) => return Err(ProtocolError::from(e)),
                 }
             }
-- 
2.43.0


From edd563e2970443d8c12594b01fec216086d973b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 06/11] fix: refuse to encrypt contents longer than the length
 field can carry

The upper byte of the length was dropped, so the write reported success
and left the remote with a packet it can not decrypt.
---
 protocol/src/io.rs  | 11 ++++++++---
 protocol/src/lib.rs | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index d5881a5..7a71a23 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -578,9 +578,14 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 9dbed2c..bb40860 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -170,6 +170,8 @@ const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + N
 // 14 extra bytes are for the BIP-324 header byte and 13 serialization header bytes (message type).
 #[cfg(feature = "std")]
 const MAX_PACKET_SIZE_FOR_ALLOCATION: usize = 4000014;
+// Largest plaintext length which can be encoded in the length bytes of a packet.
+const MAX_PLAINTEXT_LEN: usize = (1 << (8 * NUM_LENGTH_BYTES)) - 1;
 // Version content is always empty for the current version of the protocol.
 const VERSION_CONTENT: [u8; 0] = [];
 
@@ -636,6 +638,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext length can not be encoded in the length bytes.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -643,6 +646,11 @@ impl OutboundCipher {
         packet_type: PacketType,
         aad: Option<&[u8]>,
     ) -> Result<(), Error> {
+        // Validate the length fits in the length bytes.
+        if plaintext.len() > MAX_PLAINTEXT_LEN {
+            return Err(Error::PacketTooBig);
+        }
+
         // Validate buffer capacity.
         if ciphertext_buffer.len() < Self::encryption_buffer_len(plaintext.len()) {
             return Err(Error::BufferTooSmall {
@@ -693,6 +701,10 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext is too big for a packet, use [`Self::encrypt`] to get an error instead.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -703,7 +715,7 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // Only fails on oversized plaintexts since we allocate the exact required size.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
             .expect("encrypt should never fail with correctly sized buffer");
 
-- 
2.43.0


From 72f4cbb0b6aa3feae4c1d12fe46fc6f3401d171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 07/11] fix: check the announced packet length before
 allocating in sessions

The handshake already refuses oversized packets before allocating. The
session readers allocated whatever an attacker announced, 16 MB for
three unauthenticated bytes, the async one without any limit.
---
 protocol/src/futures.rs | 7 +++++++
 protocol/src/io.rs      | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dceae68..9a2fc10 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -431,6 +431,13 @@ where
                     }
 
                     let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(*length_bytes);
+                    // Refuse before allocating, the length is not authenticated yet.
+                    if InboundCipher::decryption_buffer_len(packet_bytes_len)
+                        > MAX_PACKET_SIZE_FOR_ALLOCATION
+                    {
+                        self.state = DecryptState::init_reading_length();
+                        return Err(ProtocolError::Internal(Error::PacketTooBig));
+                    }
                     self.state = DecryptState::init_reading_payload(packet_bytes_len);
                 }
                 DecryptState::ReadingPayload {
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index 7a71a23..5ee34b8 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -541,6 +541,10 @@ where
         let mut length_bytes = [0u8; NUM_LENGTH_BYTES];
         self.reader.read_exact(&mut length_bytes)?;
         let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(length_bytes);
+        // Refuse before allocating, the length is not authenticated yet.
+        if InboundCipher::decryption_buffer_len(packet_bytes_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
+            return Err(ProtocolError::Internal(Error::PacketTooBig));
+        }
 
         // Read packet data.
         let mut packet_bytes = vec![0u8; packet_bytes_len];
-- 
2.43.0


From 7091687bdc8e3fdf459b429823bf9dc5b912a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 08/11] fix: stop the async writer task when the writer is
 dropped

The decoy interval always stays enabled, so the else branch of the
select never ran: the task lived as long as the runtime and kept the
transport open and the decoys flowing.
---
 traffic/src/futures.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..a1ae30b 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,12 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let cmd = match cmd {
+                    Some(cmd) => cmd,
+                    None => break,
+                };
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +248,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From c494dc957fc9d0e864ff3730dad76d5c87169d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 09/11] fix: start default traffic statistics at the current
 time

The derived Default left the last activity at the epoch, so a fresh
tracker reported more than fifty years of silence.
---
 traffic/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index d7be82a..575d134 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -241,7 +241,7 @@ pub trait TrafficStats: Send + Sync {
 ///
 /// All methods on this struct are safe to call from multiple threads concurrently.
 /// The statistics use atomic operations to ensure consistency without locks.
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct AtomicTrafficStats {
     /// Total bytes read from the connection.
     bytes_read: AtomicU64,
@@ -282,6 +282,12 @@ impl AtomicTrafficStats {
     }
 }
 
+impl Default for AtomicTrafficStats {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl TrafficStats for AtomicTrafficStats {
     fn record_read(&self, bytes: usize) {
         self.bytes_read.fetch_add(bytes as u64, Ordering::Relaxed);
-- 
2.43.0


From 5bffe9b96ba83471bb87af7ffd4a85c96a40ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 10/11] fix: do not ignore failed decoy writes

A failed write consumes a message number and may leave a partial packet
on the wire. Carrying on made later writes report success although the
remote can not decrypt anything of them.
---
 traffic/src/futures.rs |  7 +++++--
 traffic/src/io.rs      | 39 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index a1ae30b..1a4231a 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -244,8 +244,11 @@ async fn writer_task<W, R>(
             // Concurrently send decoys.
             _ = decoy_interval.tick() => {
                 if let Some(decoy) = shaper.decoy(&stats) {
-                    // Ignore write errors for decoys - they're best-effort.
-                    let _ = writer.write(&decoy).await;
+                    // A failed write might have lost a part of the packet, no later packet
+                    // could be decrypted by the remote.
+                    if writer.write(&decoy).await.is_err() {
+                        break;
+                    }
                 }
             }
         }
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..10d96da 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -2,12 +2,14 @@
 
 use core::time::Duration;
 use std::borrow::Borrow;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 use std::thread;
 
-use bip324::io::{Payload, Protocol, ProtocolError, ProtocolReader, ProtocolWriter};
+use bip324::io::{
+    Payload, Protocol, ProtocolError, ProtocolFailureSuggestion, ProtocolReader, ProtocolWriter,
+};
 use bip324::Role;
 use rand::Rng;
 
@@ -19,6 +21,29 @@ use crate::{
 struct WriterState<W, R = rand::rngs::StdRng> {
     writer: ProtocolWriter<W>,
     shaper: TrafficShaper<R>,
+    /// Set once a write failed, the connection might have lost a part of a packet.
+    failed: Option<ErrorKind>,
+}
+
+impl<W, R> WriterState<W, R>
+where
+    W: Write,
+{
+    /// Write payload unless an earlier write failed.
+    fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
+        if let Some(kind) = self.failed {
+            return Err(ProtocolError::Io(
+                std::io::Error::new(kind, "Earlier write failed"),
+                ProtocolFailureSuggestion::Abort,
+            ));
+        }
+
+        let result = self.writer.write(payload);
+        if let Err(ProtocolError::Io(e, _)) = &result {
+            self.failed = Some(e.kind());
+        }
+        result
+    }
 }
 
 /// Traffic-shaped protocol reader half.
@@ -124,6 +149,7 @@ where
         let writer_state = Arc::new(Mutex::new(WriterState {
             writer: protocol_writer,
             shaper,
+            failed: None,
         }));
 
         // Create shutdown flag and spawn decoy thread.
@@ -185,9 +211,9 @@ where
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
         let mut state = self.writer_state.lock().unwrap();
         if let Some(decoy) = state.shaper.pad(payload, &self.stats) {
-            state.writer.write(&decoy)?;
+            state.write(&decoy)?;
         }
-        state.writer.write(payload)?;
+        state.write(payload)?;
 
         Ok(())
     }
@@ -227,7 +253,10 @@ fn decoy_thread<W, R>(
         };
 
         if let Some(decoy) = state.shaper.decoy(&stats) {
-            let _ = state.writer.write(&decoy);
+            // The failure is reported by the next write of the caller.
+            if state.write(&decoy).is_err() {
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 7f6136533fbfff9a0e57503e857802beea76d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:18 +0000
Subject: [PATCH 11/11] Simulation hooks: do not depend on the types of the
 counters

---
 protocol/src/fschacha20poly1305.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index 8d0adbe..b986321 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -180,7 +180,7 @@ impl FSChaCha20 {
 impl FSChaCha20Poly1305 {
     /// Simulation hook: continue as if `n` messages had been processed with the current key.
     pub fn sim_set_message_count(&mut self, n: u64) {
-        self.message_counter = n;
+        self.message_counter = n as _;
     }
 }
 
@@ -189,6 +189,6 @@ impl FSChaCha20 {
     /// Simulation hook: continue as if `n` chunks had been processed with the current key.
     pub fn sim_set_message_count(&mut self, n: u64) {
         self.chunk_counter = n as _;
-        self.block_counter = (n % REKEY_INTERVAL) as u32 * LENGTH_BYTES;
+        self.block_counter = ((n % REKEY_INTERVAL as u64) * LENGTH_BYTES as u64) as _;
     }
 }
-- 
2.43.0

