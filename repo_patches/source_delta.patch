From 1bda097da0774178a25d8e136494e8cf3b04314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:56 +0000
Subject: [PATCH 1/3] fix: a packet timeout closes the stored channel only if
 the packet was sent over it

---
 src/ibc/relay.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..9edea72 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -54,9 +54,11 @@ pub fn ibc_packet_timeout(
     _env: Env,
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
-    // If the channel is ordered, close it.
+    // If the packet was sent over the stored channel and the channel is ordered, close it.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered()
+        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
+    {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From 8007d713ee20dcd5bfd272881c2c8a84439dec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 2/3] fix: OpenAck must not replace a channel that is already
 open

---
 src/ibc/handshake.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..ce82c14 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -46,6 +46,7 @@ pub fn ibc_channel_open(
 /// - The host port is invalid.
 /// - The version metadata is invalid.
 /// - The ICA address is empty.
+/// - Another channel is already open.
 #[entry_point]
 #[allow(clippy::needless_pass_by_value)] // entry point needs this signature
 pub fn ibc_channel_connect(
@@ -170,6 +171,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidIcaAddress);
         }
 
+        // this contract can only store one active channel
+        // if another channel completed its handshake first, return an error
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // update state with the ica info
         state.set_ica_info(
             &metadata.address,
-- 
2.43.0


From 64d44e35e2515e2b2e7dfeb55fec1cb3c63efb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:08 +0000
Subject: [PATCH 3/3] fix: remove the pending queries of a packet acknowledged
 with an error

---
 src/ibc/relay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index 9edea72..883aa8b 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -142,6 +142,9 @@ mod ibc_packet_ack {
         err: String,
     ) -> Result<IbcBasicResponse, ContractError> {
         let state = state::STATE.load(deps.storage)?;
+
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
+
         let error_event = events::packet_ack::error(&packet, &err);
 
         if let Some(contract_addr) = state.callback_address {
-- 
2.43.0

