From ded6014b5b8f42d75af6433fc5f1a46f1b59bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:05 +0000
Subject: [PATCH 01/22] fix: do not leave unverified plaintext in a too small
 output buffer

Decrypt writes plaintext of the leading ciphertext buffers before it notices
that the output is too small, and before the tag is checked. Zero the output
on that path like on the other error paths.
---
 src/crypto/aes_gcm_crypter.cc             | 1 +
 src/crypto/chacha_poly_crypter_openssl.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..98bc239 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -335,6 +335,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             Status(
                 StatusCode::kInvalidArgument,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..7be0eba 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -342,6 +342,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             absl::InvalidArgumentError(
                 "|plaintext| is too small to hold the decrypted ciphertext."),
-- 
2.43.0


From 8ce0033aa128d60557e08d82d662bf028f4b6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:02 +0000
Subject: [PATCH 02/22] fix: reject a null buffer in the tag part of the
 ciphertext

Decrypt checked the ciphertext buffers for null, but copied the buffers holding
the tag without that check, so a null buffer with non-zero length there crashed.
---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 98bc239..1cca7f8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -385,6 +385,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 7be0eba..aef5eef 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -391,6 +391,16 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From c77bfa68653821943655e6698f60881bf3efeb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:57 +0000
Subject: [PATCH 03/22] fix: a handshake message without data is complete after
 its header

The parser kept waiting for data of a zero-length message and parsed the next
message's header as a continuation of it.
---
 src/record_protocol/handshake_message_handler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..aa91584 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -81,6 +81,9 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
           if (num_data_bytes_expecting_to_read_ > 0) {
             state_ = State::READ_DATA;
+          } else {
+            /* A message without data is complete once its header is read. */
+            full_hs_message_read = true;
           }
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
-- 
2.43.0


From 27445972765d8e89fb6382ed4144da06e8e740ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:14 +0000
Subject: [PATCH 04/22] fix: stop after the header when computing a handshake
 message's size

The break only left the inner loop, so with further fragments stored (as after
a refused message) the shift count became negative: undefined behaviour.
---
 src/record_protocol/handshake_message_handler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index aa91584..5fcc1a5 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -228,7 +228,7 @@ uint32_t HandshakeMessageHandler::GetMessageDataSizeFromHeader() {
       at_byte++;
       shift_by -= 8;
       if (at_byte > kTlsHandshakeHeaderLength) {
-        break;
+        return message_data_size;
       }
     }
   }
-- 
2.43.0


From ac7c052c530fb2283aff11c871e3fee4a35a3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 05/22] fix: update the inbound key only when a key update
 message is complete

A key update message split over several records made the handshake message
handler report contains_key_update for every part, and the inbound key was
updated for each of them, after which no record could be decrypted.
---
 src/record_protocol/s2a_crypter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..830a7d8 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -496,8 +496,9 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           result.expecting_to_read_more_bytes;
 
       // Update the inbound key if handshake message contained a key update
-      // message.
-      if (result.contains_key_update) {
+      // message. A key update is the last message in its record, so if more
+      // bytes are expected, only a part of it has been received.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 82f4920b6e18ac4578e1b8247df903c1914b1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:01 +0000
Subject: [PATCH 06/22] fix: do not lose the session tickets when a message
 follows the fifth in part

If the record with the fifth ticket also held the first bytes of a further
ticket, retrieving the stored tickets failed and they were never sent to the
S2A. Application data received before the rest of that ticket was accepted.
---
 src/record_protocol/s2a_crypter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index 830a7d8..3bc017e 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -518,11 +518,11 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           ABSL_FALLTHROUGH_INTENDED;
         case TicketHandlingPhase::RECEIVING:
           // If the limit of number of tickets to process is reached, send all
-          // stored tickets to the S2A.
-          if (result.contains_ticket &&
-              result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
+          // stored tickets to the S2A. The stored tickets cannot be retrieved
+          // while a message is incomplete, so wait for the rest of it first.
+          if (result.num_full_tickets_stored >= kMaxNumTicketsToProcess &&
+              !result.expecting_to_read_more_bytes) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From d7f7f76dcafccc1394eb298fa14fcc08c613626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 07/22] fix: skip empty buffers when parsing TLS records

An |Iovec| of length zero among the protected bytes was read from when the
header of a record was expected there.
---
 src/frame_protector/s2a_frame_protector.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..d0ae75e 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,9 +101,15 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    size_t buffer_length = vecs[iovec_index].iov_len;
+    if (on_iovec_index >= buffer_length) {
+      // Skip an empty |Iovec|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
-    size_t buffer_length = vecs[iovec_index].iov_len;
     switch (header_index) {
       case 0:
         if (buffer[on_iovec_index] != kTls12ApplicationData) {
@@ -166,6 +172,12 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // Skip an empty |Iovec|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From dc50872dea87ae1b7cad34b4f6be7b090283daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 08/22] fix: do not free the buffer of the caller when Protect
 fails

The allocating variant of |Protect| frees it as well, so it was freed twice,
and the other variant freed a buffer it does not own.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d0ae75e..2b59236 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -298,8 +298,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status; |protected_bytes| remains owned
+    // by the caller.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -309,7 +309,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -317,7 +316,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From 92344b56da919a6aa122d458b96db950dc8d275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 09/22] fix: free the plaintext of earlier records when a later
 one is malformed

---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 2b59236..2b30537 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -417,6 +417,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -441,6 +444,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From 859abbd779c9f95a3ffa0fb8f4b46e40307303cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 10/22] fix: return an error if the protected bytes end with a
 partial record

Fewer trailing bytes than the smallest record were silently dropped.
---
 src/frame_protector/s2a_frame_protector.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 2b30537..9170806 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -479,6 +479,14 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
     plaintext.push_back(unprotected_bytes);
     bytes_remaining -= kTls13RecordHeaderLength + payload_size;
   }
+  if (bytes_remaining > 0) {
+    std::string error = "|protected_bytes| ends with a partial TLS record.";
+    logger_(error);
+    for (auto& vec : plaintext) {
+      destroy_(vec);
+    }
+    return {Status(StatusCode::kFailedPrecondition, error), /*bytes=*/{}};
+  }
   return {Status(), plaintext};
 }
 
-- 
2.43.0


From 6cc69f19f8fbfd7329dce45ef4b8befc6e5e3fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 11/22] fix: return an error if there is more than one record
 to unprotect

The variant of |Unprotect| for one record silently dropped whatever followed
the first.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 9170806..7472fc7 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -353,6 +353,12 @@ Status S2AFrameProtector::Unprotect(
   }
   ComputeTlsRecordSizeResult record_size_result =
       absl::get<1>(record_size_status);
+  if (GetTotalIovecLength(protected_bytes) > record_size_result.record_size) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| holds more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
 
   // Create a vector of Iovec's that consists only of the TLS payload.
   absl::variant<Status, IsolateTlsPayloadResult> isolate_status =
-- 
2.43.0


From 95bfbbb932c16cc2c467b4c9e05aa375abc59cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 12/22] fix: lock the half connection while reading its tag
 length

Protecting asks for the tag length of the inbound half connection, whose AEAD
crypter is replaced when the peer updates its key on another thread.
---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0


From 4630f7ce9d74b88541b6aa8be2492eb618219ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:23 +0000
Subject: [PATCH 13/22] fix: keep NUL bytes of identities, tokens and names in
 session requests

|upb_strview_makez| cuts a string at its first NUL byte, so the request
named a different identity, token or host than the one configured.
---
 src/handshaker/s2a_proxy.cc | 62 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..781b624 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -49,6 +49,20 @@ using TlsVersion = ::s2a::s2a_options::S2AOptions::TlsVersion;
 using S2AFrameProtectorOptions =
     ::s2a::frame_protector::S2AFrameProtector::S2AFrameProtectorOptions;
 
+namespace {
+
+// Unlike |upb_strview_makez|, these keep the bytes that follow a NUL byte.
+upb_strview Strview(const std::string& str) {
+  return upb_strview_make(str.data(), str.size());
+}
+
+upb_strview Strview(const Identity& identity) {
+  return upb_strview_make(identity.GetIdentityCString(),
+                          identity.GetIdentityString().size());
+}
+
+}  // namespace
+
 std::unique_ptr<S2AProxy> S2AProxy::Create(S2AProxyOptions& options) {
   if (options.logger == nullptr || options.options == nullptr) {
     return nullptr;
@@ -370,7 +384,7 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
-      client_start, upb_strview_makez(application_protocol_.c_str()),
+      client_start, Strview(application_protocol_),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -434,15 +448,15 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (target_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity, Strview(target_identity));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity, Strview(target_identity));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity, Strview(target_identity));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -469,15 +483,15 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, Strview(local_identity));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, Strview(local_identity));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, Strview(local_identity));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -489,7 +503,7 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the target name to the hostname of the server.
   s2a_proto_ClientSessionStartReq_set_target_name(
-      client_start, upb_strview_makez(target_hostname_.c_str()));
+      client_start, Strview(target_hostname_));
 
   // Attach tokens per local identity, if a token manager exists.
   PopulateTokenCache();
@@ -497,26 +511,26 @@ ProxyStatus S2AProxy::GetClientStart() {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism, Strview(pair.second));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       default:
         logger_(
@@ -552,7 +566,7 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
 
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
-      server_start, upb_strview_makez(application_protocol_.c_str()),
+      server_start, Strview(application_protocol_),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -617,15 +631,15 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, Strview(local_identity));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, Strview(local_identity));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, Strview(local_identity));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -648,26 +662,26 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism, Strview(pair.second));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       default:
         logger_(
@@ -717,26 +731,26 @@ ProxyStatus S2AProxy::GetNext(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism, Strview(pair.second));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, Strview(pair.first));
         break;
       default:
         logger_(
-- 
2.43.0


From 0b3073e695c43b8ecdcca003481891d4d058c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:44 +0000
Subject: [PATCH 14/22] fix: finish the handshake only with a complete and
 valid session result

The handshake was marked as finished before the result was validated, so
after a rejected result CreateFrameProtector() dereferenced a null pointer
and GetS2AContext() returned a null context as a success.
---
 src/handshaker/s2a_proxy.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 781b624..074d839 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -266,7 +266,6 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -276,7 +275,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
               /*buffer=*/nullptr};
     }
     const s2a_proto_SessionState* state = s2a_proto_SessionResult_state(result);
-    result_ = absl::make_unique<S2AHandshakeResult>();
+    auto handshake_result = absl::make_unique<S2AHandshakeResult>();
 
     // Parse and set the TLS version.
     absl::variant<Status, TlsVersion> tls_version_status =
@@ -295,7 +294,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->tls_version = absl::get<1>(tls_version_status);
+    handshake_result->tls_version = absl::get<1>(tls_version_status);
 
     // Parse and set the ciphersuite.
     absl::variant<Status, Ciphersuite> ciphersuite_status =
@@ -314,24 +313,26 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->ciphersuite = absl::get<1>(ciphersuite_status);
+    handshake_result->ciphersuite = absl::get<1>(ciphersuite_status);
 
     upb_strview in_traffic_secret = s2a_proto_SessionState_in_key(state);
-    result_->in_traffic_secret = std::vector<uint8_t>(in_traffic_secret.size);
-    memcpy(result_->in_traffic_secret.data(), in_traffic_secret.data,
+    handshake_result->in_traffic_secret =
+        std::vector<uint8_t>(in_traffic_secret.size);
+    memcpy(handshake_result->in_traffic_secret.data(), in_traffic_secret.data,
            in_traffic_secret.size);
 
     upb_strview out_traffic_secret = s2a_proto_SessionState_out_key(state);
-    result_->out_traffic_secret = std::vector<uint8_t>(out_traffic_secret.size);
-    memcpy(result_->out_traffic_secret.data(), out_traffic_secret.data,
+    handshake_result->out_traffic_secret =
+        std::vector<uint8_t>(out_traffic_secret.size);
+    memcpy(handshake_result->out_traffic_secret.data(), out_traffic_secret.data,
            out_traffic_secret.size);
 
     // |out_sequence| may be nonzero on server-side because, right after the
     // handshake is complete, one or more TLS records containing session tickets
     // may have been generated. This will increment |out_sequence| by the number
     // of TLS records generated.
-    result_->in_sequence = s2a_proto_SessionState_in_sequence(state);
-    result_->out_sequence = s2a_proto_SessionState_out_sequence(state);
+    handshake_result->in_sequence = s2a_proto_SessionState_in_sequence(state);
+    handshake_result->out_sequence = s2a_proto_SessionState_out_sequence(state);
 
     // TODO(matthewstevenson88): Enforce that peer identity is set.
     // TODO(matthewstevenson88) Check that peer identity appears in the list of
@@ -350,9 +351,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       return {Status(StatusCode::kInternal, error),
               /*bytes_consumed=*/0, /*buffer=*/nullptr};
     }
-    result_->local_identity =
+    handshake_result->local_identity =
         s2a_util::ConvertFromProtoToIdentity(local_identity);
-    result_->connection_id = s2a_proto_SessionState_connection_id(state);
+    handshake_result->connection_id =
+        s2a_proto_SessionState_connection_id(state);
 
     // Create the |S2AContext|.
     context_ = absl::make_unique<S2AContext>(
@@ -366,6 +368,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+
+    // The handshake is only finished once the whole result proved to be valid.
+    result_ = std::move(handshake_result);
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
-- 
2.43.0


From 08aafc4e4ab3ae3727f4ea8d22f38e9b7181b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:31 +0000
Subject: [PATCH 15/22] fix: keep NUL bytes of fingerprints, names and
 identities in contexts

Certificate fingerprints are binary; |upb_strview_makez| cut them (and any
other string) at the first NUL byte when serializing an |S2AContext|.
---
 src/handshaker/s2a_context.cc |  9 ++++++---
 src/handshaker/s2a_util.cc    | 12 +++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..6038028 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,7 +75,8 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context, upb_strview_makez(application_protocol_.c_str()));
+      context, upb_strview_make(application_protocol_.data(),
+                                application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
@@ -135,9 +136,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context, upb_strview_make(peer_cert_fingerprint_.data(),
+                                peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context, upb_strview_make(local_cert_fingerprint_.data(),
+                                local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
diff --git a/src/handshaker/s2a_util.cc b/src/handshaker/s2a_util.cc
index d1daa84..955c08a 100644
--- a/src/handshaker/s2a_util.cc
+++ b/src/handshaker/s2a_util.cc
@@ -66,17 +66,23 @@ absl::variant<Status, s2a_proto_Identity*> ConvertIdentityToProto(
     case IdentityType::SPIFFE_ID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_spiffe_id(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::HOSTNAME:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_hostname(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::UID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_uid(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     default:
       return nullptr;
-- 
2.43.0


From e0b1012bbd775b0547d4f1b47b15e1074e0d8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:31 +0000
Subject: [PATCH 16/22] fix: keep NUL bytes of the identity in resumption
 ticket requests

---
 src/record_protocol/s2a_upb_ticket_sender.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_upb_ticket_sender.cc b/src/record_protocol/s2a_upb_ticket_sender.cc
index c7c5ee7..9b40e2f 100644
--- a/src/record_protocol/s2a_upb_ticket_sender.cc
+++ b/src/record_protocol/s2a_upb_ticket_sender.cc
@@ -56,15 +56,21 @@ bool PrepareResumptionTicketReq(
   switch (local_identity.GetIdentityType()) {
     case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
       s2a_proto_Identity_set_spiffe_id(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::HOSTNAME:
       s2a_proto_Identity_set_hostname(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::UID:
       s2a_proto_Identity_set_uid(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     default:
       return false;
-- 
2.43.0


From 3a9a5df3c14b78d5a538565d2bb3260aeb16ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:48 +0000
Subject: [PATCH 17/22] fix: report a failed allocation of the cipher context

EVP_CIPHER_CTX_new returns null when it is out of memory; the crypters went
on to initialise and use the null context.
---
 src/crypto/aes_gcm_crypter.cc             | 5 +++++
 src/crypto/chacha_poly_crypter_openssl.cc | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 1cca7f8..de7a40c 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -431,6 +431,11 @@ absl::variant<Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
+  if (ctx == nullptr) {
+    return Status(
+        StatusCode::kInternal,
+        absl::StrCat("|EVP_CIPHER_CTX_new| failed: ", GetSSLErrors()));
+  }
   if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index aef5eef..14bc3a1 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -435,6 +435,10 @@ CreateChachaPolyAeadCrypter(const std::vector<uint8_t>& key) {
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
+  if (ctx == nullptr) {
+    return absl::InternalError(
+        absl::StrCat("|EVP_CIPHER_CTX_new| failed: ", GetSSLErrors()));
+  }
   if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
-- 
2.43.0


From ff41edca744b620605dd95d9215f16ab5d3f674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 18/22] fix: report SSL errors when no BIO can be allocated

GetSSLErrors passed the null BIO on and built a string from a null pointer,
which throws out of the failing operation.
---
 src/crypto/s2a_aead_crypter_util.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crypto/s2a_aead_crypter_util.cc b/src/crypto/s2a_aead_crypter_util.cc
index a5a225d..5f8f366 100644
--- a/src/crypto/s2a_aead_crypter_util.cc
+++ b/src/crypto/s2a_aead_crypter_util.cc
@@ -26,6 +26,10 @@ namespace aead_crypter {
 
 std::string GetSSLErrors() {
   BIO* bio = BIO_new(BIO_s_mem());
+  if (bio == nullptr) {
+    ERR_clear_error();
+    return "Could not allocate a buffer for the SSL errors.\n";
+  }
   ERR_print_errors(bio);
   char* temp_buffer = nullptr;
   size_t temp_buffer_length = BIO_get_mem_data(bio, &temp_buffer);
-- 
2.43.0


From d304dc3f5482953243faec146484631544e5b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:37 +0000
Subject: [PATCH 19/22] fix: destroy channel options through a virtual
 destructor

The proxy, frame protector and record crypter own the options of the user's
channel as std::unique_ptr<S2AChannelOptionsInterface>, so destroying any
derived options was undefined and leaked their members.
---
 include/s2a_channel_factory_interface.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/s2a_channel_factory_interface.h b/include/s2a_channel_factory_interface.h
index d9bed37..afed050 100644
--- a/include/s2a_channel_factory_interface.h
+++ b/include/s2a_channel_factory_interface.h
@@ -29,7 +29,9 @@ class S2AChannelFactoryInterface {
  public:
   // |S2AChannelOptionsInterface| is an interface for all options needed to
   // build a given |S2AChannelInterface| implementation.
-  struct S2AChannelOptionsInterface {};
+  struct S2AChannelOptionsInterface {
+    virtual ~S2AChannelOptionsInterface() = default;
+  };
 
   virtual ~S2AChannelFactoryInterface() = default;
 
-- 
2.43.0


From e77edeb2c50fac685ce7aa141acdc1f4c0928077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 20/22] fix: pass large buffers to the SSL library in parts it
 can take

---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++----
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++----
 src/crypto/s2a_aead_crypter.cc            | 15 +++++++++++++++
 src/crypto/s2a_aead_crypter.h             |  5 +++++
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index de7a40c..a4607a0 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -100,7 +100,7 @@ static Status DecryptCheckTagAndFinalize(EVP_CIPHER_CTX* ctx, Iovec tag,
 static Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
                                const std::vector<Iovec>& aad) {
   ABSL_ASSERT(ctx != nullptr);
-  for (auto& vec : aad) {
+  for (auto& vec : SplitIovecs(aad)) {
     // If |vec| has no content, proceed to the next |Iovec|. If the length of
     // |vec| is nonzero, then |vec.iov_base| must not be nullptr.
     if (vec.iov_len == 0) {
@@ -130,7 +130,7 @@ static Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
 static Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
                                const std::vector<Iovec>& aad) {
   ABSL_ASSERT(ctx != nullptr);
-  for (auto& vec : aad) {
+  for (auto& vec : SplitIovecs(aad)) {
     // If |vec| has no content, proceed to the next |Iovec|. If the length of
     // |vec| is nonzero, then |vec.iov_base| must not be nullptr.
     if (vec.iov_len == 0) {
@@ -189,7 +189,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     size_t remaining_ciphertext_length = ciphertext_and_tag.iov_len;
 
     // Encrypt |plaintext|.
-    for (const auto& vec : plaintext) {
+    for (const auto& vec : SplitIovecs(plaintext)) {
       // If |vec| has no content, proceed to the next |Iovec|. If the length of
       // |vec| is nonzero, then |vec.iov_base| must not be nullptr.
       if (vec.iov_len == 0) continue;
@@ -271,8 +271,10 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
 
   CrypterStatus Decrypt(const std::vector<uint8_t>& nonce,
                         const std::vector<Iovec>& aad,
-                        const std::vector<Iovec>& ciphertext_and_tag,
+                        const std::vector<Iovec>& input,
                         Iovec plaintext) override {
+    const std::vector<Iovec> ciphertext_and_tag = SplitIovecs(input);
+
     // Input checks.
     if (plaintext.iov_len != 0) {
       ABSL_ASSERT(plaintext.iov_base != nullptr);
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 14bc3a1..0215cf1 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -104,7 +104,7 @@ absl::Status DecryptCheckTagAndFinalize(EVP_CIPHER_CTX* ctx, Iovec tag,
 absl::Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
                               const std::vector<Iovec>& aad) {
   ABSL_ASSERT(ctx != nullptr);
-  for (auto& vec : aad) {
+  for (auto& vec : SplitIovecs(aad)) {
     // If |vec| has no content, proceed to the next |Iovec|. If the length of
     // |vec| is nonzero, then |vec.iov_base| must not be nullptr.
     if (vec.iov_len == 0) {
@@ -134,7 +134,7 @@ absl::Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
 absl::Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
                               const std::vector<Iovec>& aad) {
   ABSL_ASSERT(ctx != nullptr);
-  for (auto& vec : aad) {
+  for (auto& vec : SplitIovecs(aad)) {
     // If |vec| has no content, proceed to the next |Iovec|. If the length of
     // |vec| is nonzero, then |vec.iov_base| must not be nullptr.
     if (vec.iov_len == 0) {
@@ -199,7 +199,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     size_t remaining_ciphertext_length = ciphertext_and_tag.iov_len;
 
     // Encrypt |plaintext|.
-    for (const auto& vec : plaintext) {
+    for (const auto& vec : SplitIovecs(plaintext)) {
       // If |vec| has no content, proceed to the next |Iovec|. If the length of
       // |vec| is nonzero, then |vec.iov_base| must not be nullptr.
       if (vec.iov_len == 0) continue;
@@ -277,8 +277,10 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
 
   CrypterStatus Decrypt(const std::vector<uint8_t>& nonce,
                         const std::vector<Iovec>& aad,
-                        const std::vector<Iovec>& ciphertext_and_tag,
+                        const std::vector<Iovec>& input,
                         Iovec plaintext) override {
+    const std::vector<Iovec> ciphertext_and_tag = SplitIovecs(input);
+
     // Input checks.
     if (plaintext.iov_len != 0) {
       ABSL_ASSERT(plaintext.iov_base != nullptr);
diff --git a/src/crypto/s2a_aead_crypter.cc b/src/crypto/s2a_aead_crypter.cc
index 136264d..e0b508a 100644
--- a/src/crypto/s2a_aead_crypter.cc
+++ b/src/crypto/s2a_aead_crypter.cc
@@ -61,5 +61,20 @@ size_t S2AAeadCrypter::NonceLength() const { return nonce_length_; }
 
 size_t S2AAeadCrypter::TagLength() const { return tag_length_; }
 
+std::vector<Iovec> SplitIovecs(const std::vector<Iovec>& iovecs) {
+  constexpr size_t kMaxLength = size_t{1} << 30;
+  std::vector<Iovec> result;
+  result.reserve(iovecs.size());
+  for (Iovec vec : iovecs) {
+    while (vec.iov_base != nullptr && vec.iov_len > kMaxLength) {
+      result.push_back({vec.iov_base, kMaxLength});
+      vec.iov_base = static_cast<uint8_t*>(vec.iov_base) + kMaxLength;
+      vec.iov_len -= kMaxLength;
+    }
+    result.push_back(vec);
+  }
+  return result;
+}
+
 }  // namespace aead_crypter
 }  // namespace s2a
diff --git a/src/crypto/s2a_aead_crypter.h b/src/crypto/s2a_aead_crypter.h
index af99d14..33e1f04 100644
--- a/src/crypto/s2a_aead_crypter.h
+++ b/src/crypto/s2a_aead_crypter.h
@@ -121,6 +121,11 @@ class S2AAeadCrypter {
   size_t tag_length_;
 };
 
+/** |SplitIovecs| returns Iovec's that together contain the same data as |iovecs|,
+ *  none of which is too large for the SSL library, which takes lengths of type
+ *  |int|. **/
+std::vector<Iovec> SplitIovecs(const std::vector<Iovec>& iovecs);
+
 /** |CreateAesGcmAeadCrypter| creates an |S2AAeadCrypter| instance using the
  *  AES-GCM encryption scheme. It supports 16 and 32 byte-long keys, 12
  *  byte-long nonces, and 16 byte-long tags.
-- 
2.43.0


From 290fc70bfa13602b25419499fae5c9e1f3bdcfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 21/22] fix: derive from secrets longer than HMAC_Init_ex takes

---
 src/crypto/hkdf.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/crypto/hkdf.cc b/src/crypto/hkdf.cc
index e4b06f9..5acc856 100644
--- a/src/crypto/hkdf.cc
+++ b/src/crypto/hkdf.cc
@@ -18,6 +18,7 @@
 
 #include "src/crypto/hkdf.h"
 
+#include <limits.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
 
@@ -32,7 +33,20 @@ static Status HkdfDerivation(HMAC_CTX* hmac, const EVP_MD* digest,
                              uint8_t* buffer, const std::vector<uint8_t>& prk,
                              const std::vector<uint8_t>& info,
                              std::vector<uint8_t>& out) {
-  if (!HMAC_Init_ex(hmac, prk.data(), prk.size(), digest, /*impl=*/nullptr)) {
+  // |HMAC_Init_ex| takes the length of the key as an |int|. HMAC replaces a key
+  // that is longer than a block by its digest.
+  const uint8_t* key = prk.data();
+  size_t key_size = prk.size();
+  uint8_t key_digest[EVP_MAX_MD_SIZE];
+  if (key_size > INT_MAX) {
+    if (!EVP_Digest(key, key_size, key_digest, /*size=*/nullptr, digest,
+                    /*impl=*/nullptr)) {
+      return Status(StatusCode::kInternal, "Initializing HMAC failed.");
+    }
+    key = key_digest;
+    key_size = digest_size;
+  }
+  if (!HMAC_Init_ex(hmac, key, key_size, digest, /*impl=*/nullptr)) {
     return Status(StatusCode::kInternal, "Initializing HMAC failed.");
   }
   size_t done = 0;
-- 
2.43.0


From 0171be0c00d79966125482918929a002a447b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:28 +0000
Subject: [PATCH 22/22] fix: take the connection from a proxy under its lock

---
 src/handshaker/s2a_proxy.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 074d839..8cef799 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -803,7 +803,8 @@ void Destroy(aead_crypter::Iovec iovec) {
 
 absl::StatusOr<std::unique_ptr<S2AFrameProtector>>
 S2AProxy::CreateFrameProtector() {
-  if (!IsHandshakeFinished()) {
+  absl::MutexLock lock(&mu_);
+  if (!is_handshake_finished_) {
     logger_("Handshake is not finished.");
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
@@ -827,7 +828,8 @@ S2AProxy::CreateFrameProtector() {
 }
 
 absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
-  if (!IsHandshakeFinished()) {
+  absl::MutexLock lock(&mu_);
+  if (!is_handshake_finished_) {
     logger_("Handshake is not finished.");
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
-- 
2.43.0

