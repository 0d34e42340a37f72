#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "AEAD output is the standard AEAD for any buffer segmentation",
 "For every supported cipher (AES-128-GCM, AES-256-GCM, ChaCha20-Poly1305), key, nonce, associated data and plaintext, encrypting yields exactly the standard ciphertext followed by the 16-byte tag, and decrypting that yields exactly the plaintext, however the associated data, plaintext and ciphertext are split into buffers (including empty ones) and whatever spare room the output buffer has. The reported byte count is exact (plaintext length + 16 on encryption, ciphertext length - 16 on decryption), nothing is read outside the input buffers or written beyond the reported output, and OpenSSL and BoringSSL builds produce identical bytes.",
 ["inputs", "configurations"],
 "all three ciphers x both SSL builds x keys, nonces, aad/plaintext lengths 0..64 KiB (and around 2^31..2^33 bytes), all segmentations into iovecs",
 "The unit tests use a dozen fixed vectors split in one or two ways; the space of lengths and segmentations (tag straddling buffers, empty buffers in the middle, in-between block boundaries) is unbounded.",
 ["src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/chacha_poly_crypter_boringssl.cc", "src/crypto/s2a_aead_crypter.cc"],
 [("iovec loops in Encrypt/Decrypt", "src/crypto/aes_gcm_crypter.cc"), ("tag reassembly across iovecs", "src/crypto/chacha_poly_crypter_openssl.cc"), ("gather into one vector", "src/crypto/chacha_poly_crypter_boringssl.cc")],
 ["S2AAeadCrypter::Encrypt", "S2AAeadCrypter::Decrypt"])

prop("C02", "AEAD never accepts a forgery and never leaks unverified plaintext",
 "If any bit of the key, nonce, associated data, ciphertext or tag differs from what was produced, or bytes are added, removed or reordered, decryption returns an error with zero bytes reported, and no plaintext byte of the rejected message is left in the output buffer. The outcome of every operation depends only on its own arguments and the key: a crypter gives the same results after any history of successful and failed operations as a freshly created one.",
 ["inputs", "histories"],
 "all single and multi-byte mutations of sealed messages; all operation histories on one crypter",
 "Tests corrupt one fixed byte of one vector and never reuse a crypter after a failed operation in every combination.",
 ["src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/chacha_poly_crypter_boringssl.cc"],
 [("tag check then zeroing of the output", "DecryptCheckTagAndFinalize"), ("per-operation nonce (re)initialisation", "EncryptInitContextUsingNonce/DecryptInitContextUsingNonce")],
 ["S2AAeadCrypter::Decrypt"])

prop("C03", "AEAD rejects invalid arguments cleanly",
 "Every invalid call (key of the wrong size at creation, nonce of the wrong size, a null buffer with non-zero length in any input position, an output buffer too small for the result, ciphertext shorter than a tag) returns an error status and zero bytes written, without crashing, without touching memory outside the given buffers, and without leaving decrypted bytes in the output; the crypter stays usable. Exactly the documented key sizes (16/32 for AES-GCM, 32 for ChaCha20-Poly1305) are accepted, and the key/nonce/tag length and maximum-length queries report the true sizes for every length (ciphertext lengths from one tag up).",
 ["inputs", "histories"],
 "all key sizes 0..64, nonce sizes 0..32, positions of an invalid component, output sizes around the needed size",
 "Tests try one bad value per error path; null components at the position that only holds tag bytes, or output sizes that fit only a prefix of the segments, are not tried.",
 ["src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/chacha_poly_crypter_boringssl.cc", "src/crypto/s2a_aead_crypter.cc"],
 [("length and null checks", "Encrypt/Decrypt"), ("key size switch", "CreateAesGcmAeadCrypter / CreateChachaPolyAeadCrypter")],
 ["CreateAesGcmAeadCrypter", "CreateChachaPolyAeadCrypter", "S2AAeadCrypter::Encrypt", "S2AAeadCrypter::Decrypt"])

prop("C04", "Key derivation equals RFC 5869 HKDF-Expand",
 "For SHA-256 and SHA-384, every pseudorandom key at least as long as the digest, every info string and every output length up to 255 digests, the derived key equals RFC 5869 HKDF-Expand and fills exactly the output buffer, also when the output buffer is the pseudorandom key itself. A too short pseudorandom key, an unknown hash function or a longer output is refused with an error, leaving the output as it was.",
 ["inputs"],
 "prk 0..700 bytes (and 2^31, 2^32 bytes), info 0..300 bytes, out 0..255*L+50 bytes, both hashes, aliased or not",
 "The tests use fixed vectors with at most a few output blocks; block-count boundaries, the 255-block limit and aliasing are not sampled.",
 ["src/crypto/hkdf.cc", "src/crypto/hkdf.h"],
 [("block loop with counter", "HkdfDerivation"), ("size guards", "HkdfDeriveSecret")],
 ["hkdf::HkdfDeriveSecret"])

prop("C05", "Half connection follows the TLS 1.3 key schedule; nonces never repeat",
 "For every supported ciphersuite, traffic secret and starting sequence number, the n-th operation of a half connection uses the TLS 1.3 key and IV derived from the current secret with nonce = IV xor sequence, the sequence advancing by exactly one per attempted operation and restarting at zero with the RFC 8446 7.2 successor secret after each key update, so no (key, nonce) pair is ever used twice. When the 64-bit sequence wraps, every further operation fails until a key update; a secret of the wrong size or an unknown ciphersuite is refused at creation.",
 ["inputs", "histories"],
 "all ciphersuites, secrets, starting sequences (incl. near 2^64 and byte-carry boundaries), histories of encrypt/decrypt/failed/update operations",
 "Tests check three fixed sequences for one record; long histories with failures, carries between sequence bytes, wrap-around and repeated updates are unbounded.",
 ["src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_half_connection.h", "src/record_protocol/s2a_crypter_util.cc"],
 [("nonce masking and overflow flag", "S2AHalfConnection::NonceMask"), ("AdvanceSecret/DeriveKey/DeriveNonce", "S2AHalfConnection::UpdateKey")],
 ["S2AHalfConnection::Encrypt", "S2AHalfConnection::Decrypt", "S2AHalfConnection::UpdateKey"],
 [{"name": "sequence_", "meaning": "next record sequence number", "where": "s2a_half_connection.h"}])

prop("C06", "Protected records are exact TLS 1.3 records",
 "For every record type, plaintext of at most 2^14 bytes in any segmentation, and history of earlier records and outbound key updates, the record written is byte for byte the TLS 1.3 record (outer type 23, version 0x0303, length, AEAD of plaintext plus inner type byte with the header as associated data) for the next outbound sequence number, the reported size is plaintext plus record overhead, and nothing is written past it. Plaintext over 2^14 bytes, a too small output buffer or an unknown record type is refused without consuming a sequence number.",
 ["inputs", "histories"],
 "ciphersuites x record types x lengths 0..2^14+ x segmentations x histories including refused calls and key updates",
 "Tests compare three fixed records per ciphersuite.",
 ["src/record_protocol/s2a_crypter.cc", "src/record_protocol/s2a_half_connection.cc"],
 [("header writing", "WriteTls13RecordHeader"), ("Protect", "S2ACrypter::Protect")],
 ["S2ACrypter::Protect", "S2ACrypter::RecordOverhead"])

prop("C07", "Unprotecting dispatches on content type, padding and header exactly",
 "For every genuine record with any amount of zero padding and any payload segmentation, unprotecting returns exactly the application data, reports close-notify (and then keeps reporting it for every later record), other alerts, too short alerts, unknown or missing content types and oversized records with their own distinct status codes and zero bytes, leaving none of the content of alerts and of records of unknown type in the output buffer, and consumes handshake messages without exposing them as data. An oversized record, or one whose header is not 0x17 0x03 0x03 with the exact length, is refused without consuming a sequence number.",
 ["inputs", "histories"],
 "inner content types 0..255, payload lengths up to the limit and beyond, padding lengths, header mutations, segmentations, record histories",
 "Tests feed a handful of fixed records per case.",
 ["src/record_protocol/s2a_crypter.cc"],
 [("type-byte search from the end", "S2ACrypter::Unprotect"), ("header validation", "ValidateTls13RecordHeader"), ("sticky close notify", "close_notify_received_")],
 ["S2ACrypter::Unprotect"])

prop("C08", "A tampered, replayed, reordered or dropped record never yields data",
 "Over any history in which an adversary may flip bits, truncate, extend, replay, reorder, drop, inject or reflect records between two connected endpoints, the receiver accepts a record only if it is exactly the record the peer sent at that position in that direction under the current key; every other record gives an error, reports zero bytes, and leaves none of its plaintext in the output buffer. Data accepted is therefore always a prefix-by-position subsequence of what was sent, in order, without duplicates.",
 ["histories", "inputs", "fault_sequences"],
 "adversarial schedules of record operations between two endpoints, all ciphersuites",
 "The round-trip tests only run the honest schedule.",
 ["src/record_protocol/s2a_crypter.cc", "src/record_protocol/s2a_half_connection.cc", "src/crypto"],
 [("per-direction secrets and implicit sequence", "S2ACrypter::Create"), ("zeroing on failure", "ZeroOutIovec")],
 ["S2ACrypter::Protect", "S2ACrypter::Unprotect"])

prop("C09", "Handshake message parsing is independent of fragmentation",
 "For every sequence of well-formed session-ticket messages (of any length, including empty) and key updates cut into records in any way, the parser stores exactly the complete tickets (header included) in arrival order up to the limit of five, ignores tickets after the limit or after retrieval, and after each record reports truthfully whether a message is incomplete, whether a key update or ticket was present, the key update type and the number of stored tickets. Stored tickets are returned exactly once, never while a ticket is incomplete; a key update that is not last in its record, or an unknown message type, is an error, and no byte sequence causes a crash or undefined behaviour.",
 ["inputs", "histories"],
 "message lists x cut points x interleaved retrievals x arbitrary garbage bytes",
 "Tests use two fixed fragmentations of fixed tickets.",
 ["src/record_protocol/handshake_message_handler.cc", "src/record_protocol/handshake_message_handler.h"],
 [("READ_HEADER/READ_DATA state machine", "HandshakeMessageHandler::ProcessHandshakeMessage"), ("ticket store", "AddTicketToStore/GetStoredTickets")],
 ["HandshakeMessageHandler::ProcessHandshakeMessage", "HandshakeMessageHandler::GetStoredTickets"])

prop("C10", "Post-handshake messages: keys advance once, tickets are forwarded once",
 "However key updates and session tickets are split over or packed into records, the inbound key advances exactly once per complete key update and never on a part of one, and the peer's tickets (at most five, exact bytes, in order) are handed to the ticket sender exactly once - when the fifth is complete (and no further message is partly received) or when application data first follows a ticket - with the connection's id, local identity and service address. Application data arriving in the middle of a handshake message is an error each time, and changes nothing for the rest of that message; tickets after the hand-off are ignored; a pending ticket send is waited for exactly once at destruction.",
 ["inputs", "histories"],
 "record-level histories of fragmented tickets, key updates, application data and alerts",
 "Tests use whole messages in single records.",
 ["src/record_protocol/s2a_crypter.cc", "src/record_protocol/handshake_message_handler.cc"],
 [("HandleProcessHandshakeMessageResult", "src/record_protocol/s2a_crypter.cc"), ("RetrieveStoredTicketsAndSendToS2A", "src/record_protocol/s2a_crypter.cc"), ("destructor wait", "S2ACrypter::~S2ACrypter")],
 ["S2ACrypter::Unprotect", "TicketSender callback"])

prop("C11", "Frame protector round-trips every byte stream; size queries are exact",
 "For every byte stream, ciphersuite, starting sequence numbers and segmentation on either side (including empty buffers), protecting and then unprotecting with the peer's frame protector returns exactly the same bytes in order; protecting emits ceil(n/2^14) (at least one) TLS records each holding at most 2^14 bytes, identical to the reference TLS 1.3 records. The size queries return exactly the number of bytes produced or the room needed for every length, and both the allocating and the caller-buffer variants agree.",
 ["inputs", "histories"],
 "stream lengths 0..5*2^14 (and about 2^31, 2^32), segmentations of plaintext and of the record stream, sequences of calls in both directions",
 "Tests use fixed lengths and equal chunking.",
 ["src/frame_protector/s2a_frame_protector.cc", "include/s2a_frame_protector.h"],
 [("Protect chunking loop", "S2AFrameProtector::Protect"), ("ComputeTlsRecordSize/IsolateTlsPayload", "src/frame_protector/s2a_frame_protector.cc"), ("NumberBytesToProtect/NumberBytesToUnprotect", "src/frame_protector/s2a_frame_protector.cc")],
 ["S2AFrameProtector::Protect", "S2AFrameProtector::Unprotect", "NumberBytesToProtect", "NumberBytesToUnprotect", "MaxRecordSize"])

prop("C12", "Frame protector is safe on malformed input and balances its buffers",
 "On any input bytes, complete or partial, well-formed or not, the frame protector never crashes or touches memory outside the given buffers; input that is not exactly whole records (exactly one record for the caller-buffer variant) gives an error, and the caller-buffer variant then reports no bytes (given at least as many bytes as an empty record has). On every success and failure path each buffer obtained from the allocator is handed to the caller or released exactly once, and a buffer owned by the caller is never released. This holds too when the allocator has no buffer to give (it returns a null one of no length) or gives one that is too small: the call fails, and nothing is written past the buffer given.",
 ["inputs", "histories", "fault_sequences"],
 "arbitrary and mutated record streams, truncations, trailing bytes, empty iovecs, sequence exhaustion, an allocator that runs short at any request, both directions",
 "Tests use a plain new/delete allocator and a few malformed inputs, and do not count releases.",
 ["src/frame_protector/s2a_frame_protector.cc"],
 [("error paths calling destroy_", "S2AFrameProtector::Protect/Unprotect"), ("bounds in ComputeTlsRecordSize/IsolateTlsPayload", "src/frame_protector/s2a_frame_protector.cc")],
 ["S2AFrameProtector::Protect", "S2AFrameProtector::Unprotect", "allocator/destroy callbacks"])

prop("C13", "Protect and Unprotect may run concurrently",
 "Under every interleaving of one or several threads protecting and one thread unprotecting on the same connection, including inbound key updates, there is no data race and the results equal those of some sequential order: every protected record decrypts in sequence order at the peer and every received record is delivered intact.",
 ["schedules", "histories"],
 "thread schedules of Protect/Unprotect/key update on one frame protector",
 "The tests are single threaded.",
 ["src/frame_protector/s2a_frame_protector.cc", "src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_crypter.cc"],
 [("protect_mu_/unprotect_mu_", "S2AFrameProtector"), ("mu_", "S2AHalfConnection")],
 ["S2AFrameProtector::Protect", "S2AFrameProtector::Unprotect"])

prop("C14", "Session requests say exactly what the options say",
 "For all options (strings in UTF-8, zero bytes allowed), the first request is a client or server start message whose fields (application protocol, TLS version range, ciphersuites in order, local and target identities with their kinds, target name, peer bytes) are exactly those configured, and every later request carries exactly the peer bytes given, encoded per the published proto schema. Calls that break the protocol (client with bytes before the start, more than one client local identity, no peer bytes for a later message), and every call for options naming a TLS version or ciphersuite that does not exist, fail with an error and do not advance the state.",
 ["inputs", "configurations", "histories"],
 "all option sets, roles, byte strings and call orders",
 "Tests check one fixed option set, parsed with the same generated code.",
 ["src/handshaker/s2a_proxy.cc", "src/proto/upb-generated/proto/s2a.upb.h", "src/proto/upb-generated/proto/s2a.upb.c"],
 [("GetClientStart/GetServerStart/GetNext", "src/handshaker/s2a_proxy.cc"), ("is_first_message_", "S2AProxy::GetBytesForS2A")],
 ["S2AProxy::GetBytesForS2A"])

prop("C15", "Session responses: completion, secrets and context are taken over exactly",
 "For every sequence of response messages, a well-formed OK response yields exactly its frames and consumed count, an error status or malformed message yields an error with nothing consumed and nothing to send; the handshake counts as finished exactly from the first OK response carrying a complete valid result on. The frame protector then created uses exactly the delivered ciphersuite, secrets and sequence numbers (it interoperates with the peer's), the context reports exactly the delivered fields, and before completion (or with an unusable result) both requests fail with an error instead of crashing. Should several results be delivered, context and frame protector still belong to one and the same result.",
 ["inputs", "histories"],
 "arbitrary response messages and byte strings, in any order, followed by creation of protectors on both sides",
 "Tests use two fixed responses.",
 ["src/handshaker/s2a_proxy.cc", "src/handshaker/s2a_util.cc"],
 [("result parsing", "S2AProxy::GetBytesForPeer"), ("completion gate", "S2AProxy::CreateFrameProtector/GetS2AContext")],
 ["S2AProxy::GetBytesForPeer", "S2AProxy::IsHandshakeFinished", "S2AProxy::CreateFrameProtector", "S2AProxy::GetS2AContext"])

prop("C16", "Access tokens are attached to the right identity only",
 "Every request carries exactly one authentication mechanism per identity for which a token is obtainable, each token paired with the identity it was issued for: all configured local identities before the service selects one, the selected identity alone afterwards (once its token was obtained also when the manager fails later, until another identity is selected), and the default token with no identity when none is configured. If no token manager is present, none is attached; identities whose token cannot be fetched are skipped, with the configured identities as fallback when the selected one has no token.",
 ["inputs", "configurations", "histories"],
 "sets of identities, token managers failing on any subset and varying over time, selections by the service at any point",
 "Tests use a manager that returns the same token for everything.",
 ["src/handshaker/s2a_proxy.cc"],
 [("PopulateTokenCache", "src/handshaker/s2a_proxy.cc"), ("token_cache_ / selected_local_identity_", "include/s2a_proxy.h")],
 ["S2AProxy::GetBytesForS2A"])

prop("C17", "Context serialization is lossless and schema-conformant",
 "For every context (any application protocol, TLS version, ciphersuite, identities of any kind or absent, binary certificate fingerprints, resumption flag), serializing produces the message of the published schema with exactly those values, and deserializing it (or any equivalent encoding made elsewhere) gives a context equal in every field. Undecodable bytes or unsupported versions or ciphersuites give an error, never a crash or a half-filled context.",
 ["inputs"],
 "all field values including embedded zero bytes; all encodings; arbitrary bytes",
 "Tests use one printable-text context and the same generated code to check it.",
 ["src/handshaker/s2a_context.cc", "src/handshaker/s2a_util.cc", "src/proto/upb-generated/proto/s2a_context.upb.h"],
 [("GetSerializedContext/GetS2AContextFromSerializedContext", "src/handshaker/s2a_context.cc")],
 ["S2AContext::GetSerializedContext", "GetS2AContextFromSerializedContext"])

prop("C18", "Enum and identity conversions are faithful bijections",
 "Every TLS version, ciphersuite and identity converts to its namesake in the proto schema and back to itself, every numeric value outside the supported sets is refused with an error, and each ciphersuite maps to the hash function of its name. No two distinct values share an image.",
 ["inputs"],
 "all 32-bit enum values (boundaries exhaustively, rest sampled), all identity kinds and strings",
 "Tests enumerate the named values only.",
 ["src/handshaker/s2a_util.cc", "src/record_protocol/s2a_crypter_util.cc"],
 [("switch converters", "src/handshaker/s2a_util.cc"), ("CiphersuiteToHashFunction", "src/record_protocol/s2a_crypter_util.cc")],
 ["s2a_util::*", "CiphersuiteToHashFunction"])

prop("C19", "Options behave as the record of the calls made on them; copies are deep",
 "After any sequence of setter and adder calls, the getters return exactly the last values set, the ciphersuites in insertion order with duplicates, and the local and target identities as sets of (kind, string) pairs, with defaults TLS 1.3 / empty. A copy equals its source at the time of copying and is independent afterwards in both directions, and two identities are equal (and hash equally) exactly when their kind and string are equal.",
 ["inputs", "histories"],
 "sequences of setters, adders, copies and destructions with arbitrary strings",
 "Tests run one fixed sequence and one copy.",
 ["src/options/s2a_options.cc", "include/s2a_options.h"],
 [("Copy", "S2AOptions::Copy"), ("Identity equality and hash", "include/s2a_options.h")],
 ["S2AOptions", "S2AOptions::Identity"])

prop("C20", "The single-token manager returns the environment token for everyone",
 "For every value of the access token environment variable at construction, the manager returns exactly that value (the empty string included) as default token and for every identity, any number of times and regardless of later changes to the environment; if the variable is unset, every request fails with a not-found error. It may be called from many threads at once, and the factory builds such a manager.",
 ["inputs", "histories", "schedules"],
 "token values, identities, environment changes between calls, concurrent calls",
 "Tests use one token value and one call order.",
 ["src/token_manager/single_token_access_token_manager.cc", "src/token_manager/single_token_access_token_manager.h"],
 [("snapshot in the constructor", "SingleTokenAccessTokenManager")],
 ["SingleTokenAccessTokenManager::GetToken", "GetDefaultToken", "BuildAccessTokenManager"])

prop("C21", "Resumption ticket requests carry exactly the tickets and connection",
 "For every connection id, identity of a supported kind and list of tickets (any bytes, any number, any length), the request prepared is the schema's resumption message with exactly that id, identity and those tickets in order. With an identity of no kind or without a ticket list, preparation reports failure.",
 ["inputs"],
 "connection ids, identities, ticket lists with arbitrary bytes",
 "Tests use one fixed ticket list.",
 ["src/record_protocol/s2a_upb_ticket_sender.cc", "src/record_protocol/s2a_ticket_sender.h"],
 [("PrepareResumptionTicketReq", "src/record_protocol/s2a_upb_ticket_sender.cc")],
 ["PrepareResumptionTicketReq"])

prop("C22", "SSL error reporting drains the queue and never leaks into later calls",
 "Whatever errors are pending in the SSL library, asking for them returns text naming every one of them in order and leaves the queue empty, so that a second request returns the empty string. No crypto operation (successful or failed) of the library leaves an error pending in that queue.",
 ["inputs", "histories"],
 "queues of 0..15 pending errors of any kind, operation histories",
 "The tests only check the empty queue and one error.",
 ["src/crypto/s2a_aead_crypter_util.cc", "src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/chacha_poly_crypter_boringssl.cc"],
 [("ERR_print_errors into a memory BIO", "GetSSLErrors")],
 ["aead_crypter::GetSSLErrors"])

prop("C23", "Generated message code agrees with the published proto schema",
 "For every message of the schema and every assignment of its fields (all oneof choices, repeated fields of any length, nested messages, identity attribute maps, any enum number), writing the fields with the shipped accessors and serializing yields bytes that a standard protobuf implementation reads as exactly those fields, and messages serialized by a standard implementation are read back by the accessors unchanged. Unset fields read as their defaults and as absent.",
 ["inputs"],
 "all messages, all field assignments",
 "Generated code has no tests of its own; other tests write and read with the same code, so a consistent mistake is invisible.",
 ["src/proto/upb-generated/proto/s2a.upb.h", "src/proto/upb-generated/proto/s2a.upb.c", "src/proto/upb-generated/proto/common.upb.h", "src/proto/upb-generated/proto/common.upb.c", "src/proto/upb-generated/proto/s2a_context.upb.h", "src/proto/upb-generated/proto/s2a_context.upb.c"],
 [("field tables and inline accessors", "src/proto/upb-generated/proto")],
 ["s2a_proto_* accessors"])

prop("C24", "SSL library failures are reported, never become data, leave a known state",
 "Whenever a call into the SSL library fails (allocation, cipher initialisation, encryption, decryption, finalisation, tag handling, HMAC or HKDF), at whatever point of whatever operation, the operation reports an error: creating a crypter, half connection, record crypter or frame protector yields no object; an AEAD operation reports zero bytes, a failing record protection leaves no ciphertext in the output and a failing decryption leaves no unverified plaintext in the output; the failed record uses up its sequence number and every later record still goes out under and is accepted at its own number; after a failed key update the half connection, and so that direction of the connection, never encrypts or decrypts again; a frame protector returns no buffers and releases what it allocated; a key derivation reports the failure. Operations during which no library call fails succeed with the exact result, before and after failures.",
 ["inputs", "fault_sequences", "histories"],
 "any library call failing, instead of or after doing its work, at any point of any history of operations",
 "The unit tests never make the library fail; every one of these branches is untested, and what matters is the state they leave for the operations after.",
 ["src/crypto", "src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_crypter.cc", "src/frame_protector/s2a_frame_protector.cc"],
 [("AEAD error branches", "src/crypto/aes_gcm_crypter.cc"), ("UpdateKey and its failure latch", "src/record_protocol/s2a_half_connection.cc"), ("error branches of the HKDF", "src/crypto/hkdf.cc")],
 ["S2AAeadCrypter::Encrypt", "S2AAeadCrypter::Decrypt", "HkdfDeriveSecret", "S2AHalfConnection", "S2ACrypter", "S2AFrameProtector"])

prop("C25", "Secrets never appear in logs, error messages or standard output",
 "Whatever happens in a session (successful or failing requests and responses, malformed responses, forged, truncated or unexpected records, failing SSL library calls, wrong calls), nothing handed to the logger, returned in an error status or written to the standard streams contains access tokens, traffic secrets, derived keys, session tickets or application data, in plain, hexadecimal, decimal, escaped or base64 form.",
 ["inputs", "histories", "fault_sequences"],
 "all sessions and wrong calls, including the error paths of every layer",
 "Unit tests only compare expected messages on the few error paths they take; nothing looks for secrets in messages.",
 ["src/handshaker/s2a_proxy.cc", "src/handshaker/s2a_util.cc", "src/record_protocol", "src/frame_protector/s2a_frame_protector.cc", "src/crypto"],
 [("logger calls and error strings", "src/handshaker/s2a_proxy.cc, src/record_protocol/s2a_crypter.cc, src/crypto")],
 ["S2AProxyOptions::logger", "absl::Status messages", "CrypterStatus messages", "standard streams"])

prop("C26", "Connections are created exactly from usable parameters, and then work",
 "A record crypter is created exactly when the version is TLS 1.3, the ciphersuite is supported, both traffic secrets have its size, the service address is not empty and logger and ticket sender are present; a frame protector exactly under the same conditions with allocator and destroyer present; a proxy exactly when it has a logger and options. Otherwise creation reports an error (no object). What is created works with exactly the given secrets and sequence numbers, outlives its creation parameters, and releases the channel factory and channel options it was given (running the destructors of the user's classes) no later than at its own end, as does a refused creation.",
 ["inputs", "configurations"],
 "all parameter combinations with any subset of them unusable",
 "Tests try one bad parameter at a time and never observe the lifetime of the channel factory and options.",
 ["src/record_protocol/s2a_crypter.cc", "src/frame_protector/s2a_frame_protector.cc", "src/handshaker/s2a_proxy.cc", "include/s2a_channel_factory_interface.h"],
 [("parameter checks", "S2ACrypter::Create, S2AFrameProtector::Create, S2AProxy::Create"), ("virtual destructors", "include/s2a_channel_factory_interface.h")],
 ["S2ACrypter::Create", "S2AFrameProtector::Create", "S2AProxy::Create"])

prop("C27", "Endpoints finishing a handshake via the service share a secure channel",
 "When a client proxy and a server proxy exchange handshake bytes through the service (which may consume them in any portions, select identities at any response and take any number of rounds), both get every byte of the other side exactly once and in order, authenticate every request with the tokens of the right identities, learn of completion exactly with the result, and end with frame protectors that interoperate: every byte sent by one is received by the other unchanged and in order, also data sent before the other side finished and although the service already used sequence numbers for session tickets; the contexts name the agreed ciphersuite, protocol, identities and certificates, mirrored at the two sides; the client hands the received tickets once to the service with its connection id, identity and address.",
 ["inputs", "histories"],
 "all handshake histories, selections, results, tickets and streams",
 "No test connects two endpoints; each part is tested alone against fixed data, so that a mistake in how they fit together is invisible.",
 ["src/handshaker/s2a_proxy.cc", "src/handshaker/s2a_context.cc", "src/frame_protector/s2a_frame_protector.cc", "src/record_protocol/s2a_crypter.cc"],
 [("handshake state", "S2AProxy::GetBytesForS2A / GetBytesForPeer"), ("hand-over of the result", "S2AProxy::CreateFrameProtector / GetS2AContext")],
 ["S2AProxy", "S2AFrameProtector", "S2AContext"])

prop("C28", "Handshake calls on a proxy are safe from several threads",
 "GetBytesForS2A, GetBytesForPeer and IsHandshakeFinished of one proxy may be called from several threads at the same time, also while one or several threads take the connection from it after completion was seen (CreateFrameProtector, GetS2AContext), and while the service repeats its result: there is no data race, the requests produced are those of some sequential order of the calls (exactly one session start; every other request carries exactly the bytes given to it and the tokens of the identities configured or selected), completion is seen by every thread once the result was delivered and never taken back, and the frame protector and context taken are those of the result.",
 ["schedules", "inputs"],
 "workloads of 1 to 3 requesting threads, one delivering and up to two polling threads which take the connection, results delivered again; OS schedules with random yields",
 "The tests use a proxy from one thread only.",
 ["src/handshaker/s2a_proxy.cc", "include/s2a_proxy.h"],
 [("mutex", "S2AProxy")],
 ["S2AProxy::GetBytesForS2A", "S2AProxy::GetBytesForPeer", "S2AProxy::IsHandshakeFinished", "S2AProxy::CreateFrameProtector", "S2AProxy::GetS2AContext"])

prop("C29", "Memory is used within its bounds and released exactly once",
 "Whatever the history of calls on any part of the library - valid and invalid arguments, malformed records, contexts and responses, refused creations, failing SSL library calls - no memory is accessed outside its bounds, before it is allocated or after it is released, nothing is released twice, and once the caller has destroyed the objects it was given and released the buffers it was handed, every block that the library allocated on the way has been released.",
 ["inputs", "histories", "fault_sequences"],
 "the generated histories of the other properties, single-threaded, with blocks counted over three repetitions of each history (what is allocated once per process is not a leak)",
 "The unit tests run without a leak checker and do not make allocations or SSL calls fail.",
 ["src/crypto/*.cc", "src/record_protocol/*.cc", "src/frame_protector/*.cc", "src/handshaker/*.cc", "src/options/*.cc"],
 [("HMAC_CTX_free", "HkdfDeriveSecret"), ("upb_Arena", "s2a_proxy.cc"), ("destroy_", "S2AFrameProtector")],
 ["HkdfDeriveSecret", "S2AFrameProtector::Create", "S2AProxy::GetBytesForPeer", "S2ACrypter::Create"])

prop("C30", "Behaviour never depends on uninitialised memory",
 "In every history of calls on any part of the library, no decision (branch, status, address) depends on memory that was not initialised, and every byte, count, status and flag handed to the caller is initialised: what a call does is a function of its arguments and of the object's history alone.",
 ["inputs", "histories", "configurations"],
 "the generated histories of the other properties, about a hundredth of their cases, under valgrind memcheck",
 "Uninitialised memory often holds zeros in a short test process, so tests pass by luck.",
 ["src/crypto/*.cc", "src/record_protocol/*.cc", "src/frame_protector/*.cc", "src/handshaker/*.cc", "src/options/*.cc"],
 [("close_notify_received_", "S2ACrypter"), ("bytes_consumed", "S2AProxy::ProxyStatus"), ("state_", "HandshakeMessageHandler")],
 ["S2ACrypter::Create", "S2AProxy::GetBytesForPeer", "HandshakeMessageHandler::ProcessHandshakeMessage"])

prop("C31", "A connection keeps working, and stays small, however long it lives",
 "However many records, key updates, messages, tickets or handshake steps one object handles, and whatever their sizes up to the protocol's own limits, each step gives what the specification says for that step, and the memory the object holds does not grow with the length of its history: the record sequence number counts past every 16-bit boundary, key updates can follow one another hundreds of times, a ticket as long as a handshake message may be is handed over whole, and anything refused, ignored or delivered is released.",
 ["histories"],
 "one object each: up to 65,800 records in each direction, 8,500 key updates of either side, 65,800 messages through a frame protector, 16,700 tickets on a connection, one ticket of up to 2^24-1 bytes, 16,700 requests and responses on one proxy",
 "Unit tests exchange a handful of records per object, so a counter that is too narrow or a list that is never emptied never shows.",
 ["src/crypto/s2a_crypter.cc", "src/record_protocol/s2a_half_connection.cc", "src/handshaker/s2a_proxy.cc", "src/frame_protector/s2a_frame_protector.cc", "src/record_protocol/handshake_message_handler.cc"],
 [("record sequence number", "S2AHalfConnection"), ("resumption_tickets_, pending_handshake_message_", "S2ACrypter"), ("unused bytes", "S2AFrameProtector::Unprotect")],
 ["S2ACrypter::Protect", "S2ACrypter::Unprotect", "S2AFrameProtector::Protect", "S2AFrameProtector::Unprotect", "S2AProxy::GetBytesForPeer"])

prop("C32", "Separate objects do not interfere",
 "What happens on one connection, proxy, crypter, handler, context, options object or token manager never influences another: any interleaving of the histories of separate objects in one thread, and any schedule with each object used, made and destroyed in a thread of its own, gives each exactly the results (bytes, counts, statuses, requests, handed-over tickets) it gives alone, without data races; the SSL errors reported to a thread are its own. Constant objects (options, contexts, identities) and token managers may be read by several threads at once.",
 ["histories", "schedules"],
 "2 to 4 histories on separate objects of one or of different kinds (AEAD, HKDF, half connection, record crypter, handler, frame protector, proxy, context, options, ticket request, token manager, SSL error queue), interleaved or in threads",
 "Unit tests use one object at a time in one thread, so a static buffer or cache shared by all connections never shows.",
 ["src/crypto/*.cc", "src/record_protocol/*.cc", "src/frame_protector/*.cc", "src/handshaker/*.cc", "src/options/*.cc", "src/token_manager/*.cc"],
 [("local buffers of key derivation and records", "hkdf.cc, s2a_half_connection.cc, s2a_crypter.cc"), ("arenas", "s2a_proxy.cc, s2a_context.cc"), ("token_cache_", "S2AProxy")],
 ["HkdfDeriveSecret", "S2ACrypter::Protect", "S2AFrameProtector::Unprotect", "S2AProxy::GetBytesForS2A", "S2AContext::GetSerializedContext"])

prop("C33", "Standard TLS 1.3 peers can talk to applications using S2A",
 "Once a standard TLS 1.3 implementation at the peer and one behind the S2A service have finished any handshake (any of the three ciphersuites, application as client or server, messages arriving in any portions, data of the peer following or overtaking the end of the handshake), the application and the peer read exactly what the other wrote, in order, through any mixture of writes, record padding, fragment sizes, key updates of either side (asked for, answered or not), session tickets of any size and time, and closes: neither side ever refuses a record the other made, what the service is asked for is what TLS needs (name, protocol, ciphersuites), what the context reports is what TLS negotiated, the unread bytes after the handshake are exactly the ones reported, and the peer's tickets are handed over as it made them.",
 ["inputs", "histories", "configurations"],
 "conversations of up to 400 steps after full TLS 1.3 handshakes; application as client or server, with a record crypter or a frame protector; whole sessions through the proxy",
 "The unit tests use recorded vectors and both ends of one implementation, which agree with each other even where both differ from TLS 1.3.",
 ["src/crypto/s2a_crypter.cc", "src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_crypter.cc", "src/frame_protector/s2a_frame_protector.cc", "src/handshaker/s2a_proxy.cc", "src/crypto/hkdf.cc"],
 [("traffic key derivation and update", "S2AHalfConnection"), ("TLSInnerPlaintext", "S2ACrypter::Protect/Unprotect"), ("bytes_consumed", "S2AProxy::GetBytesForPeer")],
 ["S2ACrypter::Protect", "S2ACrypter::Unprotect", "S2AFrameProtector::Unprotect", "S2AProxy::GetBytesForPeer", "S2AProxy::GetS2AContext"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
