// Reference implementations, written from the standards and independent of
// any SSL library: the oracle for the code under test.
//   AES (FIPS 197), GCM (SP 800-38D), ChaCha20-Poly1305 (RFC 8439),
//   SHA-2 (FIPS 180-4), HMAC (RFC 2104), HKDF-Expand (RFC 5869),
//   TLS 1.3 key schedule and records (RFC 8446).
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <cstdint>
#include <string>
#include <vector>

namespace ref {
using Bytes = std::vector<uint8_t>;

enum Cipher { kAes128Gcm = 0, kAes256Gcm = 1, kChachaPoly = 2 };
inline size_t KeySize(Cipher c) { return c == kAes128Gcm ? 16 : 32; }

// ciphertext || 16-byte tag.
Bytes Seal(Cipher c, const Bytes& key, const Bytes& nonce, const Bytes& aad,
           const Bytes& plaintext);
// False if the tag does not verify.
bool Open(Cipher c, const Bytes& key, const Bytes& nonce, const Bytes& aad,
          const Bytes& sealed, Bytes* plaintext);

// The keystream applied to in, unauthenticated: what a decryption that forgot
// to check the tag would output.
Bytes Raw(Cipher c, const Bytes& key, const Bytes& nonce, const Bytes& in);

enum Hash { kSha256 = 0, kSha384 = 1 };
inline size_t HashSize(Hash h) { return h == kSha256 ? 32 : 48; }
Bytes Digest(Hash h, const Bytes& m);
Bytes Hmac(Hash h, const Bytes& key, const Bytes& m);
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t n);

// TLS 1.3 ciphersuites: 0 = AES_128_GCM_SHA256, 1 = AES_256_GCM_SHA384,
// 2 = CHACHA20_POLY1305_SHA256.
inline Hash SuiteHash(int suite) { return suite == 1 ? kSha384 : kSha256; }
Bytes ExpandLabel(Hash h, const Bytes& secret, const std::string& label,
                  const Bytes& context, size_t n);

// One direction of a TLS 1.3 connection.
struct HalfConn {
  int suite;
  Bytes secret, key, iv;
  uint64_t seq;
  HalfConn(int suite, const Bytes& secret, uint64_t seq);
  void Update();  // RFC 8446 7.2
  Bytes Nonce() const { return NonceFor(seq); }
  Bytes NonceFor(uint64_t s) const;
  // Without touching seq:
  Bytes SealAt(uint64_t s, const Bytes& aad, const Bytes& plaintext) const;
  bool OpenAt(uint64_t s, const Bytes& aad, const Bytes& sealed,
              Bytes* plaintext) const;
  // The full record for inner content (content || type || padding).
  Bytes RecordAt(uint64_t s, const Bytes& inner) const;
};

// Aborts if a known-answer test fails.
void SelfTest();
}  // namespace ref
#endif
