#ifndef VERIF_AEAD_COMMON_H_
#define VERIF_AEAD_COMMON_H_
#include <memory>
#include "pbt.h"
#include "ref.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "util.h"

using pbt::Bytes;
using pbt::Gen;
using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;
using Crypter = std::unique_ptr<S2AAeadCrypter>;

inline Crypter MakeCrypter(ref::Cipher c, const Bytes& key) {
  auto r = c == ref::kChachaPoly
               ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key)
               : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
  if (r.index() != 1) {
    pbt::fail("creating a crypter with a valid key failed: " +
              absl::get<0>(r).ToString());
  }
  Crypter p = std::move(absl::get<1>(r));
  REQUIRE(p != nullptr);
  return p;
}
inline const char* CipherName(ref::Cipher c) {
  return c == ref::kAes128Gcm   ? "aes128gcm"
         : c == ref::kAes256Gcm ? "aes256gcm"
                                : "chachapoly";
}

// Encrypts and requires the reference result.
inline void CheckEncrypt(Gen& g, S2AAeadCrypter& cr, const Bytes& nonce,
                         const Bytes& aad, const Bytes& pt,
                         const Bytes& want, const std::vector<size_t>* ptsplit = nullptr,
                         const std::vector<size_t>* aadsplit = nullptr) {
  util::Mem mem;
  auto ia = aadsplit ? mem.SegmentsOf<Iovec>(g, aad, *aadsplit) : mem.Segments<Iovec>(g, aad);
  auto ip = ptsplit ? mem.SegmentsOf<Iovec>(g, pt, *ptsplit) : mem.Segments<Iovec>(g, pt);
  size_t slack = g.weighted({3, 1}) ? g.size(100) : 0;
  size_t n = want.size() + slack;
  uint8_t* out = mem.Alloc(g, n, 0x5A);
  auto st = cr.Encrypt(nonce, ia, ip, Iovec{out, n});
  REQUIRE_MSG(st.GetStatus().ok(), st.GetStatus().ToString());
  REQUIRE_EQ(st.GetBytesWritten(), want.size());
  REQUIRE_BYTES(Bytes(out, out + want.size()), want);
  for (size_t i = want.size(); i < n; ++i)
    REQUIRE_MSG(out[i] == 0x5A, "wrote beyond the reported output");
  mem.Check();
  g.label(ip.size() > 1 ? "encrypt:segmented" : "encrypt:single");
}
inline void CheckDecrypt(Gen& g, S2AAeadCrypter& cr, const Bytes& nonce,
                         const Bytes& aad, const Bytes& ct,
                         const Bytes& want, const std::vector<size_t>* ctsplit = nullptr,
                         const std::vector<size_t>* aadsplit = nullptr) {
  util::Mem mem;
  auto ia = aadsplit ? mem.SegmentsOf<Iovec>(g, aad, *aadsplit) : mem.Segments<Iovec>(g, aad);
  auto ic = ctsplit ? mem.SegmentsOf<Iovec>(g, ct, *ctsplit) : mem.Segments<Iovec>(g, ct);
  size_t slack = g.weighted({3, 1}) ? g.size(100) : 0;
  size_t n = want.size() + slack;
  uint8_t* out = mem.Alloc(g, n, 0x5A);
  auto st = cr.Decrypt(nonce, ia, ic, Iovec{out, n});
  REQUIRE_MSG(st.GetStatus().ok(), st.GetStatus().ToString());
  REQUIRE_EQ(st.GetBytesWritten(), want.size());
  REQUIRE_BYTES(Bytes(out, out + want.size()), want);
  for (size_t i = want.size(); i < n; ++i)
    REQUIRE_MSG(out[i] == 0x5A, "wrote beyond the reported output");
  mem.Check();
  g.label(ic.size() > 1 ? "decrypt:segmented" : "decrypt:single");
}
// Decryption that must be refused.
inline void CheckRefused(Gen& g, S2AAeadCrypter& cr, ref::Cipher c, const Bytes& key,
                         const Bytes& nonce, const Bytes& aad, const Bytes& ct) {
  util::Mem mem;
  auto ia = mem.Segments<Iovec>(g, aad);
  auto ic = mem.Segments<Iovec>(g, ct);
  size_t want = ct.size() >= 16 ? ct.size() - 16 : 0;
  size_t n = want + (g.weighted({3, 1}) ? g.size(100) : 0);
  uint8_t fill = g.pick<uint8_t>({0x5A, 0, 0xff});
  uint8_t* out = mem.Alloc(g, n, fill);
  auto st = cr.Decrypt(nonce, ia, ic, Iovec{out, n});
  REQUIRE_MSG(!st.GetStatus().ok(), "forgery accepted");
  REQUIRE_EQ(st.GetBytesWritten(), (size_t)0);
  if (ct.size() > 16 && nonce.size() == 12)
    util::RequireNoLeak(out, n, ref::Raw(c, key, nonce, util::Sub(ct, 0, ct.size() - 16)), fill);
  mem.Check();
}
#endif
