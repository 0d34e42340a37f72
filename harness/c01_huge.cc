// C01: buffers longer than the lengths the SSL library can be given at once.
#include <openssl/evp.h>
#ifndef OPENSSL_IS_BORINGSSL
#include <openssl/core_names.h>
#endif

#include "aead_common.h"
#include "alias.h"
using util::Alias;
using util::Real;

namespace {
constexpr size_t kPart = 1 << 28;
struct Ctx {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  ~Ctx() { EVP_CIPHER_CTX_free(c); }
};
const EVP_CIPHER* Evp(ref::Cipher c) {
#ifndef OPENSSL_IS_BORINGSSL
  if (c == ref::kChachaPoly) return EVP_chacha20_poly1305();
#endif
  return c == ref::kAes128Gcm ? EVP_aes_128_gcm() : EVP_aes_256_gcm();
}
void Update(EVP_CIPHER_CTX* c, uint8_t* out, const uint8_t* in, size_t n) {
  for (size_t at = 0; at < n; at += kPart) {
    int k = 0;
    REQUIRE(EVP_EncryptUpdate(c, out ? out + at : nullptr, &k, in + at, (int)std::min(kPart, n - at)));
  }
}
// The standard library, fed in parts.
Bytes Encrypt(ref::Cipher c, const Bytes& key, const Bytes& nonce, const uint8_t* aad, size_t a, const uint8_t* in, size_t n,
              uint8_t* out) {
  Ctx x;
  REQUIRE(EVP_EncryptInit_ex(x.c, Evp(c), nullptr, key.data(), nonce.data()));
  Update(x.c, nullptr, aad, a);
  Update(x.c, out, in, n);
  int k = 0;
  uint8_t rest[16];
  REQUIRE(EVP_EncryptFinal_ex(x.c, rest, &k));
  Bytes tag(16);
  REQUIRE(EVP_CIPHER_CTX_ctrl(x.c, EVP_CTRL_GCM_GET_TAG, 16, tag.data()));
  return tag;
}
void Be64(Bytes* b, size_t at, uint64_t v) {
  for (int i = 0; i < 8; ++i) (*b)[at + i] = (uint8_t)(v >> (56 - 8 * i));
}
// In the field of GCM.
Bytes Times(const Bytes& x, const Bytes& y) {
  Bytes z(16), v = y;
  for (int i = 0; i < 128; ++i) {
    if (x[i / 8] >> (7 - i % 8) & 1)
      for (int k = 0; k < 16; ++k) z[k] ^= v[k];
    bool odd = v[15] & 1;
    for (int k = 15; k > 0; --k) v[k] = (uint8_t)(v[k] >> 1 | v[k - 1] << 7);
    v[0] >>= 1;
    if (odd) v[0] ^= 0xe1;
  }
  return z;
}
// The tag of n bytes of ciphertext without associated data.
Bytes TagOf(ref::Cipher c, const Bytes& key, const Bytes& nonce, const uint8_t* in, size_t n) {
#ifndef OPENSSL_IS_BORINGSSL
  if (c == ref::kChachaPoly) {
    Bytes iv(4), zero(32), one_time(32), tail((16 - n % 16) % 16 + 16);
    iv.insert(iv.end(), nonce.begin(), nonce.end());
    {
      Ctx x;
      int k;
      REQUIRE(EVP_EncryptInit_ex(x.c, EVP_chacha20(), nullptr, key.data(), iv.data()));
      REQUIRE(EVP_EncryptUpdate(x.c, one_time.data(), &k, zero.data(), 32));
    }
    for (int i = 0; i < 8; ++i) tail[tail.size() - 8 + i] = (uint8_t)((uint64_t)n >> (8 * i));
    EVP_MAC* m = EVP_MAC_fetch(nullptr, "POLY1305", nullptr);
    EVP_MAC_CTX* x = EVP_MAC_CTX_new(m);
    Bytes tag(16);
    size_t k = 0;
    bool ok = EVP_MAC_init(x, one_time.data(), 32, nullptr) && EVP_MAC_update(x, in, n) &&
              EVP_MAC_update(x, tail.data(), tail.size()) && EVP_MAC_final(x, tag.data(), &k, 16);
    EVP_MAC_CTX_free(x);
    EVP_MAC_free(m);
    REQUIRE_MSG(ok, "reference tag");
    return tag;
  }
#endif
  // The tag of the same bytes as associated data differs by the lengths.
  Bytes h(16), had(16), want(16), tag(16), zero(16);
  size_t padded = (n + 15) / 16 * 16;
  {
    Ctx x;
    int k;
    REQUIRE(EVP_EncryptInit_ex(x.c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr));
    REQUIRE(EVP_EncryptUpdate(x.c, h.data(), &k, zero.data(), 16));
  }
  {
    Ctx x;
    int k = 0;
    REQUIRE(EVP_EncryptInit_ex(x.c, Evp(c), nullptr, key.data(), nonce.data()));
    Update(x.c, nullptr, in, n);
    Update(x.c, nullptr, zero.data(), padded - n);
    uint8_t rest[16];
    REQUIRE(EVP_EncryptFinal_ex(x.c, rest, &k));
    REQUIRE(EVP_CIPHER_CTX_ctrl(x.c, EVP_CTRL_GCM_GET_TAG, 16, tag.data()));
  }
  Be64(&had, 0, (uint64_t)padded * 8);
  Be64(&want, 8, (uint64_t)n * 8);
  for (int i = 0; i < 16; ++i) had[i] ^= want[i];
  Bytes d = Times(had, h);
  for (int i = 0; i < 16; ++i) tag[i] ^= d[i];
  return tag;
}
// The key stream applied to n bytes at an offset that is a multiple of 64.
Bytes Stream(ref::Cipher c, const Bytes& key, const Bytes& nonce, const uint8_t* in, size_t at, size_t n) {
  Ctx x;
  Bytes iv, out(n);
  const EVP_CIPHER* e;
#ifndef OPENSSL_IS_BORINGSSL
  if (c == ref::kChachaPoly) {
    uint32_t k = (uint32_t)(1 + at / 64);
    iv = {(uint8_t)k, (uint8_t)(k >> 8), (uint8_t)(k >> 16), (uint8_t)(k >> 24)};
    iv.insert(iv.end(), nonce.begin(), nonce.end());
    e = EVP_chacha20();
  } else
#endif
  {
    uint32_t k = (uint32_t)(2 + at / 16);
    iv = nonce;
    for (int i = 24; i >= 0; i -= 8) iv.push_back((uint8_t)(k >> i));
    e = key.size() == 16 ? EVP_aes_128_ctr() : EVP_aes_256_ctr();
  }
  int k;
  REQUIRE(EVP_EncryptInit_ex(x.c, e, nullptr, key.data(), iv.data()));
  REQUIRE(EVP_EncryptUpdate(x.c, out.data(), &k, in + at, (int)n));
  return out;
}
size_t HugeSize(Gen& g) {
  size_t base = g.pick<size_t>({1ull << 32, 1ull << 31, 3ull << 30, 1ull << 33});
  return base + (g.boolean() ? g.below(200) : 0) - (g.boolean() ? g.below(200) : 0);
}
// The bytes as a few buffers, one of them huge.
std::vector<Iovec> Cut(Gen& g, uint8_t* p, size_t n) {
  std::vector<Iovec> v;
  size_t before = g.boolean() ? g.below(70) : 0, after = g.boolean() ? g.below(70) : 0;
  if (before) v.push_back({p, before});
  v.push_back({p + before, n - before - after});
  if (after) v.push_back({p + n - after, after});
  return v;
}
}  // namespace

PROPERTY(huge_buffers, 16, 160,
         "plaintext, ciphertext or associated data of about 2^31, 3*2^30, 2^32 and 2^33 bytes in one buffer (with small ones "
         "around it), against the SSL library fed in parts; non-trivial: all") {
#ifdef OPENSSL_IS_BORINGSSL
  ref::Cipher c = (ref::Cipher)g.below(2);  // The ChaCha one copies its input.
#else
  ref::Cipher c = (ref::Cipher)g.below(3);
#endif
  int what = (int)g.below(3);
  Bytes key = g.random_bytes(ref::KeySize(c)), nonce = g.random_bytes(12);
  size_t n = HugeSize(g);
  uint64_t salt = g.u64();
  g.note(CipherName(c)).note(what == 0 ? " encrypt " : what == 1 ? " decrypt " : " associated data ").note(n);
  Crypter cr = MakeCrypter(c, key);
  Alias in(n + 16);
  in.Fill(salt);
  size_t tail = std::min(n, Alias::kWindow / 2), at = (n - tail) / 64 * 64;
  tail = n - at;
#ifndef OPENSSL_IS_BORINGSSL
  if (what == 0 && c == ref::kChachaPoly) {
    // OpenSSL authenticates what it wrote after all of an update was written:
    // no two parts of the output may share memory here.
    if (n > 3ull << 30 && !g.chance(1, 3)) n = (1ull << 31) + n % 400 - 200;
    if (n > 5ull << 30) n -= 1ull << 32;
    g.note(" as ").note(n);
    Real out(n + 16);
    auto s = cr->Encrypt(nonce, {}, Cut(g, in.data(), n), Iovec{out.data(), n + 16});
    REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
    REQUIRE_EQ(s.GetBytesWritten(), n + 16);
    for (size_t k = 0; k < 9; ++k) {
      size_t from = k == 0 ? 0 : k == 1 ? n - 1000 : g.below(n - 1000);
      from -= from % 64;
      size_t count = std::min<size_t>(n - from, k == 1 ? 2000 : 1000);
      REQUIRE_BYTES(Bytes(out.data() + from, out.data() + from + count), Stream(c, key, nonce, in.data(), from, count));
    }
    REQUIRE_BYTES(Bytes(out.data() + n, out.data() + n + 16), TagOf(c, key, nonce, out.data(), n));
    g.label("encrypted in real memory");
    g.nontrivial();
    return;
  }
#endif
  if (what == 0) {
    Bytes want_tail, tag;
    {
      Alias out(n + 16);
      tag = Encrypt(c, key, nonce, nullptr, 0, in.data(), n, out.data());
      want_tail.assign(out.data() + at, out.data() + n);
    }
    Alias out(n + 16);
    size_t room = g.below(9);
    auto s = cr->Encrypt(nonce, {}, Cut(g, in.data(), n), Iovec{out.data(), n + 16 + (n % Alias::kWindow < 1000 ? room : 0)});
    REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
    REQUIRE_EQ(s.GetBytesWritten(), n + 16);
    REQUIRE_BYTES(Bytes(out.data() + at, out.data() + n), want_tail);
    REQUIRE_BYTES(Bytes(out.data() + n, out.data() + n + 16), tag);
  } else if (what == 1) {
    // The last window's end is the tag's.
    Bytes tag = TagOf(c, key, nonce, in.data(), n);
    bool apart = g.boolean() || n / Alias::kWindow != (n + 15) / Alias::kWindow || n % Alias::kWindow == 0;
    std::vector<Iovec> v;
    if (apart) {
      v = Cut(g, in.data(), n);
      v.push_back({tag.data(), 16});
    } else {
      memcpy(in.data() + n, tag.data(), 16);
      v = Cut(g, in.data(), n + 16);
    }
    Alias out(n);
    auto s = cr->Decrypt(nonce, {}, v, Iovec{out.data(), n});
    REQUIRE_MSG(s.GetStatus().ok(), "genuine ciphertext refused: " << s.GetStatus().ToString());
    REQUIRE_EQ(s.GetBytesWritten(), n);
    REQUIRE_BYTES(Bytes(out.data() + at, out.data() + n), Stream(c, key, nonce, in.data(), at, tail));
  } else {
    Bytes pt = g.bytes(g.small_size(200)), out(pt.size() + 16), back(pt.size() + 1), want(pt.size());
    Bytes tag = Encrypt(c, key, nonce, in.data(), n, pt.data(), pt.size(), want.data());
    want.insert(want.end(), tag.begin(), tag.end());
    auto aad = Cut(g, in.data(), n);
    auto s = cr->Encrypt(nonce, aad, {Iovec{pt.data(), pt.size()}}, Iovec{out.data(), out.size()});
    REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
    REQUIRE_EQ(s.GetBytesWritten(), want.size());
    REQUIRE_BYTES(out, want);
    s = cr->Decrypt(nonce, aad, {Iovec{out.data(), out.size()}}, Iovec{back.data(), pt.size()});
    REQUIRE_MSG(s.GetStatus().ok(), "genuine ciphertext refused: " << s.GetStatus().ToString());
    REQUIRE_EQ(s.GetBytesWritten(), pt.size());
    back.resize(pt.size());
    REQUIRE_BYTES(back, pt);
    // A different byte far into it.
    in.data()[n - 1 - g.below(1000)] ^= 1;
    s = cr->Decrypt(nonce, aad, {Iovec{out.data(), out.size()}}, Iovec{back.data(), pt.size()});
    REQUIRE_MSG(!s.GetStatus().ok() && s.GetBytesWritten() == 0, "accepted with other associated data");
  }
  g.nontrivial();
}
