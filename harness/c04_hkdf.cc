// C04: HkdfDeriveSecret is RFC 5869 HKDF-Expand.
#include <openssl/evp.h>

#include "pbt.h"
#include "ref.h"
#include "src/crypto/hkdf.h"

using pbt::Bytes;
using pbt::Gen;
using s2a::hkdf::HashFunction;
using s2a::hkdf::HkdfDeriveSecret;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

static HashFunction Fn(ref::Hash h) {
  return h == ref::kSha256 ? HashFunction::SHA256_hash_function : HashFunction::SHA384_hash_function;
}

static void One(Gen& g, ref::Hash h, const Bytes& prk, const Bytes& info, size_t n, bool alias) {
  g.note(h == ref::kSha256 ? "sha256" : "sha384").note(" prk=").note(prk.size()).note(" info=").note(info.size()).note(" out=").note(n).note(alias ? " aliased" : "");
  bool valid = prk.size() >= ref::HashSize(h) && n <= 255 * ref::HashSize(h);
  g.label(valid ? "valid" : "refused");
  if (alias) g.label("aliased");
  Bytes p = prk, i = info, out, before;
  if (alias) {
    // The output vector is the key.
    before = p;
    absl::Status st = HkdfDeriveSecret(Fn(h), p, i, p);
    out = p;
    REQUIRE_MSG(st.ok() == valid, st.ToString());
  } else {
    out = g.bytes(n);
    out.shrink_to_fit();
    before = out;
    const uint8_t* data = out.data();
    absl::Status st = HkdfDeriveSecret(Fn(h), p, i, out);
    REQUIRE_MSG(st.ok() == valid, st.ToString());
    REQUIRE(p == prk);
    (void)data;
  }
  REQUIRE(i == info);
  REQUIRE_EQ(out.size(), n);
  if (valid) {
    REQUIRE_BYTES(out, ref::HkdfExpand(h, prk, info, n));
  } else {
    REQUIRE_BYTES(out, before);
  }
  g.nontrivial(valid && n > 0);
}

PROPERTY(every_output_length, 2 * 12400, 2 * 12400 * 8,
         "both hashes, every output length 0..12399 (the limits are 8160 and "
         "12240), random prk and info; non-trivial: valid and output not "
         "empty") {
  uint64_t i = g.sweep(2 * 12400);
  ref::Hash h = (ref::Hash)(i % 2);
  size_t p = ref::HashSize(h) + (g.boolean() ? g.small_size(200) : 0);
  One(g, h, g.bytes(p), g.bytes(g.small_size(100)), i / 2, false);
}

PROPERTY(every_prk_info_length, 2 * 700 * 4, 2 * 700 * 80,
         "both hashes, every prk length 0..699 and info length 0..699; "
         "non-trivial: valid and output not empty") {
  uint64_t i = g.sweep(2 * 700 * 2);
  ref::Hash h = (ref::Hash)(i % 2);
  size_t l = (i / 2) % 700;
  bool prk = (i / 1400) % 2;
  size_t p = prk ? l : ref::HashSize(h) + g.small_size(60);
  size_t q = prk ? g.small_size(100) : l;
  One(g, h, g.bytes(p), g.bytes(q), g.small_size(200), false);
}

PROPERTY(aliased, 2 * 2000, 2 * 14000,
         "output buffer is the prk itself, every size 0..1999; non-trivial: "
         "valid and output not empty") {
  uint64_t i = g.sweep(2 * 14000);
  ref::Hash h = (ref::Hash)(i % 2);
  Bytes prk = g.bytes(i / 2);
  One(g, h, prk, g.bytes(g.small_size(100)), prk.size(), true);
}

PROPERTY(general, 40000, 1000000,
         "boundary-biased prk, info and output sizes; prk sizes around the "
         "digest size; non-trivial: valid and output not empty") {
  ref::Hash h = (ref::Hash)g.below(2);
  size_t d = ref::HashSize(h);
  size_t p = g.weighted({3, 3, 2}) == 0 ? d : g.boolean() ? g.size(5000) : d - 2 + g.below(5);
  size_t n;
  switch (g.below(4)) {
    case 0:
      n = g.size(20000);
      break;
    case 1:
      n = 255 * d - 3 + g.below(8);
      break;
    case 2:
      n = d * g.below(256);
      break;
    default:
      n = g.small_size(200);
  }
  Bytes prk = g.bytes(p);
  size_t info_n = g.weighted({6, 1}) ? g.size(70000) : g.small_size(300);
  One(g, h, prk, g.bytes(info_n), n, false);
}

PROPERTY(unknown_hash, 3000, 50000,
         "hash function values outside the enumeration; non-trivial: all") {
  int v = (int)g.number();
  if (v == 0 || v == 1) v = 2;
  Bytes out = g.bytes(g.small_size(100)), before = out;
  g.note("hash value ").note(v);
  absl::Status st = HkdfDeriveSecret((HashFunction)v, g.bytes(64), g.bytes(g.small_size(50)), out);
  REQUIRE(!st.ok());
  REQUIRE_BYTES(out, before);
  g.nontrivial();
}

PROPERTY(prefix_consistent, 6000, 100000,
         "a shorter output is a prefix of a longer one; repeated calls agree; "
         "non-trivial: lengths differ") {
  ref::Hash h = (ref::Hash)g.below(2);
  Bytes prk = g.bytes(ref::HashSize(h) + g.small_size(100)), info = g.bytes(g.small_size(200));
  size_t a = g.size(3000), b = g.size(3000);
  Bytes x(std::min(a, b)), y(std::max(a, b)), z(x.size());
  g.note(x.size()).note(" ").note(y.size());
  REQUIRE(HkdfDeriveSecret(Fn(h), prk, info, x).ok());
  REQUIRE(HkdfDeriveSecret(Fn(h), prk, info, y).ok());
  REQUIRE(HkdfDeriveSecret(Fn(h), prk, info, z).ok());
  REQUIRE_BYTES(x, z);
  REQUIRE_BYTES(x, Bytes(y.begin(), y.begin() + x.size()));
  REQUIRE_BYTES(y, ref::HkdfExpand(h, prk, info, y.size()));
  g.nontrivial(a != b);
}

PROPERTY(huge_secret, 2, 4,
         "a prk of about 2^31 or 2^32 bytes, which HMAC replaces by its digest; "
         "non-trivial: all") {
  uint64_t which = g.sweep(4);
  ref::Hash h = (ref::Hash)((1 + which + which / 2) % 2);
  size_t d = ref::HashSize(h);
  size_t n = (which % 2 ? (1ull << 32) : (1ull << 31)) + g.below(100);
  Bytes prk(n), key(d), info = g.bytes(g.small_size(100)), out(g.small_size(200));
  g.note(h == ref::kSha256 ? "sha256" : "sha384").note(" prk=").note(n).note(" out=").note(out.size());
  uint64_t salt = g.u64();
  for (size_t at = 0; at < n; at += 4099) prk[at] = (uint8_t)((salt + at) * 0x9E3779B97F4A7C15ull >> 56);
  for (size_t at : {(size_t)0, (n - 1) / 2, n - 70})
    for (size_t i = 0; i < 70; ++i) prk[at + i] ^= (uint8_t)(i * 37 + 1);
  EVP_MD_CTX* x = EVP_MD_CTX_new();
  bool ok = EVP_DigestInit_ex(x, h == ref::kSha256 ? EVP_sha256() : EVP_sha384(), nullptr);
  for (size_t at = 0; at < n; at += 1 << 28) ok &= EVP_DigestUpdate(x, prk.data() + at, std::min<size_t>(1 << 28, n - at));
  ok &= EVP_DigestFinal_ex(x, key.data(), nullptr);
  EVP_MD_CTX_free(x);
  REQUIRE_MSG(ok, "reference digest");
  absl::Status st = HkdfDeriveSecret(Fn(h), prk, info, out);
  REQUIRE_MSG(st.ok(), st.ToString());
  REQUIRE_BYTES(out, ref::HkdfExpand(h, key, info, out.size()));
  g.nontrivial();
}
