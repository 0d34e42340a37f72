// C01: AEAD output is the standard AEAD for any buffer segmentation.
#include "aead_common.h"

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

static void RoundTrip(Gen& g, ref::Cipher c, size_t n, size_t a) {
  Bytes key = g.bytes(ref::KeySize(c)), nonce = g.bytes(12), aad = g.bytes(a),
        pt = g.bytes(n);
  g.note(CipherName(c)).note(" plaintext=").note(n).note(" aad=").note(a);
  g.label(CipherName(c));
  Crypter cr = MakeCrypter(c, key);
  Bytes want = ref::Seal(c, key, nonce, aad, pt);
  CheckEncrypt(g, *cr, nonce, aad, pt, want);
  CheckDecrypt(g, *cr, nonce, aad, want, pt);
  if (n == 0) g.label("empty plaintext");
  if (a == 0) g.label("empty aad");
  if (n > 16384) g.label("plaintext>16384");
  g.nontrivial(n > 0);
}

// Every plaintext length from 0 to 16400, each cipher.
PROPERTY(every_length, 3 * 16401, 3 * 16401 * 6,
         "plaintext of every length 0..16400 for each cipher with random key, "
         "nonce, aad, contents, segmentation and slack, encrypted and "
         "decrypted against the reference AEAD; non-trivial: plaintext not "
         "empty") {
  uint64_t i = g.sweep(3 * 16401);
  RoundTrip(g, (ref::Cipher)(i % 3), i / 3, g.small_size(300));
}

// Every aad length, small plaintext.
PROPERTY(every_aad_length, 3 * 4200, 3 * 20000,
         "aad of every length 0..4199 (thorough 0..19999) for each cipher; non-trivial: plaintext not "
         "empty") {
  uint64_t i = g.sweep(3 * 20000);
  RoundTrip(g, (ref::Cipher)(i % 3), g.small_size(100), i / 3);
}

PROPERTY(general, 24000, 1200000,
         "boundary-biased plaintext and aad sizes up to 70000 bytes; "
         "non-trivial: plaintext not empty") {
  ref::Cipher c = (ref::Cipher)g.below(3);
  RoundTrip(g, c, g.size(70000), g.weighted({3, 1}) ? g.size(70000) : g.small_size(300));
}

// All ways to cut a short message in three (twice: plaintext and ciphertext).
PROPERTY(every_cut, 3 * 17 * 561, 3 * 17 * 561 * 8,
         "every pair of cut points of the ciphertext-and-tag (and a pair for "
         "the plaintext) for plaintexts of 0..16 bytes; non-trivial: all") {
  uint64_t i = g.sweep(3 * 17 * 561);
  ref::Cipher c = (ref::Cipher)(i % 3);
  size_t n = (i / 3) % 17, k = i / 51;  // k < 561 = pairs 0 <= x <= y <= 32
  size_t x = 0;
  while (k >= 33 - x) {
    k -= 33 - x;
    ++x;
  }
  size_t y = x + k;
  x = std::min(x, n + 16);
  y = std::min(y, n + 16);
  Bytes key = g.random_bytes(ref::KeySize(c)), nonce = g.random_bytes(12),
        aad = g.bytes(g.small_size(40)), pt = g.random_bytes(n);
  Bytes want = ref::Seal(c, key, nonce, aad, pt);
  std::vector<size_t> cs = {x, y - x, n + 16 - y};
  size_t px = std::min(x, n), py = std::min(y, n);
  std::vector<size_t> ps = {px, py - px, n - py};
  g.note(CipherName(c)).note(" plaintext=").note(n).note(" cut at ").note(x).note(",").note(y);
  Crypter cr = MakeCrypter(c, key);
  CheckEncrypt(g, *cr, nonce, aad, pt, want, &ps);
  CheckDecrypt(g, *cr, nonce, aad, want, pt, &cs);
  g.nontrivial();
}

// Many pieces.
PROPERTY(many_pieces, 3000, 60000,
         "plaintext, aad and ciphertext in up to thousands of pieces; "
         "non-trivial: more than 8 pieces") {
  ref::Cipher c = (ref::Cipher)g.below(3);
  size_t n = g.size(3000), a = g.size(2000);
  Bytes key = g.bytes(ref::KeySize(c)), nonce = g.bytes(12), aad = g.bytes(a), pt = g.bytes(n);
  Bytes want = ref::Seal(c, key, nonce, aad, pt);
  auto pieces = [&](size_t total) {
    std::vector<size_t> r;
    size_t m = 1 + g.below(20);
    while (total > 0) {
      size_t p = std::min<size_t>(total, g.below(m + 1));
      r.push_back(p);
      total -= p;
    }
    return r;
  };
  auto ps = pieces(n), as = pieces(a), cs = pieces(n + 16);
  g.note(CipherName(c)).note(" plaintext pieces=").note(ps.size()).note(" aad pieces=").note(as.size());
  Crypter cr = MakeCrypter(c, key);
  CheckEncrypt(g, *cr, nonce, aad, pt, want, &ps, &as);
  CheckDecrypt(g, *cr, nonce, aad, want, pt, &cs, &as);
  g.nontrivial(ps.size() + as.size() > 8);
}
