// C02: no forgery is accepted, no unverified plaintext leaks, no history.
#include "aead_common.h"

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

// Flip every single bit of nonce, aad, ciphertext, tag (and key) of a short
// message.
PROPERTY(every_bit, 60000, 1000000,
         "one flipped bit at an enumerated position of nonce | aad | "
         "ciphertext | tag | key; non-trivial: all") {
  uint64_t i = g.sweep(3 * 4096);
  ref::Cipher c = (ref::Cipher)(i % 3);
  i /= 3;
  size_t n = g.below(40), a = g.below(40);
  Bytes key = g.random_bytes(ref::KeySize(c)), nonce = g.random_bytes(12), aad = g.random_bytes(a),
        pt = g.random_bytes(n);
  Bytes ct = ref::Seal(c, key, nonce, aad, pt);
  Bytes k2 = key;
  Bytes* parts[5] = {&ct, &nonce, &aad, &k2, &ct};
  size_t total = 0;
  for (int q = 0; q < 4; ++q) total += parts[q]->size() * 8;
  size_t bit = i % total;
  Bytes* where = nullptr;
  for (int q = 0; q < 4; ++q) {
    if (bit < parts[q]->size() * 8) {
      where = parts[q];
      g.label(q == 0 ? (bit / 8 >= n ? "flip:tag" : "flip:ciphertext") : q == 1 ? "flip:nonce" : q == 2 ? "flip:aad" : "flip:key");
      break;
    }
    bit -= parts[q]->size() * 8;
  }
  (*where)[bit / 8] ^= (uint8_t)(1 << (bit % 8));
  g.note(CipherName(c)).note(" plaintext=").note(n).note(" aad=").note(a).note(" bit ").note(bit);
  Crypter cr = MakeCrypter(c, k2);
  CheckRefused(g, *cr, c, k2, nonce, aad, ct);
  g.nontrivial();
}

// Structural tampering.
static void Tamper(Gen& g, Bytes& key, Bytes& nonce, Bytes& aad, Bytes& ct) {
  switch (g.below(12)) {
    case 0: {  // Overwrite a few bytes.
      Bytes& b = *g.pick<Bytes*>({&ct, &aad, &nonce, &key});
      g.label("overwrite");
      if (b.empty()) break;
      size_t k = 1 + g.below(4);
      for (size_t i = 0; i < k; ++i) b[g.below(b.size())] ^= (uint8_t)g.range(1, 255);
      break;
    }
    case 1:
      g.label("truncate end");
      ct.resize(ct.size() - std::min<size_t>(ct.size(), 1 + g.below(20)));
      break;
    case 2: {
      g.label("truncate start");
      size_t k = std::min<size_t>(ct.size(), 1 + g.below(20));
      ct.erase(ct.begin(), ct.begin() + k);
      break;
    }
    case 3: {
      g.label("extend");
      Bytes x = g.bytes(1 + g.below(20));
      size_t at = g.below(3) == 0 ? 0 : g.below(2) ? ct.size() : g.below(ct.size() + 1);
      ct.insert(ct.begin() + at, x.begin(), x.end());
      break;
    }
    case 4: {
      g.label("swap");
      size_t i = g.below(ct.size()), j = g.below(ct.size());
      std::swap(ct[i], ct[j]);
      break;
    }
    case 5: {
      g.label("swap blocks");
      if (ct.size() >= 48)
        for (int i = 0; i < 16; ++i) std::swap(ct[i], ct[16 + i]);
      else
        ct.back() ^= 1;
      break;
    }
    case 6:  // Move bytes between aad and ciphertext.
      g.label("move boundary");
      if (!aad.empty() && g.boolean()) {
        ct.insert(ct.begin(), aad.back());
        aad.pop_back();
      } else {
        aad.push_back(ct[0]);
        ct.erase(ct.begin());
      }
      break;
    case 7:
      g.label("aad length");
      if (!aad.empty() && g.boolean())
        aad.pop_back();
      else
        aad.push_back((uint8_t)g.below(256));
      break;
    case 8:
      g.label("zero tag");
      for (size_t i = 0; i < 16; ++i) ct[ct.size() - 1 - i] = g.boolean() ? 0 : 0xff;
      break;
    case 9: {  // Part of the tag only.
      g.label("partial tag");
      size_t k = 1 + g.below(16);
      for (size_t i = 0; i < k; ++i) ct[ct.size() - 1 - i] ^= (uint8_t)g.range(1, 255);
      break;
    }
    case 10: {
      g.label("random ciphertext");
      ct = g.bytes(g.small_size(200));
      break;
    }
    default: {
      g.label("other nonce");
      nonce = g.bytes(12);
    }
  }
}

PROPERTY(tampering, 40000, 1000000,
         "overwrite, truncate, extend, swap, move the aad boundary, replace "
         "tag, nonce, aad or key; verdict of the reference AEAD; non-trivial: "
         "the reference rejects") {
  ref::Cipher c = (ref::Cipher)g.below(3);
  size_t n = g.weighted({4, 1}) ? g.size(20000) : g.small_size(200), a = g.small_size(100);
  Bytes key = g.random_bytes(ref::KeySize(c)), nonce = g.random_bytes(12), aad = g.bytes(a), pt = g.bytes(n);
  Bytes ct = ref::Seal(c, key, nonce, aad, pt);
  Tamper(g, key, nonce, aad, ct);
  Crypter cr = MakeCrypter(c, key);
  Bytes out;
  g.note(CipherName(c)).note(" plaintext=").note(n).note(" aad=").note(a);
  if (ref::Open(c, key, nonce, aad, ct, &out)) {
    CheckDecrypt(g, *cr, nonce, aad, ct, out);
    g.label("unchanged");
  } else {
    CheckRefused(g, *cr, c, key, nonce, aad, ct);
    g.nontrivial();
  }
}

// Histories: each result depends only on the arguments.
PROPERTY(history, 12000, 300000,
         "1..40 operations (encrypt, decrypt, forged decrypt, invalid "
         "arguments) on up to three interleaved crypters, each compared with "
         "the reference; non-trivial: a successful operation after a failed "
         "one on the same crypter") {
  size_t k = 1 + g.below(3);
  std::vector<ref::Cipher> cs;
  std::vector<Bytes> keys;
  std::vector<Crypter> crs;
  std::vector<bool> failed(k, false);
  Bytes shared = g.random_bytes(32);
  for (size_t i = 0; i < k; ++i) {
    cs.push_back((ref::Cipher)g.below(3));
    Bytes key = g.boolean() ? g.random_bytes(32) : shared;
    key.resize(ref::KeySize(cs[i]));
    keys.push_back(key);
    crs.push_back(MakeCrypter(cs[i], key));
  }
  std::vector<Bytes> nonces = {g.random_bytes(12), g.random_bytes(12)};
  size_t ops = 1 + g.below(40);
  for (size_t o = 0; o < ops; ++o) {
    size_t w = g.below(k);
    ref::Cipher c = cs[w];
    S2AAeadCrypter& cr = *crs[w];
    const Bytes& key = keys[w];
    Bytes nonce = g.weighted({2, 3}) ? g.random_bytes(12) : nonces[g.below(2)];
    Bytes aad = g.bytes(g.small_size(64));
    Bytes pt = g.bytes(g.weighted({6, 1}) ? g.size(17000) : g.small_size(200));
    Bytes ct = ref::Seal(c, key, nonce, aad, pt);
    switch (g.weighted({4, 4, 3, 1, 1, 1, 1})) {
      case 0:
        g.note("E");
        CheckEncrypt(g, cr, nonce, aad, pt, ct);
        g.nontrivial(failed[w]);
        break;
      case 1:
        g.note("D");
        CheckDecrypt(g, cr, nonce, aad, ct, pt);
        g.nontrivial(failed[w]);
        break;
      case 2: {
        g.note("F");
        size_t at = g.below(ct.size());
        ct[at] ^= (uint8_t)g.range(1, 255);
        CheckRefused(g, cr, c, key, nonce, aad, ct);
        failed[w] = true;
        break;
      }
      case 3: {  // Bad nonce.
        g.note("n");
        Bytes bad = g.random_bytes(g.boolean() ? 11 : 13);
        uint8_t out[64] = {0};
        REQUIRE(!cr.Encrypt(bad, {}, {}, Iovec{out, 64}).GetStatus().ok());
        failed[w] = true;
        break;
      }
      case 4: {  // Output too small, after some input has been processed.
        g.note("s");
        if (pt.empty()) break;
        util::Mem mem;
        auto ip = mem.Segments<Iovec>(g, pt);
        size_t room = g.below(pt.size() + 16);
        uint8_t* out = mem.Alloc(g, room, 0x11);
        auto st = cr.Encrypt(nonce, {}, ip, Iovec{out, room});
        REQUIRE(!st.GetStatus().ok());
        REQUIRE_EQ(st.GetBytesWritten(), (size_t)0);
        mem.Check();
        failed[w] = true;
        break;
      }
      case 5: {  // Null aad.
        g.note("a");
        uint8_t out[64] = {0};
        Iovec bad{nullptr, 3};
        util::Mem mem;
        auto ia = mem.Segments<Iovec>(g, aad);
        ia.push_back(bad);
        REQUIRE(!cr.Encrypt(nonce, ia, {}, Iovec{out, 64}).GetStatus().ok());
        failed[w] = true;
        break;
      }
      default: {  // Ciphertext without room for a tag.
        g.note("t");
        ct.resize(g.below(16));
        CheckRefused(g, cr, c, key, nonce, aad, ct);
        failed[w] = true;
      }
    }
  }
}
