// C03: invalid arguments are rejected cleanly; size queries are exact.
#include "aead_common.h"

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

static void StillUsable(Gen& g, S2AAeadCrypter& cr, ref::Cipher c, const Bytes& key) {
  Bytes nonce = g.random_bytes(12), aad = g.bytes(g.small_size(40)), pt = g.bytes(g.small_size(200));
  Bytes ct = ref::Seal(c, key, nonce, aad, pt);
  if (g.boolean()) CheckEncrypt(g, cr, nonce, aad, pt, ct);
  CheckDecrypt(g, cr, nonce, aad, ct, pt);
}

PROPERTY(key_sizes, 2 * 300, 2 * 3000,
         "keys of every size 0..299 for both constructors: exactly 16 and 32 "
         "(AES-GCM) and 32 (ChaCha20-Poly1305) are accepted; non-trivial: all") {
  uint64_t i = g.sweep(600);
  size_t n = i / 2;
  Bytes key = g.bytes(n);
  g.note(i % 2 ? "chacha" : "aes").note(" key size ").note(n);
  g.nontrivial();
  auto r = i % 2 ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key)
                 : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
  bool want = i % 2 ? n == 32 : n == 16 || n == 32;
  g.label(want ? "accepted" : "refused");
  if (!want) {
    REQUIRE_MSG(r.index() == 0, "key of size " << n << " accepted");
    REQUIRE(!absl::get<0>(r).ok());
    return;
  }
  REQUIRE_MSG(r.index() == 1, "key of size " << n << " refused");
  S2AAeadCrypter& cr = *absl::get<1>(r);
  REQUIRE_EQ(cr.KeyLength(), n);
  REQUIRE_EQ(cr.NonceLength(), (size_t)12);
  REQUIRE_EQ(cr.TagLength(), (size_t)16);
  StillUsable(g, cr, i % 2 ? ref::kChachaPoly : n == 16 ? ref::kAes128Gcm : ref::kAes256Gcm, key);
}

PROPERTY(size_queries, 600000, 1000000,
         "MaxPlaintextLength / MaxCiphertextAndTagLength for arbitrary "
         "lengths (the former from one tag up); non-trivial: all") {
  static thread_local Crypter crs[3];
  ref::Cipher c = (ref::Cipher)g.below(3);
  if (!crs[c]) crs[c] = MakeCrypter(c, Bytes(ref::KeySize(c), 1));
  size_t n = g.boolean() ? g.number() : g.size(100000);
  if (n > ~(size_t)0 - 16) n -= 16;
  g.note(CipherName(c)).note(" n=").note(n);
  g.nontrivial();
  REQUIRE_EQ(crs[c]->MaxCiphertextAndTagLength(n), n + 16);
  REQUIRE_EQ(crs[c]->MaxPlaintextLength(n + 16), n);
}

static void OneInvalid(Gen& g, ref::Cipher c, const Bytes& key, S2AAeadCrypter& cr) {
  size_t n = g.weighted({5, 1}) ? g.size(4000) : g.small_size(100), a = g.small_size(60);
  Bytes nonce = g.random_bytes(12), aad = g.bytes(a), pt = g.bytes(n);
  Bytes ct = ref::Seal(c, key, nonce, aad, pt);
  bool enc = g.boolean();
  util::Mem mem;
  auto ia = mem.Segments<Iovec>(g, aad);
  auto id = mem.Segments<Iovec>(g, enc ? pt : ct);
  size_t out_n = enc ? ct.size() : pt.size();
  size_t room = out_n + (g.boolean() ? g.below(40) : 0);
  bool bad = false;
  uint64_t kinds = g.range(1, 31);
  if (g.weighted({1, 3})) kinds = 1u << g.below(5);  // Mostly one defect.
  if (kinds & 1) {
    size_t ns = g.below(41);
    if (ns != 12) {
      nonce = g.random_bytes(ns);
      bad = true;
      g.label("bad nonce size");
    }
  }
  if (kinds & 2) {
    // In any position, including after complete data; sometimes replacing.
    Iovec z{nullptr, 1 + g.below(40)};
    ia.insert(ia.begin() + g.below(ia.size() + 1), z);
    bad = true;
    g.label("null aad");
  }
  if (kinds & 4) {
    if (g.boolean() || id.empty()) {
      Iovec z{nullptr, 1 + g.below(40)};
      id.insert(id.begin() + g.below(id.size() + 1), z);
      bad = true;
      g.label("null data inserted");
    } else {
      size_t at = g.below(id.size());
      if (id[at].iov_len > 0) {
        id[at].iov_base = nullptr;
        bad = true;
        g.label("null data replaced");
      }
    }
    size_t total = 0;
    for (auto& v : id) total += v.iov_len;
    out_n = enc ? total + 16 : total >= 16 ? total - 16 : 0;
    if (g.boolean()) room = out_n + g.below(40);
  }
  if ((kinds & 8) && out_n > 0) {
    room = g.boolean() ? g.below(out_n) : out_n - 1;
    if (enc && g.boolean()) room = out_n - 1 - g.below(std::min<size_t>(out_n, 16));
    bad = true;
    g.label(enc ? "ciphertext buffer too small" : "plaintext buffer too small");
  }
  if ((kinds & 16) && !enc) {
    ct.resize(g.below(16));
    id = mem.Segments<Iovec>(g, ct);
    bad = true;
    g.label("shorter than a tag");
  }
  if (!bad) return;
  uint8_t fill = g.pick<uint8_t>({0x5A, 0, 0xff});
  uint8_t* out = mem.Alloc(g, room, fill);
  Iovec o{room == 0 && !enc && g.boolean() ? nullptr : out, room};
  g.note(CipherName(c)).note(enc ? " encrypt" : " decrypt").note(" defects=").note(kinds).note(" n=").note(n).note(" room=").note(room);
  auto st = enc ? cr.Encrypt(nonce, ia, id, o) : cr.Decrypt(nonce, ia, id, o);
  REQUIRE_MSG(!st.GetStatus().ok(), "invalid call accepted");
  REQUIRE_EQ(st.GetBytesWritten(), (size_t)0);
  if (!enc && ct.size() > 16 && nonce.size() == 12) {
    util::RequireNoLeak(out, room, pt, fill);
  }
  mem.Check();
  g.nontrivial();
}

PROPERTY(invalid_calls, 300000, 3000000,
         "encrypt/decrypt calls with one or more defects (nonce size, null "
         "buffer in any aad or data position, output too small by any amount, "
         "ciphertext shorter than a tag), then a valid call; non-trivial: the "
         "call had a defect") {
  ref::Cipher c = (ref::Cipher)g.below(3);
  Bytes key = g.random_bytes(ref::KeySize(c));
  Crypter cr = MakeCrypter(c, key);
  size_t k = 1 + g.below(3);
  for (size_t i = 0; i < k; ++i) OneInvalid(g, c, key, *cr);
  StillUsable(g, *cr, c, key);
}

PROPERTY(small_outputs, 3 * 2 * 49 * 50, 3 * 2 * 49 * 50 * 10,
         "every output size below the needed one for plaintexts of 0..48 "
         "bytes, encrypting and decrypting; non-trivial: output too small") {
  uint64_t i = g.sweep(3 * 2 * 49 * 50);
  ref::Cipher c = (ref::Cipher)(i % 3);
  bool enc = (i / 3) % 2;
  size_t n = (i / 6) % 49, short_by = 1 + (i / 294) % 64;
  Bytes key = g.random_bytes(ref::KeySize(c)), nonce = g.random_bytes(12), aad = g.bytes(g.small_size(30)), pt = g.random_bytes(n);
  Bytes ct = ref::Seal(c, key, nonce, aad, pt);
  size_t need = enc ? ct.size() : n;
  if (short_by > need) return;
  size_t room = need - short_by;
  util::Mem mem;
  auto ia = mem.Segments<Iovec>(g, aad);
  auto id = mem.Segments<Iovec>(g, enc ? pt : ct);
  uint8_t* out = mem.Alloc(g, room, 0x5A);
  g.note(CipherName(c)).note(enc ? " encrypt" : " decrypt").note(" n=").note(n).note(" room=").note(room);
  Crypter cr = MakeCrypter(c, key);
  auto st = enc ? cr->Encrypt(nonce, ia, id, Iovec{out, room}) : cr->Decrypt(nonce, ia, id, Iovec{out, room});
  REQUIRE_MSG(!st.GetStatus().ok(), "too small output accepted");
  REQUIRE_EQ(st.GetBytesWritten(), (size_t)0);
  if (!enc) util::RequireNoLeak(out, room, pt, 0x5A);
  mem.Check();
  StillUsable(g, *cr, c, key);
  g.nontrivial();
}

PROPERTY(results_as_values, 20000, 200000,
         "results of calls copied and assigned over each other, also to themselves; non-trivial: an assignment changed "
         "a result") {
  using Result = S2AAeadCrypter::CrypterStatus;
  std::vector<Result> v;
  std::vector<std::pair<absl::Status, size_t>> model;
  for (size_t n = 2 + g.below(3); n > 0; --n) {
    absl::Status s = g.boolean() ? absl::OkStatus() : absl::Status((absl::StatusCode)(1 + g.below(16)), g.str(g.below(40)));
    size_t w = (size_t)g.number();
    v.push_back(Result(s, w));
    model.push_back({s, w});
  }
  for (size_t n = 1 + g.below(6); n > 0; --n) {
    size_t a = g.below(v.size()), b = g.below(v.size());
    if (model[a] != model[b]) g.nontrivial();
    g.note(a).note("=").note(b).note(" ");
    if (g.chance(1, 3)) {
      v.push_back(Result(v[b]));
      model.push_back(model[b]);
    } else {
      const Result& other = v[b];
      REQUIRE(&(v[a] = other) == &v[a]);
      model[a] = model[b];
    }
    for (size_t i = 0; i < v.size(); ++i) {
      REQUIRE_MSG(v[i].GetStatus() == model[i].first, v[i].GetStatus().ToString() << " instead of " << model[i].first.ToString());
      REQUIRE_EQ(v[i].GetBytesWritten(), model[i].second);
    }
  }
}
