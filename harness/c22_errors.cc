// C22: GetSSLErrors drains the queue; no operation leaves errors pending.
#include <openssl/err.h>

#include <algorithm>
#include <cctype>
#include <regex>

#include "aead_common.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter_util.h"

using s2a::aead_crypter::GetSSLErrors;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

struct Err {
  int lib, reason;
  bool data;
  std::string text;
};

static void Push(const std::vector<Err>& l) {
  for (auto& e : l) {
    ERR_put_error(e.lib, 0, e.reason, __FILE__, __LINE__);
    if (e.data) ERR_add_error_data(1, e.text.c_str());
  }
}
static std::string Lower(std::string s) {
  for (auto& c : s) c = (char)tolower((unsigned char)c);
  return s;
}

PROPERTY(drains, 150000, 1500000,
         "0..40 pending errors of arbitrary library and reason, with and "
         "without data; non-trivial: at least one pending") {
  ERR_clear_error();
  size_t n = g.weighted({3, 1}) ? g.below(41) : g.below(6);
  std::vector<Err> l;
  static const int libs[] = {ERR_LIB_SYS, ERR_LIB_BN,  ERR_LIB_RSA, ERR_LIB_EVP, ERR_LIB_BUF,
                             ERR_LIB_PEM, ERR_LIB_ASN1, ERR_LIB_X509, ERR_LIB_SSL, ERR_LIB_USER};
  for (size_t i = 0; i < n; ++i) {
    Err e;
    e.lib = libs[g.below(10)];
    e.reason = 1 + (int)g.below(g.boolean() ? 20 : 2000);
    e.data = g.boolean();
    if (e.data) e.text = "data" + std::to_string(g.below(1000000)) + g.str(g.below(30));
    e.text.erase(std::remove_if(e.text.begin(), e.text.end(), [](char c) { return c < ' ' || c > '~' || c == ':'; }), e.text.end());
    if (e.text.empty()) e.data = false;
    l.push_back(e);
  }
  // Which of them the library keeps.
  Push(l);
  std::vector<unsigned long> codes;
  while (unsigned long c = ERR_get_error()) codes.push_back(c);
  Push(l);
  std::string text = Lower(GetSSLErrors());
  g.note(codes.size()).note(" pending");
  size_t at = 0;
  for (size_t i = 0; i < codes.size(); ++i) {
    char want[40];
    snprintf(want, sizeof want, "error:%08lx", codes[i]);
    size_t p = text.find(want, at);
    REQUIRE_MSG(p != std::string::npos, "error " << i << " of " << codes.size() << " missing: " << want);
    at = p + 1;
    const Err& e = l[l.size() - codes.size() + i];
    if (e.data) {
      p = text.find(Lower(e.text), at);
      REQUIRE_MSG(p != std::string::npos, "data of error " << i << " missing: " << e.text);
      at = p;
    }
  }
  // No error is named twice (the data cannot contain this pattern's colons).
  static const std::regex each("error:[0-9a-f]{8}");
  size_t count = std::distance(std::sregex_iterator(text.begin(), text.end(), each), std::sregex_iterator());
  REQUIRE_EQ(count, codes.size());
  if (codes.empty()) REQUIRE_EQ(text, std::string());
  REQUIRE_EQ(ERR_peek_error(), 0ul);
  REQUIRE_EQ(GetSSLErrors(), std::string());
  REQUIRE_EQ(ERR_peek_error(), 0ul);
  g.nontrivial(!codes.empty());
  if (codes.size() < l.size()) g.label("queue overflowed");
}

PROPERTY(nothing_left_behind, 300000, 4000000,
         "sequences of valid, forged and invalid AEAD and HKDF operations "
         "starting from an empty error queue; after each the queue is empty; "
         "non-trivial: a failing operation occurred") {
  ERR_clear_error();
  ref::Cipher c = (ref::Cipher)g.below(3);
  Bytes key = g.random_bytes(ref::KeySize(c));
  Crypter cr = MakeCrypter(c, key);
  size_t n = 1 + g.below(6);
  for (size_t i = 0; i < n; ++i) {
    bool failed = false;
    Bytes nonce = g.random_bytes(12), aad = g.bytes(g.small_size(40)), pt = g.bytes(g.small_size(100));
    Bytes ct = ref::Seal(c, key, nonce, aad, pt);
    util::Mem mem;
    auto ia = mem.Segments<Iovec>(g, aad);
    switch (g.below(7)) {
      case 0:
      case 1: {  // Encrypt, possibly invalid.
        size_t room = g.boolean() ? ct.size() : g.below(ct.size());
        auto ip = mem.Segments<Iovec>(g, pt);
        if (g.chance(1, 6)) ip.push_back(Iovec{nullptr, 4});
        if (g.chance(1, 6)) nonce.resize(g.below(20));
        failed = !cr->Encrypt(nonce, ia, ip, Iovec{mem.Alloc(g, room, 0), room}).GetStatus().ok();
        g.note("E");
        break;
      }
      case 2:
      case 3: {
        if (g.boolean()) ct[g.below(ct.size())] ^= 4;
        if (g.chance(1, 6)) ct.resize(g.below(16));
        auto ic = mem.Segments<Iovec>(g, ct);
        if (g.chance(1, 6)) ic.insert(ic.begin() + g.below(ic.size() + 1), Iovec{nullptr, 4});
        if (g.chance(1, 6)) nonce.resize(g.below(20));
        size_t room = g.chance(1, 6) ? g.below(pt.size() + 1) : pt.size();
        failed = !cr->Decrypt(nonce, ia, ic, Iovec{mem.Alloc(g, room, 0), room}).GetStatus().ok();
        g.note("D");
        break;
      }
      case 4: {
        Bytes k = g.bytes(g.below(40));
        auto r = g.boolean() ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(k)
                             : s2a::aead_crypter::CreateAesGcmAeadCrypter(k);
        failed = r.index() == 0;
        g.note("C");
        break;
      }
      default: {
        Bytes out(g.size(13000));
        failed = !s2a::hkdf::HkdfDeriveSecret((s2a::hkdf::HashFunction)g.below(3), g.bytes(g.below(100)),
                                              g.bytes(g.below(60)), out)
                      .ok();
        g.note("H");
      }
    }
    g.note(failed ? "- " : "+ ");
    g.label(failed ? "failed operation" : "successful operation");
    g.nontrivial(failed);
    unsigned long e = ERR_peek_error();
    REQUIRE_MSG(e == 0, "an error is left in the SSL error queue: " << std::hex << e);
  }
}
