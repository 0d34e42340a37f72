#include <new>
#include "ref.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace ref {
namespace {

// ---------------------------------------------------------------- AES
uint8_t kSbox[256];
uint32_t kT[256];
struct Init {
  Init() {
    // S-box from the field inverse and the affine map.
    uint8_t p = 1, q = 1;
    do {
      p = (uint8_t)(p ^ (p << 1) ^ ((p & 0x80) ? 0x1b : 0));
      q ^= (uint8_t)(q << 1);
      q ^= (uint8_t)(q << 2);
      q ^= (uint8_t)(q << 4);
      if (q & 0x80) q ^= 0x09;
      auto rot = [](uint8_t x, int n) { return (uint8_t)((x << n) | (x >> (8 - n))); };
      kSbox[p] = (uint8_t)(q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63);
    } while (p != 1);
    kSbox[0] = 0x63;
    for (int i = 0; i < 256; ++i) {
      uint8_t s = kSbox[i];
      uint8_t s2 = (uint8_t)((s << 1) ^ ((s & 0x80) ? 0x1b : 0));
      kT[i] = ((uint32_t)s2 << 24) | ((uint32_t)s << 16) | ((uint32_t)s << 8) |
              (uint8_t)(s2 ^ s);
    }
  }
} init;

uint32_t Rd32(const uint8_t* p) {
  return ((uint32_t)p[0] << 24) | (p[1] << 16) | (p[2] << 8) | p[3];
}
void Wr32(uint8_t* p, uint32_t v) {
  p[0] = (uint8_t)(v >> 24);
  p[1] = (uint8_t)(v >> 16);
  p[2] = (uint8_t)(v >> 8);
  p[3] = (uint8_t)v;
}
uint32_t Ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
uint32_t Rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }

struct Aes {
  uint32_t w[60];
  int rounds;
  explicit Aes(const Bytes& key) {
    int nk = (int)key.size() / 4;
    rounds = nk + 6;
    auto sub = [](uint32_t x) {
      return ((uint32_t)kSbox[x >> 24] << 24) | ((uint32_t)kSbox[(x >> 16) & 255] << 16) |
             ((uint32_t)kSbox[(x >> 8) & 255] << 8) | kSbox[x & 255];
    };
    for (int i = 0; i < nk; ++i) w[i] = Rd32(&key[4 * i]);
    uint8_t rcon = 1;
    for (int i = nk; i < 4 * (rounds + 1); ++i) {
      uint32_t t = w[i - 1];
      if (i % nk == 0) {
        t = sub(Rol(t, 8)) ^ ((uint32_t)rcon << 24);
        rcon = (uint8_t)((rcon << 1) ^ ((rcon & 0x80) ? 0x1b : 0));
      } else if (nk > 6 && i % nk == 4) {
        t = sub(t);
      }
      w[i] = w[i - nk] ^ t;
    }
  }
  void Encrypt(const uint8_t* in, uint8_t* out) const {
    uint32_t s[4], t[4];
    for (int i = 0; i < 4; ++i) s[i] = Rd32(in + 4 * i) ^ w[i];
    for (int r = 1; r < rounds; ++r) {
      for (int i = 0; i < 4; ++i) {
        t[i] = kT[s[i] >> 24] ^ Ror(kT[(s[(i + 1) & 3] >> 16) & 255], 8) ^
               Ror(kT[(s[(i + 2) & 3] >> 8) & 255], 16) ^
               Ror(kT[s[(i + 3) & 3] & 255], 24) ^ w[4 * r + i];
      }
      memcpy(s, t, sizeof s);
    }
    for (int i = 0; i < 4; ++i) {
      uint32_t v = ((uint32_t)kSbox[s[i] >> 24] << 24) |
                   ((uint32_t)kSbox[(s[(i + 1) & 3] >> 16) & 255] << 16) |
                   ((uint32_t)kSbox[(s[(i + 2) & 3] >> 8) & 255] << 8) |
                   kSbox[s[(i + 3) & 3] & 255];
      Wr32(out + 4 * i, v ^ w[4 * rounds + i]);
    }
  }
};

// ---------------------------------------------------------------- GHASH
struct U128 {
  uint64_t hi, lo;
};
struct Ghash {
  U128 tab[16][256];  // tab[i][b] = (b placed at byte i) * H
  U128 y{0, 0};
  static U128 MulX(U128 v) {
    bool c = v.lo & 1;
    v.lo = (v.lo >> 1) | (v.hi << 63);
    v.hi >>= 1;
    if (c) v.hi ^= 0xe100000000000000ULL;
    return v;
  }
  explicit Ghash(const uint8_t* h) {
    U128 v{((uint64_t)Rd32(h) << 32) | Rd32(h + 4),
           ((uint64_t)Rd32(h + 8) << 32) | Rd32(h + 12)};
    for (int byte = 0; byte < 16; ++byte) {
      memset(&tab[byte][0], 0, sizeof(U128));
      for (int bit = 0x80; bit; bit >>= 1) {
        tab[byte][bit] = v;
        v = MulX(v);
      }
      for (int b = 1; b < 256; ++b) {
        if ((b & (b - 1)) == 0) continue;
        int top = b & -b;
        tab[byte][b] = {tab[byte][b ^ top].hi ^ tab[byte][top].hi,
                        tab[byte][b ^ top].lo ^ tab[byte][top].lo};
      }
    }
  }
  void Block(const uint8_t* p) {
    y.hi ^= ((uint64_t)Rd32(p) << 32) | Rd32(p + 4);
    y.lo ^= ((uint64_t)Rd32(p + 8) << 32) | Rd32(p + 12);
    U128 r{0, 0};
    for (int i = 0; i < 8; ++i) {
      const U128& a = tab[i][(y.hi >> (56 - 8 * i)) & 255];
      const U128& b = tab[8 + i][(y.lo >> (56 - 8 * i)) & 255];
      r.hi ^= a.hi ^ b.hi;
      r.lo ^= a.lo ^ b.lo;
    }
    y = r;
  }
  void Update(const Bytes& d) {
    size_t i = 0;
    for (; i + 16 <= d.size(); i += 16) Block(&d[i]);
    if (i < d.size()) {
      uint8_t b[16] = {0};
      memcpy(b, &d[i], d.size() - i);
      Block(b);
    }
  }
};

void GcmCtr(const Aes& aes, const uint8_t* j0, const Bytes& in, Bytes* out) {
  uint8_t ctr[16], ks[16];
  memcpy(ctr, j0, 16);
  out->resize(in.size());
  for (size_t i = 0; i < in.size(); i += 16) {
    Wr32(ctr + 12, Rd32(ctr + 12) + 1);
    aes.Encrypt(ctr, ks);
    for (size_t k = 0; k < 16 && i + k < in.size(); ++k) (*out)[i + k] = in[i + k] ^ ks[k];
  }
}
void GcmTag(const Aes& aes, const uint8_t* j0, const Bytes& aad, const Bytes& ct, uint8_t* tag) {
  uint8_t h[16] = {0};
  aes.Encrypt(h, h);
  // The table costs about 64 kB of work: cache the last one.
  static thread_local uint8_t last[16];
  static thread_local Ghash* g = nullptr;
  if (!g || memcmp(last, h, 16) != 0) {
    static thread_local uint64_t where[sizeof(Ghash) / 8 + 2];
    g = new ((void*)(((uintptr_t)where + 15) & ~(uintptr_t)15)) Ghash(h);
    memcpy(last, h, 16);
  }
  g->y = {0, 0};
  g->Update(aad);
  g->Update(ct);
  uint8_t l[16];
  uint64_t a = (uint64_t)aad.size() * 8, c = (uint64_t)ct.size() * 8;
  Wr32(l, (uint32_t)(a >> 32));
  Wr32(l + 4, (uint32_t)a);
  Wr32(l + 8, (uint32_t)(c >> 32));
  Wr32(l + 12, (uint32_t)c);
  g->Block(l);
  uint8_t e[16];
  aes.Encrypt(j0, e);
  Wr32(tag, (uint32_t)(g->y.hi >> 32));
  Wr32(tag + 4, (uint32_t)g->y.hi);
  Wr32(tag + 8, (uint32_t)(g->y.lo >> 32));
  Wr32(tag + 12, (uint32_t)g->y.lo);
  for (int i = 0; i < 16; ++i) tag[i] ^= e[i];
}

// ---------------------------------------------------------------- ChaCha20
uint32_t Le32(const uint8_t* p) {
  return p[0] | (p[1] << 8) | (p[2] << 16) | ((uint32_t)p[3] << 24);
}
void WrLe32(uint8_t* p, uint32_t v) {
  for (int i = 0; i < 4; ++i) p[i] = (uint8_t)(v >> (8 * i));
}
void ChachaBlock(const Bytes& key, const Bytes& nonce, uint32_t counter, uint8_t* out) {
  uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16];
  for (int i = 0; i < 8; ++i) s[4 + i] = Le32(&key[4 * i]);
  s[12] = counter;
  for (int i = 0; i < 3; ++i) s[13 + i] = Le32(&nonce[4 * i]);
  memcpy(x, s, sizeof x);
  auto qr = [&](int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = Rol(x[d] ^ x[a], 16);
    x[c] += x[d]; x[b] = Rol(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = Rol(x[d] ^ x[a], 8);
    x[c] += x[d]; x[b] = Rol(x[b] ^ x[c], 7);
  };
  for (int i = 0; i < 10; ++i) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; ++i) WrLe32(out + 4 * i, x[i] + s[i]);
}
void ChachaXor(const Bytes& key, const Bytes& nonce, const Bytes& in, Bytes* out) {
  out->resize(in.size());
  uint8_t ks[64];
  for (size_t i = 0; i < in.size(); i += 64) {
    ChachaBlock(key, nonce, (uint32_t)(1 + i / 64), ks);
    for (size_t k = 0; k < 64 && i + k < in.size(); ++k) (*out)[i + k] = in[i + k] ^ ks[k];
  }
}
// Poly1305 with 26-bit limbs.
void Poly1305(const uint8_t* key, const Bytes& m, uint8_t* tag) {
  uint64_t r0 = Le32(key) & 0x3ffffff, r1 = (Le32(key + 3) >> 2) & 0x3ffff03,
           r2 = (Le32(key + 6) >> 4) & 0x3ffc0ff, r3 = (Le32(key + 9) >> 6) & 0x3f03fff,
           r4 = (Le32(key + 12) >> 8) & 0x00fffff;
  uint64_t h0 = 0, h1 = 0, h2 = 0, h3 = 0, h4 = 0;
  for (size_t i = 0; i < m.size(); i += 16) {
    uint8_t b[17] = {0};
    size_t n = m.size() - i < 16 ? m.size() - i : 16;
    memcpy(b, &m[i], n);
    b[n] = 1;
    h0 += Le32(b) & 0x3ffffff;
    h1 += (Le32(b + 3) >> 2) & 0x3ffffff;
    h2 += (Le32(b + 6) >> 4) & 0x3ffffff;
    h3 += (Le32(b + 9) >> 6) & 0x3ffffff;
    h4 += (Le32(b + 12) >> 8) | ((uint64_t)b[16] << 24);
    uint64_t d0 = h0 * r0 + h1 * 5 * r4 + h2 * 5 * r3 + h3 * 5 * r2 + h4 * 5 * r1;
    uint64_t d1 = h0 * r1 + h1 * r0 + h2 * 5 * r4 + h3 * 5 * r3 + h4 * 5 * r2;
    uint64_t d2 = h0 * r2 + h1 * r1 + h2 * r0 + h3 * 5 * r4 + h4 * 5 * r3;
    uint64_t d3 = h0 * r3 + h1 * r2 + h2 * r1 + h3 * r0 + h4 * 5 * r4;
    uint64_t d4 = h0 * r4 + h1 * r3 + h2 * r2 + h3 * r1 + h4 * r0;
    uint64_t c = d0 >> 26; h0 = d0 & 0x3ffffff;
    d1 += c; c = d1 >> 26; h1 = d1 & 0x3ffffff;
    d2 += c; c = d2 >> 26; h2 = d2 & 0x3ffffff;
    d3 += c; c = d3 >> 26; h3 = d3 & 0x3ffffff;
    d4 += c; c = d4 >> 26; h4 = d4 & 0x3ffffff;
    h0 += c * 5; c = h0 >> 26; h0 &= 0x3ffffff;
    h1 += c;
  }
  uint64_t c = h1 >> 26; h1 &= 0x3ffffff;
  h2 += c; c = h2 >> 26; h2 &= 0x3ffffff;
  h3 += c; c = h3 >> 26; h3 &= 0x3ffffff;
  h4 += c; c = h4 >> 26; h4 &= 0x3ffffff;
  h0 += c * 5; c = h0 >> 26; h0 &= 0x3ffffff;
  h1 += c;
  uint64_t g0 = h0 + 5; c = g0 >> 26; g0 &= 0x3ffffff;
  uint64_t g1 = h1 + c; c = g1 >> 26; g1 &= 0x3ffffff;
  uint64_t g2 = h2 + c; c = g2 >> 26; g2 &= 0x3ffffff;
  uint64_t g3 = h3 + c; c = g3 >> 26; g3 &= 0x3ffffff;
  uint64_t g4 = h4 + c - (1ULL << 26);
  if (!(g4 >> 63)) {
    h0 = g0; h1 = g1; h2 = g2; h3 = g3; h4 = g4 & 0x3ffffff;
  }
  uint64_t w0 = (h0 | (h1 << 26)) & 0xffffffff, w1 = ((h1 >> 6) | (h2 << 20)) & 0xffffffff,
           w2 = ((h2 >> 12) | (h3 << 14)) & 0xffffffff, w3 = ((h3 >> 18) | (h4 << 8)) & 0xffffffff;
  uint64_t f = w0 + Le32(key + 16);
  WrLe32(tag, (uint32_t)f);
  f = w1 + Le32(key + 20) + (f >> 32);
  WrLe32(tag + 4, (uint32_t)f);
  f = w2 + Le32(key + 24) + (f >> 32);
  WrLe32(tag + 8, (uint32_t)f);
  f = w3 + Le32(key + 28) + (f >> 32);
  WrLe32(tag + 12, (uint32_t)f);
}
void ChachaTag(const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, uint8_t* tag) {
  uint8_t otk[64];
  ChachaBlock(key, nonce, 0, otk);
  Bytes m = aad;
  m.resize((m.size() + 15) / 16 * 16);
  m.insert(m.end(), ct.begin(), ct.end());
  m.resize((m.size() + 15) / 16 * 16);
  uint8_t l[16] = {0};
  WrLe32(l, (uint32_t)aad.size());
  WrLe32(l + 4, (uint32_t)((uint64_t)aad.size() >> 32));
  WrLe32(l + 8, (uint32_t)ct.size());
  WrLe32(l + 12, (uint32_t)((uint64_t)ct.size() >> 32));
  m.insert(m.end(), l, l + 16);
  Poly1305(otk, m, tag);
}

// ---------------------------------------------------------------- SHA-2
const uint64_t* K512() {
  // First 64 bits of the fractional parts of the cube roots of the primes,
  // computed rather than typed in.
  static uint64_t k[80];
  static bool done = false;
  if (!done) {
    int n = 0;
    for (int p = 2; n < 80; ++p) {
      bool prime = true;
      for (int d = 2; d * d <= p; ++d) prime &= p % d != 0;
      if (!prime) continue;
      // floor(cbrt(p) * 2^64) by binary search on a 96-bit value x with
      // x^3 <= p * 2^192: schoolbook in 32-bit limbs.
      auto leq = [&](unsigned __int128 x) {
        uint32_t a[3] = {(uint32_t)x, (uint32_t)(x >> 32), (uint32_t)(x >> 64)};
        uint64_t sq[6] = {0}, cu[9] = {0};
        for (int i = 0; i < 3; ++i) {
          uint64_t c = 0;
          for (int j = 0; j < 3; ++j) {
            uint64_t t = sq[i + j] + (uint64_t)a[i] * a[j] + c;
            sq[i + j] = (uint32_t)t;
            c = t >> 32;
          }
          sq[i + 3] += c;
        }
        for (int i = 0; i < 6; ++i) {
          uint64_t c = 0;
          for (int j = 0; j < 3; ++j) {
            uint64_t t = cu[i + j] + sq[i] * a[j] + c;
            cu[i + j] = (uint32_t)t;
            c = t >> 32;
          }
          for (int q = i + 3; c && q < 9; ++q) {
            uint64_t t = cu[q] + c;
            cu[q] = (uint32_t)t;
            c = t >> 32;
          }
        }
        if (cu[8] || cu[7]) return false;
        if (cu[6] != (uint64_t)p) return cu[6] < (uint64_t)p;
        for (int i = 0; i < 6; ++i)
          if (cu[i]) return false;
        return true;
      };
      unsigned __int128 lo = 0, hi = (unsigned __int128)16 << 64;
      while (hi - lo > 1) {
        unsigned __int128 mid = lo + (hi - lo) / 2;
        if (leq(mid)) lo = mid; else hi = mid;
      }
      k[n++] = (uint64_t)lo;
    }
    done = true;
  }
  return k;
}
Bytes Sha256(const Bytes& in) {
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                   0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  const uint64_t* k = K512();
  Bytes m = in;
  m.push_back(0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  uint64_t bits = (uint64_t)in.size() * 8;
  for (int i = 7; i >= 0; --i) m.push_back((uint8_t)(bits >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; ++i) w[i] = Rd32(&m[o + 4 * i]);
    for (int i = 16; i < 64; ++i) {
      uint32_t s0 = Ror(w[i - 15], 7) ^ Ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
      uint32_t s1 = Ror(w[i - 2], 17) ^ Ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; ++i) {
      uint32_t s1 = Ror(v[4], 6) ^ Ror(v[4], 11) ^ Ror(v[4], 25);
      uint32_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + s1 + ch + (uint32_t)(k[i] >> 32) + w[i];
      uint32_t s0 = Ror(v[0], 2) ^ Ror(v[0], 13) ^ Ror(v[0], 22);
      uint32_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int q = 7; q > 0; --q) v[q] = v[q - 1];
      v[4] += t1;
      v[0] = t1 + s0 + mj;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  Bytes r(32);
  for (int i = 0; i < 8; ++i) Wr32(&r[4 * i], h[i]);
  return r;
}
uint64_t Ror64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
Bytes Sha384(const Bytes& in) {
  uint64_t h[8] = {0xcbbb9d5dc1059ed8ULL, 0x629a292a367cd507ULL, 0x9159015a3070dd17ULL,
                   0x152fecd8f70e5939ULL, 0x67332667ffc00b31ULL, 0x8eb44a8768581511ULL,
                   0xdb0c2e0d64f98fa7ULL, 0x47b5481dbefa4fa4ULL};
  const uint64_t* k = K512();
  Bytes m = in;
  m.push_back(0x80);
  while (m.size() % 128 != 112) m.push_back(0);
  m.resize(m.size() + 8);
  uint64_t bits = (uint64_t)in.size() * 8;
  for (int i = 7; i >= 0; --i) m.push_back((uint8_t)(bits >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 128) {
    uint64_t w[80];
    for (int i = 0; i < 16; ++i)
      w[i] = ((uint64_t)Rd32(&m[o + 8 * i]) << 32) | Rd32(&m[o + 8 * i + 4]);
    for (int i = 16; i < 80; ++i) {
      uint64_t s0 = Ror64(w[i - 15], 1) ^ Ror64(w[i - 15], 8) ^ (w[i - 15] >> 7);
      uint64_t s1 = Ror64(w[i - 2], 19) ^ Ror64(w[i - 2], 61) ^ (w[i - 2] >> 6);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint64_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 80; ++i) {
      uint64_t s1 = Ror64(v[4], 14) ^ Ror64(v[4], 18) ^ Ror64(v[4], 41);
      uint64_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint64_t t1 = v[7] + s1 + ch + k[i] + w[i];
      uint64_t s0 = Ror64(v[0], 28) ^ Ror64(v[0], 34) ^ Ror64(v[0], 39);
      uint64_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int q = 7; q > 0; --q) v[q] = v[q - 1];
      v[4] += t1;
      v[0] = t1 + s0 + mj;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  Bytes r(48);
  for (int i = 0; i < 6; ++i) {
    Wr32(&r[8 * i], (uint32_t)(h[i] >> 32));
    Wr32(&r[8 * i + 4], (uint32_t)h[i]);
  }
  return r;
}

Bytes Hex(const char* s) {
  Bytes b;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (; *s; s += 2) b.push_back((uint8_t)(v(s[0]) * 16 + v(s[1])));
  return b;
}
Bytes Str(const char* s) { return Bytes(s, s + strlen(s)); }
void Kat(bool ok, const char* what) {
  if (!ok) {
    fprintf(stderr, "reference self-test failed: %s\n", what);
    _Exit(3);
  }
}

}  // namespace

Bytes Seal(Cipher c, const Bytes& key, const Bytes& nonce, const Bytes& aad,
           const Bytes& plaintext) {
  Bytes out;
  uint8_t tag[16];
  if (c == kChachaPoly) {
    ChachaXor(key, nonce, plaintext, &out);
    ChachaTag(key, nonce, aad, out, tag);
  } else {
    Aes aes(key);
    uint8_t j0[16] = {0};
    memcpy(j0, nonce.data(), 12);
    j0[15] = 1;
    GcmCtr(aes, j0, plaintext, &out);
    GcmTag(aes, j0, aad, out, tag);
  }
  out.insert(out.end(), tag, tag + 16);
  return out;
}

bool Open(Cipher c, const Bytes& key, const Bytes& nonce, const Bytes& aad,
          const Bytes& sealed, Bytes* plaintext) {
  if (sealed.size() < 16) return false;
  Bytes ct(sealed.begin(), sealed.end() - 16);
  uint8_t tag[16];
  if (c == kChachaPoly) {
    ChachaTag(key, nonce, aad, ct, tag);
  } else {
    Aes aes(key);
    uint8_t j0[16] = {0};
    memcpy(j0, nonce.data(), 12);
    j0[15] = 1;
    GcmTag(aes, j0, aad, ct, tag);
  }
  if (memcmp(tag, &sealed[ct.size()], 16) != 0) return false;
  if (c == kChachaPoly) {
    ChachaXor(key, nonce, ct, plaintext);
  } else {
    Aes aes(key);
    uint8_t j0[16] = {0};
    memcpy(j0, nonce.data(), 12);
    j0[15] = 1;
    GcmCtr(aes, j0, ct, plaintext);
  }
  return true;
}

Bytes Raw(Cipher c, const Bytes& key, const Bytes& nonce, const Bytes& in) {
  Bytes out;
  if (c == kChachaPoly) {
    ChachaXor(key, nonce, in, &out);
  } else {
    uint8_t j0[16] = {0};
    memcpy(j0, nonce.data(), 12);
    j0[15] = 1;
    GcmCtr(Aes(key), j0, in, &out);
  }
  return out;
}

Bytes Digest(Hash h, const Bytes& m) { return h == kSha256 ? Sha256(m) : Sha384(m); }

Bytes Hmac(Hash h, const Bytes& key, const Bytes& m) {
  size_t block = h == kSha256 ? 64 : 128;
  Bytes k = key.size() > block ? Digest(h, key) : key;
  k.resize(block);
  Bytes in(block), out(block);
  for (size_t i = 0; i < block; ++i) {
    in[i] = k[i] ^ 0x36;
    out[i] = k[i] ^ 0x5c;
  }
  in.insert(in.end(), m.begin(), m.end());
  Bytes d = Digest(h, in);
  out.insert(out.end(), d.begin(), d.end());
  return Digest(h, out);
}

Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t n) {
  Bytes okm, t;
  for (int i = 1; okm.size() < n; ++i) {
    Bytes m = t;
    m.insert(m.end(), info.begin(), info.end());
    m.push_back((uint8_t)i);
    t = Hmac(h, prk, m);
    okm.insert(okm.end(), t.begin(), t.end());
  }
  okm.resize(n);
  return okm;
}

Bytes ExpandLabel(Hash h, const Bytes& secret, const std::string& label,
                  const Bytes& context, size_t n) {
  std::string l = "tls13 " + label;
  Bytes info = {(uint8_t)(n >> 8), (uint8_t)n, (uint8_t)l.size()};
  info.insert(info.end(), l.begin(), l.end());
  info.push_back((uint8_t)context.size());
  info.insert(info.end(), context.begin(), context.end());
  return HkdfExpand(h, secret, info, n);
}

HalfConn::HalfConn(int s, const Bytes& sec, uint64_t q)
    : suite(s), secret(sec), seq(q) {
  key = ExpandLabel(SuiteHash(suite), secret, "key", {}, KeySize((Cipher)suite));
  iv = ExpandLabel(SuiteHash(suite), secret, "iv", {}, 12);
}
void HalfConn::Update() {
  *this = HalfConn(suite, ExpandLabel(SuiteHash(suite), secret, "traffic upd", {},
                                      HashSize(SuiteHash(suite))), 0);
}
Bytes HalfConn::NonceFor(uint64_t s) const {
  Bytes n = iv;
  for (int i = 0; i < 8; ++i) n[11 - i] ^= (uint8_t)(s >> (8 * i));
  return n;
}
Bytes HalfConn::SealAt(uint64_t s, const Bytes& aad, const Bytes& p) const {
  return Seal((Cipher)suite, key, NonceFor(s), aad, p);
}
bool HalfConn::OpenAt(uint64_t s, const Bytes& aad, const Bytes& c, Bytes* p) const {
  return Open((Cipher)suite, key, NonceFor(s), aad, c, p);
}
Bytes HalfConn::RecordAt(uint64_t s, const Bytes& inner) const {
  size_t n = inner.size() + 16;
  Bytes r = {0x17, 3, 3, (uint8_t)(n >> 8), (uint8_t)n};
  Bytes c = SealAt(s, r, inner);
  r.insert(r.end(), c.begin(), c.end());
  return r;
}

void SelfTest() {
  Kat(Digest(kSha256, Str("abc")) ==
          Hex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"), "sha256");
  Kat(Digest(kSha384, Str("abc")) ==
          Hex("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed"
              "8086072ba1e7cc2358baeca134c825a7"), "sha384");
  Kat(Hmac(kSha256, Str("Jefe"), Str("what do ya want for nothing?")) ==
          Hex("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"), "hmac256");
  Kat(Hmac(kSha384, Str("Jefe"), Str("what do ya want for nothing?")) ==
          Hex("af45d2e376484031617f78d2b58a6b1b9c7ef464f5a01b47e42ec3736322445e"
              "8e2240ca5e69e2c78b3239ecfab21649"), "hmac384");
  // RFC 5869 A.1.
  Kat(HkdfExpand(kSha256, Hex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"),
                 Hex("f0f1f2f3f4f5f6f7f8f9"), 42) ==
          Hex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"), "hkdf");
  // GCM specification, test cases 1, 4 and 16.
  Kat(Seal(kAes128Gcm, Bytes(16), Bytes(12), {}, {}) == Hex("58e2fccefa7e3061367f1d57a4e7455a"), "gcm 1");
  const char* p = "d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525"
                  "b16aedf5aa0de657ba637b39";
  const char* a = "feedfacedeadbeeffeedfacedeadbeefabaddad2";
  Kat(Seal(kAes128Gcm, Hex("feffe9928665731c6d6a8f9467308308"), Hex("cafebabefacedbaddecaf888"), Hex(a), Hex(p)) ==
          Hex("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa05"
              "1ba30b396a0aac973d58e0915bc94fbc3221a5db94fae95ae7121a47"), "gcm 4");
  Kat(Seal(kAes256Gcm, Hex("feffe9928665731c6d6a8f9467308308feffe9928665731c6d6a8f9467308308"),
           Hex("cafebabefacedbaddecaf888"), Hex(a), Hex(p)) ==
          Hex("522dc1f099567d07f47f37a32a84427d643a8cdcbfe5c0c97598a2bd2555d1aa8cb08e48590dbb3da7b08b1056828838"
              "c5f61e6393ba7a0abcc9f66276fc6ece0f4e1768cddf8853bb2d551b"), "gcm 16");
  // RFC 8439 2.8.2.
  Kat(Seal(kChachaPoly, Hex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f"),
           Hex("070000004041424344454647"), Hex("50515253c0c1c2c3c4c5c6c7"),
           Str("Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, "
               "sunscreen would be it.")) ==
          Hex("d31a8d34648e60db7b86afbc53ef7ec2a4aded51296e08fea9e2b5a736ee62d63dbea45e8ca9671282fafb69da92728b"
              "1a71de0a9e060b2905d6a5b67ecd3b3692ddbd7f2d778b8c9803aee328091b58fab324e4fad675945585808b4831d7bc"
              "3ff4def08e4b7a9de576d26586cec64b61161ae10b594f09e26a7e902ecbd0600691"), "chacha");
  // RFC 8448 section 3: server application traffic keys.
  HalfConn h(0, Hex("a11af9f05531f856ad47116b45a950328204b4f44bfb6b3a4b4f1f3fcb631643"), 0);
  Kat(h.key == Hex("9f02283b6c9c07efc26bb9f2ac92e356") && h.iv == Hex("cf782b88dd83549aadf1e984"), "tls13 keys");
  for (int s = 0; s < 3; ++s) {
    HalfConn q(s, Bytes(HashSize(SuiteHash(s)), 7), 9);
    Bytes out, in = Str("x");
    Kat(q.OpenAt(3, {}, q.SealAt(3, {}, in), &out) && out == in && !q.OpenAt(4, {}, q.SealAt(3, {}, in), &out), "open");
  }
}

}  // namespace ref
