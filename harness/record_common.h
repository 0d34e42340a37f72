#ifndef VERIF_RECORD_COMMON_H_
#define VERIF_RECORD_COMMON_H_
#include <algorithm>

#include "include/s2a_options.h"
#include "pbt.h"
#include "ref.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "util.h"

namespace rec {
using pbt::Bytes;
using pbt::Gen;
using s2a::aead_crypter::Iovec;
using s2a::s2a_options::S2AOptions;
using Suite = S2AOptions::Ciphersuite;

inline Suite SuiteOf(int s) {
  return s == 0   ? Suite::AES_128_GCM_SHA256
         : s == 1 ? Suite::AES_256_GCM_SHA384
                  : Suite::CHACHA20_POLY1305_SHA256;
}
inline size_t SecretSize(int s) { return s == 1 ? 48 : 32; }

// A starting sequence number: zero, around the carries between its bytes,
// or anything far from the wrap.
inline uint64_t AnySequence(Gen& g) {
  switch (g.weighted({6, 3, 2, 2})) {
    case 0:
      return 0;
    case 1: {
      uint64_t p = 1ull << (8 * (1 + g.below(7)));
      return p - g.below(4);
    }
    case 2:
      return std::min<uint64_t>(g.number(), ~0ull - 100000);
    default:
      return std::min<uint64_t>(g.u64(), ~0ull - 100000);
  }
}
// Also numbers at which the sequence wraps soon.
inline uint64_t AnySequenceOrLast(Gen& g) {
  return g.chance(1, 4) ? ~0ull - g.below(4) : AnySequence(g);
}
}  // namespace rec
#endif
