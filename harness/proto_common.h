// Helpers for the checks whose oracle is a standard protobuf implementation
// (libprotobuf with classes made from the frozen schema in /verif/proto).
#ifndef VERIF_PROTO_COMMON_H_
#define VERIF_PROTO_COMMON_H_
#include <map>

#include "include/s2a_options.h"
#include "pbt.h"
#include "src/proto/common.pb.h"
#include "src/proto/s2a.pb.h"
#include "src/proto/s2a_context.pb.h"

namespace pr {
using pbt::Bytes;
using pbt::Gen;
using s2a::s2a_options::S2AOptions;
using Identity = S2AOptions::Identity;
using Kind = S2AOptions::IdentityType;
using Version = S2AOptions::TlsVersion;
using Suite = S2AOptions::Ciphersuite;
namespace pb = s2a::proto;

inline void Silence() {
  google::protobuf::SetLogHandler([](google::protobuf::LogLevel, const char*, int, const std::string&) {});
}

// Valid UTF-8: plain, with control characters and NUL, or any code points.
// Now and then far longer than max, where max leaves room for that.
inline std::string Text(Gen& g, size_t max) {
  size_t n = g.small_size(max);
  if (max >= 20 && g.chance(1, 80)) n = g.weighted({12, 4, 1}) == 0 ? 200 + g.below(400) : g.chance(3, 4) ? 4000 + g.below(500) : 65400 + g.below(400);
  size_t mode = g.weighted({4, 2, 2});
  Bytes r = g.random_bytes(3 * n);
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    uint32_t c = r[3 * i] | r[3 * i + 1] << 8 | r[3 * i + 2] << 16;
    if (mode == 0) {
      c = 0x20 + c % 0x5f;
    } else if (mode == 1) {
      c = c % 4 == 0 ? c / 4 % 32 : 0x20 + c % 0x60;
    } else {
      static const uint32_t kMax[] = {0x80, 0x800, 0x10000, 0x110000};
      c = c / 4 % kMax[c % 4];
      if (c >= 0xd800 && c < 0xe000) c = 0xe000;
    }
    if (c < 0x80) {
      s += (char)c;
    } else if (c < 0x800) {
      s += (char)(0xc0 | c >> 6);
      s += (char)(0x80 | (c & 0x3f));
    } else if (c < 0x10000) {
      s += (char)(0xe0 | c >> 12);
      s += (char)(0x80 | (c >> 6 & 0x3f));
      s += (char)(0x80 | (c & 0x3f));
    } else {
      s += (char)(0xf0 | c >> 18);
      s += (char)(0x80 | (c >> 12 & 0x3f));
      s += (char)(0x80 | (c >> 6 & 0x3f));
      s += (char)(0x80 | (c & 0x3f));
    }
  }
  return s;
}
// Any bytes.
inline std::string Blob(Gen& g, size_t max) {
  size_t n = g.small_size(max);
  if (max >= 60 && g.chance(1, 80)) n = g.chance(3, 4) ? 200 + g.below(400) : 65400 + g.below(400);
  Bytes b = g.bytes(n);
  return std::string(b.begin(), b.end());
}
inline std::string Show(const std::string& s) { return pbt::hex((const uint8_t*)s.data(), s.size()); }

struct Id {
  Kind kind = Kind::NONE;
  std::string s;
  bool operator<(const Id& o) const { return kind != o.kind ? kind < o.kind : s < o.s; }
  bool operator==(const Id& o) const { return kind == o.kind && s == o.s; }
  bool operator!=(const Id& o) const { return !(*this == o); }
};
inline std::ostream& operator<<(std::ostream& o, const Id& i) { return o << (int)i.kind << ":" << Show(i.s); }
inline Id IdOf(const Identity& i) { return {i.GetIdentityType(), i.GetIdentityString()}; }
inline Id IdOf(const pb::Identity& i) {
  switch (i.identity_oneof_case()) {
    case pb::Identity::kSpiffeId:
      return {Kind::SPIFFE_ID, i.spiffe_id()};
    case pb::Identity::kHostname:
      return {Kind::HOSTNAME, i.hostname()};
    case pb::Identity::kUid:
      return {Kind::UID, i.uid()};
    default:
      return {};
  }
}
inline Identity Make(const Id& i) {
  switch (i.kind) {
    case Kind::SPIFFE_ID:
      return Identity::FromSpiffeId(i.s);
    case Kind::HOSTNAME:
      return Identity::FromHostname(i.s);
    case Kind::UID:
      return Identity::FromUid(i.s);
    default:
      return Identity::GetEmptyIdentity();
  }
}
inline void Fill(const Id& i, pb::Identity* p) {
  switch (i.kind) {
    case Kind::SPIFFE_ID:
      p->set_spiffe_id(i.s);
      break;
    case Kind::HOSTNAME:
      p->set_hostname(i.s);
      break;
    case Kind::UID:
      p->set_uid(i.s);
      break;
    default:
      break;
  }
}
// Of a real kind.
inline Id AnyId(Gen& g) {
  Id i;
  i.kind = g.pick<Kind>({Kind::SPIFFE_ID, Kind::HOSTNAME, Kind::UID});
  // Few distinct strings, so that kinds and strings collide often.
  if (g.chance(1, 2))
    i.s = g.pick<const char*>({"a", "b", "", "spiffe://a/b", "a.example.com", "a", "b", "", "A", "a ", " a", "a.", "a/", "a\n",
                                 "spiffe://A/b", "SPIFFE://a/b", "spiffe://a/b/", "spiffe://", "A.example.com", "a.example.com.", "0"});
  else
    i.s = Text(g, 60);
  return i;
}
inline Id AnyIdOrNone(Gen& g) { return g.chance(1, 5) ? Id() : AnyId(g); }
inline void Attributes(Gen& g, pb::Identity* p) {
  for (size_t n = g.chance(1, 6) ? g.below(4) : 0; n > 0; --n) (*p->mutable_attributes())[Text(g, 8)] = Text(g, 8);
}

inline std::string Str(const std::unique_ptr<std::vector<char>>& b) {
  return b ? std::string(b->begin(), b->end()) : "<null>";
}
}  // namespace pr
#endif
