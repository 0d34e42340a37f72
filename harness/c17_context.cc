// C17: context serialization is lossless and schema-conformant.
#include "include/s2a_context.h"
#include "proto_common.h"
using namespace pr;
using s2a::s2a_context::GetS2AContextFromSerializedContext;
using s2a::s2a_context::S2AContext;

static const struct Setup {
  Setup() { pbt::global_setup = Silence; }
} setup;

namespace {
struct Value {
  std::string protocol, peer_print, local_print;
  int version = 1, suite = 0;
  Id peer, local;
  bool resumed = false;
};
std::string Print(Gen& g) {
  if (g.boolean()) {
    Bytes b = g.random_bytes(32);
    return std::string(b.begin(), b.end());
  }
  return Blob(g, 80);
}
Value Any(Gen& g) {
  Value v;
  v.protocol = g.chance(1, 3) ? "grpc" : Text(g, 200);
  v.version = (int)g.below(2);
  v.suite = (int)g.below(3);
  v.peer = AnyIdOrNone(g);
  v.local = AnyIdOrNone(g);
  v.peer_print = Print(g);
  v.local_print = Print(g);
  v.resumed = g.boolean();
  return v;
}
Version VersionOf(int v) { return v ? Version::TLS1_3 : Version::TLS1_2; }
Suite SuiteOf(int s) {
  return s == 0 ? Suite::AES_128_GCM_SHA256 : s == 1 ? Suite::AES_256_GCM_SHA384 : Suite::CHACHA20_POLY1305_SHA256;
}
S2AContext Build(const Value& v) {
  return S2AContext(v.protocol, VersionOf(v.version), SuiteOf(v.suite), Make(v.peer), Make(v.local), v.peer_print,
                    v.local_print, v.resumed);
}
void Equal(const S2AContext& c, const Value& v) {
  REQUIRE_MSG(c.ApplicationProtocol() == v.protocol, "application protocol " << Show(c.ApplicationProtocol()) << " expected " << Show(v.protocol));
  REQUIRE_MSG(c.TlsVersion() == VersionOf(v.version), "TLS version " << (int)c.TlsVersion());
  REQUIRE_MSG(c.Ciphersuite() == SuiteOf(v.suite), "ciphersuite " << (int)c.Ciphersuite());
  REQUIRE_EQ(IdOf(c.PeerIdentity()), v.peer);
  REQUIRE_EQ(IdOf(c.LocalIdentity()), v.local);
  REQUIRE_MSG(c.PeerCertFingerprint() == v.peer_print, "peer fingerprint " << Show(c.PeerCertFingerprint()) << " expected " << Show(v.peer_print));
  REQUIRE_MSG(c.LocalCertFingerprint() == v.local_print, "local fingerprint " << Show(c.LocalCertFingerprint()) << " expected " << Show(v.local_print));
  REQUIRE_EQ(c.IsHandshakeResumed(), v.resumed);
}
Value ValueOf(const pb::S2AContext& m) {
  Value v;
  v.protocol = m.application_protocol();
  v.version = m.tls_version();
  v.suite = m.ciphersuite();
  v.peer = IdOf(m.peer_identity());
  v.local = IdOf(m.local_identity());
  v.peer_print = m.peer_cert_fingerprint();
  v.local_print = m.local_cert_fingerprint();
  v.resumed = m.is_handshake_resumed();
  return v;
}
void Equal(const pb::S2AContext& m, const Value& v) {
  Value w = ValueOf(m);
  REQUIRE_MSG(w.protocol == v.protocol, "application protocol " << Show(w.protocol) << " expected " << Show(v.protocol));
  REQUIRE_EQ(w.version, v.version);
  REQUIRE_EQ(w.suite, v.suite);
  REQUIRE_EQ(w.peer, v.peer);
  REQUIRE_EQ(w.local, v.local);
  REQUIRE_MSG(w.peer_print == v.peer_print, "peer fingerprint " << Show(w.peer_print) << " expected " << Show(v.peer_print));
  REQUIRE_MSG(w.local_print == v.local_print, "local fingerprint " << Show(w.local_print) << " expected " << Show(v.local_print));
  REQUIRE_EQ(w.resumed, v.resumed);
}
std::string Serialize(const S2AContext& c) {
  auto v = c.GetSerializedContext();
  REQUIRE_MSG(v.index() == 1, "not serialized: " << absl::get<0>(v).ToString());
  REQUIRE(absl::get<1>(v) != nullptr);
  return Str(absl::get<1>(v));
}
// Deserializes from an exactly sized block.
absl::StatusOr<std::unique_ptr<S2AContext>> Deserialize(const std::string& s) {
  std::unique_ptr<char[]> b(new char[s.size()]);
  if (!s.empty()) memcpy(b.get(), s.data(), s.size());
  auto r = GetS2AContextFromSerializedContext(b.get(), s.size());
  memset(b.get(), 0xEE, s.size());  // The context must not refer to it.
  return r;
}
void Describe(Gen& g, const Value& v) {
  g.note("version ").note(v.version).note(" suite ").note(v.suite).note(" peer ").note(v.peer).note(" local ").note(v.local).note(" fingerprints ").note(v.peer_print.size()).note("/").note(v.local_print.size());
}
void Put(std::string* s, uint64_t v) {
  do {
    *s += (char)((v & 0x7f) | (v > 0x7f ? 0x80 : 0));
    v >>= 7;
  } while (v);
}
pb::S2AContext Message(Gen& g, const Value& v) {
  pb::S2AContext m;
  m.set_application_protocol(v.protocol);
  m.set_tls_version((pb::TLSVersion)v.version);
  m.set_ciphersuite((pb::Ciphersuite)v.suite);
  if (v.peer.kind != Kind::NONE || g.boolean()) {
    Fill(v.peer, m.mutable_peer_identity());
    Attributes(g, m.mutable_peer_identity());
  }
  if (v.local.kind != Kind::NONE || g.boolean()) {
    Fill(v.local, m.mutable_local_identity());
    Attributes(g, m.mutable_local_identity());
  }
  m.set_peer_cert_fingerprint(v.peer_print);
  m.set_local_cert_fingerprint(v.local_print);
  m.set_is_handshake_resumed(v.resumed);
  return m;
}
}  // namespace

PROPERTY(serialize, 100000, 1000000,
         "generated contexts serialized, read by a standard protobuf implementation, and deserialized again; "
         "non-trivial: an identity or a fingerprint is present") {
  Value v = Any(g);
  Describe(g, v);
  S2AContext c = Build(v);
  Equal(c, v);
  std::string s = Serialize(c);
  pb::S2AContext m;
  REQUIRE_MSG(m.ParseFromString(s), "not a message of the schema: " << Show(s));
  Equal(m, v);
  REQUIRE_MSG(m.GetReflection()->GetUnknownFields(m).empty(), "unknown fields");
  REQUIRE_MSG(m.has_peer_identity() == (v.peer.kind != Kind::NONE) || v.peer.kind == Kind::NONE, "peer identity missing");
  auto r = Deserialize(s);
  REQUIRE_MSG(r.ok(), r.status().ToString());
  Equal(**r, v);
  REQUIRE_MSG(Serialize(**r) == s, "serialized differently the second time");
  g.nontrivial(v.peer.kind != Kind::NONE || v.local.kind != Kind::NONE || !v.peer_print.empty());
}

PROPERTY(deserialize, 100000, 1000000,
         "messages made by a standard protobuf implementation: any order of fields, fields given twice, unknown "
         "fields, unsupported numbers; non-trivial: not the canonical encoding, or to be refused") {
  Value v = Any(g);
  bool refuse = false;
  if (g.chance(1, 6)) {
    v.version = g.boolean() ? (int)(2 + g.below(4)) : (int)g.number();
    refuse = refuse || v.version < 0 || v.version > 1;
  }
  if (g.chance(1, 6)) {
    v.suite = g.boolean() ? (int)(3 + g.below(4)) : (int)g.number();
    refuse = refuse || v.suite < 0 || v.suite > 2;
  }
  Describe(g, v);
  pb::S2AContext m = Message(g, v);
  // One message per field, concatenated in some order, is the same message.
  std::vector<std::string> parts;
  if (g.boolean()) {
    for (int n = 1; n <= 8; ++n) {
      pb::S2AContext one;
      auto* f = m.GetDescriptor()->FindFieldByNumber(n);
      pb::S2AContext copy = m;
      for (int k = 1; k <= 8; ++k)
        if (k != n) copy.GetReflection()->ClearField(&copy, m.GetDescriptor()->FindFieldByNumber(k));
      (void)f;
      parts.push_back(copy.SerializeAsString());
    }
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[g.below(i)]);
    g.label("reordered");
    g.nontrivial();
  } else {
    parts.push_back(m.SerializeAsString());
  }
  if (g.chance(1, 4)) {  // Overwritten by what follows.
    pb::S2AContext first = Message(g, Any(g));
    first.clear_peer_identity();
    first.clear_local_identity();
    if (v.protocol.empty()) first.clear_application_protocol();
    if (v.version == 0) first.clear_tls_version();
    if (v.suite == 0) first.clear_ciphersuite();
    if (v.peer_print.empty()) first.clear_peer_cert_fingerprint();
    if (v.local_print.empty()) first.clear_local_cert_fingerprint();
    if (!v.resumed) first.clear_is_handshake_resumed();
    parts.insert(parts.begin(), first.SerializeAsString());
    g.label("twice");
    g.nontrivial();
  }
  if (g.chance(1, 4)) {
    std::string u;
    Put(&u, (100 + g.below(100)) << 3);
    Put(&u, g.number());
    parts.insert(parts.begin() + g.below(parts.size() + 1), u);
    g.label("unknown field");
    g.nontrivial();
  }
  std::string s;
  for (auto& p : parts) s += p;
  pb::S2AContext again;
  REQUIRE_MSG(again.ParseFromString(s), "harness: bad encoding");
  auto r = Deserialize(s);
  if (refuse) {
    REQUIRE_MSG(!r.ok(), "unsupported version or ciphersuite accepted");
    g.label("refused");
    g.nontrivial();
    return;
  }
  REQUIRE_MSG(r.ok(), r.status().ToString());
  Equal(**r, v);
}

PROPERTY(damaged, 150000, 1500000,
         "truncated, altered and arbitrary bytes: an error exactly if a standard protobuf implementation refuses them "
         "or they name unsupported values, otherwise equal in every field; non-trivial: refused") {
  std::string s = Message(g, Any(g)).SerializeAsString();
  switch (g.below(3)) {
    case 0:
      s = s.substr(0, g.below(s.size() + 1));
      g.note("truncated to ").note(s.size());
      break;
    case 1:
      for (size_t n = 1 + g.below(3); n > 0 && !s.empty(); --n) s[g.below(s.size())] = (char)g.below(256);
      g.note("altered, size ").note(s.size());
      break;
    default:
      s = Blob(g, 60);
      g.note("arbitrary, size ").note(s.size());
  }
  pb::S2AContext m;
  bool ok = m.ParseFromString(s) && m.tls_version() >= 0 && m.tls_version() <= 1 && m.ciphersuite() >= 0 && m.ciphersuite() <= 2;
  auto r = Deserialize(s);
  REQUIRE_MSG(r.ok() == ok, (ok ? "refused: " + r.status().ToString() : "accepted") << " bytes " << Show(s));
  if (ok) {
    REQUIRE(*r != nullptr);
    Equal(**r, ValueOf(m));
  } else {
    g.nontrivial();
  }
}

PROPERTY(unsupported, 20000, 20000,
         "contexts holding a version or ciphersuite number outside the supported sets are not serialized; "
         "non-trivial: every case") {
  Value v = Any(g);
  uint64_t k = g.sweep(40);
  int n = (int)(k / 2) < 10 ? (int)(k / 2) + 3 : (int)(k / 2) < 15 ? -(int)(k / 2) : (int)(uint32_t)g.number();
  bool version = k % 2;
  if (n >= 0 && n < 3) n = 77;
  g.note(version ? "version " : "suite ").note(n);
  S2AContext c(v.protocol, version ? (Version)n : VersionOf(v.version), version ? SuiteOf(v.suite) : (Suite)n, Make(v.peer), Make(v.local), v.peer_print, v.local_print, v.resumed);
  auto r = c.GetSerializedContext();
  REQUIRE_MSG(r.index() == 0 && !absl::get<0>(r).ok(), "serialized");
  g.nontrivial();
}
