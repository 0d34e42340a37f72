// C18: enum and identity conversions are faithful bijections.
#include "proto_common.h"
#include "src/crypto/hkdf.h"
#include "src/handshaker/s2a_util.h"
#include "src/record_protocol/s2a_crypter_util.h"
using namespace pr;
using namespace s2a::s2a_util;

static const struct Setup {
  Setup() { pbt::global_setup = Silence; }
} setup;

namespace {
// Number of an enumerator in the schema, by name.
int VersionNumber(const char* name) {
  pb::TLSVersion v;
  if (!pb::TLSVersion_Parse(name, &v)) pbt::fail("harness: no such version");
  return v;
}
int SuiteNumber(const char* name) {
  pb::Ciphersuite v;
  if (!pb::Ciphersuite_Parse(name, &v)) pbt::fail("harness: no such ciphersuite");
  return v;
}
const struct { Version v; const char* name; } kVersions[] = {{Version::TLS1_2, "TLS1_2"}, {Version::TLS1_3, "TLS1_3"}};
const struct { Suite v; const char* name; bool sha384; } kSuites[] = {
    {Suite::AES_128_GCM_SHA256, "AES_128_GCM_SHA256", false},
    {Suite::AES_256_GCM_SHA384, "AES_256_GCM_SHA384", true},
    {Suite::CHACHA20_POLY1305_SHA256, "CHACHA20_POLY1305_SHA256", false}};
int AnyNumber(Gen& g) {
  uint64_t k = g.sweep(600);
  if (k < 580) return (int)k - 60;
  return (int)(uint32_t)g.number();
}
}  // namespace

PROPERTY(enums, 40000, 400000,
         "every number from -60 to 519 and others as version and ciphersuite in both directions, and as ciphersuite "
         "of a hash function; non-trivial: every case") {
  int n = AnyNumber(g);
  g.note("number ").note(n);
  g.nontrivial();
  {
    auto r = ConvertTlsVersionToProto((Version)n);
    const char* want = nullptr;
    for (auto& v : kVersions)
      if ((int)v.v == n) want = v.name;
    REQUIRE_MSG((r.index() == 1) == (want != nullptr), "version " << n << (want ? " refused" : " accepted"));
    if (want)
      REQUIRE_EQ((int)absl::get<1>(r), VersionNumber(want));
    else
      REQUIRE_MSG(!absl::get<0>(r).ok(), "an OK status instead of a version");
  }
  {
    auto r = ConvertFromProtoToTlsVersion((s2a_proto_TLSVersion)n);
    const Version* want = nullptr;
    for (auto& v : kVersions)
      if (VersionNumber(v.name) == n) want = &v.v;
    REQUIRE_MSG((r.index() == 1) == (want != nullptr), "schema version " << n << (want ? " refused" : " accepted"));
    if (want)
      REQUIRE_EQ((int)absl::get<1>(r), (int)*want);
    else
      REQUIRE_MSG(!absl::get<0>(r).ok(), "an OK status instead of a version");
  }
  {
    auto r = ConvertCiphersuiteToProto((Suite)n);
    const char* want = nullptr;
    for (auto& v : kSuites)
      if ((int)v.v == n) want = v.name;
    REQUIRE_MSG((r.index() == 1) == (want != nullptr), "ciphersuite " << n << (want ? " refused" : " accepted"));
    if (want)
      REQUIRE_EQ((int)absl::get<1>(r), SuiteNumber(want));
    else
      REQUIRE_MSG(!absl::get<0>(r).ok(), "an OK status instead of a ciphersuite");
  }
  {
    auto r = ConvertFromProtoToCiphersuite((s2a_proto_Ciphersuite)n);
    const Suite* want = nullptr;
    for (auto& v : kSuites)
      if (SuiteNumber(v.name) == n) want = &v.v;
    REQUIRE_MSG((r.index() == 1) == (want != nullptr), "schema ciphersuite " << n << (want ? " refused" : " accepted"));
    if (want)
      REQUIRE_EQ((int)absl::get<1>(r), (int)*want);
    else
      REQUIRE_MSG(!absl::get<0>(r).ok(), "an OK status instead of a ciphersuite");
  }
  {
    auto h = n % 2 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function;
    auto st = s2a::CiphersuiteToHashFunction((Suite)n, &h);
    const bool* want = nullptr;
    for (auto& v : kSuites)
      if ((int)v.v == n) want = &v.sha384;
    REQUIRE_MSG(st.ok() == (want != nullptr), "hash of ciphersuite " << n << ": " << st.ToString());
    if (want)
      REQUIRE_MSG((h == s2a::hkdf::HashFunction::SHA384_hash_function) == *want, "wrong hash function for ciphersuite " << n);
  }
}

PROPERTY(identities, 120000, 1200000,
         "identities of every kind to the schema (read by a standard protobuf implementation) and back, and schema "
         "identities with attributes or several kinds in turn; non-trivial: non-empty string or no kind") {
  Id i = AnyIdOrNone(g), j = AnyIdOrNone(g);
  g.note(i);
  g.nontrivial(i.kind == Kind::NONE || !i.s.empty());
  upb::Arena arena;
  Identity id = Make(i);
  auto r = ConvertIdentityToProto(arena.ptr(), id);
  REQUIRE_MSG(r.index() == 1, "refused: " << absl::get<0>(r).ToString());
  s2a_proto_Identity* p = absl::get<1>(r);
  if (i.kind == Kind::NONE) {
    REQUIRE_EQ(IdOf(ConvertFromProtoToIdentity(p)), Id());
  } else {
    REQUIRE(p != nullptr);
    size_t n = 0;
    char* b = s2a_proto_Identity_serialize(p, arena.ptr(), &n);
    REQUIRE(b != nullptr);
    pb::Identity m;
    REQUIRE_MSG(m.ParseFromArray(b, (int)n), "not an identity of the schema");
    REQUIRE_EQ(IdOf(m), i);
    REQUIRE_MSG(m.attributes().empty(), "attributes");
    REQUIRE_EQ(IdOf(ConvertFromProtoToIdentity(p)), i);
  }
  // From elsewhere.
  pb::Identity m;
  if (g.chance(1, 3)) Fill(i, &m);
  Fill(j, &m);
  Attributes(g, &m);
  if (j.kind == Kind::NONE) j = IdOf(m);
  std::string s = m.SerializeAsString();
  s2a_proto_Identity* q = s2a_proto_Identity_parse(s.data(), s.size(), arena.ptr());
  REQUIRE_MSG(q != nullptr, "an identity of the schema is not read");
  REQUIRE_EQ(IdOf(ConvertFromProtoToIdentity(q)), j);
  REQUIRE_EQ(IdOf(ConvertFromProtoToIdentity(nullptr)), Id());
  auto none = ConvertIdentityToProto(nullptr, id);
  REQUIRE_MSG(none.index() == 0 && !absl::get<0>(none).ok(), "no arena, no error");
  // Strings.
  std::string blob = Blob(g, 60);
  REQUIRE_MSG(ParseUpbStrview(upb_strview_make(blob.data(), blob.size())) == blob, "string view of " << Show(blob));
}
