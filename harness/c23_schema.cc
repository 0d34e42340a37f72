// C23: generated message code agrees with the published proto schema.
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/util/message_differencer.h>

#include <fstream>

#include "proto_common.h"
#include "src/proto/upb-generated/proto/common.upb.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/proto/upb-generated/proto/s2a_context.upb.h"
#include "upb/upb.hpp"
using namespace pr;
namespace gp = google::protobuf;

namespace {
upb_strview SV(const std::string& s) { return upb_strview_make(s.data(), s.size()); }
std::string SS(upb_strview v) { return std::string(v.data, v.size); }

// ---- the schema files of the code under test --------------------------------
struct Errors : gp::compiler::MultiFileErrorCollector {
  std::string text;
  void AddError(const std::string& f, int line, int, const std::string& m) override {
    text += f + ":" + std::to_string(line) + ": " + m + "\n";
  }
};
struct RepoSchema {
  gp::compiler::DiskSourceTree tree;
  Errors errors;
  gp::compiler::Importer importer{&tree, &errors};
  gp::DynamicMessageFactory factory;
  bool present = false;
  RepoSchema() {
    const char* root = getenv("VERIF_REPO");
    std::string dir = root ? root : "/repo";
    tree.MapPath("", dir);
    for (const char* f : {"src/proto/common.proto", "src/proto/s2a.proto", "src/proto/s2a_context.proto"}) {
      std::ifstream in(dir + "/" + f);
      if (!in) return;
      importer.Import(f);
    }
    present = true;
  }
  static RepoSchema& Get() {
    static RepoSchema* s = new RepoSchema;
    return *s;
  }
  std::unique_ptr<gp::Message> New(const std::string& name) {
    auto* d = importer.pool()->FindMessageTypeByName(name);
    REQUIRE_MSG(d != nullptr, "the schema files have no message " << name << "; " << errors.text);
    return std::unique_ptr<gp::Message>(factory.GetPrototype(d)->New());
  }
};

// Copies by field name.
void Copy(const gp::Message& from, gp::Message* to) {
  auto *rf = from.GetReflection(), *rt = to->GetReflection();
  std::vector<const gp::FieldDescriptor*> fields;
  rf->ListFields(from, &fields);
  for (auto* f : fields) {
    auto* t = to->GetDescriptor()->FindFieldByName(f->name());
    REQUIRE_MSG(t != nullptr, "the schema files have no field " << f->full_name());
    REQUIRE_MSG(t->type() == f->type() && t->label() == f->label(), "the type of " << f->full_name() << " differs in the schema files");
    int n = f->is_repeated() ? rf->FieldSize(from, f) : 1;
    for (int i = 0; i < n; ++i) {
#define FIELD(CPP, Name)                                              \
  case gp::FieldDescriptor::CPPTYPE_##CPP:                            \
    if (f->is_repeated())                                             \
      rt->Add##Name(to, t, rf->GetRepeated##Name(from, f, i));        \
    else                                                              \
      rt->Set##Name(to, t, rf->Get##Name(from, f));                   \
    break;
      switch (f->cpp_type()) {
        FIELD(INT32, Int32)
        FIELD(INT64, Int64)
        FIELD(UINT32, UInt32)
        FIELD(UINT64, UInt64)
        FIELD(BOOL, Bool)
        FIELD(STRING, String)
        FIELD(ENUM, EnumValue)
        case gp::FieldDescriptor::CPPTYPE_MESSAGE:
          if (f->is_repeated())
            Copy(rf->GetRepeatedMessage(from, f, i), rt->AddMessage(to, t));
          else
            Copy(rf->GetMessage(from, f), rt->MutableMessage(to, t));
          break;
        default:
          pbt::fail("harness: field type");
      }
#undef FIELD
    }
  }
}

// ---- generated messages ------------------------------------------------------
void Generate(Gen& g, gp::Message* m, int depth);
void One(Gen& g, gp::Message* m, const gp::FieldDescriptor* f, int depth) {
  auto* r = m->GetReflection();
  bool rep = f->is_repeated();
  switch (f->cpp_type()) {
    case gp::FieldDescriptor::CPPTYPE_INT32: {
      int32_t v = (int32_t)g.number();
      rep ? r->AddInt32(m, f, v) : r->SetInt32(m, f, v);
      break;
    }
    case gp::FieldDescriptor::CPPTYPE_UINT32: {
      uint32_t v = (uint32_t)g.number();
      rep ? r->AddUInt32(m, f, v) : r->SetUInt32(m, f, v);
      break;
    }
    case gp::FieldDescriptor::CPPTYPE_UINT64: {
      uint64_t v = g.number();
      rep ? r->AddUInt64(m, f, v) : r->SetUInt64(m, f, v);
      break;
    }
    case gp::FieldDescriptor::CPPTYPE_BOOL: {
      bool v = g.boolean();
      rep ? r->AddBool(m, f, v) : r->SetBool(m, f, v);
      break;
    }
    case gp::FieldDescriptor::CPPTYPE_ENUM: {
      int v = g.chance(1, 4) ? (int)(int32_t)g.number() : (int)g.below(4);
      rep ? r->AddEnumValue(m, f, v) : r->SetEnumValue(m, f, v);
      break;
    }
    case gp::FieldDescriptor::CPPTYPE_STRING: {
      std::string v = f->type() == gp::FieldDescriptor::TYPE_STRING ? Text(g, g.chance(1, 20) ? 3000 : 20)
                                                                   : Blob(g, g.chance(1, 20) ? 30000 : 40);
      rep ? r->AddString(m, f, v) : r->SetString(m, f, v);
      break;
    }
    case gp::FieldDescriptor::CPPTYPE_MESSAGE:
      Generate(g, rep ? r->AddMessage(m, f) : r->MutableMessage(m, f), depth + 1);
      break;
    default:
      pbt::fail("harness: field type");
  }
}
void Generate(Gen& g, gp::Message* m, int depth) {
  auto* d = m->GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    if (f->is_map()) {
      for (size_t n = g.below(3); n > 0; --n)
        (*static_cast<pb::Identity*>(m)->mutable_attributes())[Text(g, 6)] = Text(g, 6);
    } else if (f->is_repeated()) {
      for (size_t n = depth < 2 && g.chance(1, 12) ? g.below(40) : g.below(4); n > 0; --n) One(g, m, f, depth);
    } else if (!g.chance(1, 4)) {
      One(g, m, f, depth);
    }
  }
}

// ---- writing with the accessors under test ----------------------------------
#define NEW(M) s2a_proto_##M##_new(a)
#define W_VAL(M, f)                                                                   \
  if (g.chance(1, 4)) s2a_proto_##M##_set_##f(u, (decltype(s2a_proto_##M##_##f(u)))1); \
  s2a_proto_##M##_set_##f(u, m.f());                                                  \
  REQUIRE_MSG((uint64_t)s2a_proto_##M##_##f(u) == (uint64_t)m.f(), #M "." #f " after setting it");
#define W_STR(M, f)                                                           \
  if (g.chance(1, 4)) s2a_proto_##M##_set_##f(u, upb_strview_makez("junk")); \
  s2a_proto_##M##_set_##f(u, SV(m.f()));                                      \
  REQUIRE_MSG(SS(s2a_proto_##M##_##f(u)) == m.f(), #M "." #f " after setting it");
#define W_MSG(M, f, T)                                                \
  REQUIRE_MSG(!s2a_proto_##M##_has_##f(u), #M "." #f " present");     \
  W_ONE(M, f, T)
#define W_ONE(M, f, T)                                                \
  if (m.has_##f()) {                                                  \
    if (g.boolean()) {                                                \
      auto* s = s2a_proto_##M##_mutable_##f(u, a);                    \
      Write(g, m.f(), s, a);                                          \
      REQUIRE(s2a_proto_##M##_mutable_##f(u, a) == s);                \
    } else {                                                          \
      auto* s = NEW(T);                                               \
      Write(g, m.f(), s, a);                                          \
      s2a_proto_##M##_set_##f(u, s);                                  \
    }                                                                 \
    REQUIRE_MSG(s2a_proto_##M##_has_##f(u), #M "." #f " absent");     \
  }
#define W_REP_STR(M, f)                                                             \
  if (g.boolean()) {                                                                \
    for (auto& x : m.f()) REQUIRE(s2a_proto_##M##_add_##f(u, SV(x), a));            \
  } else if (m.f##_size()) {                                                        \
    upb_strview* p = s2a_proto_##M##_resize_##f(u, (size_t)m.f##_size(), a);        \
    for (int i = 0; i < m.f##_size(); ++i) p[i] = SV(m.f(i));                       \
    size_t n = 0;                                                                   \
    REQUIRE(s2a_proto_##M##_mutable_##f(u, &n) == p && n == (size_t)m.f##_size());  \
  }
#define W_REP_VAL(M, f)                                                             \
  if (g.boolean()) {                                                                \
    for (auto x : m.f()) REQUIRE(s2a_proto_##M##_add_##f(u, x, a));                 \
  } else if (m.f##_size()) {                                                        \
    int32_t* p = s2a_proto_##M##_resize_##f(u, (size_t)m.f##_size(), a);            \
    for (int i = 0; i < m.f##_size(); ++i) p[i] = m.f(i);                           \
    size_t n = 0;                                                                   \
    REQUIRE(s2a_proto_##M##_mutable_##f(u, &n) == p && n == (size_t)m.f##_size());  \
  }
#define W_REP_MSG(M, f, T)                                                          \
  if (g.boolean()) {                                                                \
    for (auto& x : m.f()) Write(g, x, s2a_proto_##M##_add_##f(u, a), a);            \
  } else if (m.f##_size()) {                                                        \
    auto** p = s2a_proto_##M##_resize_##f(u, (size_t)m.f##_size(), a);              \
    for (int i = 0; i < m.f##_size(); ++i) {                                        \
      auto* s = NEW(T);                                                             \
      Write(g, m.f(i), s, a);                                                       \
      p[i] = s;                                                                     \
    }                                                                               \
    size_t n = 0;                                                                   \
    REQUIRE((void*)s2a_proto_##M##_mutable_##f(u, &n) == (void*)p && n == (size_t)m.f##_size()); \
  }
#define WRITER(M) void Write(Gen& g, const pb::M& m, s2a_proto_##M* u, upb_arena* a)

// ---- reading with the accessors under test ----------------------------------
#define R_VAL(M, f) \
  REQUIRE_MSG((uint64_t)s2a_proto_##M##_##f(u) == (uint64_t)m.f(), #M "." #f " reads " << (uint64_t)s2a_proto_##M##_##f(u) << " expected " << (uint64_t)m.f());
#define R_STR(M, f) \
  REQUIRE_MSG(SS(s2a_proto_##M##_##f(u)) == m.f(), #M "." #f " reads " << Show(SS(s2a_proto_##M##_##f(u))) << " expected " << Show(m.f()));
#define R_MSG(M, f)                                                                            \
  REQUIRE_MSG(s2a_proto_##M##_has_##f(u) == m.has_##f(), #M "." #f " presence");               \
  REQUIRE_MSG((s2a_proto_##M##_##f(u) != nullptr) == m.has_##f(), #M "." #f " null or not");   \
  if (m.has_##f()) Check(m.f(), s2a_proto_##M##_##f(u));
#define R_REP_STR(M, f)                                                                        \
  {                                                                                            \
    size_t n = 77;                                                                             \
    upb_strview const* p = s2a_proto_##M##_##f(u, &n);                                         \
    REQUIRE_MSG(n == (size_t)m.f##_size(), #M "." #f " has " << n << " entries, expected " << m.f##_size()); \
    for (size_t i = 0; i < n; ++i) REQUIRE_MSG(SS(p[i]) == m.f((int)i), #M "." #f " entry " << i); \
  }
#define R_REP_VAL(M, f)                                                                        \
  {                                                                                            \
    size_t n = 77;                                                                             \
    int32_t const* p = s2a_proto_##M##_##f(u, &n);                                             \
    REQUIRE_MSG(n == (size_t)m.f##_size(), #M "." #f " has " << n << " entries, expected " << m.f##_size()); \
    for (size_t i = 0; i < n; ++i) REQUIRE_MSG(p[i] == (int)m.f((int)i), #M "." #f " entry " << i); \
  }
#define R_REP_MSG(M, f)                                                                        \
  {                                                                                            \
    size_t n = 77;                                                                             \
    auto* p = s2a_proto_##M##_##f(u, &n);                                                      \
    REQUIRE_MSG(n == (size_t)m.f##_size(), #M "." #f " has " << n << " entries, expected " << m.f##_size()); \
    REQUIRE_MSG(s2a_proto_##M##_has_##f(u) || n == 0, #M "." #f " presence");                  \
    for (size_t i = 0; i < n; ++i) Check(m.f((int)i), p[i]);                                   \
  }
#define READER(M) void Check(const pb::M& m, const s2a_proto_##M* u)

WRITER(Identity) {
  if (m.identity_oneof_case() != 0) {  // Replaced by what follows.
    if (g.chance(1, 4)) s2a_proto_Identity_set_uid(u, upb_strview_makez("junk"));
    if (g.chance(1, 4)) s2a_proto_Identity_set_spiffe_id(u, upb_strview_makez("junk2"));
  }
  switch (m.identity_oneof_case()) {
    case pb::Identity::kSpiffeId:
      s2a_proto_Identity_set_spiffe_id(u, SV(m.spiffe_id()));
      break;
    case pb::Identity::kHostname:
      s2a_proto_Identity_set_hostname(u, SV(m.hostname()));
      break;
    case pb::Identity::kUid:
      s2a_proto_Identity_set_uid(u, SV(m.uid()));
      break;
    default:
      break;
  }
  if (g.chance(1, 4)) {
    s2a_proto_Identity_attributes_set(u, upb_strview_makez("x"), upb_strview_makez("y"), a);
    s2a_proto_Identity_attributes_clear(u);
    REQUIRE(s2a_proto_Identity_attributes_size(u) == 0);
  }
  for (auto& x : m.attributes()) {
    if (g.chance(1, 4)) s2a_proto_Identity_attributes_set(u, SV(x.first), upb_strview_makez("junk"), a);
    REQUIRE(s2a_proto_Identity_attributes_set(u, SV(x.first), SV(x.second), a));
  }
  if (!m.attributes().count("gone")) {
    s2a_proto_Identity_attributes_set(u, upb_strview_makez("gone"), upb_strview_makez("y"), a);
    REQUIRE(s2a_proto_Identity_attributes_delete(u, upb_strview_makez("gone")));
  }
  for (size_t it = 0; auto* e = s2a_proto_Identity_attributes_nextmutable(u, &it);) {
    std::string k = SS(s2a_proto_Identity_AttributesEntry_key(e));
    REQUIRE_MSG(m.attributes().count(k), "attribute " << Show(k));
    if (g.boolean()) s2a_proto_Identity_AttributesEntry_set_value(e, SV(m.attributes().at(k)));
  }
}
READER(Identity) {
  REQUIRE_EQ((int)s2a_proto_Identity_identity_oneof_case(u), (int)m.identity_oneof_case());
  REQUIRE_EQ(s2a_proto_Identity_has_spiffe_id(u), m.has_spiffe_id());
  REQUIRE_EQ(s2a_proto_Identity_has_hostname(u), m.has_hostname());
  REQUIRE_EQ(s2a_proto_Identity_has_uid(u), m.has_uid());
  R_STR(Identity, spiffe_id)
  R_STR(Identity, hostname)
  R_STR(Identity, uid)
  REQUIRE_EQ(s2a_proto_Identity_attributes_size(u), (size_t)m.attributes().size());
  REQUIRE_EQ(s2a_proto_Identity_has_attributes(u) || m.attributes().empty(), true);
  for (auto& x : m.attributes()) {
    upb_strview v;
    REQUIRE_MSG(s2a_proto_Identity_attributes_get(u, SV(x.first), &v), "attribute " << Show(x.first));
    REQUIRE_MSG(SS(v) == x.second, "value of attribute " << Show(x.first));
  }
  size_t n = 0;
  for (size_t it = 0; auto* e = s2a_proto_Identity_attributes_next(u, &it); ++n) {
    std::string k = SS(s2a_proto_Identity_AttributesEntry_key(e));
    REQUIRE_MSG(m.attributes().count(k) && m.attributes().at(k) == SS(s2a_proto_Identity_AttributesEntry_value(e)), "attribute " << Show(k));
  }
  REQUIRE_EQ(n, (size_t)m.attributes().size());
}
WRITER(AuthenticationMechanism) {
  W_MSG(AuthenticationMechanism, identity, Identity)
  if (m.has_token()) s2a_proto_AuthenticationMechanism_set_token(u, SV(m.token()));
}
READER(AuthenticationMechanism) {
  R_MSG(AuthenticationMechanism, identity)
  REQUIRE_EQ((int)s2a_proto_AuthenticationMechanism_mechanism_oneof_case(u), (int)m.mechanism_oneof_case());
  REQUIRE_EQ(s2a_proto_AuthenticationMechanism_has_token(u), m.has_token());
  R_STR(AuthenticationMechanism, token)
}
WRITER(ClientSessionStartReq) {
  W_REP_STR(ClientSessionStartReq, application_protocols)
  W_VAL(ClientSessionStartReq, min_tls_version)
  W_VAL(ClientSessionStartReq, max_tls_version)
  W_REP_VAL(ClientSessionStartReq, tls_ciphersuites)
  W_REP_MSG(ClientSessionStartReq, target_identities, Identity)
  W_MSG(ClientSessionStartReq, local_identity, Identity)
  W_STR(ClientSessionStartReq, target_name)
}
READER(ClientSessionStartReq) {
  R_REP_STR(ClientSessionStartReq, application_protocols)
  R_VAL(ClientSessionStartReq, min_tls_version)
  R_VAL(ClientSessionStartReq, max_tls_version)
  R_REP_VAL(ClientSessionStartReq, tls_ciphersuites)
  R_REP_MSG(ClientSessionStartReq, target_identities)
  R_MSG(ClientSessionStartReq, local_identity)
  R_STR(ClientSessionStartReq, target_name)
}
WRITER(ServerSessionStartReq) {
  W_REP_STR(ServerSessionStartReq, application_protocols)
  W_VAL(ServerSessionStartReq, min_tls_version)
  W_VAL(ServerSessionStartReq, max_tls_version)
  W_REP_VAL(ServerSessionStartReq, tls_ciphersuites)
  W_REP_MSG(ServerSessionStartReq, local_identities, Identity)
  W_STR(ServerSessionStartReq, in_bytes)
}
READER(ServerSessionStartReq) {
  R_REP_STR(ServerSessionStartReq, application_protocols)
  R_VAL(ServerSessionStartReq, min_tls_version)
  R_VAL(ServerSessionStartReq, max_tls_version)
  R_REP_VAL(ServerSessionStartReq, tls_ciphersuites)
  R_REP_MSG(ServerSessionStartReq, local_identities)
  R_STR(ServerSessionStartReq, in_bytes)
}
WRITER(SessionNextReq) { W_STR(SessionNextReq, in_bytes) }
READER(SessionNextReq) { R_STR(SessionNextReq, in_bytes) }
WRITER(ResumptionTicketReq) {
  W_REP_STR(ResumptionTicketReq, in_bytes)
  W_VAL(ResumptionTicketReq, connection_id)
  W_MSG(ResumptionTicketReq, local_identity, Identity)
}
READER(ResumptionTicketReq) {
  R_REP_STR(ResumptionTicketReq, in_bytes)
  R_VAL(ResumptionTicketReq, connection_id)
  R_MSG(ResumptionTicketReq, local_identity)
}
WRITER(SessionReq) {
  if (m.req_oneof_case() != 0 && g.chance(1, 4)) {  // Replaced by what follows.
    if (g.boolean() && !m.has_next())
      s2a_proto_SessionNextReq_set_in_bytes(s2a_proto_SessionReq_mutable_next(u, a), upb_strview_makez("junk"));
    else if (!m.has_resumption_ticket())
      s2a_proto_ResumptionTicketReq_set_connection_id(s2a_proto_SessionReq_mutable_resumption_ticket(u, a), 7);
  }
  W_ONE(SessionReq, client_start, ClientSessionStartReq)
  W_ONE(SessionReq, server_start, ServerSessionStartReq)
  W_ONE(SessionReq, next, SessionNextReq)
  W_ONE(SessionReq, resumption_ticket, ResumptionTicketReq)
  W_REP_MSG(SessionReq, auth_mechanisms, AuthenticationMechanism)
}
READER(SessionReq) {
  REQUIRE_EQ((int)s2a_proto_SessionReq_req_oneof_case(u), (int)m.req_oneof_case());
  R_MSG(SessionReq, client_start)
  R_MSG(SessionReq, server_start)
  R_MSG(SessionReq, next)
  R_MSG(SessionReq, resumption_ticket)
  R_REP_MSG(SessionReq, auth_mechanisms)
}
WRITER(SessionState) {
  W_VAL(SessionState, tls_version)
  W_VAL(SessionState, tls_ciphersuite)
  W_VAL(SessionState, in_sequence)
  W_VAL(SessionState, out_sequence)
  W_STR(SessionState, in_key)
  W_STR(SessionState, out_key)
  W_STR(SessionState, in_fixed_nonce)
  W_STR(SessionState, out_fixed_nonce)
  W_VAL(SessionState, connection_id)
  W_VAL(SessionState, is_handshake_resumed)
}
READER(SessionState) {
  R_VAL(SessionState, tls_version)
  R_VAL(SessionState, tls_ciphersuite)
  R_VAL(SessionState, in_sequence)
  R_VAL(SessionState, out_sequence)
  R_STR(SessionState, in_key)
  R_STR(SessionState, out_key)
  R_STR(SessionState, in_fixed_nonce)
  R_STR(SessionState, out_fixed_nonce)
  R_VAL(SessionState, connection_id)
  R_VAL(SessionState, is_handshake_resumed)
}
WRITER(SessionResult) {
  W_STR(SessionResult, application_protocol)
  W_MSG(SessionResult, state, SessionState)
  W_MSG(SessionResult, peer_identity, Identity)
  W_MSG(SessionResult, local_identity, Identity)
  W_STR(SessionResult, local_cert_fingerprint)
  W_STR(SessionResult, peer_cert_fingerprint)
}
READER(SessionResult) {
  R_STR(SessionResult, application_protocol)
  R_MSG(SessionResult, state)
  R_MSG(SessionResult, peer_identity)
  R_MSG(SessionResult, local_identity)
  R_STR(SessionResult, local_cert_fingerprint)
  R_STR(SessionResult, peer_cert_fingerprint)
}
WRITER(SessionStatus) {
  W_VAL(SessionStatus, code)
  W_STR(SessionStatus, details)
}
READER(SessionStatus) {
  R_VAL(SessionStatus, code)
  R_STR(SessionStatus, details)
}
WRITER(SessionResp) {
  W_MSG(SessionResp, local_identity, Identity)
  W_STR(SessionResp, out_frames)
  W_VAL(SessionResp, bytes_consumed)
  W_MSG(SessionResp, result, SessionResult)
  W_MSG(SessionResp, status, SessionStatus)
}
READER(SessionResp) {
  R_MSG(SessionResp, local_identity)
  R_STR(SessionResp, out_frames)
  R_VAL(SessionResp, bytes_consumed)
  R_MSG(SessionResp, result)
  R_MSG(SessionResp, status)
}
WRITER(S2AContext) {
  W_STR(S2AContext, application_protocol)
  W_VAL(S2AContext, tls_version)
  W_VAL(S2AContext, ciphersuite)
  W_MSG(S2AContext, peer_identity, Identity)
  W_MSG(S2AContext, local_identity, Identity)
  W_STR(S2AContext, peer_cert_fingerprint)
  W_STR(S2AContext, local_cert_fingerprint)
  W_VAL(S2AContext, is_handshake_resumed)
}
READER(S2AContext) {
  R_STR(S2AContext, application_protocol)
  R_VAL(S2AContext, tls_version)
  R_VAL(S2AContext, ciphersuite)
  R_MSG(S2AContext, peer_identity)
  R_MSG(S2AContext, local_identity)
  R_STR(S2AContext, peer_cert_fingerprint)
  R_STR(S2AContext, local_cert_fingerprint)
  R_VAL(S2AContext, is_handshake_resumed)
}

template <class M, class U>
void Both(Gen& g, U* (*make)(upb_arena*), char* (*serialize)(const U*, upb_arena*, size_t*),
          U* (*parse)(const char*, size_t, upb_arena*)) {
  M m;
  g.note(m.GetDescriptor()->name()).note(" ");
  g.label(m.GetDescriptor()->name());
  Generate(g, &m, 0);
  g.note(m.ShortDebugString().substr(0, 300));
  std::vector<const gp::FieldDescriptor*> set;
  m.GetReflection()->ListFields(m, &set);
  g.nontrivial(set.size() >= 1);
  std::unique_ptr<gp::Message> dyn;
  if (RepoSchema::Get().present) {
    dyn = RepoSchema::Get().New(m.GetTypeName());
    Copy(m, dyn.get());
  }
  // Written by the code under test.
  {
    upb::Arena arena;
    U* u = make(arena.ptr());
    Write(g, m, u, arena.ptr());
    Check(m, u);
    size_t n = 0;
    char* b = serialize(u, arena.ptr(), &n);
    REQUIRE_MSG(b != nullptr, "not serialized");
    M back;
    REQUIRE_MSG(back.ParseFromArray(b, (int)n), "a standard implementation cannot read it");
    REQUIRE_MSG(gp::util::MessageDifferencer::Equals(m, back), "read as " << back.ShortDebugString().substr(0, 500));
    if (dyn) {
      std::unique_ptr<gp::Message> d(dyn->New());
      REQUIRE_MSG(d->ParseFromArray(b, (int)n), "a reader made from the schema files cannot read it");
      REQUIRE_MSG(gp::util::MessageDifferencer::Equals(*dyn, *d), "per the schema files read as " << d->ShortDebugString().substr(0, 500));
    }
  }
  // Written by a standard implementation.
  for (int i = 0; i < (dyn ? 2 : 1); ++i) {
    std::string s = i ? dyn->SerializeAsString() : m.SerializeAsString();
    upb::Arena arena;
    U* u = parse(s.data(), s.size(), arena.ptr());
    REQUIRE_MSG(u != nullptr, "a message written " << (i ? "per the schema files" : "by a standard implementation") << " is refused");
    Check(m, u);
    size_t n = 0;
    char* b = serialize(u, arena.ptr(), &n);
    M back;
    REQUIRE_MSG(b && back.ParseFromArray(b, (int)n) && gp::util::MessageDifferencer::Equals(m, back), "changed by reading and writing");
  }
}
#define BOTH(M) Both<pb::M, s2a_proto_##M>(g, s2a_proto_##M##_new, s2a_proto_##M##_serialize, s2a_proto_##M##_parse)

void Dispatch(Gen& g, uint64_t k) {
  switch (k) {
    case 0:
      return BOTH(Identity);
    case 1:
      return BOTH(AuthenticationMechanism);
    case 2:
      return BOTH(ClientSessionStartReq);
    case 3:
      return BOTH(ServerSessionStartReq);
    case 4:
      return BOTH(SessionNextReq);
    case 5:
      return BOTH(ResumptionTicketReq);
    case 6:
      return BOTH(SessionReq);
    case 7:
      return BOTH(SessionState);
    case 8:
      return BOTH(SessionResult);
    case 9:
      return BOTH(SessionStatus);
    case 10:
      return BOTH(SessionResp);
    default:
      return BOTH(S2AContext);
  }
}

#define SAME(a, b)                                                                     \
  if ((int)(a) != (int)(b)) {                                                          \
    enum_error = #a " is " + std::to_string((int)(a)) + ", in the schema " + std::to_string((int)(b)); \
  }
}  // namespace

static const struct Setup {
  Setup() { pbt::global_setup = [] { Silence(); }; }
} setup;

PROPERTY(messages, 100000, 1000000,
         "every message type in turn with generated fields, written and read with the shipped accessors, against a "
         "standard protobuf implementation of the frozen schema and of the schema files in the tree; non-trivial: a "
         "field is set") {
  Dispatch(g, g.sweep(12));
}

PROPERTY(numbers, 400, 600,
         "enumerator and oneof numbers of the shipped headers and of the schema files equal those of the published "
         "schema; non-trivial: every case") {
  std::string enum_error;
  SAME(s2a_proto_AES_128_GCM_SHA256, pb::AES_128_GCM_SHA256)
  SAME(s2a_proto_AES_256_GCM_SHA384, pb::AES_256_GCM_SHA384)
  SAME(s2a_proto_CHACHA20_POLY1305_SHA256, pb::CHACHA20_POLY1305_SHA256)
  SAME(s2a_proto_TLS1_2, pb::TLS1_2)
  SAME(s2a_proto_TLS1_3, pb::TLS1_3)
  SAME(s2a_proto_Identity_identity_oneof_spiffe_id, pb::Identity::kSpiffeId)
  SAME(s2a_proto_Identity_identity_oneof_hostname, pb::Identity::kHostname)
  SAME(s2a_proto_Identity_identity_oneof_uid, pb::Identity::kUid)
  SAME(s2a_proto_AuthenticationMechanism_mechanism_oneof_token, pb::AuthenticationMechanism::kToken)
  SAME(s2a_proto_SessionReq_req_oneof_client_start, pb::SessionReq::kClientStart)
  SAME(s2a_proto_SessionReq_req_oneof_server_start, pb::SessionReq::kServerStart)
  SAME(s2a_proto_SessionReq_req_oneof_next, pb::SessionReq::kNext)
  SAME(s2a_proto_SessionReq_req_oneof_resumption_ticket, pb::SessionReq::kResumptionTicket)
  REQUIRE_MSG(enum_error.empty(), enum_error);
  auto& repo = RepoSchema::Get();
  const gp::EnumDescriptor* enums[] = {pb::Ciphersuite_descriptor(), pb::TLSVersion_descriptor()};
  auto* e = enums[g.sweep(2)];
  auto* v = e->value((int)g.below((uint64_t)e->value_count()));
  g.note(v->full_name());
  g.nontrivial();
  if (repo.present) {
    auto* d = repo.importer.pool()->FindEnumTypeByName(e->full_name());
    REQUIRE_MSG(d != nullptr, "the schema files have no enum " << e->full_name() << "; " << repo.errors.text);
    auto* w = d->FindValueByName(v->name());
    REQUIRE_MSG(w != nullptr, "the schema files have no " << v->full_name());
    REQUIRE_EQ(w->number(), v->number());
  }
}
