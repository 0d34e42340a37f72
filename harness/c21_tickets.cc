// C21: resumption ticket requests carry exactly the tickets and connection.
#include "proto_common.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"
using namespace pr;
using s2a::s2a_ticket_sender::PrepareResumptionTicketReq;
using Tickets = std::unique_ptr<std::vector<std::unique_ptr<std::string>>>;

static const struct Setup {
  Setup() { pbt::global_setup = Silence; }
} setup;

PROPERTY(prepare, 120000, 1200000,
         "ticket lists of any size and content with any id and identity, read back by a standard protobuf "
         "implementation; non-trivial: at least one ticket, or refused") {
  Id id = AnyIdOrNone(g);
  uint64_t connection = g.number();
  Tickets t;
  std::vector<std::string> want;
  if (!g.chance(1, 12)) {
    t.reset(new std::vector<std::unique_ptr<std::string>>);
    for (size_t n = g.chance(1, 10) ? g.below(60) : g.below(7); n > 0; --n) {
      std::string s = Blob(g, g.chance(1, 10) ? 70000 : 300);
      if (g.chance(1, 4)) s = std::string("\x04\x00\x00", 3) + s;
      want.push_back(s);
      t->push_back(std::unique_ptr<std::string>(new std::string(s)));
    }
  }
  g.note("id ").note(connection).note(" identity ").note(id).note(t ? " tickets " : " no list").note(want.size());
  std::string bytes;
  bool ok;
  Identity identity = Make(id);
  {
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    ok = PrepareResumptionTicketReq(connection, identity, t, arena.ptr(), req);
    if (ok) {
      size_t n = 0;
      char* b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &n);
      REQUIRE_MSG(b != nullptr, "the request cannot be serialized");
      bytes.assign(b, n);
    }
  }
  bool expect = t != nullptr && id.kind != Kind::NONE;
  REQUIRE_MSG(ok == expect, (ok ? "prepared" : "refused"));
  if (t) {  // The list is the caller's.
    REQUIRE_EQ(t->size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) REQUIRE_MSG((*t)[i] && *(*t)[i] == want[i], "ticket list modified");
  }
  g.nontrivial(!ok || !want.empty());
  if (!ok) {
    g.label("refused");
    return;
  }
  pb::SessionReq r;
  REQUIRE_MSG(r.ParseFromString(bytes), "not a SessionReq");
  REQUIRE_MSG(r.req_oneof_case() == pb::SessionReq::kResumptionTicket, "kind " << (int)r.req_oneof_case());
  auto& m = r.resumption_ticket();
  REQUIRE_EQ(m.connection_id(), connection);
  REQUIRE_MSG(m.has_local_identity(), "no identity");
  REQUIRE_EQ(IdOf(m.local_identity()), id);
  REQUIRE_EQ((size_t)m.in_bytes_size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    REQUIRE_MSG(m.in_bytes((int)i) == want[i], "ticket " << i << " " << Show(m.in_bytes((int)i)) << " expected " << Show(want[i]));
  REQUIRE_MSG(r.auth_mechanisms_size() == 0, "authentication mechanisms from nowhere");
}
