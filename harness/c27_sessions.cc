// C27: two endpoints that complete their handshakes through the service share
// a working secure channel.
#include "frame_common.h"
#include "proxy_common.h"
using pbt::Bytes;
using pbt::Gen;
using pr::Config;
using pr::Id;
using rec::Iovec;
namespace pb = pr::pb;

static const struct Setup {
  Setup() {
    pbt::global_setup = [] {
      ref::SelfTest();
      pr::Silence();
    };
  }
} setup;

extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(
    s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  return rec::RecordTickets(o);
}

namespace {
std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
std::string Frames(Gen& g) { return "f" + pr::Blob(g, g.chance(1, 10) ? 3000 : 60); }

// An endpoint: the application's side, and what the service knows of it.
struct Side {
  Config c;
  pr::Tokens::Log tokens;
  pr::Proxy p;
  std::string pending;  // From the peer, not yet consumed.
  bool started = false, selected = false, done = false;
  Id local;
  std::unique_ptr<s2a::frame_protector::S2AFrameProtector> frames;

  void Make(Gen& g, bool client) {
    c = pr::AnyConfig(g);
    c.client = client;
    if (client)
      while (c.local.size() > 1) c.local.erase(c.local.begin());
    for (auto& i : c.local) tokens.table[i] = "t" + std::to_string(g.below(1000000));
    tokens.table[Id()] = "default" + std::to_string(g.below(1000000));
    local = c.local.empty() ? pr::AnyId(g) : *std::next(c.local.begin(), g.below(c.local.size()));
    p = MakeProxy(c, std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>(new pr::Tokens(&tokens)));
  }
  // The request for the pending bytes, as the service reads it.
  pb::SessionReq Request(const std::string& in) {
    auto r = p->GetBytesForS2A(in.empty() ? nullptr : pr::Buf(in));
    REQUIRE_MSG(r.status.ok(), (c.client ? "client" : "server") << " request: " << r.status.ToString());
    pb::SessionReq q;
    REQUIRE_MSG(q.ParseFromString(pr::Str(r.buffer)), "not a request of the schema");
    if (started) {
      REQUIRE_MSG(q.has_next(), "not a next request");
      REQUIRE_BYTES(B(q.next().in_bytes()), B(in));
    } else if (c.client) {
      REQUIRE_MSG(q.has_client_start(), "not a client start");
      REQUIRE_EQ((size_t)q.client_start().tls_ciphersuites_size(), c.suites.size());
      REQUIRE_MSG(q.client_start().target_name() == c.target, "target name");
    } else {
      REQUIRE_MSG(q.has_server_start(), "not a server start");
      REQUIRE_BYTES(B(q.server_start().in_bytes()), B(in));
    }
    // The service authenticates the caller.
    std::map<Id, std::string> got;
    for (auto& a : q.auth_mechanisms()) got[a.has_identity() ? pr::IdOf(a.identity()) : Id()] = a.token();
    std::map<Id, std::string> want;
    if (selected && tokens.table.count(local)) {
      want[local] = tokens.table[local];
    } else {
      for (auto& i : c.local) want[i] = tokens.table[i];
      if (c.local.empty()) want[Id()] = tokens.table[Id()];
    }
    REQUIRE_MSG(got == want && (size_t)q.auth_mechanisms_size() == want.size(), "authentication mechanisms differ");
    started = true;
    return q;
  }
  // Returns the bytes for the peer.
  std::string Respond(Gen& g, const pb::SessionResp& r) {
    auto s = p->GetBytesForPeer(pr::Buf(r.SerializeAsString()));
    REQUIRE_MSG(s.status.ok(), (c.client ? "client" : "server") << " response: " << s.status.ToString());
    REQUIRE_MSG(s.buffer != nullptr, "no bytes for the peer");
    REQUIRE_BYTES(B(pr::Str(s.buffer)), B(r.out_frames()));
    REQUIRE_EQ(s.bytes_consumed, (size_t)r.bytes_consumed());
    if (r.has_local_identity()) selected = true;
    done = done || r.has_result();
    REQUIRE_MSG(p->IsHandshakeFinished() == done, "completion");
    return pr::Str(s.buffer);
  }
};
Bytes Take(const std::vector<Iovec>& v) {
  Bytes r;
  for (auto& i : v) {
    r.insert(r.end(), (uint8_t*)i.iov_base, (uint8_t*)i.iov_base + i.iov_len);
    delete[] (uint8_t*)i.iov_base;
  }
  return r;
}
void Result(Gen& g, pb::SessionResp* r, const Side& me, const Side& peer, int suite, const Bytes& in, const Bytes& out,
            uint64_t out_sequence, uint64_t id, const std::string& protocol, bool resumed, const std::string& mine,
            const std::string& theirs) {
  auto* x = r->mutable_result();
  x->set_application_protocol(protocol);
  auto* st = x->mutable_state();
  st->set_tls_version(pb::TLS1_3);
  st->set_tls_ciphersuite((pb::Ciphersuite)suite);
  st->set_in_key(S(in));
  st->set_out_key(S(out));
  st->set_out_sequence(out_sequence);
  st->set_connection_id(id);
  st->set_is_handshake_resumed(resumed);
  Fill(me.local, x->mutable_local_identity());
  Fill(peer.local, x->mutable_peer_identity());
  x->set_local_cert_fingerprint(mine);
  x->set_peer_cert_fingerprint(theirs);
}
}  // namespace

PROPERTY(sessions, 20000, 300000,
         "a client and a server proxy, a model of the service relaying handshake bytes consumed in any portions, "
         "results, session tickets, streams both ways with key updates; non-trivial: data went both ways") {
  rec::Sink::Get().Reset();
  Side client, server;
  client.Make(g, true);
  server.Make(g, false);
  // What the service decides.
  int suite = (int)g.below(3);
  Bytes c2s = g.random_bytes(rec::SecretSize(suite)), s2c = g.random_bytes(rec::SecretSize(suite));
  uint64_t client_id = g.number(), server_id = g.number();
  std::string protocol = pr::Text(g, 12), cf = S(g.random_bytes(32)), sf = S(g.random_bytes(32));
  bool resumed = g.boolean();

  // Handshake.
  auto response = [&](Side& s, size_t consumed) {
    pb::SessionResp r;
    r.mutable_status()->set_code(0);
    r.set_bytes_consumed((uint32_t)consumed);
    if (!s.selected && g.boolean()) Fill(s.local, r.mutable_local_identity());
    return r;
  };
  client.Request("");
  auto r = response(client, 0);
  r.set_out_frames(Frames(g));
  server.pending += client.Respond(g, r);
  size_t rounds = 0;
  for (size_t n = g.below(5); n > 0; --n) {
    for (Side* s : {&server, &client}) {
      std::string in = s->pending;
      s->Request(in);
      size_t consumed = g.chance(1, 4) ? g.below(in.size() + 1) : in.size();
      r = response(*s, consumed);
      r.set_out_frames(Frames(g));
      s->pending = s->pending.substr(consumed);
      (s == &server ? client : server).pending += s->Respond(g, r);
    }
    ++rounds;
  }
  // The server's last flight, the client finishes, then the server.
  server.Request(server.pending);
  r = response(server, server.pending.size());
  r.set_out_frames(Frames(g));
  server.pending.clear();
  client.pending += server.Respond(g, r);
  client.Request(client.pending);
  r = response(client, client.pending.size());
  r.set_out_frames(Frames(g));
  client.pending.clear();
  Result(g, &r, client, server, suite, s2c, c2s, 0, client_id, protocol, resumed, cf, sf);
  server.pending += client.Respond(g, r);
  // The client may send data before the server finished.
  auto create = [&](Side& s, uint64_t id, const std::string& mine, const std::string& theirs, const Side& peer) {
    auto f = s.p->CreateFrameProtector();
    REQUIRE_MSG(f.ok(), f.status().ToString());
    s.frames = std::move(*f);
    auto v = s.p->GetS2AContext();
    REQUIRE_MSG(v.index() == 1 && absl::get<1>(v), "no context");
    auto& x = *absl::get<1>(v);
    REQUIRE_MSG(x.ApplicationProtocol() == protocol, "application protocol");
    REQUIRE_MSG(x.Ciphersuite() == rec::SuiteOf(suite), "ciphersuite");
    REQUIRE_EQ(pr::IdOf(x.LocalIdentity()), s.local);
    REQUIRE_EQ(pr::IdOf(x.PeerIdentity()), peer.local);
    REQUIRE_MSG(x.LocalCertFingerprint() == mine && x.PeerCertFingerprint() == theirs, "fingerprints");
    REQUIRE_EQ(x.IsHandshakeResumed(), resumed);
    if (g.boolean()) s.p.reset();
  };
  create(client, client_id, cf, sf, server);
  Bytes to_server, to_client, early;
  ref::HalfConn cm(suite, c2s, 0), sm(suite, s2c, 0);  // The traffic keys as the service knows them.
  if (g.chance(1, 3)) {
    early = g.bytes(g.small_size(300));
    auto x = client.frames->Protect({Iovec{early.data(), early.size()}});
    REQUIRE_MSG(x.status.ok(), x.status.ToString());
    to_server = Take(x.bytes);
    REQUIRE_BYTES(to_server, rec::Join(rec::ReferenceRecords(cm, early)));
    g.label("early data");
  }
  std::string in = server.pending + S(to_server);
  server.Request(in);
  r = response(server, server.pending.size());  // The records are not the service's.
  std::vector<std::string> tickets;
  for (size_t n = g.below(7); n > 0; --n) {
    Bytes t = rec::HandshakeMessage(4, g.bytes(g.small_size(100)));
    tickets.push_back(S(t));
    Bytes record = sm.RecordAt(sm.seq++, rec::Inner(t, 0x16, 0));
    r.mutable_out_frames()->append(S(record));
  }
  Result(g, &r, server, client, suite, c2s, s2c, sm.seq, server_id, protocol, resumed, sf, cf);
  in = in.substr(r.bytes_consumed());
  Bytes ticket_records = B(server.Respond(g, r));
  create(server, server_id, sf, cf, client);
  if (!early.empty() || !in.empty()) {
    Bytes b = B(in);
    auto x = server.frames->Unprotect({Iovec{b.data(), b.size()}});
    REQUIRE_MSG(x.status.ok(), "early data refused: " << x.status.ToString());
    REQUIRE_BYTES(Take(x.bytes), early);
  }
  g.note(rounds).note(" rounds, ").note(tickets.size()).note(" tickets:");
  if (!tickets.empty()) {
    auto x = client.frames->Unprotect({Iovec{ticket_records.data(), ticket_records.size()}});
    REQUIRE_MSG(x.status.ok(), "tickets refused: " << x.status.ToString());
    REQUIRE_MSG(Take(x.bytes).empty(), "data from tickets");
    g.label("tickets");
  }
  // Streams.
  bool up = false, down = false;
  for (size_t n = 1 + g.below(5); n > 0; --n) {
    bool from_client = g.boolean();
    Side &from = from_client ? client : server, &to = from_client ? server : client;
    ref::HalfConn& m = from_client ? cm : sm;
    Bytes data = g.bytes(g.chance(1, 12) ? g.size(40000) : g.small_size(400));
    util::Mem mem;
    auto x = from.frames->Protect(mem.Segments<Iovec>(g, data));
    REQUIRE_MSG(x.status.ok(), x.status.ToString());
    Bytes wire = Take(x.bytes);
    REQUIRE_BYTES(wire, rec::Join(rec::ReferenceRecords(m, data)));
    auto y = to.frames->Unprotect(mem.Segments<Iovec>(g, wire));
    REQUIRE_MSG(y.status.ok(), y.status.ToString());
    REQUIRE_BYTES(Take(y.bytes), data);
    mem.Check();
    (from_client ? up : down) = true;
    g.note(from_client ? " >" : " <").note(data.size());
  }
  g.nontrivial(up && down);
  client.frames.reset();
  server.frames.reset();
  // The first five tickets, once, if they were complete or data followed.
  auto& sent = rec::Sink::Get().sent;
  size_t kept = std::min<size_t>(tickets.size(), 5);
  bool handed = tickets.size() >= 5 || (!tickets.empty() && down);
  REQUIRE_MSG(sent.size() == (handed ? 1 : 0), "tickets handed over " << sent.size() << " times, expected " << handed);
  if (handed) {
    REQUIRE_EQ(sent[0].id, client_id);
    REQUIRE_EQ((Id{(pr::Kind)sent[0].kind, sent[0].identity}), client.local);
    REQUIRE_MSG(sent[0].url == client.c.address, "service address");
    REQUIRE_MSG(sent[0].tickets == std::vector<std::string>(tickets.begin(), tickets.begin() + kept), "other tickets");
  }
}
