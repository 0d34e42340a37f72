// C15: completion, secrets and context are taken over exactly.
#include "frame_common.h"
#include "proxy_common.h"
using pr::Config;
using pr::Id;
using pr::pb::SessionResp;
using pr::pb::SessionState;
using pbt::Bytes;
using pbt::Gen;
namespace pb = pr::pb;

static const struct Setup {
  Setup() {
    pbt::global_setup = [] {
      ref::SelfTest();
      pr::Silence();
    };
  }
} setup;

// The frame protector hands tickets to SendTicketsToS2A (linked with --wrap).
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(
    s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  return rec::RecordTickets(o);
}

namespace {
std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }

// A response; with_result: one that may carry a result.
SessionResp AnyResponse(Gen& g, bool with_result, bool good) {
  SessionResp r;
  if (good || !g.chance(1, 8)) {
    r.mutable_status()->set_code(good || !g.chance(1, 6) ? 0 : (uint32_t)g.number());
    if (g.chance(1, 4)) r.mutable_status()->set_details(pr::Text(g, 40));
  }
  if (g.boolean()) {
    Fill(pr::AnyIdOrNone(g), r.mutable_local_identity());
    pr::Attributes(g, r.mutable_local_identity());
  }
  if (!g.chance(1, 4)) r.set_out_frames(g.chance(1, 60) ? S(g.random_bytes(65530 + g.below(70000))) : pr::Blob(g, g.chance(1, 8) ? 40000 : 200));
  if (!g.chance(1, 4)) r.set_bytes_consumed((uint32_t)g.number());
  if (!with_result) return r;
  auto* res = r.mutable_result();
  res->set_application_protocol(pr::Text(g, 20));
  if (good || !g.chance(1, 10)) {
    auto* st = res->mutable_state();
    int suite = (int)g.below(3);
    st->set_tls_version(pb::TLS1_3);
    st->set_tls_ciphersuite((pb::Ciphersuite)suite);
    st->set_in_key(S(g.random_bytes(rec::SecretSize(suite))));
    st->set_out_key(S(g.random_bytes(rec::SecretSize(suite))));
    if (!good) {
      switch (g.below(8)) {
        case 0:
          st->set_tls_version((pb::TLSVersion)(int)g.number());
          break;
        case 1:
          st->set_tls_ciphersuite((pb::Ciphersuite)(int)g.number());
          break;
        case 2:
          st->set_tls_version(pb::TLS1_2);
          break;
        case 3:
          st->set_in_key(pr::Blob(g, 60));
          break;
        case 4:
          st->set_out_key(pr::Blob(g, 60));
          break;
        case 5:
          st->set_tls_version((pb::TLSVersion)(2 + g.below(3)));
          break;
        case 6:
          st->set_tls_ciphersuite((pb::Ciphersuite)(3 + g.below(3)));
          break;
        default:
          break;
      }
    }
    st->set_in_sequence(rec::AnySequence(g));
    st->set_out_sequence(rec::AnySequence(g));
    st->set_connection_id(g.number());
    st->set_is_handshake_resumed(g.boolean());
    if (g.chance(1, 4)) st->set_in_fixed_nonce(pr::Blob(g, 12));
    if (g.chance(1, 4)) st->set_out_fixed_nonce(pr::Blob(g, 12));
  }
  if (!g.chance(1, 5)) {
    Fill(pr::AnyIdOrNone(g), res->mutable_peer_identity());
    pr::Attributes(g, res->mutable_peer_identity());
  }
  if (good || !g.chance(1, 8)) {
    Fill(pr::AnyIdOrNone(g), res->mutable_local_identity());
    pr::Attributes(g, res->mutable_local_identity());
  }
  if (!g.chance(1, 4)) res->set_peer_cert_fingerprint(g.boolean() ? S(g.random_bytes(32)) : pr::Blob(g, 40));
  if (!g.chance(1, 4)) res->set_local_cert_fingerprint(g.boolean() ? S(g.random_bytes(32)) : pr::Blob(g, 40));
  return r;
}
bool Usable(const SessionResp& r) {
  auto& x = r.result();
  return x.has_state() && x.has_local_identity() && (x.state().tls_version() == 0 || x.state().tls_version() == 1) &&
         x.state().tls_ciphersuite() >= 0 && x.state().tls_ciphersuite() <= 2;
}
// Varint field with the given number: unknown to the schema.
std::string UnknownField(Gen& g) {
  std::string s;
  uint64_t tag = (100 + g.below(1000)) << 3;
  auto put = [&](uint64_t v) {
    do {
      s += (char)((v & 0x7f) | (v > 0x7f ? 0x80 : 0));
      v >>= 7;
    } while (v);
  };
  if (g.boolean()) {
    put(tag);
    put(g.number());
  } else {
    std::string d = pr::Blob(g, 20);
    put(tag | 2);
    put(d.size());
    s += d;
  }
  return s;
}
// Encodes it in one of the ways protobuf allows, or damages it.
std::string Encode(Gen& g, const SessionResp& r) {
  std::string s = r.SerializeAsString();
  switch (g.weighted({8, 1, 1, 1, 1})) {
    case 1:
      g.label("unknown fields");
      return UnknownField(g) + s + UnknownField(g);
    case 2: {  // Fields given twice are merged.
      g.label("merged fields");
      return AnyResponse(g, r.has_result(), false).SerializeAsString() + s;
    }
    case 3:
      g.label("truncated");
      return s.substr(0, g.below(s.size() + 1));
    case 4: {
      g.label("altered bytes");
      if (s.empty()) return s;
      for (size_t n = 1 + g.below(3); n > 0; --n) s[g.below(s.size())] = (char)g.below(256);
      return s;
    }
    default:
      return s;
  }
}

// Uses the frame protector as the record layer of this connection.
void CheckProtector(Gen& g, s2a::frame_protector::S2AFrameProtector* f, const SessionState& st) {
  int suite = (int)st.tls_ciphersuite();
  ref::HalfConn out(suite, B(st.out_key()), st.out_sequence()), in(suite, B(st.in_key()), st.in_sequence());
  for (size_t n = 1 + g.below(3); n > 0; --n) {
    Bytes data = g.bytes(g.chance(1, 10) ? g.size(20000) : g.small_size(200));
    if (g.boolean()) {
      Bytes copy = data;
      auto r = f->Protect({rec::Iovec{copy.data(), copy.size()}});
      REQUIRE_MSG(r.status.ok(), r.status.ToString());
      Bytes got;
      for (auto& v : r.bytes) {
        got.insert(got.end(), (uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
        delete[] (uint8_t*)v.iov_base;
      }
      REQUIRE_BYTES(got, rec::Join(rec::ReferenceRecords(out, data)));
    } else {
      Bytes records = rec::Join(rec::ReferenceRecords(in, data));
      auto r = f->Unprotect({rec::Iovec{records.data(), records.size()}});
      REQUIRE_MSG(r.status.ok(), "genuine records refused: " << r.status.ToString());
      Bytes got;
      for (auto& v : r.bytes) {
        got.insert(got.end(), (uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
        delete[] (uint8_t*)v.iov_base;
      }
      REQUIRE_BYTES(got, data);
    }
  }
  (void)st;
}
void CheckTickets(Gen& g, s2a::frame_protector::S2AFrameProtector* f, ref::HalfConn& in, const SessionResp& r,
                  const std::string& address, const void* factory) {
  Bytes ticket = rec::HandshakeMessage(4, g.bytes(g.small_size(40)));
  Bytes data = rec::Join({in.RecordAt(in.seq, rec::Inner(ticket, 0x16, 0)), in.RecordAt(in.seq + 1, rec::Inner({1}, 0x17, 0))});
  rec::Sink::Get().Reset();
  auto u = f->Unprotect({rec::Iovec{data.data(), data.size()}});
  REQUIRE_MSG(u.status.ok(), u.status.ToString());
  for (auto& v : u.bytes) delete[] (uint8_t*)v.iov_base;
  auto& sent = rec::Sink::Get().sent;
  REQUIRE_MSG(sent.size() == 1, "tickets handed over " << sent.size() << " times");
  REQUIRE_EQ(sent[0].id, r.result().state().connection_id());
  REQUIRE_MSG(sent[0].url == address, "service address " << pr::Show(sent[0].url) << " expected " << pr::Show(address));
  Id want = pr::IdOf(r.result().local_identity());
  REQUIRE_EQ((Id{(pr::Kind)sent[0].kind, sent[0].identity}), want);
  REQUIRE_MSG(sent[0].factory == factory, "not the channel factory given to the proxy");
  REQUIRE_MSG(sent[0].tickets.size() == 1 && sent[0].tickets[0] == S(ticket), "other tickets");
}
void CheckContext(const s2a::s2a_context::S2AContext& c, const SessionResp& r) {
  auto& x = r.result();
  REQUIRE_MSG(c.ApplicationProtocol() == x.application_protocol(), "application protocol " << pr::Show(c.ApplicationProtocol()));
  REQUIRE_EQ(c.TlsVersion() == pr::Version::TLS1_3, x.state().tls_version() == pb::TLS1_3);
  REQUIRE_MSG(c.Ciphersuite() == rec::SuiteOf(x.state().tls_ciphersuite()), "ciphersuite " << (int)c.Ciphersuite());
  REQUIRE_EQ(pr::IdOf(c.PeerIdentity()), pr::IdOf(x.peer_identity()));
  REQUIRE_EQ(pr::IdOf(c.LocalIdentity()), pr::IdOf(x.local_identity()));
  REQUIRE_MSG(c.PeerCertFingerprint() == x.peer_cert_fingerprint(), "peer fingerprint " << pr::Show(c.PeerCertFingerprint()));
  REQUIRE_MSG(c.LocalCertFingerprint() == x.local_cert_fingerprint(), "local fingerprint " << pr::Show(c.LocalCertFingerprint()));
  REQUIRE_EQ(c.IsHandshakeResumed(), x.state().is_handshake_resumed());
}

struct Run {
  Config c;
  pr::Proxy p;
  const void* factory = nullptr;
  bool finished = false;
  SessionResp result;  // Valid if finished.
  explicit Run(Gen& g) : c(pr::AnyConfig(g)) {
    if (c.client)
      while (c.local.size() > 1) c.local.erase(c.local.begin());
    p = MakeProxy(c, nullptr, &factory);
  }
  void Respond(Gen& g, const std::string& bytes) {
    SessionResp r;
    bool parsed = r.ParseFromString(bytes);
    bool want = parsed && !bytes.empty() && r.has_status() && r.status().code() == 0 && (!r.has_result() || Usable(r));
    auto s = p->GetBytesForPeer(pr::Buf(bytes));
    REQUIRE_MSG(s.status.ok() == want, "status " << s.status.ToString() << ", expected " << (want ? "OK" : "an error"));
    if (want) {
      REQUIRE_MSG(s.buffer != nullptr, "no buffer");
      REQUIRE_BYTES(B(pr::Str(s.buffer)), B(r.out_frames()));
      REQUIRE_EQ(s.bytes_consumed, (size_t)r.bytes_consumed());
      if (r.has_result()) {
        finished = true;
        result = r;
      }
    } else {
      REQUIRE_MSG(s.bytes_consumed == 0, "a failure consumed " << s.bytes_consumed << " bytes");
      REQUIRE_MSG(s.buffer == nullptr || s.buffer->empty(), "a failure has bytes for the peer");
    }
    if (!want && parsed && r.has_result()) g.label("result refused");
    if (!parsed) g.label("not parseable");
    REQUIRE_MSG(p->IsHandshakeFinished() == finished, "handshake " << (finished ? "not " : "") << "reported as finished");
  }
  // Consumes the proxy.
  void Finish(Gen& g) {
    bool context_first = g.boolean();
    for (int i = 0; i < 2; ++i) {
      if ((i == 0) == context_first) {
        auto v = p->GetS2AContext();
        REQUIRE_MSG((v.index() == 1) == finished, (finished ? "no context" : "context before the end of the handshake"));
        if (finished) {
          REQUIRE(absl::get<1>(v) != nullptr);
          CheckContext(*absl::get<1>(v), result);
        } else {
          REQUIRE_MSG(!absl::get<0>(v).ok(), "no error");
        }
      } else {
        auto f = p->CreateFrameProtector();
        auto& st = result.result().state();
        bool want = finished && st.tls_version() == pb::TLS1_3 &&
                    st.in_key().size() == rec::SecretSize(st.tls_ciphersuite()) &&
                    st.out_key().size() == rec::SecretSize(st.tls_ciphersuite());
        REQUIRE_MSG(f.ok() == want, "frame protector: " << f.status().ToString() << ", expected " << (want ? "one" : "an error"));
        if (!want) continue;
        REQUIRE(*f != nullptr);
        if (context_first && g.boolean()) p.reset();
        if (g.chance(1, 4)) {
          ref::HalfConn in(st.tls_ciphersuite(), B(st.in_key()), st.in_sequence());
          CheckTickets(g, f->get(), in, result, c.address, factory);
          g.label("tickets");
        } else {
          CheckProtector(g, f->get(), st);
          g.label("records");
        }
        g.nontrivial();
      }
    }
  }
};
}  // namespace

PROPERTY(histories, 120000, 1200000,
         "sequences of good, failing, incomplete, re-encoded, damaged responses and requests, then context and frame "
         "protector, against the messages as a standard protobuf implementation reads them; non-trivial: records or "
         "tickets were exchanged with the frame protector, or a result was refused") {
  Run run(g);
  bool started = false;
  for (size_t n = g.below(6); n > 0; --n) {
    if (g.chance(1, 3)) {
      if (run.p->GetBytesForS2A(pr::Buf(started ? "x" : "")).status.ok()) started = true;
      g.note(" request");
      continue;
    }
    if (g.chance(1, 12)) {
      g.note(" empty");
      auto s = run.p->GetBytesForPeer(g.boolean() ? pr::Buf("") : nullptr);
      REQUIRE_MSG(s.status.ok() || s.bytes_consumed == 0, "a failure consumed " << s.bytes_consumed << " bytes");
      REQUIRE_MSG(!s.status.ok(), "empty response accepted");
      REQUIRE_MSG(run.p->IsHandshakeFinished() == run.finished, "finished by nothing");
      continue;
    }
    bool with_result = g.chance(1, 3);
    SessionResp r = AnyResponse(g, with_result, false);
    // What a second result means is not specified.
    std::string bytes = Encode(g, r);
    SessionResp again;
    if (run.finished && again.ParseFromString(bytes) && again.has_result() && Usable(again)) continue;
    g.note(" response(").note(bytes.size()).note(with_result ? ",result)" : ")");
    bool before = run.finished;
    run.Respond(g, bytes);
    if (with_result && run.finished == before) g.nontrivial();
  }
  if (!run.finished && !g.chance(1, 4)) {
    run.Respond(g, AnyResponse(g, true, true).SerializeAsString());
    g.note(" result");
    // More responses, without a usable result, change nothing.
    for (size_t n = g.below(3); n > 0; --n) {
      std::string bytes = AnyResponse(g, g.boolean(), false).SerializeAsString();
      SessionResp again;
      if (again.ParseFromString(bytes) && again.has_result() && Usable(again)) continue;
      g.note(" after");
      run.Respond(g, bytes);
    }
  }
  g.note(run.finished ? " finished" : " unfinished");
  run.Finish(g);
  // What was taken over does not undo the handshake, nor does what comes later.
  for (size_t n = run.p ? g.below(4) : 0; n > 0; --n) {
    std::string bytes = AnyResponse(g, g.boolean(), false).SerializeAsString();
    SessionResp again;
    if (again.ParseFromString(bytes) && again.has_result() && Usable(again)) continue;
    g.note(" later");
    if (run.finished) g.label("responses after the end");
    run.Respond(g, bytes);
  }
}

PROPERTY(second_result, 8000, 100000,
         "a second usable result, before anything was taken: context and frame protector belong to one and the same "
         "result; non-trivial: every case") {
  Run run(g);
  SessionResp rs[2] = {AnyResponse(g, true, true), AnyResponse(g, true, true)};
  rs[0].mutable_result()->set_application_protocol("first");
  rs[1].mutable_result()->set_application_protocol("second");
  for (auto& r : rs) run.p->GetBytesForPeer(pr::Buf(r.SerializeAsString()));
  REQUIRE(run.p->IsHandshakeFinished());
  auto v = run.p->GetS2AContext();
  REQUIRE_MSG(v.index() == 1 && absl::get<1>(v) != nullptr, "no context");
  const SessionResp& r = absl::get<1>(v)->ApplicationProtocol() == "first" ? rs[0] : rs[1];
  CheckContext(*absl::get<1>(v), r);
  auto f = run.p->CreateFrameProtector();
  REQUIRE_MSG(f.ok() && *f != nullptr, f.status().ToString());
  CheckProtector(g, f->get(), r.result().state());
  g.note(r.result().application_protocol());
  g.nontrivial();
}

PROPERTY(results, 40000, 400000,
         "all ciphersuite and version numbers from -2 to 6 and in_key/out_key sizes 0 to 64 enumerated in otherwise "
         "complete results; non-trivial: every case") {
  Run run(g);
  SessionResp r = AnyResponse(g, true, true);
  uint64_t k = g.sweep(9 * 9 + 3 * 65 * 2);
  auto* st = r.mutable_result()->mutable_state();
  if (k < 81) {
    st->set_tls_version((pb::TLSVersion)((int)(k / 9) - 2));
    st->set_tls_ciphersuite((pb::Ciphersuite)((int)(k % 9) - 2));
    if (st->tls_ciphersuite() >= 0 && st->tls_ciphersuite() < 3) {
      st->set_in_key(S(g.random_bytes(rec::SecretSize(st->tls_ciphersuite()))));
      st->set_out_key(S(g.random_bytes(rec::SecretSize(st->tls_ciphersuite()))));
    }
    g.note("version ").note((int)st->tls_version()).note(" suite ").note((int)st->tls_ciphersuite());
  } else {
    k -= 81;
    int suite = (int)(k % 3);
    size_t n = k / 3 % 65;
    st->set_tls_ciphersuite((pb::Ciphersuite)suite);
    bool in = k / 3 / 65 == 0;
    st->set_in_key(S(g.random_bytes(in ? n : rec::SecretSize(suite))));
    st->set_out_key(S(g.random_bytes(in ? rec::SecretSize(suite) : n)));
    g.note("suite ").note(suite).note(in ? " in_key " : " out_key ").note(n);
  }
  run.Respond(g, r.SerializeAsString());
  run.Finish(g);
  g.nontrivial();
}

PROPERTY(early, 20000, 200000,
         "frame protector and context asked for at any moment before completion, after any refused response; "
         "non-trivial: after a response with an unusable result") {
  Run run(g);
  for (size_t n = 1 + g.below(3); n > 0; --n) {
    SessionResp r = AnyResponse(g, true, false);
    if (g.chance(1, 6)) r.mutable_result()->clear_state();
    if (g.chance(1, 6)) r.mutable_result()->clear_local_identity();
    if (Usable(r) && r.has_status() && r.status().code() == 0) r.mutable_status()->set_code(1);
    run.Respond(g, r.SerializeAsString());
    g.note(r.has_status() && r.status().code() == 0 ? " unusable result" : " failure");
    if (r.has_status() && r.status().code() == 0) g.nontrivial();
    auto f = run.p->CreateFrameProtector();
    REQUIRE_MSG(!f.ok(), "frame protector before completion");
    auto v = run.p->GetS2AContext();
    REQUIRE_MSG(v.index() == 0 && !absl::get<0>(v).ok(), "context before completion");
  }
}
