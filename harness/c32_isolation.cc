// C32: separate objects do not interfere.
#include <openssl/err.h>

#include <atomic>
#include <mutex>
#include <thread>

#include "frame_common.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_context.h"
#include "proxy_common.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter_util.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_half_connection.h"
#include "upb/upb.hpp"
using pbt::Bytes;
using pbt::Gen;
using pr::Config;
using pr::Id;
using rec::Iovec;
namespace pb = pr::pb;

static const struct Setup {
  Setup() {
    pbt::global_setup = [] {
      ref::SelfTest();
      pr::Silence();
      setenv("S2A_ACCESS_TOKEN", "the token", 1);
    };
  }
} setup;

namespace {
using s2a::s2a_ticket_sender::TicketSenderOptions;
using s2a::s2a_ticket_sender::WaitOnTicketSender;
std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }

// What was handed over, by connection.
struct Desk {
  std::mutex mu;
  std::map<uint64_t, std::string> got;
  static Desk& Get() {
    static Desk d;
    return d;
  }
  void Reset() {
    std::lock_guard<std::mutex> l(mu);
    got.clear();
  }
  std::string Of(uint64_t id) {
    std::lock_guard<std::mutex> l(mu);
    auto it = got.find(id);
    return it == got.end() ? "" : it->second;
  }
};
bool Done() { return true; }
WaitOnTicketSender Deliver(TicketSenderOptions& o) {
  std::string s = o.handshaker_service_url + "|" + o.local_identity.GetIdentityString() + "|";
  if (o.tickets)
    for (auto& t : *o.tickets) s += (t ? *t : "<null>") + ";";
  Desk& d = Desk::Get();
  std::lock_guard<std::mutex> l(d.mu);
  d.got[o.connection_id] += s;
  return &Done;
}
}  // namespace
// The frame protector hands tickets to SendTicketsToS2A (linked with --wrap).
extern "C" WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(
    TicketSenderOptions& o) {
  return Deliver(o);
}

namespace {
enum Kind { kAead, kHkdf, kHalf, kRecord, kHandler, kFrame, kProxy, kContext, kOptions, kTickets, kToken, kErrors, kKinds };
const char* const kNames[] = {"aead", "hkdf", "half", "record", "handler", "frame", "proxy", "context", "options", "tickets", "token", "errors"};

struct Op {
  unsigned what, yields;
  uint64_t x;
  Bytes data;
};
// Everything an actor does, decided beforehand.
struct Script {
  Kind kind;
  int suite;
  Bytes key, key2;
  uint64_t id, seq;
  std::string text, text2;
  Id local, peer;
  Config config;
  std::map<Id, std::string> tokens;
  std::vector<std::string> responses;
  std::vector<Op> ops;
};
// What an actor saw: text, and requests (compared up to the order of sets).
struct Transcript {
  std::vector<std::pair<bool, std::string>> lines;
  void Say(const std::string& s) { lines.push_back({false, s}); }
  void Say(const char* what, const Bytes& b) { Say(std::string(what) + S(b)); }
  void Say(const char* what, uint64_t n) { Say(std::string(what) + std::to_string(n)); }
  void Request(const std::string& s) { lines.push_back({true, s}); }
};
struct Runner {
  const Script& s;
  Transcript t;
  explicit Runner(const Script& sc) : s(sc) {}
  virtual ~Runner() {}
  virtual void Start() = 0;
  virtual void Do(const Op& op) = 0;
};

struct AeadRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::aead_crypter::S2AAeadCrypter> c;
  Bytes last, nonce;
  void Start() override {
    auto v = s.suite == 2 ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(s.key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(s.key);
    REQUIRE(v.index() == 1);
    c = std::move(absl::get<1>(v));
  }
  void Do(const Op& op) override {
    Bytes aad = S2(op.x % 20);
    std::vector<Iovec> ia{Iovec{aad.data(), aad.size()}};
    if (op.what % 3 == 0 || last.empty()) {
      Bytes in = op.data, out(in.size() + c->TagLength());
      nonce = Bytes(c->NonceLength(), (uint8_t)op.x);
      size_t half = in.size() / 2;
      auto r = c->Encrypt(nonce, ia, {Iovec{in.data(), half}, Iovec{in.data() + half, in.size() - half}}, Iovec{out.data(), out.size()});
      t.Say("sealed", (uint64_t)r.GetStatus().code());
      t.Say("", out);
      last = out;
      x = op.x;
    } else {
      Bytes in = last, out(in.size() - 16 + 1);
      if (op.what % 3 == 2) in[op.x % in.size()] ^= 1;
      aad = S2(x % 20);
      ia[0] = Iovec{aad.data(), aad.size()};
      auto r = c->Decrypt(nonce, ia, {Iovec{in.data(), in.size()}}, Iovec{out.data(), out.size()});
      t.Say("opened", (uint64_t)r.GetStatus().code());
      t.Say("", r.GetBytesWritten());
      if (r.GetStatus().ok()) t.Say("", out);
    }
  }
  uint64_t x = 0;
  static Bytes S2(size_t n) { return Bytes(n + 1, (uint8_t)n); }
};
struct HkdfRunner : Runner {
  using Runner::Runner;
  void Start() override {}
  void Do(const Op& op) override {
    Bytes out(op.x % 200);
    auto r = HkdfDeriveSecret(op.what % 2 ? s2a::hkdf::HashFunction::SHA256_hash_function : s2a::hkdf::HashFunction::SHA384_hash_function,
                              s.key, op.data, out);
    t.Say("derived", (uint64_t)r.code());
    if (r.ok()) t.Say("", out);
  }
};
struct HalfRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::record_protocol::S2AHalfConnection> a, b;
  void Start() override {
    for (auto* h : {&a, &b}) {
      auto v = s2a::record_protocol::S2AHalfConnection::Create(rec::SuiteOf(s.suite), s.seq, s.key);
      REQUIRE(v.index() == 1);
      *h = std::move(absl::get<1>(v));
    }
  }
  void Do(const Op& op) override {
    if (op.what % 4 == 0) {
      t.Say("updated", (uint64_t)a->UpdateKey().code() + 100 * (uint64_t)b->UpdateKey().code());
      return;
    }
    Bytes in = op.data, out(in.size() + 16), back(in.size() + 1);
    auto r = a->Encrypt({}, {Iovec{in.data(), in.size()}}, Iovec{out.data(), out.size()});
    t.Say("sealed", (uint64_t)r.GetStatus().code());
    t.Say("", out);
    if (op.what % 4 == 1) {
      Bytes bad = out;
      bad[op.x % bad.size()] ^= 4;
      t.Say("forged", (uint64_t)b->Decrypt({}, {Iovec{bad.data(), bad.size()}}, Iovec{back.data(), back.size()}).GetStatus().code());
    }
    auto q = b->Decrypt({}, {Iovec{out.data(), out.size()}}, Iovec{back.data(), back.size()});
    t.Say("opened", (uint64_t)q.GetStatus().code());
    if (q.GetStatus().ok()) t.Say("", back);
  }
};
std::unique_ptr<s2a::record_protocol::S2ACrypter> NewCrypter(const Script& s, bool first) {
  auto v = rec::S2ACrypter::Create(pr::Version::TLS1_3, rec::SuiteOf(s.suite), s.id + (first ? 0 : 1), s.text, pr::Make(s.local),
                                   first ? s.key : s.key2, first ? s.key2 : s.key, first ? s.seq : 0, first ? 0 : s.seq, &Deliver,
                                   std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface>(new rec::Factory), nullptr,
                                   [](const std::string&) {});
  REQUIRE_MSG(v.index() == 1, absl::get<0>(v).ToString());
  return std::move(absl::get<1>(v));
}
Bytes Sealed(Transcript* t, s2a::record_protocol::S2ACrypter* c, rec::Type type, const Bytes& data) {
  Bytes in = data, out(in.size() + c->RecordOverhead());
  auto r = c->Protect(type, {Iovec{in.data(), in.size()}}, Iovec{out.data(), out.size()});
  t->Say("sealed", (uint64_t)r.GetCode());
  t->Say("", out);
  return out;
}
// Something to send over a connection.
struct Piece {
  rec::Type type;
  Bytes data;
  bool update;
};
Piece AnyPiece(const Op& op) {
  switch (op.what % 6) {
    case 0:
      return {rec::Type::HANDSHAKE, {0x18, 0, 0, 1, 0}, true};
    case 1: {
      Bytes d = op.data;
      d.resize(std::min<size_t>(d.size(), 300));
      return {rec::Type::HANDSHAKE, rec::HandshakeMessage(4, d), false};
    }
    case 2:
      return op.x % 4 ? Piece{rec::Type::APPLICATION_DATA, op.data, false} : Piece{rec::Type::ALERT, {1, 90}, false};
    default:
      return {rec::Type::APPLICATION_DATA, op.data, false};
  }
}
struct RecordRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::record_protocol::S2ACrypter> a, b;
  void Start() override {
    a = NewCrypter(s, true);
    b = NewCrypter(s, false);
  }
  void Do(const Op& op) override {
    bool forth = op.x % 3 != 0;
    auto *from = (forth ? a : b).get(), *to = (forth ? b : a).get();
    Piece p = AnyPiece(op);
    Bytes r = Sealed(&t, from, p.type, p.data);
    if (p.update) t.Say("updated", (uint64_t)from->UpdateOutboundKey().code());
    auto open = [&](Bytes in, const char* what) {
      Bytes out(in.size());
      auto q = to->Unprotect(Iovec{in.data(), 5}, {Iovec{in.data() + 5, in.size() - 5}}, Iovec{out.data(), out.size()});
      t.Say(what, (uint64_t)q.GetCode());
      t.Say("", q.GetBytesWritten());
      if (q.GetCode() == rec::Code::OK) t.Say("", out);
    };
    if (op.x % 16 == 7) {
      Bytes bad = r;
      bad[5 + op.x / 16 % (bad.size() - 5)] ^= 2;
      open(bad, "forged");
    }
    open(r, "opened");
    t.Say("tickets " + Desk::Get().Of(s.id) + " and " + Desk::Get().Of(s.id + 1));
  }
};
struct HandlerRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::handshake_message_handler::HandshakeMessageHandler> h;
  void Start() override { h.reset(new s2a::handshake_message_handler::HandshakeMessageHandler); }
  void Do(const Op& op) override {
    if (op.what % 4 == 0) {
      auto v = h->GetStoredTickets();
      t.Say("taken", v.index());
      if (v.index() == 1 && absl::get<1>(v))
        for (auto& m : *absl::get<1>(v)) {
          Bytes all;
          for (auto& f : *m) all.insert(all.end(), f->begin(), f->end());
          t.Say("ticket", all);
        }
      return;
    }
    Bytes m = op.what % 8 == 1 ? Bytes{0x18, 0, 0, 1, 1} : rec::HandshakeMessage(4, op.data);
    size_t cut = op.x % (m.size() + 1);
    for (int i = 0; i < 2; ++i) {
      Bytes part(m.begin() + (i ? cut : 0), m.begin() + (i ? m.size() : cut));
      part.reserve(1);
      auto v = h->ProcessHandshakeMessage(part.data(), part.size());
      t.Say("processed", v.index());
      if (v.index() == 1) {
        auto& r = absl::get<1>(v);
        t.Say("", r.expecting_to_read_more_bytes + 2 * r.contains_key_update + 4 * r.contains_ticket +
                      8 * (r.contains_key_update ? r.key_update_type : 0) + 4096 * r.num_full_tickets_stored);
      }
    }
  }
};
// A record crypter at one end, a frame protector at the other.
struct FrameRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::record_protocol::S2ACrypter> a;
  std::unique_ptr<s2a::frame_protector::S2AFrameProtector> b;
  static Iovec Get(size_t n) { return Iovec{malloc(n ? n : 1), n}; }
  static void Put(Iovec v) { free(v.iov_base); }
  void Start() override {
    a = NewCrypter(s, true);
    s2a::frame_protector::S2AFrameProtector::S2AFrameProtectorOptions o = {
        pr::Version::TLS1_3, rec::SuiteOf(s.suite), s.key2, s.key, 0, s.seq, s.text, pr::Make(s.local), s.id + 1,
        std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface>(new rec::Factory), nullptr, Get, Put, [](const std::string&) {}};
    auto r = s2a::frame_protector::S2AFrameProtector::Create(o);
    REQUIRE(r.ok());
    b = std::move(*r);
  }
  Bytes Take(const std::vector<Iovec>& v) {
    Bytes all;
    for (auto& i : v) {
      all.insert(all.end(), (uint8_t*)i.iov_base, (uint8_t*)i.iov_base + i.iov_len);
      Put(i);
    }
    return all;
  }
  void Do(const Op& op) override {
    if (op.x % 3 == 0) {
      Bytes in = op.data;
      std::vector<Iovec> iv{Iovec{in.data(), in.size()}};
      t.Say("room", b->NumberBytesToProtect(iv));
      if (op.x % 2) {
        auto r = b->Protect(iv);
        t.Say("sealed", (uint64_t)r.status.code());
        t.Say("", Take(r.bytes));
      } else {
        Bytes out(b->NumberBytesToProtect(iv));
        Iovec o{out.data(), out.size()};
        t.Say("sealed", (uint64_t)b->Protect(iv, o).code());
        t.Say("", out);
      }
      return;
    }
    Piece p = AnyPiece(op);
    Bytes in = Sealed(&t, a.get(), p.type, p.data);
    if (p.update) t.Say("updated", (uint64_t)a->UpdateOutboundKey().code());
    Bytes more = Sealed(&t, a.get(), rec::Type::APPLICATION_DATA, Bytes(op.x % 7, 'm'));
    in.insert(in.end(), more.begin(), more.end());
    if (op.x % 16 == 7) in[5 + op.x / 16 % (in.size() - 5)] ^= 2;
    size_t cut = op.x / 64 % (in.size() + 1);
    auto r = b->Unprotect({Iovec{in.data(), cut}, Iovec{in.data() + cut, in.size() - cut}});
    t.Say("opened", (uint64_t)r.status.code());
    t.Say("", Take(r.bytes));
    t.Say("tickets " + Desk::Get().Of(s.id + 1));
  }
};
struct Manager : s2a::token_manager::AccessTokenManagerInterface {
  const std::map<Id, std::string> table;
  explicit Manager(const std::map<Id, std::string>& t) : table(t) {}
  absl::StatusOr<std::string> Get(const Id& i) {
    auto it = table.find(i);
    if (it == table.end()) return absl::Status(absl::StatusCode::kNotFound, "no token");
    return it->second;
  }
  absl::StatusOr<std::string> GetDefaultToken() override { return Get(Id()); }
  absl::StatusOr<std::string> GetToken(const pr::Identity& i) override { return Get(pr::IdOf(i)); }
  std::string DebugName() const override { return "test"; }
};
void Fields(Transcript* t, const s2a::s2a_context::S2AContext& c) {
  std::ostringstream o;
  o << c.ApplicationProtocol() << "|" << (int)c.TlsVersion() << (int)c.Ciphersuite() << "|" << pr::IdOf(c.PeerIdentity()) << pr::IdOf(c.LocalIdentity()) << "|"
    << c.PeerCertFingerprint() << "|" << c.LocalCertFingerprint() << c.IsHandshakeResumed();
  t->Say(o.str());
}
struct ProxyRunner : Runner {
  using Runner::Runner;
  pr::Proxy p;
  std::unique_ptr<s2a::frame_protector::S2AFrameProtector> f;
  size_t next = 0;
  bool started = false;
  void Start() override { p = pr::MakeProxy(s.config, std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>(new Manager(s.tokens))); }
  void Do(const Op& op) override {
    if (f) {
      Bytes in = op.data;
      auto r = f->Protect({Iovec{in.data(), in.size()}});
      t.Say("sealed", (uint64_t)r.status.code());
      for (auto& v : r.bytes) {
        t.Say("", Bytes((uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len));
        delete[] (uint8_t*)v.iov_base;
      }
    } else if (p->IsHandshakeFinished()) {
      auto v = p->GetS2AContext();
      t.Say("context", v.index());
      if (v.index() == 1 && absl::get<1>(v)) Fields(&t, *absl::get<1>(v));
      auto r = p->CreateFrameProtector();
      t.Say("protector", (uint64_t)r.status().code());
      if (r.ok()) f = std::move(*r);
    } else if (op.what % 2 == 0 || !started) {
      auto r = p->GetBytesForS2A(pr::Buf(started || !s.config.client ? S(op.data) : ""));
      t.Say("request", (uint64_t)r.status.code());
      if (r.status.ok()) t.Request(pr::Str(r.buffer));
      started = started || r.status.ok();
    } else if (next < s.responses.size()) {
      auto r = p->GetBytesForPeer(pr::Buf(s.responses[next++]));
      t.Say("response", (uint64_t)r.status.code());
      t.Say(pr::Str(r.buffer));
      t.Say("", r.bytes_consumed);
      t.Say("finished", p->IsHandshakeFinished());
    }
  }
};
struct ContextRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::s2a_context::S2AContext> c;
  void Start() override {
    c.reset(new s2a::s2a_context::S2AContext(s.text, s.seq % 2 ? pr::Version::TLS1_2 : pr::Version::TLS1_3, rec::SuiteOf(s.suite),
                                             pr::Make(s.peer), pr::Make(s.local), S(s.key), S(s.key2), s.id % 2));
  }
  void Do(const Op& op) override {
    Read(&t, *c, op);
  }
  static void Read(Transcript* t, const s2a::s2a_context::S2AContext& c, const Op& op) {
    if (op.what % 2) {
      Fields(t, c);
      return;
    }
    auto v = c.GetSerializedContext();
    t->Say("serialized", v.index());
    if (v.index() != 1) return;
    std::string bytes = pr::Str(absl::get<1>(v));
    t->Say(bytes);
    if (op.x % 4 == 0) bytes = bytes.substr(0, op.x / 4 % (bytes.size() + 1));
    auto r = s2a::s2a_context::GetS2AContextFromSerializedContext(bytes.data(), bytes.size());
    t->Say("parsed", (uint64_t)r.status().code());
    if (r.ok()) Fields(t, **r);
  }
};
void Values(Transcript* t, const s2a::s2a_options::S2AOptions& o) {
  std::ostringstream s;
  s << (int)o.min_tls_version() << (int)o.max_tls_version() << o.s2a_address();
  for (auto c : o.supported_ciphersuites()) s << (int)c;
  for (auto* set : {&o.local_identities(), &o.target_identities()}) {
    s << "|";
    std::set<Id> ids;
    for (auto& i : *set) ids.insert(pr::IdOf(i));
    for (auto& i : ids) s << i << " ";
  }
  t->Say(s.str());
}
struct OptionsRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::s2a_options::S2AOptions> o;
  void Start() override { o = pr::MakeOptions(s.config); }
  void Do(const Op& op) override {
    std::string d = S(op.data).substr(0, 30);
    switch (op.what % 6) {
      case 0:
        o = o->Copy();
        break;
      case 1:
        o->add_local_spiffe_id(d);
        break;
      case 2:
        o->add_target_hostname(d);
        break;
      case 3:
        o->add_supported_ciphersuite(rec::SuiteOf((int)(op.x % 3)));
        break;
      case 4:
        o->set_s2a_address(d);
        break;
      default:
        o->set_min_tls_version(op.x % 2 ? pr::Version::TLS1_2 : pr::Version::TLS1_3);
    }
    Values(&t, *o);
  }
};
struct TicketsRunner : Runner {
  using Runner::Runner;
  void Start() override {}
  void Do(const Op& op) override {
    auto l = std::unique_ptr<std::vector<std::unique_ptr<std::string>>>(new std::vector<std::unique_ptr<std::string>>);
    for (size_t n = op.x % 4; n > 0; --n) l->push_back(std::unique_ptr<std::string>(new std::string(S(op.data))));
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    pr::Identity id = pr::Make(s.local);
    bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(s.id + op.x, id, l, arena.ptr(), req);
    t.Say("prepared", ok);
    if (!ok) return;
    size_t n = 0;
    char* b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &n);
    t.Say(std::string(b, n));
  }
};
struct TokenRunner : Runner {
  using Runner::Runner;
  std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface> m;
  void Start() override {
    auto r = s2a::token_manager::BuildAccessTokenManager();
    REQUIRE_MSG(r.ok(), r.status().ToString());
    m = std::move(*r);
  }
  void Do(const Op& op) override { Read(&t, *m, s, op); }
  static void Read(Transcript* t, s2a::token_manager::AccessTokenManagerInterface& m, const Script& s, const Op& op) {
    auto r = op.what % 3 == 0 ? m.GetDefaultToken() : m.GetToken(pr::Make(op.what % 3 == 1 ? s.local : s.peer));
    t->Say("token", (uint64_t)r.status().code());
    if (r.ok()) t->Say(*r);
    t->Say(m.DebugName());
  }
};
// The queue of SSL errors belongs to the thread: threads only.
struct ErrorsRunner : Runner {
  using Runner::Runner;
  std::vector<std::string> pending;
  void Start() override { ERR_clear_error(); }
  void Do(const Op& op) override {
    if (op.what % 2 && pending.size() < 10) {
      std::string text = "entry" + std::to_string(s.id) + "x" + std::to_string(op.x % 1000) + "y";
      ERR_put_error(ERR_LIB_EVP, 0, 1 + (int)(op.x % 20), "file", 1);
      ERR_add_error_data(1, text.c_str());
      pending.push_back(text);
      return;
    }
    std::string got = s2a::aead_crypter::GetSSLErrors();
    size_t n = 0, own = 0;
    for (size_t at = got.find("entry"); at != std::string::npos; at = got.find("entry", at + 1)) ++n;
    for (auto& x : pending) own += got.find(x) != std::string::npos;
    t.Say("entries", n);
    t.Say("own", own == pending.size());
    t.Say("left", ERR_peek_error());
    pending.clear();
  }
  ~ErrorsRunner() override { ERR_clear_error(); }
};
std::unique_ptr<Runner> NewRunner(const Script& s) {
  switch (s.kind) {
    case kAead:
      return std::unique_ptr<Runner>(new AeadRunner(s));
    case kHkdf:
      return std::unique_ptr<Runner>(new HkdfRunner(s));
    case kHalf:
      return std::unique_ptr<Runner>(new HalfRunner(s));
    case kRecord:
      return std::unique_ptr<Runner>(new RecordRunner(s));
    case kHandler:
      return std::unique_ptr<Runner>(new HandlerRunner(s));
    case kFrame:
      return std::unique_ptr<Runner>(new FrameRunner(s));
    case kProxy:
      return std::unique_ptr<Runner>(new ProxyRunner(s));
    case kContext:
      return std::unique_ptr<Runner>(new ContextRunner(s));
    case kOptions:
      return std::unique_ptr<Runner>(new OptionsRunner(s));
    case kTickets:
      return std::unique_ptr<Runner>(new TicketsRunner(s));
    case kToken:
      return std::unique_ptr<Runner>(new TokenRunner(s));
    default:
      return std::unique_ptr<Runner>(new ErrorsRunner(s));
  }
}

// With some things in common with another, of the same kind.
Script AnyScript(Gen& g, Kind kind, size_t number, size_t max_ops, const Script* other = nullptr) {
  Script s;
  s.kind = kind;
  s.suite = (int)g.below(3);
  size_t n = kind == kAead ? ref::KeySize((ref::Cipher)s.suite) : rec::SecretSize(s.suite);
  s.key = g.random_bytes(n);
  s.key2 = g.random_bytes(n);
  s.id = 10 * (number + 1);
  s.seq = g.below(1000);
  s.text = "s" + pr::Text(g, 20);
  s.local = pr::AnyId(g);
  s.peer = pr::AnyId(g);
  if (other) {
    if (g.chance(1, 3)) {
      s.suite = other->suite;
      s.key = other->key;
      if (g.boolean()) s.key2 = other->key2;
      n = s.key.size();
      if (s.key2.size() != n) s.key2 = g.random_bytes(n);
    }
    if (g.chance(1, 3)) s.text = other->text;
    if (g.chance(1, 3)) s.local = other->local;
    if (g.chance(1, 3)) s.peer = other->peer;
  }
  if (kind == kProxy || kind == kOptions) {
    s.config = pr::AnyConfig(g);
    if (s.config.client)
      while (s.config.local.size() > 1) s.config.local.erase(s.config.local.begin());
    if (other && g.boolean()) {
      if (g.boolean())
        s.config = other->config;
      else
        s.config.address = other->config.address;
    }
  }
  if (kind == kProxy) {
    for (auto& i : s.config.local)
      if (!g.chance(1, 5)) s.tokens[i] = "t" + std::to_string(g.below(10000));
    if (!g.chance(1, 5)) s.tokens[Id()] = "default" + std::to_string(g.below(10000));
    for (size_t k = 1 + g.below(3); k > 0; --k) {
      pb::SessionResp r;
      r.mutable_status()->set_code(k == 1 || !g.chance(1, 4) ? 0 : 3);
      r.set_out_frames(pr::Blob(g, 40));
      r.set_bytes_consumed((uint32_t)g.below(100));
      if (g.chance(1, 3)) Fill(s.config.local.empty() ? s.local : *s.config.local.begin(), r.mutable_local_identity());
      if (k == 1) {
        auto* x = r.mutable_result();
        x->set_application_protocol(s.text);
        auto* st = x->mutable_state();
        st->set_tls_version(pb::TLS1_3);
        st->set_tls_ciphersuite((pb::Ciphersuite)s.suite);
        st->set_in_key(S(s.key));
        st->set_out_key(S(s.key2));
        st->set_out_sequence(s.seq);
        st->set_connection_id(s.id);
        Fill(s.local, x->mutable_local_identity());
        Fill(s.peer, x->mutable_peer_identity());
        x->set_peer_cert_fingerprint(pr::Blob(g, 20));
      }
      s.responses.push_back(r.SerializeAsString());
    }
  }
  for (size_t k = 2 + g.below(max_ops - 1); k > 0; --k) {
    Op op;
    op.what = (unsigned)g.below(840);
    op.yields = (unsigned)g.below(3);
    op.x = g.below(100000);
    op.data = g.random_bytes(1 + (g.chance(1, 10) ? g.below(20000) : g.below(g.chance(1, 2) ? 40 : 400)));
    if (kind == kRecord && op.data.size() > rec::kMaxPlain) op.data.resize(rec::kMaxPlain);
    if (kind == kFrame && op.data.size() > rec::kMaxPlain && op.x % 3) op.data.resize(rec::kMaxPlain);
    s.ops.push_back(op);
  }
  return s;
}
std::vector<Script> AnyScripts(Gen& g, bool threads, size_t max_ops) {
  std::vector<Script> v;
  size_t kinds = threads ? kKinds : kErrors;
  Kind first = (Kind)g.sweep(kinds);
  bool same = g.boolean();
  for (size_t n = 2 + g.below(3); v.size() < n;) {
    Kind k = v.empty() || same ? first : (Kind)g.below(kinds);
    const Script* other = nullptr;
    for (auto& s : v)
      if (s.kind == k) other = &s;
    Script s = AnyScript(g, k, v.size(), max_ops, other);
    v.push_back(s);
  }
  for (auto& s : v) g.note(kNames[s.kind]).note("(").note(s.ops.size()).note(") ");
  return v;
}

// Requests up to the order of their sets.
std::string Canonical(const std::string& bytes) {
  pb::SessionReq r;
  if (!r.ParseFromString(bytes)) return "not a request: " + bytes;
  std::string out;
  auto take = [&](auto* field) {
    std::multiset<std::string> m;
    for (auto& x : *field) m.insert(x.SerializeAsString());
    field->Clear();
    for (auto& x : m) out += x + ";";
    out += "|";
  };
  take(r.mutable_auth_mechanisms());
  if (r.has_client_start()) take(r.mutable_client_start()->mutable_target_identities());
  if (r.has_server_start()) take(r.mutable_server_start()->mutable_local_identities());
  return out + r.SerializeAsString();
}
void Compare(const Script& s, size_t actor, const Transcript& alone, const Transcript& together) {
  for (size_t i = 0; i < alone.lines.size() || i < together.lines.size(); ++i) {
    REQUIRE_MSG(i < alone.lines.size() && i < together.lines.size(),
                kNames[s.kind] << " " << actor << ": " << alone.lines.size() << " results alone, " << together.lines.size() << " next to others");
    auto &a = alone.lines[i], &b = together.lines[i];
    if (a == b || (a.first && b.first && Canonical(a.second) == Canonical(b.second))) continue;
    pbt::fail(std::string(kNames[s.kind]) + " " + std::to_string(actor) + ": result " + std::to_string(i) + " alone " + pr::Show(a.second) +
              ", next to others " + pr::Show(b.second));
  }
}
Transcript Alone(const Script& s) {
  Desk::Get().Reset();
  auto r = NewRunner(s);
  r->Start();
  for (auto& op : s.ops) r->Do(op);
  return std::move(r->t);
}
// Each body in its own thread.
void Threads(const std::vector<std::function<void()>>& bodies) {
  std::atomic<size_t> ready{0};
  std::vector<std::string> errors(bodies.size());
  std::vector<std::thread> ts;
  for (size_t i = 0; i < bodies.size(); ++i) {
    ts.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < bodies.size()) std::this_thread::yield();
      try {
        bodies[i]();
      } catch (const pbt::Fail& f) {
        errors[i] = f.msg.empty() ? "failed" : f.msg;
      }
    });
  }
  for (auto& t : ts) t.join();
  for (auto& e : errors) REQUIRE_MSG(e.empty(), e);
}
void Yield(unsigned n) {
  while (n--) std::this_thread::yield();
}
}  // namespace

PROPERTY(interleaved, 30000, 400000,
         "2..4 histories on separate objects, of one kind or of different kinds, interleaved at random in one thread, "
         "each compared with itself alone; non-trivial: every case") {
  auto scripts = AnyScripts(g, false, 8);
  std::vector<Transcript> alone(scripts.size());
  bool alone_first = g.boolean();
  auto solo = [&] {
    for (size_t i = 0; i < scripts.size(); ++i) alone[i] = Alone(scripts[i]);
  };
  if (alone_first) solo();
  std::vector<Transcript> together(scripts.size());
  {
    Desk::Get().Reset();
    std::vector<std::unique_ptr<Runner>> rs(scripts.size());
    std::vector<size_t> at(scripts.size(), 0), live;
    for (size_t i = 0; i < scripts.size(); ++i) live.push_back(i);
    while (!live.empty()) {
      size_t k = g.below(live.size()), i = live[k];
      if (!rs[i]) {
        rs[i] = NewRunner(scripts[i]);
        rs[i]->Start();
      } else if (at[i] < scripts[i].ops.size()) {
        rs[i]->Do(scripts[i].ops[at[i]++]);
      } else {  // It goes away while the others go on.
        together[i] = std::move(rs[i]->t);
        rs[i].reset();
        live.erase(live.begin() + k);
      }
    }
  }
  if (!alone_first) solo();
  for (size_t i = 0; i < scripts.size(); ++i) Compare(scripts[i], i, alone[i], together[i]);
  g.nontrivial();
}

PROPERTY(threads, 8000, 100000,
         "2..4 histories on separate objects, each in its own thread, made, used and destroyed there, each compared "
         "with itself alone; non-trivial: every case") {
  auto scripts = AnyScripts(g, true, 10);
  std::vector<Transcript> alone(scripts.size()), together(scripts.size());
  for (size_t i = 0; i < scripts.size(); ++i) alone[i] = Alone(scripts[i]);
  Desk::Get().Reset();
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < scripts.size(); ++i) {
    bodies.push_back([&, i] {
      auto r = NewRunner(scripts[i]);
      r->Start();
      for (auto& op : scripts[i].ops) {
        Yield(op.yields);
        r->Do(op);
      }
      together[i] = std::move(r->t);
    });
  }
  Threads(bodies);
  for (size_t i = 0; i < scripts.size(); ++i) Compare(scripts[i], i, alone[i], together[i]);
  g.nontrivial();
}

PROPERTY(shared_readers, 3000, 30000,
         "options, a context, identities and a token manager read by 2..4 threads at once, each compared with the same "
         "reads alone; non-trivial: every case") {
  Script s = AnyScript(g, kOptions, 0, 3);
  std::vector<std::vector<Op>> ops(2 + g.below(3));
  for (auto& v : ops) v = AnyScript(g, kToken, 0, 10).ops;
  // What this reads is const, or a token manager.
  const std::unique_ptr<const s2a::s2a_options::S2AOptions> options = pr::MakeOptions(s.config);
  ContextRunner context(s);
  context.Start();
  TokenRunner token(s);
  token.Start();
  const pr::Identity local = pr::Make(s.local), peer = pr::Make(s.peer);
  auto read = [&](const std::vector<Op>& v, Transcript* t, bool yields) {
    for (auto& op : v) {
      if (yields) Yield(op.yields);
      switch (op.what % 5) {
        case 0:
          Values(t, *options);
          break;
        case 1:
          Values(t, *options->Copy());
          break;
        case 2:
          ContextRunner::Read(t, *context.c, Op{op.what / 5, 0, op.x, {}});
          break;
        case 3: {
          t->Say("equal", local == peer);
          pr::Identity copy = local;
          t->Say("same", copy == local && absl::Hash<pr::Identity>()(copy) == absl::Hash<pr::Identity>()(local));
          t->Say(copy.GetIdentityString() + local.GetIdentityCString());
          break;
        }
        default:
          TokenRunner::Read(t, *token.m, s, Op{op.what / 5, 0, op.x, {}});
      }
    }
  };
  std::vector<Transcript> alone(ops.size()), together(ops.size());
  for (size_t i = 0; i < ops.size(); ++i) read(ops[i], &alone[i], false);
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < ops.size(); ++i) bodies.push_back([&, i] { read(ops[i], &together[i], true); });
  Threads(bodies);
  for (size_t i = 0; i < ops.size(); ++i) Compare(s, i, alone[i], together[i]);
  g.note(ops.size()).note(" threads");
  g.nontrivial();
}
