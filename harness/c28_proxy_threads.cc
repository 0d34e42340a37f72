// C28: the handshake calls of a proxy may come from several threads.
#include <atomic>
#include <thread>

#include "frame_common.h"
#include "proxy_common.h"
using pbt::Bytes;
using pbt::Gen;
using pr::Config;
using pr::Id;
namespace pb = pr::pb;

static const struct Setup {
  Setup() {
    pbt::global_setup = [] {
      ref::SelfTest();
      pr::Silence();
    };
  }
} setup;

namespace {
std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
void Run(const std::vector<std::function<void()>>& bodies) {
  std::atomic<size_t> ready{0};
  std::vector<std::string> errors(bodies.size());
  std::vector<std::thread> ts;
  for (size_t i = 0; i < bodies.size(); ++i) {
    ts.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < bodies.size()) std::this_thread::yield();
      try {
        bodies[i]();
      } catch (const pbt::Fail& f) {
        errors[i] = f.msg.empty() ? "failed" : f.msg;
      }
    });
  }
  for (auto& t : ts) t.join();
  for (auto& e : errors) REQUIRE_MSG(e.empty(), e);
}
void Yield(unsigned n) {
  while (n--) std::this_thread::yield();
}
// Thread-safe, as token managers must be.
struct Manager : s2a::token_manager::AccessTokenManagerInterface {
  const std::map<Id, std::string> table;
  const unsigned yields;  // As if it asked elsewhere.
  Manager(std::map<Id, std::string> t, unsigned y) : table(std::move(t)), yields(y) {}
  absl::StatusOr<std::string> Get(const Id& i) {
    Yield(yields);
    auto it = table.find(i);
    if (it == table.end()) return absl::Status(absl::StatusCode::kNotFound, "no token");
    return it->second;
  }
  absl::StatusOr<std::string> GetDefaultToken() override { return Get(Id()); }
  absl::StatusOr<std::string> GetToken(const s2a::s2a_options::S2AOptions::Identity& i) override { return Get(pr::IdOf(i)); }
  std::string DebugName() const override { return "test"; }
};
struct Call {
  std::string in;
  unsigned yields;
  bool ok;
  std::string out;
};
struct Answer {
  std::string bytes, frames;
  size_t consumed;
  unsigned yields;
  bool good, result;
};
}  // namespace

PROPERTY(handshakes, 3000, 40000,
         "1..3 threads making requests, one delivering responses up to and after the result, one or two polling for "
         "completion and then using the connection, while the result may be delivered again; non-trivial: the handshake finished while requests were made") {
  Config c = pr::AnyConfig(g);
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  std::map<Id, std::string> tokens;
  for (auto& i : c.local) tokens[i] = "t" + std::to_string(g.below(100000));
  tokens[Id()] = "default";
  pr::Proxy p = MakeProxy(c, std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>(new Manager(tokens, (unsigned)g.below(4))));
  // Workload.
  std::vector<std::vector<Call>> calls(1 + g.below(3));
  size_t number = 0;
  for (auto& t : calls)
    for (size_t n = 1 + g.below(6); n > 0; --n)
      t.push_back(Call{g.chance(1, 3) ? "" : "bytes " + std::to_string(number++), (unsigned)g.below(4), false, ""});
  Id local = c.local.empty() ? pr::AnyId(g) : *c.local.begin();
  int suite = (int)g.below(3);
  Bytes in = g.random_bytes(rec::SecretSize(suite)), out = g.random_bytes(rec::SecretSize(suite));
  std::vector<Answer> answers;
  bool selects = false;
  for (size_t n = g.below(4), after = g.below(3), k = 0; k <= n + after; ++k) {
    pb::SessionResp r;
    Answer a;
    // A service may repeat its result.
    a.result = k == n || (k > n && g.chance(1, 3));
    a.good = a.result || !g.chance(1, 4);
    r.mutable_status()->set_code(a.good ? 0 : 3);
    a.frames = pr::Blob(g, 40);
    a.consumed = g.below(100);
    r.set_out_frames(a.frames);
    r.set_bytes_consumed((uint32_t)a.consumed);
    if (g.chance(1, 3)) {
      Fill(local, r.mutable_local_identity());
      selects = true;
    }
    if (a.result) {
      auto* x = r.mutable_result();
      x->set_application_protocol("grpc");
      auto* st = x->mutable_state();
      st->set_tls_version(pb::TLS1_3);
      st->set_tls_ciphersuite((pb::Ciphersuite)suite);
      st->set_in_key(S(in));
      st->set_out_key(S(out));
      Fill(local, x->mutable_local_identity());
    }
    a.bytes = r.SerializeAsString();
    a.yields = (unsigned)g.below(6);
    answers.push_back(a);
  }
  size_t pollers = 1 + g.below(2);
  bool again = g.boolean();  // The second one takes a protector, too.
  std::atomic<bool> delivered{false};
  std::vector<std::function<void()>> bodies;
  for (auto& t : calls) {
    bodies.push_back([&] {
      for (auto& x : t) {
        Yield(x.yields);
        auto r = p->GetBytesForS2A(pr::Buf(x.in));
        x.ok = r.status.ok();
        x.out = pr::Str(r.buffer);
      }
    });
  }
  bodies.push_back([&] {
    for (auto& a : answers) {
      Yield(a.yields);
      auto r = p->GetBytesForPeer(pr::Buf(a.bytes));
      REQUIRE_MSG(r.status.ok() == a.good, r.status.ToString());
      if (a.good) REQUIRE_MSG(pr::Str(r.buffer) == a.frames && r.bytes_consumed == a.consumed, "another answer");
      if (a.result) delivered.store(true, std::memory_order_relaxed);
    }
  });
  bool used = false;
  for (size_t k = 0; k < pollers; ++k) {
    bodies.push_back([&, k] {
      bool before;
      for (;;) {
        before = delivered.load(std::memory_order_relaxed);
        bool now = p->IsHandshakeFinished();
        REQUIRE_MSG(now || !before, "not finished after the result");
        if (now) break;
        std::this_thread::yield();
      }
      if (k > 0 && !again) return;
      auto f = p->CreateFrameProtector();
      REQUIRE_MSG(f.ok(), f.status().ToString());
      if (k == 0) {
        auto v = p->GetS2AContext();
        REQUIRE_MSG(v.index() == 1 && absl::get<1>(v), "no context");
        REQUIRE_MSG(absl::get<1>(v)->ApplicationProtocol() == "grpc", "another context");
        REQUIRE_EQ(pr::IdOf(absl::get<1>(v)->LocalIdentity()), local);
      }
      Bytes data = {1, 2, 3};
      auto r = (*f)->Protect({rec::Iovec{data.data(), data.size()}});
      REQUIRE(r.status.ok() && r.bytes.size() == 1);
      ref::HalfConn h(suite, out, 0);
      Bytes got((uint8_t*)r.bytes[0].iov_base, (uint8_t*)r.bytes[0].iov_base + r.bytes[0].iov_len);
      delete[] (uint8_t*)r.bytes[0].iov_base;
      REQUIRE_BYTES(got, h.RecordAt(0, rec::Inner(data, 0x17, 0)));
      if (k == 0) used = true;
    });
  }
  Run(bodies);
  REQUIRE(used);
  // The requests are those of some order of the calls.
  std::map<Id, std::string> configured, chosen;
  for (auto& i : c.local) configured[i] = tokens[i];
  if (c.local.empty()) configured[Id()] = "default";
  if (tokens.count(local)) chosen[local] = tokens[local];
  size_t starts = 0, eligible = 0;
  for (auto& t : calls) {
    bool started = false;
    for (auto& x : t) {
      if (!c.client || x.in.empty()) ++eligible;
      if (!x.ok) {
        if (x.in.empty()) continue;  // Started before by another thread.
        REQUIRE_MSG(c.client && !started, "peer bytes refused after the start");
        continue;
      }
      pb::SessionReq q;
      REQUIRE_MSG(q.ParseFromString(x.out), "not a request of the schema");
      if (q.has_next()) {
        REQUIRE_MSG(!x.in.empty() && q.next().in_bytes() == x.in, "other peer bytes");
      } else {
        ++starts;
        if (c.client)
          REQUIRE_MSG(q.has_client_start() && x.in.empty(), "not a client start");
        else
          REQUIRE_MSG(q.has_server_start() && q.server_start().in_bytes() == x.in, "not a server start");
        REQUIRE_MSG(!started, "a second start");
      }
      started = true;
      std::map<Id, std::string> got;
      for (auto& a : q.auth_mechanisms()) got[a.has_identity() ? pr::IdOf(a.identity()) : Id()] = a.token();
      REQUIRE_MSG((size_t)q.auth_mechanisms_size() == got.size(), "an identity twice");
      REQUIRE_MSG(got == configured || (selects && got == chosen), "tokens");
    }
  }
  REQUIRE_MSG(starts == (eligible ? 1 : 0), starts << " starts");
  g.note(c.client ? "client " : "server ").note(calls.size()).note(" threads, ").note(answers.size()).note(" responses");
  g.nontrivial();
}
