// C31: connections work, and stay small, however long they live.
#include "crypter_common.h"
#include "frame_common.h"
#include "proxy_common.h"
#include "src/record_protocol/handshake_message_handler.h"

using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();

namespace {
// A cheap content for the i-th item.
Bytes Content(uint64_t salt, uint64_t i, size_t max) {
  uint64_t x = (salt + i) * 0x9E3779B97F4A7C15ull;
  x ^= x >> 29;
  Bytes b(max ? x % (max + 1) : 0);
  for (size_t k = 0; k < b.size(); ++k) b[k] = (uint8_t)(x >> (8 * (k % 8))) + (uint8_t)k;
  return b;
}
// Counts that pass the sizes of small counters.
size_t AnyCount(Gen& g, size_t scale = 1) {
  return g.pick<size_t>({200, 500, 4000, 32700, 65400}) / scale + g.below(400);
}
// What is held must not grow with the number of steps.
struct Held {
  size_t before = 0;
  static size_t Now() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
  void Start() { before = Now(); }
  void Check(size_t allowed) {
    size_t now = Now();
    REQUIRE_MSG(now <= before + allowed, "holds " << now - before << " bytes more than near the start");
  }
};
struct Link {
  Crypter c;
  ref::HalfConn in, out;
  Bytes buf;
  explicit Link(Params& p)
      : c(MakeRecordCrypter(p)), in(p.suite, p.in_secret, p.in_seq), out(p.suite, p.out_secret, p.out_seq), buf(20000) {}
  void Send(const Bytes& data, Type t = Type::APPLICATION_DATA, uint8_t type = 0x17) {
    Bytes want = out.RecordAt(out.seq, Inner(data, type, 0));
    ++out.seq;
    auto s = c->Protect(t, {Iovec{(void*)data.data(), data.size()}}, Iovec{buf.data(), want.size()});
    REQUIRE_MSG(s.GetCode() == Code::OK, "record " << out.seq << ": " << s.GetErrorMessage());
    REQUIRE_EQ(s.GetBytesWritten(), want.size());
    REQUIRE_MSG(memcmp(buf.data(), want.data(), want.size()) == 0, "record " << out.seq << " differs");
  }
  void Receive(const Bytes& data, uint8_t type = 0x17, size_t padding = 0) {
    Bytes r = in.RecordAt(in.seq, Inner(data, type, padding));
    ++in.seq;
    auto s = c->Unprotect(Iovec{r.data(), 5}, {Iovec{r.data() + 5, r.size() - 5}}, Iovec{buf.data(), r.size() - 5});
    REQUIRE_MSG(s.GetCode() == Code::OK, "record " << in.seq << ": " << s.GetErrorMessage());
    if (type == 0x17) {
      REQUIRE_EQ(s.GetBytesWritten(), data.size());
      REQUIRE_MSG(data.empty() || memcmp(buf.data(), data.data(), data.size()) == 0, "record " << in.seq << " differs");
    } else {
      REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
    }
  }
  void Update(bool outbound) {
    if (outbound) {
      Send(HandshakeMessage(24, {0}), Type::HANDSHAKE, 0x16);
      REQUIRE_MSG(c->UpdateOutboundKey().ok(), "outbound key update");
      out.Update();
      out.seq = 0;
    } else {
      Receive(HandshakeMessage(24, {0}), 0x16);
      in.Update();
      in.seq = 0;
    }
  }
};
Params Start(Gen& g) {
  Params p;
  p.suite = (int)g.below(3);
  p.in_secret = g.random_bytes(SecretSize(p.suite));
  p.out_secret = g.random_bytes(SecretSize(p.suite));
  return p;
}
}  // namespace

PROPERTY(records, 48, 1200,
         "200..65800 records in each direction over one connection, key updates now and then; non-trivial: over 4000") {
  Sink::Get().Reset();
  Params p = Start(g);
  Link l(p);
  size_t n = AnyCount(g), max = g.below(60), every = g.chance(1, 3) ? 1 + g.below(3000) : 0;
  uint64_t salt = g.u64();
  int directions = (int)g.below(3);
  g.note("suite ").note(p.suite).note(" records ").note(n).note(" up to ").note(max).note(" bytes, update every ").note(every);
  Held held;
  for (size_t i = 0; i < n; ++i) {
    if (i == 100) held.Start();
    if (directions != 1) l.Send(Content(salt, i, max));
    if (directions != 0) l.Receive(Content(salt + 1, i, max), 0x17, i % 11);
    if (every && i % every == every - 1) l.Update(i % 2);
  }
  held.Check(100000);
  g.nontrivial(n > 4000);
}

PROPERTY(updates, 32, 800,
         "200..8500 key updates of either direction on one connection, each followed by a record or not; non-trivial: "
         "over 1000") {
  Sink::Get().Reset();
  Params p = Start(g);
  Link l(p);
  size_t n = AnyCount(g, 8);
  int directions = (int)g.below(3);
  uint64_t mask = g.pick<uint64_t>({0, 1, 7});
  uint64_t salt = g.u64();
  g.note("suite ").note(p.suite).note(" updates ").note(n).note(" direction ").note(directions);
  Held held;
  for (size_t i = 0; i < n; ++i) {
    if (i == 20) held.Start();
    if (directions != 1) l.Update(true);
    if (directions != 0) l.Update(false);
    if ((i & mask) == 0) {
      l.Send(Content(salt, i, 30));
      l.Receive(Content(salt + 1, i, 30));
    }
  }
  l.Send(Content(salt, 1, 30));
  l.Receive(Content(salt + 1, 1, 30));
  held.Check(100000);
  g.nontrivial(n > 1000);
}

PROPERTY(frames, 32, 800,
         "200..65800 messages through one frame protector in each direction; non-trivial: over 4000") {
  Ledger ledger;
  Params p = Start(g);
  Frame f = MakeFrame(p, &ledger);
  ref::HalfConn in(p.suite, p.in_secret, 0), out(p.suite, p.out_secret, 0);
  size_t n = AnyCount(g), max = g.below(60);
  uint64_t salt = g.u64();
  bool caller = g.boolean();
  g.note("suite ").note(p.suite).note(" messages ").note(n).note(caller ? " caller's buffers" : "");
  Held held;
  Bytes buf(200);
  for (size_t i = 0; i < n; ++i) {
    if (i == 100) held.Start();
    Bytes a = Content(salt, i, max), b = Content(salt + 1, i, max);
    Bytes want = out.RecordAt(out.seq++, Inner(a, 0x17, 0)), rec = in.RecordAt(in.seq++, Inner(b, 0x17, 0));
    if (caller) {
      Iovec o{buf.data(), want.size()};
      auto s = f->Protect({Iovec{a.data(), a.size()}}, o);
      REQUIRE_MSG(s.ok(), "message " << i << ": " << s.ToString());
      REQUIRE_MSG(o.iov_len == want.size() && memcmp(buf.data(), want.data(), want.size()) == 0, "message " << i << " differs");
      Iovec u{buf.data(), f->NumberBytesToUnprotect(rec.size())};
      s = f->Unprotect({Iovec{rec.data(), rec.size()}}, u);
      REQUIRE_MSG(s.ok(), "message " << i << ": " << s.ToString());
      REQUIRE_MSG(u.iov_len == b.size() && (b.empty() || memcmp(buf.data(), b.data(), b.size()) == 0), "message " << i << " differs");
    } else {
      auto r = f->Protect({Iovec{a.data(), a.size()}});
      REQUIRE_MSG(r.status.ok(), "message " << i << ": " << r.status.ToString());
      REQUIRE_MSG(ledger.Take(r.bytes) == want, "message " << i << " differs");
      auto u = f->Unprotect({Iovec{rec.data(), rec.size()}});
      REQUIRE_MSG(u.status.ok(), "message " << i << ": " << u.status.ToString());
      REQUIRE_MSG(ledger.Take(u.bytes) == b, "message " << i << " differs");
    }
  }
  ledger.Check();
  held.Check(100000);
  g.nontrivial(n > 4000);
}

PROPERTY(tickets, 40, 1000,
         "200..16700 tickets on one connection in records of their own, cut or together, data now and then: the first five "
         "are handed over, the rest is not kept; non-trivial: over 1000") {
  Sink::Get().Reset();
  Params p = Start(g);
  {
    Link l(p);
    size_t n = AnyCount(g, 4), max = 1 + g.below(300), per = 1 + g.below(20), data_every = g.chance(1, 2) ? 20 + g.below(500) : 0;
    uint64_t salt = g.u64();
    bool cut = g.boolean();
    g.note("suite ").note(p.suite).note(" tickets ").note(n).note(" per record ").note(per).note(cut ? " cut" : "");
    std::vector<std::string> want;
    Held held;
    Bytes pending;
    for (size_t i = 0; i < n; ++i) {
      Bytes t = HandshakeMessage(4, Content(salt, i, max));
      if (want.size() < 5) want.push_back(std::string(t.begin(), t.end()));
      pending.insert(pending.end(), t.begin(), t.end());
      if (i % per == per - 1 || i + 1 == n) {
        size_t at = cut && pending.size() > 1 ? 1 + (salt + i) % (pending.size() - 1) : pending.size();
        l.Receive(Bytes(pending.begin(), pending.begin() + at), 0x16);
        if (at < pending.size()) l.Receive(Bytes(pending.begin() + at, pending.end()), 0x16);
        pending.clear();
        if (i < 100) held.Start();
        if (i > 10 && data_every && i % data_every < per) l.Receive(Content(salt + 1, i, 30));
      }
    }
    l.Receive(Content(salt, 7, 30));
    l.Send(Content(salt, 8, 30));
    held.Check(100000);
    auto& s = Sink::Get().sent;
    REQUIRE_EQ(s.size(), (size_t)1);
    REQUIRE_MSG(s[0].tickets.size() >= 5, "only " << s[0].tickets.size() << " tickets handed over");
    for (size_t i = 0; i < want.size(); ++i) REQUIRE_MSG(s[0].tickets[i] == want[i], "ticket " << i << " differs");
    g.nontrivial(n > 1000);
  }
}

PROPERTY(huge_ticket, 24, 400,
         "one ticket of up to 2^24-1 bytes over records of 1..16384 bytes; non-trivial: over 65536 bytes") {
  using s2a::handshake_message_handler::HandshakeMessageHandler;
  size_t n = g.pick<size_t>({1000, 65536, 70000, 1 << 20, (1 << 24) - 1}) - g.below(3);
  size_t piece = n > 200000 ? 4000 + g.below(12384) : 1 + g.size(16000);
  bool through = g.boolean();
  g.note(n).note(" bytes in pieces of ").note(piece).note(through ? " over a connection" : "");
  Bytes m = HandshakeMessage(4, Bytes(n));
  for (size_t i = 4; i < m.size(); ++i) m[i] = (uint8_t)(i * 31 + (i >> 8));
  if (through && n < 200000) {
    Sink::Get().Reset();
    Params p = Start(g);
    Link l(p);
    for (size_t at = 0; at < m.size(); at += piece)
      l.Receive(Bytes(m.begin() + at, m.begin() + std::min(m.size(), at + piece)), 0x16);
    l.Receive(Bytes(3, 1));
    auto& s = Sink::Get().sent;
    REQUIRE_EQ(s.size(), (size_t)1);
    REQUIRE_EQ(s[0].tickets.size(), (size_t)1);
    REQUIRE_MSG(s[0].tickets[0] == std::string(m.begin(), m.end()), "the ticket differs");
  } else {
    HandshakeMessageHandler h;
    for (size_t at = 0; at < m.size(); at += piece) {
      size_t k = std::min(piece, m.size() - at);
      auto r = h.ProcessHandshakeMessage(m.data() + at, k);
      REQUIRE_MSG(r.index() == 1, absl::get<0>(r).ToString());
      REQUIRE_EQ(absl::get<1>(r).expecting_to_read_more_bytes, at + k < m.size());
    }
    auto t = h.GetStoredTickets();
    REQUIRE_MSG(t.index() == 1 && absl::get<1>(t)->size() == 1, "no ticket");
    Bytes got;
    for (auto& f : *(*absl::get<1>(t))[0]) got.insert(got.end(), f->begin(), f->end());
    REQUIRE_MSG(got == m, "the ticket differs");
  }
  g.nontrivial(n > 65536);
}

PROPERTY(handshakes, 32, 800,
         "200..16700 requests and responses on one proxy before and after its end; non-trivial: over 1000") {
  pr::Config c = pr::AnyConfig(g);
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  pr::Tokens::Log tokens;
  for (auto& i : c.local) tokens.table[i] = "token";
  tokens.table[pr::Id()] = "default";
  auto p = MakeProxy(c, std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>(new pr::Tokens(&tokens)));
  size_t n = AnyCount(g, 4), max = g.below(100), expected = c.local.empty() ? 1 : c.local.size();
  uint64_t salt = g.u64();
  g.note(c.client ? "client" : "server").note(" rounds ").note(n);
  REQUIRE(p->GetBytesForS2A(nullptr).status.ok());
  Held held;
  for (size_t i = 0; i < n; ++i) {
    if (i == 100) held.Start();
    Bytes x = Content(salt, i, max), y = Content(salt + 1, i, max);
    x.push_back(1);
    auto r = p->GetBytesForS2A(pr::Buf(std::string(x.begin(), x.end())));
    REQUIRE_MSG(r.status.ok(), "request " << i << ": " << r.status.ToString());
    pr::pb::SessionReq q;
    REQUIRE_MSG(q.ParseFromString(pr::Str(r.buffer)) && q.has_next(), "request " << i);
    REQUIRE_MSG(q.next().in_bytes() == std::string(x.begin(), x.end()), "request " << i << " carries other bytes");
    REQUIRE_MSG((size_t)q.auth_mechanisms_size() == expected, "request " << i << " has " << q.auth_mechanisms_size() << " tokens");
    pr::pb::SessionResp resp;
    bool bad = i % 37 == 36;
    resp.mutable_status()->set_code(bad ? 3 : 0);
    resp.set_out_frames(std::string(y.begin(), y.end()));
    resp.set_bytes_consumed((uint32_t)x.size());
    auto s = p->GetBytesForPeer(pr::Buf(resp.SerializeAsString()));
    REQUIRE_MSG(s.status.ok() == !bad, "response " << i << ": " << s.status.ToString());
    if (!bad) REQUIRE_MSG(pr::Str(s.buffer) == resp.out_frames() && s.bytes_consumed == x.size(), "response " << i << " differs");
    REQUIRE(!p->IsHandshakeFinished());
  }
  held.Check(100000);
  g.nontrivial(n > 1000);
}
