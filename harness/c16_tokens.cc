// C16: access tokens are attached to the right identity only.
#include "proxy_common.h"
using namespace pr;

static const struct Setup {
  Setup() { pbt::global_setup = Silence; }
} setup;

namespace {
using Pairs = std::multimap<Id, std::string>;
Pairs Attached(const std::string& bytes) {
  pb::SessionReq r;
  REQUIRE_MSG(r.ParseFromString(bytes), "the request is not a SessionReq");
  Pairs m;
  for (auto& a : r.auth_mechanisms()) {
    REQUIRE_MSG(a.mechanism_oneof_case() == pb::AuthenticationMechanism::kToken, "mechanism without a token");
    REQUIRE_MSG(!a.has_identity() || IdOf(a.identity()) != Id(), "mechanism with an identity of no kind");
    m.insert({a.has_identity() ? IdOf(a.identity()) : Id(), a.token()});
  }
  return m;
}
std::string Show(const Pairs& p) {
  std::ostringstream o;
  for (auto& x : p) o << "[" << x.first << " -> " << pr::Show(x.second) << "] ";
  return o.str();
}
Config TokenConfig(Gen& g) {
  Config c = AnyConfig(g);
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  return c;
}
std::string AnyToken(Gen& g) { return g.chance(1, 8) ? "" : g.chance(1, 3) ? pr::Text(g, 30) : "t" + std::to_string(g.below(1000)); }
// The service's choice, which may come with the end of the handshake.
std::string OkResponse(Gen& g, const Id* selected) {
  pb::SessionResp r;
  r.mutable_status()->set_code(0);
  if (selected) {
    Fill(*selected, r.mutable_local_identity());
    Attributes(g, r.mutable_local_identity());
    if (g.chance(1, 5)) {
      auto* x = r.mutable_result();
      x->mutable_state()->set_tls_version(pb::TLS1_3);
      x->mutable_state()->set_in_key(std::string(32, 'i'));
      x->mutable_state()->set_out_key(std::string(32, 'o'));
      Fill(*selected, x->mutable_local_identity());
      g.label("result");
    }
  }
  r.set_out_frames(Blob(g, 30));
  return r.SerializeAsString();
}
std::string BadResponse(Gen& g) {
  pb::SessionResp r;
  if (g.boolean()) r.mutable_status()->set_code(1 + (uint32_t)g.below(20));
  Fill(AnyId(g), r.mutable_local_identity());
  if (g.boolean()) {
    auto* x = r.mutable_result();
    x->mutable_state()->set_tls_version(pb::TLS1_3);
    x->mutable_state()->set_in_key(std::string(32, 'i'));
    x->mutable_state()->set_out_key(std::string(32, 'o'));
    Fill(AnyId(g), x->mutable_local_identity());
  }
  return r.SerializeAsString();
}
}  // namespace

PROPERTY(attached, 120000, 1200000,
         "histories of requests and responses, with token managers that have tokens for any subset of the identities; "
         "non-trivial: a request with tokens after an identity was selected, or a token is missing") {
  Config c = TokenConfig(g);
  bool manager = !g.chance(1, 8);
  Tokens::Log log;
  Pairs configured;
  for (auto& i : c.local)
    if (!g.chance(1, 4)) log.table[i] = AnyToken(g);
  if (!g.chance(1, 4)) log.table[Id()] = AnyToken(g);
  // Tokens of identities that are not configured.
  for (size_t n = g.below(3); n > 0; --n) {
    Id i = AnyId(g);
    if (!c.local.count(i)) log.table[i] = AnyToken(g);
  }
  std::vector<Id> known(c.local.begin(), c.local.end());
  for (auto& x : log.table)
    if (x.first.kind != Kind::NONE && !c.local.count(x.first)) known.push_back(x.first);
  for (auto& i : c.local)
    if (log.table.count(i)) configured.insert({i, log.table[i]});
  if (c.local.empty() && log.table.count(Id())) configured.insert({Id(), log.table[Id()]});
  Proxy p = MakeProxy(c, manager ? std::unique_ptr<AccessTokenManagerInterface>(new Tokens(&log)) : nullptr);
  g.note(c.client ? "client " : "server ").note(c.local.size()).note(" configured, ").note(log.table.size()).note(" tokens:");
  bool have = false, started = false;
  Id selected;
  for (size_t n = 1 + g.below(8); n > 0; --n) {
    if (started && g.chance(1, 2)) {
      switch (g.weighted({3, 1, 1})) {
        case 0: {
          Id s = !known.empty() && !g.chance(1, 4) ? g.pick_from(known) : AnyId(g);
          // The service changes its choice at most to one with a token.
          if (have && s != selected && !log.table.count(s)) break;
          p->GetBytesForPeer(Buf(OkResponse(g, &s)));
          have = true;
          selected = s;
          g.note(" select ").note(s);
          break;
        }
        case 1:
          p->GetBytesForPeer(Buf(OkResponse(g, nullptr)));
          g.note(" ok");
          break;
        default:
          p->GetBytesForPeer(Buf(BadResponse(g)));
          g.note(" bad");
      }
      continue;
    }
    auto r = p->GetBytesForS2A(Buf(started ? "x" : ""));
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    started = true;
    Pairs got = Attached(Str(r.buffer)), want;
    if (manager) {
      if (have && log.table.count(selected))
        want.insert({selected, log.table[selected]});
      else
        want = configured;
    }
    g.note(" request");
    REQUIRE_MSG(got == want, "attached " << Show(got) << " expected " << Show(want));
    if (p->IsHandshakeFinished()) g.label("after the end");
    if (have && !want.empty()) {
      g.nontrivial();
      g.label("after selection");
    }
    if (manager && configured.size() < c.local.size()) {
      g.nontrivial();
      g.label("token missing");
    }
    if (c.local.empty() && !want.empty() && !have) g.label("default token");
  }
}

PROPERTY(renewed, 60000, 600000,
         "token managers whose answers change from call to call and fail now and then: every attached token was "
         "issued for the identity it is attached to, no identity twice; where the manager fails for the length of a "
         "request, every token obtainable in that request is attached; a selected identity that was alone stays alone; non-trivial: a token was attached after a "
         "renewal") {
  Config c = TokenConfig(g);
  Tokens::Log log;
  for (auto& i : c.local) log.table[i] = "l" + std::to_string(log.table.size());
  log.table[Id()] = "default";
  Id other = AnyId(g);
  if (!log.table.count(other)) log.table[other] = "other";
  uint64_t calls = 0, seed = g.u64();
  unsigned rate = (unsigned)g.below(3);
  // Failures come and go between calls, or stay for the length of a request.
  bool steady = g.boolean();
  uint64_t request = 0;
  auto down_now = [&](const Id& i) {
    uint64_t h = seed ^ pbt::mix64(request);
    for (unsigned char ch : i.s) h = pbt::mix64(h ^ ch);
    return pbt::mix64(h ^ (uint64_t)i.kind << 40) % 4 < rate;
  };
  log.down = [&](const Id& i) { return steady ? down_now(i) : pbt::mix64(seed ^ ++calls) % 4 < rate; };
  log.renew = [&](const std::string& s) { return s + "#" + std::to_string(++calls); };
  std::vector<Id> known;
  for (auto& x : log.table)
    if (x.first.kind != Kind::NONE) known.push_back(x.first);
  Proxy p = MakeProxy(c, std::unique_ptr<AccessTokenManagerInterface>(new Tokens(&log)));
  std::set<Id> may = c.local;
  if (may.empty()) may.insert(Id());
  const std::set<Id> configured = may;
  bool started = false, chosen = false;
  bool settled = false;  // The token of the choice was attached alone.
  Id choice;
  for (size_t n = 2 + g.below(8); n > 0; --n) {
    if (started && g.chance(1, 3)) {
      Id s = g.pick_from(known);
      p->GetBytesForPeer(Buf(OkResponse(g, &s)));
      may.insert(s);
      if (chosen && s != choice) settled = false;
      chosen = true;
      choice = s;
      g.note(" select ").note(s);
      continue;
    }
    ++request;
    bool issued_before = false;  // A token for the selected identity.
    for (auto& x : log.issued) issued_before = issued_before || (chosen && x.first == choice);
    auto r = p->GetBytesForS2A(Buf(started ? "x" : ""));
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    Pairs got = Attached(Str(r.buffer));
    g.note(" request:").note(got.size());
    if (steady) {
      bool alone = got.size() == 1 && chosen && got.count(choice);
      if (chosen && !down_now(choice)) {
        REQUIRE_MSG(alone, "not the selected identity alone: " << Show(got));
      } else if (!alone || !issued_before) {
        for (auto& i : configured) REQUIRE_MSG(down_now(i) || got.count(i), "the token of " << i << " is obtainable but not attached");
        if (chosen) g.label("fallback");
      }
    }
    for (auto& x : got) {
      REQUIRE_MSG(got.count(x.first) == 1, "two tokens for " << x.first);
      REQUIRE_MSG(may.count(x.first), "token for an identity neither configured nor selected: " << x.first);
      REQUIRE_MSG(log.issued.count({x.first, x.second}), "token " << x.second << " was not issued for " << x.first);
    }
    bool lone = chosen && got.size() == 1 && got.count(choice);
    REQUIRE_MSG(lone || !settled, "no longer the selected identity alone: " << Show(got));
    if (settled) g.label(p->IsHandshakeFinished() ? "settled, after the end" : "settled");
    settled = settled || lone;
    if (rate == 0 && may.size() == 1) REQUIRE_MSG(got.size() == 1, "token missing");
    if (started && !got.empty()) g.nontrivial();
    started = true;
  }
}
