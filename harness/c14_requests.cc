// C14: session requests say exactly what the options say.
#include "proxy_common.h"
using namespace pr;

static const struct Setup {
  Setup() { pbt::global_setup = Silence; }
} setup;

namespace {
template <class R>
std::multiset<Id> Ids(const R& r) {
  std::multiset<Id> s;
  for (auto& i : r) {
    REQUIRE_MSG(i.attributes().empty(), "attributes from nowhere");
    s.insert(IdOf(i));
  }
  return s;
}
std::string Text(const std::multiset<Id>& s) {
  std::ostringstream o;
  for (auto& i : s) o << i << " ";
  return o.str();
}
std::multiset<Id> Ids(const std::set<Id>& s) { return std::multiset<Id>(s.begin(), s.end()); }

template <class M>
void CheckCommon(const Config& c, const M& m) {
  REQUIRE_EQ(m.application_protocols_size(), 1);
  REQUIRE_MSG(m.application_protocols(0) == c.protocol, "application protocol " << Show(m.application_protocols(0)) << " configured " << Show(c.protocol));
  REQUIRE_EQ((int)m.min_tls_version(), c.min);
  REQUIRE_EQ((int)m.max_tls_version(), c.max);
  REQUIRE_EQ((size_t)m.tls_ciphersuites_size(), c.suites.size());
  for (size_t i = 0; i < c.suites.size(); ++i) REQUIRE_EQ((int)m.tls_ciphersuites((int)i), c.suites[i]);
}
void CheckStart(const Config& c, const std::string& bytes, const std::string* peer) {
  pb::SessionReq r;
  REQUIRE_MSG(r.ParseFromString(bytes), "the request is not a SessionReq: " << Show(bytes));
  REQUIRE_MSG(r.GetReflection()->GetUnknownFields(r).empty(), "unknown fields in the request");
  if (c.client) {
    REQUIRE_MSG(r.req_oneof_case() == pb::SessionReq::kClientStart, "kind " << (int)r.req_oneof_case());
    auto& m = r.client_start();
    CheckCommon(c, m);
    REQUIRE_MSG(m.GetReflection()->GetUnknownFields(m).empty(), "unknown fields in the request");
    REQUIRE_MSG(Ids(m.target_identities()) == Ids(c.targets), "target identities " << Text(Ids(m.target_identities())) << " configured " << Text(Ids(c.targets)));
    REQUIRE_EQ(m.has_local_identity(), c.local.size() == 1);
    if (m.has_local_identity()) REQUIRE_EQ(IdOf(m.local_identity()), *c.local.begin());
    REQUIRE_MSG(m.target_name() == c.target, "target name " << Show(m.target_name()) << " configured " << Show(c.target));
  } else {
    REQUIRE_MSG(r.req_oneof_case() == pb::SessionReq::kServerStart, "kind " << (int)r.req_oneof_case());
    auto& m = r.server_start();
    CheckCommon(c, m);
    REQUIRE_MSG(m.GetReflection()->GetUnknownFields(m).empty(), "unknown fields in the request");
    REQUIRE_MSG(Ids(m.local_identities()) == Ids(c.local), "local identities " << Text(Ids(m.local_identities())) << " configured " << Text(Ids(c.local)));
    REQUIRE_MSG(m.in_bytes() == (peer ? *peer : ""), "peer bytes: sizes " << m.in_bytes().size() << " and " << (peer ? peer->size() : 0));
  }
}
void CheckNext(const std::string& bytes, const std::string& peer) {
  pb::SessionReq r;
  REQUIRE_MSG(r.ParseFromString(bytes), "the request is not a SessionReq: " << Show(bytes));
  REQUIRE_MSG(r.req_oneof_case() == pb::SessionReq::kNext, "kind " << (int)r.req_oneof_case());
  REQUIRE_MSG(r.GetReflection()->GetUnknownFields(r).empty(), "unknown fields in the request");
  REQUIRE_MSG(r.next().in_bytes() == peer, "peer bytes: sizes " << r.next().in_bytes().size() << " and " << peer.size());
  REQUIRE_MSG(r.next().GetReflection()->GetUnknownFields(r.next()).empty(), "unknown fields in the request");
}
std::string Response(Gen& g) {
  pb::SessionResp r;
  switch (g.below(4)) {
    case 0:
      break;  // No status.
    case 1:
      r.mutable_status()->set_code(1 + (uint32_t)g.below(20));
      break;
    default:
      r.mutable_status()->set_code(0);
  }
  if (g.boolean()) Fill(AnyId(g), r.mutable_local_identity());
  r.set_out_frames(Blob(g, 100));
  if (g.chance(1, 5)) {  // The end of the handshake.
    auto* x = r.mutable_result();
    x->mutable_state()->set_tls_version(pb::TLS1_3);
    x->mutable_state()->set_in_key(std::string(32, 'i'));
    x->mutable_state()->set_out_key(std::string(32, 'o'));
    Fill(AnyId(g), x->mutable_local_identity());
  }
  return g.chance(1, 6) ? Blob(g, 20) : r.SerializeAsString();
}
}  // namespace

PROPERTY(requests, 80000, 800000,
         "histories of requests (with responses in between) for generated options, parsed by a standard protobuf "
         "implementation; non-trivial: a start and a next request were made, or a call was refused") {
  Config c = AnyConfig(g);
  Tokens::Log log;
  std::unique_ptr<AccessTokenManagerInterface> tokens;
  if (g.chance(1, 3)) {
    for (auto& i : c.local) log.table[i] = pr::Text(g, 20);
    log.table[Id()] = "default";
    tokens.reset(new Tokens(&log));
  }
  Proxy p = MakeProxy(c, std::move(tokens));
  g.note(c.client ? "client " : "server ").note(c.local.size()).note(" local ").note(c.targets.size()).note(" target ").note(c.suites.size()).note(" suites:");
  bool started = false;
  size_t refused = 0, nexts = 0, n = 1 + g.below(8);
  for (size_t i = 0; i < n; ++i) {
    if (g.chance(1, 4)) {
      g.note(" response");
      p->GetBytesForPeer(Buf(Response(g)));
      continue;
    }
    std::unique_ptr<std::vector<char>> b;
    std::string peer;
    bool null = false;
    switch (g.weighted({3, 1, 1})) {
      case 0:
        peer = Blob(g, g.chance(1, 10) ? 40000 : 300);
        if (!started && c.client && !g.chance(1, 4)) peer.clear();
        b = Buf(peer);
        break;
      case 1:
        null = true;
        break;
      default:
        b = Buf("");
        if (g.boolean()) b->reserve(1 + g.below(100));
    }
    if (p->IsHandshakeFinished()) g.label("after the end");
    g.note(started ? " next(" : " start(").note(null ? std::string("null") : std::to_string(peer.size())).note(")");
    auto r = p->GetBytesForS2A(std::move(b));
    if (r.bytes_consumed != 0) g.label("request consumes");
    bool want;
    if (!started)
      want = c.client ? peer.empty() && c.local.size() <= 1 : true;
    else
      want = !peer.empty();
    REQUIRE_MSG(r.status.ok() == want, "status " << r.status.ToString() << ", expected " << (want ? "a request" : "an error"));
    if (!want) {
      ++refused;
      REQUIRE_MSG(r.buffer == nullptr || r.buffer->empty(), "bytes to send although refused");
      continue;
    }
    REQUIRE_MSG(r.buffer != nullptr, "no bytes to send");
    if (!started) {
      CheckStart(c, Str(r.buffer), null ? nullptr : &peer);
      started = true;
      g.label(c.client ? "client start" : "server start");
    } else {
      CheckNext(Str(r.buffer), peer);
      ++nexts;
      g.label("next");
    }
  }
  if (refused) g.label("refused");
  g.nontrivial((started && nexts) || refused);
}

PROPERTY(combinations, 16000, 160000,
         "both roles, all version ranges and all ciphersuite lists of up to three entries enumerated, the rest "
         "generated; non-trivial: every case") {
  Config c = AnyConfig(g);
  uint64_t k = g.sweep(2 * 2 * 2 * 40);
  c.client = k % 2;
  c.min = k / 2 % 2;
  c.max = k / 4 % 2;
  k /= 8;
  c.suites.clear();
  size_t n = k == 0 ? 0 : k < 4 ? 1 : k < 13 ? 2 : 3;
  k -= n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 4 : 13;
  for (size_t i = 0; i < n; ++i, k /= 3) c.suites.push_back((int)(k % 3));
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  Proxy p = MakeProxy(c, nullptr);
  std::string peer = c.client ? "" : Blob(g, 100);
  g.note(c.client ? "client" : "server").note(" versions ").note(c.min).note(c.max).note(" suites ").note(n);
  auto r = p->GetBytesForS2A(Buf(peer));
  if (r.bytes_consumed != 0) g.label("request consumes");
  REQUIRE_MSG(r.status.ok(), r.status.ToString());
  REQUIRE(r.buffer != nullptr);
  CheckStart(c, Str(r.buffer), &peer);
  g.nontrivial();
}

PROPERTY(large, 3000, 30000,
         "start requests for up to 900 ciphersuites, local and target identities; non-trivial: more than 255 of one of "
         "them") {
  Config c = LargeConfig(g);
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  Proxy p = MakeProxy(c, nullptr);
  std::string peer = c.client ? "" : Blob(g, g.chance(1, 10) ? 70000 : 100);
  g.note(c.client ? "client " : "server ").note(c.local.size()).note(" local ").note(c.targets.size()).note(" target ").note(c.suites.size()).note(" suites");
  auto r = p->GetBytesForS2A(Buf(peer));
  REQUIRE_MSG(r.status.ok(), r.status.ToString());
  REQUIRE(r.buffer != nullptr);
  CheckStart(c, Str(r.buffer), &peer);
  g.nontrivial(c.local.size() > 255 || c.targets.size() > 255 || c.suites.size() > 255);
}

PROPERTY(unsupported, 20000, 200000,
         "options naming a TLS version or a ciphersuite which does not exist, and up to six calls; non-trivial: two "
         "calls which could have been a start") {
  Config c = AnyConfig(g);
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  auto outside = [&](int first) { return g.boolean() ? first + (int)g.below(4) : g.boolean() ? -1 - (int)g.below(4) : (int)(g.u64() | 64); };
  size_t at = 0;
  if (!g.chance(1, 3)) at |= 1 << g.below(3);
  else at = 1 + g.below(7);
  auto options = MakeOptions(c);
  if (at & 1) options->set_min_tls_version((Version)outside(2));
  if (at & 2) options->set_max_tls_version((Version)outside(2));
  if (at & 4) {
    options->add_supported_ciphersuite((Suite)outside(3));
    for (size_t n = g.below(4); n > 0; --n) options->add_supported_ciphersuite((Suite)g.below(3));
  }
  S2AProxy::S2AProxyOptions o;
  o.logger = [](const std::string&) {};
  o.is_client = c.client;
  o.application_protocol = c.protocol;
  o.target_hostname = c.target;
  o.options = std::move(options);
  o.channel_factory.reset(new ProxyFactory);
  Proxy p = S2AProxy::Create(o);
  REQUIRE_MSG(p != nullptr, "proxy creation refused");
  g.note(c.client ? "client " : "server ").note(at).note(":");
  size_t starts = 0;
  for (size_t n = 1 + g.below(6); n > 0; --n) {
    std::string peer = g.boolean() ? "" : Blob(g, 60);
    g.note(" ").note(peer.size());
    auto r = p->GetBytesForS2A(g.chance(1, 5) ? (peer.clear(), nullptr) : Buf(peer));
    REQUIRE_MSG(!r.status.ok(), "a request although the options are unsupported");
    REQUIRE_MSG(r.buffer == nullptr || r.buffer->empty(), "bytes to send although refused");
    REQUIRE_EQ(r.bytes_consumed, (size_t)0);
    starts += !c.client || peer.empty();
  }
  g.nontrivial(starts > 1);
}
