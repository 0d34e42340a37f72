#ifndef VERIF_PROXY_COMMON_H_
#define VERIF_PROXY_COMMON_H_
#include <set>

#include "include/s2a_proxy.h"
#include "proto_common.h"

namespace pr {
using s2a::s2a_channel::S2AChannelFactoryInterface;
using s2a::s2a_proxy::S2AProxy;
using s2a::token_manager::AccessTokenManagerInterface;
using Proxy = std::unique_ptr<S2AProxy>;

struct Config {
  bool client = true;
  std::string protocol, target, address;
  int min = 1, max = 1;
  std::vector<int> suites;
  std::set<Id> local, targets;
};
inline void AddIds(Gen& g, std::set<Id>* s, size_t max) {
  for (size_t n = g.below(max + 1); n > 0; --n) s->insert(AnyId(g));
}
inline Config AnyConfig(Gen& g) {
  Config c;
  c.client = g.boolean();
  c.protocol = g.chance(1, 3) ? Text(g, 30) : "grpc";
  c.target = Text(g, 60);
  c.address = "s" + Text(g, 30);
  c.min = (int)g.below(2);
  c.max = (int)g.below(2);
  for (size_t n = g.chance(1, 8) ? g.below(80) : g.below(6); n > 0; --n) c.suites.push_back((int)g.below(3));
  size_t locals = !c.client ? (g.chance(1, 8) ? 40 : 4) : g.chance(1, 8) ? 3 : 1;
  AddIds(g, &c.local, locals);
  AddIds(g, &c.targets, g.chance(1, 8) ? 40 : 4);
  return c;
}
// Hundreds of identities and ciphersuites.
inline Config LargeConfig(Gen& g) {
  Config c = AnyConfig(g);
  size_t n = g.size(900), m = g.size(900), k = g.size(900);
  auto id = [&](size_t i) {
    Id x;
    x.kind = i % 3 == 0 ? Kind::SPIFFE_ID : i % 3 == 1 ? Kind::HOSTNAME : Kind::UID;
    x.s = "id" + std::to_string(i / 2);
    return x;
  };
  while (k-- > 0) c.suites.push_back((int)g.below(3));
  while (m-- > 0) c.targets.insert(id(m));
  while (!c.client && n-- > 0) c.local.insert(id(n));
  return c;
}
inline std::unique_ptr<S2AOptions> MakeOptions(const Config& c) {
  auto o = std::unique_ptr<S2AOptions>(new S2AOptions);
  o->set_min_tls_version(c.min ? Version::TLS1_3 : Version::TLS1_2);
  o->set_max_tls_version(c.max ? Version::TLS1_3 : Version::TLS1_2);
  o->set_s2a_address(c.address);
  for (int s : c.suites)
    o->add_supported_ciphersuite(s == 0   ? Suite::AES_128_GCM_SHA256
                                 : s == 1 ? Suite::AES_256_GCM_SHA384
                                          : Suite::CHACHA20_POLY1305_SHA256);
  for (auto& i : c.local) {
    if (i.kind == Kind::SPIFFE_ID)
      o->add_local_spiffe_id(i.s);
    else if (i.kind == Kind::HOSTNAME)
      o->add_local_hostname(i.s);
    else
      o->add_local_uid(i.s);
  }
  for (auto& i : c.targets) {
    if (i.kind == Kind::SPIFFE_ID)
      o->add_target_spiffe_id(i.s);
    else if (i.kind == Kind::HOSTNAME)
      o->add_target_hostname(i.s);
    else
      o->add_target_uid(i.s);
  }
  return o;
}
struct ProxyFactory : S2AChannelFactoryInterface {
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override {
    return absl::Status(absl::StatusCode::kInternal, "no channel");
  }
};
inline Proxy MakeProxy(const Config& c, std::unique_ptr<AccessTokenManagerInterface> tokens,
                       const void** factory = nullptr) {
  S2AProxy::S2AProxyOptions o;
  o.logger = [](const std::string&) {};
  o.is_client = c.client;
  o.application_protocol = c.protocol;
  o.target_hostname = c.target;
  o.options = MakeOptions(c);
  o.channel_factory.reset(new ProxyFactory);
  if (factory) *factory = o.channel_factory.get();
  o.channel_options = nullptr;
  o.token_manager = std::move(tokens);
  Proxy p = S2AProxy::Create(o);
  REQUIRE_MSG(p != nullptr, "proxy creation refused");
  return p;
}
inline std::unique_ptr<std::vector<char>> Buf(const std::string& s) {
  return std::unique_ptr<std::vector<char>>(new std::vector<char>(s.begin(), s.end()));
}

// What the manager was asked and what it answered.
struct Tokens : AccessTokenManagerInterface {
  struct Log {
    std::map<Id, std::string> table;  // Empty kind: default token.
    std::set<std::pair<Id, std::string>> issued;
    std::function<bool(const Id&)> down = [](const Id&) { return false; };
    std::function<std::string(const std::string&)> renew = [](const std::string& s) { return s; };
  };
  Log* log;
  explicit Tokens(Log* l) : log(l) {}
  absl::StatusOr<std::string> Get(const Id& i) {
    auto it = log->table.find(i);
    if (it == log->table.end() || log->down(i)) return absl::Status(absl::StatusCode::kNotFound, "no token");
    std::string t = log->renew(it->second);
    log->issued.insert({i, t});
    return t;
  }
  absl::StatusOr<std::string> GetDefaultToken() override { return Get(Id()); }
  absl::StatusOr<std::string> GetToken(const Identity& i) override {
    // The default token is not the token of an identity without a kind.
    if (i.GetIdentityType() == Kind::NONE) return absl::Status(absl::StatusCode::kNotFound, "no token");
    return Get(IdOf(i));
  }
  std::string DebugName() const override { return "test"; }
};
}  // namespace pr
#endif
