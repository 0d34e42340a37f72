// C20: the single-token manager returns the environment token for everyone.
#include <cstdlib>
#include <thread>

#include "include/access_token_manager_factory.h"
#include "pbt.h"
#include "src/token_manager/single_token_access_token_manager.h"

using pbt::Bytes;
using pbt::Gen;
using s2a::s2a_options::S2AOptions;
using Identity = S2AOptions::Identity;
using s2a::token_manager::AccessTokenManagerInterface;
using s2a::token_manager::BuildAccessTokenManager;
using s2a::token_manager::SingleTokenAccessTokenManager;

namespace {
const char kVar[] = "S2A_ACCESS_TOKEN";

struct Env {
  bool set = false;
  std::string value;
};
void Apply(const Env& e) {
  if (e.set)
    setenv(kVar, e.value.c_str(), 1);
  else
    unsetenv(kVar);
}
Env AnyEnv(Gen& g) {
  Env e;
  e.set = !g.chance(1, 4);
  if (e.set) {
    switch (g.below(6)) {
      case 0:
        break;
      case 1:
        e.value = g.str(g.small_size(60));
        break;
      case 2:
        e.value = g.pick<const char*>({" ", "\n", "token\n", " token", "token ", "\t", "0", "null", "%s%d", "=", "a=b", "s2a_access_token", "\"quoted\"", "Bearer x"});
        break;
      case 3:
        e.value = g.str(g.size(30000));
        break;
      case 4: {  // Whitespace and control bytes around the value.
        e.value = g.str(g.below(5)) + "tok" + g.pick<const char*>({"\r\n", "\n", " ", "\x01", "\xff"});
        break;
      }
      default:
        e.value = g.str(1 + g.below(4));
    }
  }
  return e;
}
Identity AnyIdentity(Gen& g) {
  std::string s = g.str(g.small_size(30));
  switch (g.below(4)) {
    case 0:
      return Identity::GetEmptyIdentity();
    case 1:
      return Identity::FromSpiffeId(s);
    case 2:
      return Identity::FromHostname(s);
    default:
      return Identity::FromUid(s);
  }
}
void Expect(const absl::StatusOr<std::string>& r, const Env& e) {
  if (!e.set) {
    REQUIRE_MSG(!r.ok(), "token although the variable is unset");
    REQUIRE_MSG(r.status().code() == absl::StatusCode::kNotFound, r.status().ToString());
  } else {
    REQUIRE_MSG(r.ok(), r.status().ToString());
    REQUIRE_MSG(*r == e.value, "token " << pbt::hex((const uint8_t*)r->data(), r->size()) << " want "
                                        << pbt::hex((const uint8_t*)e.value.data(), e.value.size()));
  }
}
}  // namespace

#ifndef VERIF_TSAN
PROPERTY(histories, 500000, 8000000,
         "managers created under changing environments (directly or by the "
         "factory), queried in any order with the environment changing in "
         "between; non-trivial: a query after the environment changed") {
  struct M {
    std::unique_ptr<AccessTokenManagerInterface> m;
    Env e;
    bool changed = false;
  };
  std::vector<M> ms;
  Env env = AnyEnv(g);
  Apply(env);
  size_t n = 1 + g.below(20);
  for (size_t i = 0; i < n; ++i) {
    switch (g.weighted({4, 2, 3})) {
      case 0: {
        if (ms.empty()) goto create;
        M& m = ms[g.below(ms.size())];
        g.nontrivial(m.changed);
        if (g.boolean()) {
          g.note("d");
          Expect(m.m->GetDefaultToken(), m.e);
        } else {
          g.note("t");
          Expect(m.m->GetToken(AnyIdentity(g)), m.e);
        }
        break;
      }
      case 1:
        env = AnyEnv(g);
        Apply(env);
        g.note(env.set ? "[set " : "[unset ").note(env.value.size()).note("]");
        for (auto& m : ms) m.changed = true;
        break;
      default: {
      create:
        if (ms.size() >= 4) break;
        M m;
        m.e = env;
        if (g.boolean()) {
          m.m.reset(new SingleTokenAccessTokenManager());
          g.note("new ");
        } else {
          auto r = BuildAccessTokenManager();
          REQUIRE(r.ok());
          m.m = std::move(*r);
          REQUIRE(m.m != nullptr);
          g.note("factory ");
        }
        g.label(env.set ? env.value.empty() ? "empty token" : "token" : "unset");
        ms.push_back(std::move(m));
      }
    }
  }
  for (auto& m : ms) {
    Expect(m.m->GetDefaultToken(), m.e);
    Expect(m.m->GetToken(AnyIdentity(g)), m.e);
    Expect(m.m->GetToken(Identity::GetEmptyIdentity()), m.e);
    Expect(m.m->GetDefaultToken(), m.e);
  }
}
#endif

// Run under ThreadSanitizer.
PROPERTY(threads, 8000, 100000,
         "2..6 threads querying one manager (and the factory) at once; "
         "non-trivial: all") {
  Env env = AnyEnv(g);
  Apply(env);
  auto r = BuildAccessTokenManager();
  REQUIRE(r.ok());
  AccessTokenManagerInterface* m = r->get();
  size_t k = 2 + g.below(5);
  std::vector<Identity> ids;
  for (size_t i = 0; i < k; ++i) ids.push_back(AnyIdentity(g));
  std::vector<uint64_t> plan;
  for (size_t i = 0; i < k; ++i) plan.push_back(g.u64());
  std::vector<std::string> errors(k);
  std::vector<std::thread> ts;
  for (size_t i = 0; i < k; ++i) {
    ts.emplace_back([&, i] {
      try {
        uint64_t p = plan[i];
        for (int q = 0; q < 16; ++q, p >>= 2) {
          switch (p & 3) {
            case 0:
              Expect(m->GetDefaultToken(), env);
              break;
            case 3: {
              auto x = BuildAccessTokenManager();
              REQUIRE(x.ok());
              Expect((*x)->GetDefaultToken(), env);
              break;
            }
            default:
              Expect(m->GetToken(ids[(i + q) % k]), env);
          }
        }
      } catch (const pbt::Fail& f) {
        errors[i] = f.msg;
      }
    });
  }
  for (auto& t : ts) t.join();
  for (auto& e : errors) REQUIRE_MSG(e.empty(), e);
  g.note(k).note(" threads, ").note(env.set ? "token" : "unset");
  g.nontrivial();
}
