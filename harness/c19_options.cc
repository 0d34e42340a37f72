// C19: options are the record of the calls made on them; copies are deep.
#include <map>

#include "include/s2a_options.h"
#include "pbt.h"

using pbt::Bytes;
using pbt::Gen;
using s2a::s2a_options::S2AOptions;
using Identity = S2AOptions::Identity;
using Type = S2AOptions::IdentityType;

namespace {

struct Model {
  int min = 1, max = 1;
  std::string address;
  std::vector<int> suites;
  std::set<std::pair<int, std::string>> local, target;
};

// Strings from a small pool of related ones (prefixes, case, NULs, long), so
// that collisions and near-collisions are common.
std::string Str(Gen& g) {
  static const char* base[] = {"", "a", "A", "ab", "spiffe://x/y", "host.example.com", "host.example.com.", "uid"};
  std::string s;
  switch (g.weighted({5, 2, 2, 1, 1})) {
    case 0:
      s = base[g.below(8)];
      break;
    case 1:
      s = g.str(g.small_size(40));
      break;
    case 2: {
      Bytes b = g.bytes(g.small_size(24));
      s.assign(b.begin(), b.end());
      break;
    }
    case 3:
      s = std::string(base[g.below(8)]) + std::string(1, '\0') + base[g.below(8)];
      break;
    default:
      s = g.str(g.size(5000));
  }
  return s;
}

Identity Make(int kind, const std::string& s) {
  switch (kind) {
    case 1:
      return Identity::FromSpiffeId(s);
    case 2:
      return Identity::FromHostname(s);
    case 3:
      return Identity::FromUid(s);
    default:
      return Identity::GetEmptyIdentity();
  }
}
Type KindType(int k) {
  return k == 1 ? Type::SPIFFE_ID : k == 2 ? Type::HOSTNAME : k == 3 ? Type::UID : Type::NONE;
}
int KindOf(Type t) {
  return t == Type::SPIFFE_ID ? 1 : t == Type::HOSTNAME ? 2 : t == Type::UID ? 3 : t == Type::NONE ? 0 : -1;
}

void CheckSet(const absl::flat_hash_set<Identity>& got, const std::set<std::pair<int, std::string>>& want) {
  REQUIRE_EQ(got.size(), want.size());
  std::set<std::pair<int, std::string>> seen;
  for (const Identity& i : got) {
    seen.insert({KindOf(i.GetIdentityType()), i.GetIdentityString()});
    REQUIRE_EQ(std::string(i.GetIdentityCString()), std::string(i.GetIdentityString().c_str()));
  }
  REQUIRE(seen == want);
  for (auto& p : want) REQUIRE(got.contains(Make(p.first, p.second)));
}
void Check(const S2AOptions& o, const Model& m) {
  REQUIRE_EQ((int)o.min_tls_version(), m.min);
  REQUIRE_EQ((int)o.max_tls_version(), m.max);
  REQUIRE(o.s2a_address() == m.address);
  REQUIRE_EQ(o.supported_ciphersuites().size(), m.suites.size());
  for (size_t i = 0; i < m.suites.size(); ++i) REQUIRE_EQ((int)o.supported_ciphersuites()[i], m.suites[i]);
  CheckSet(o.local_identities(), m.local);
  CheckSet(o.target_identities(), m.target);
}
void Step(Gen& g, S2AOptions& o, Model& m) {
  switch (g.below(10)) {
    case 0:
      m.min = (int)g.below(2);
      o.set_min_tls_version((S2AOptions::TlsVersion)m.min);
      g.note("min=").note(m.min);
      break;
    case 1:
      m.max = (int)g.below(2);
      o.set_max_tls_version((S2AOptions::TlsVersion)m.max);
      g.note("max=").note(m.max);
      break;
    case 2:
      m.address = Str(g);
      o.set_s2a_address(m.address);
      g.note("addr");
      break;
    case 3: {
      int c = (int)g.below(3);
      m.suites.push_back(c);
      o.add_supported_ciphersuite((S2AOptions::Ciphersuite)c);
      g.note("suite").note(c);
      break;
    }
    default: {
      int kind = 1 + (int)g.below(3);
      bool local = g.boolean();
      std::string s = Str(g);
      (local ? m.local : m.target).insert({kind, s});
      if (local) {
        if (kind == 1) o.add_local_spiffe_id(s);
        if (kind == 2) o.add_local_hostname(s);
        if (kind == 3) o.add_local_uid(s);
      } else {
        if (kind == 1) o.add_target_spiffe_id(s);
        if (kind == 2) o.add_target_hostname(s);
        if (kind == 3) o.add_target_uid(s);
      }
      g.note(local ? "L" : "T").note(kind).note(":").note(s.substr(0, 12));
    }
  }
  g.note(" ");
}
}  // namespace

PROPERTY(histories, 30000, 600000,
         "up to 60 setter, adder and copy calls over up to six option "
         "objects, all compared with models after every call; non-trivial: "
         "an object is modified after being copied from or to") {
  std::vector<std::unique_ptr<S2AOptions>> objs;
  std::vector<Model> models;
  std::vector<bool> copied;
  objs.push_back(std::unique_ptr<S2AOptions>(new S2AOptions()));
  models.emplace_back();
  copied.push_back(false);
  Check(*objs[0], models[0]);
  size_t n = g.below(g.boolean() ? 12 : 60);
  for (size_t i = 0; i < n; ++i) {
    size_t w = g.below(objs.size());
    switch (g.weighted({10, 2, 1, 1, 1})) {
      case 0:
        Step(g, *objs[w], models[w]);
        g.nontrivial(copied[w]);
        break;
      case 1:
        if (objs.size() >= 6) break;
        objs.push_back(objs[w]->Copy());
        REQUIRE(objs.back() != nullptr);
        models.push_back(models[w]);
        copied[w] = true;
        copied.push_back(true);
        g.note("copy").note(w).note(" ");
        g.label("Copy()");
        break;
      case 2:
        if (objs.size() >= 6) break;
        objs.push_back(std::unique_ptr<S2AOptions>(new S2AOptions(*objs[w])));
        models.push_back(models[w]);
        copied[w] = true;
        copied.push_back(true);
        g.label("copy constructor");
        break;
      case 3: {
        size_t v = g.below(objs.size());
        *objs[v] = *objs[w];
        models[v] = models[w];
        copied[v] = copied[w] = true;
        g.label("assignment");
        break;
      }
      default:
        if (objs.size() > 1) {  // Destroy one: the others must not notice.
          objs.erase(objs.begin() + w);
          models.erase(models.begin() + w);
          copied.erase(copied.begin() + w);
          g.label("destroyed");
        }
    }
    for (size_t k = 0; k < objs.size(); ++k) Check(*objs[k], models[k]);
  }
}

PROPERTY(identities, 150000, 3000000,
         "pairs of identities from a pool of near-collisions: equality, "
         "hash, accessors, copies; non-trivial: kinds or strings coincide") {
  int ka = (int)g.below(4), kb = (int)g.below(4);
  std::string sa = Str(g), sb = g.chance(1, 2) ? sa : Str(g);
  if (ka == 0) sa = "";
  if (kb == 0) sb = "";
  if (g.chance(1, 6) && !sb.empty() && kb) sb[g.below(sb.size())] ^= 0x20;
  Identity a = Make(ka, sa), b = Make(kb, sb);
  g.note(ka).note(":").note(sa.substr(0, 20)).note(" ").note(kb).note(":").note(sb.substr(0, 20));
  REQUIRE(a.GetIdentityType() == KindType(ka));
  REQUIRE(a.GetIdentityString() == sa);
  REQUIRE(std::string(a.GetIdentityCString()) == sa.c_str());
  bool eq = ka == kb && sa == sb;
  REQUIRE_EQ(a == b, eq);
  REQUIRE_EQ(b == a, eq);
  if (eq) REQUIRE_EQ(absl::Hash<Identity>()(a), absl::Hash<Identity>()(b));
  Identity c(a);
  REQUIRE(c == a && c.GetIdentityType() == KindType(ka) && c.GetIdentityString() == sa);
  c = b;
  REQUIRE(c == b && c.GetIdentityType() == KindType(kb) && c.GetIdentityString() == sb);
  REQUIRE(a.GetIdentityType() == KindType(ka) && a.GetIdentityString() == sa);
  c = c;
  REQUIRE(c == b);
  g.label(eq ? "equal" : ka == kb ? "same kind" : sa == sb ? "same string" : "different");
  g.nontrivial(ka == kb || sa == sb);
}

PROPERTY(many_identities, 400, 4000,
         "sets of up to 3000 identities (rehashing), 600 in most cases; non-trivial: more than "
         "50") {
  S2AOptions o;
  Model m;
  size_t n = g.below(g.chance(1, 6) ? 3000 : 600);
  bool targets = g.boolean();  // As many targets as local identities.
  uint64_t salt = g.below(1000);
  for (size_t i = 0; i < n; ++i) {
    std::string s = std::to_string((i * 7 + salt) % (n + 1));
    int kind = 1 + (int)(i % 3);
    if (kind == 1) o.add_local_spiffe_id(s), o.add_target_uid(s), m.target.insert({3, s});
    if (kind == 2) o.add_local_hostname(s);
    if (kind == 3) o.add_local_uid(s);
    if (targets && kind == 2) o.add_target_spiffe_id(s), m.target.insert({1, s});
    if (targets && kind == 3) o.add_target_hostname(s), m.target.insert({2, s});
    m.local.insert({kind, s});
    o.add_supported_ciphersuite((S2AOptions::Ciphersuite)(i % 3));
    m.suites.push_back((int)(i % 3));
  }
  g.note(n).note(" identities");
  Check(o, m);
  auto c = o.Copy();
  Check(*c, m);
  S2AOptions d(o), e;
  Check(d, m);
  e = *c;
  Check(e, m);
  o.add_local_uid("extra");
  o.add_supported_ciphersuite(S2AOptions::Ciphersuite::AES_128_GCM_SHA256);
  Check(*c, m);
  Check(d, m);
  Check(e, m);
  g.nontrivial(n > 50);
}
