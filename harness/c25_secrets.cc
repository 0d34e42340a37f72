// C25: secrets stay out of logs, error messages and the standard streams.
#include <sys/mman.h>
#include <unistd.h>

#include <unordered_set>

#include "fault.h"
#include "frame_common.h"
#include "proxy_common.h"
#include "src/crypto/hkdf.h"
using pbt::Bytes;
using pbt::Gen;
using pr::Config;
using pr::Id;
using rec::Iovec;
namespace pb = pr::pb;

static const struct Setup {
  Setup() {
    pbt::global_setup = [] {
      ref::SelfTest();
      pr::Silence();
    };
  }
} setup;

extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(
    s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  return rec::RecordTickets(o);
}

namespace {
std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
std::string Letters(Gen& g, size_t n) {
  std::string s;
  for (uint8_t c : g.random_bytes(n)) s += "abcdefghijklmnopqrstuvwxyz0123456789-_ABCDEFGHIJKLMNOPQRSTUVWXYZ"[c % 64];
  return s;
}

// Every run of kWindow bytes of a secret.
constexpr size_t kWindow = 8;
struct Secrets {
  std::unordered_set<uint64_t> windows;
  std::vector<std::string> seen;  // Messages, scanned at the end.
  size_t messages = 0;
  template <class F>
  static void Slide(const Bytes& b, F f) {
    for (size_t i = 0; i + kWindow <= b.size(); ++i) {
      uint64_t v = 0;
      std::set<uint8_t> distinct;
      for (size_t j = 0; j < kWindow; ++j) {
        v = v << 8 | b[i + j];
        distinct.insert(b[i + j]);
      }
      if (distinct.size() >= 5) f(v, i);
    }
  }
  void Add(const Bytes& b) {
    Slide(b, [&](uint64_t v, size_t) { windows.insert(v); });
  }
  void Add(const std::string& s) { Add(B(s)); }
  void Hear(const std::string& m) {
    ++messages;
    if (seen.size() < 400) seen.push_back(m);
  }
  void Hear(const absl::Status& s) {
    if (!s.ok()) Hear(s.ToString());
  }
  void Try(const Bytes& b, const char* form, const std::string& m) {
    Slide(b, [&](uint64_t v, size_t i) {
      if (windows.count(v)) {
        std::ostringstream o;
        o << "a secret, " << form << ", in the message: " << m.substr(0, 300);
        pbt::fail(o.str());
      }
    });
  }
  void Scan() {
    auto digit = [](char c) -> int {
      return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    };
    static const std::string k64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (auto& m : seen) {
      Try(B(m), "as is", m);
      // Hexadecimal, run together.
      for (size_t i = 0; i < m.size();) {
        size_t j = i;
        while (j < m.size() && digit(m[j]) >= 0) ++j;
        for (size_t phase = 0; phase < 2 && j - i >= 2 * kWindow; ++phase) {
          Bytes b;
          for (size_t k = i + phase; k + 1 < j; k += 2) b.push_back(digit(m[k]) << 4 | digit(m[k + 1]));
          Try(b, "in hexadecimal", m);
        }
        i = j + 1;
      }
      // Numbers, one per byte, in hexadecimal and decimal; C escapes.
      Bytes hexes, decimals, escaped;
      for (size_t i = 0; i < m.size();) {
        if (!isalnum((unsigned char)m[i])) {
          ++i;
          continue;
        }
        size_t j = i;
        while (j < m.size() && isalnum((unsigned char)m[j])) ++j;
        std::string t = m.substr(i, j - i);
        if (t.size() > 2 && (t[0] == '0' && t[1] == 'x')) t = t.substr(2);
        if (t.size() > 1 && t[0] == 'x') t = t.substr(1);
        if (t.size() <= 2 && digit(t[0]) >= 0 && digit(t.back()) >= 0) hexes.push_back((uint8_t)strtoul(t.c_str(), nullptr, 16));
        t = m.substr(i, j - i);
        if (t.size() <= 3 && t.find_first_not_of("0123456789") == std::string::npos)
          decimals.push_back((uint8_t)strtoul(t.c_str(), nullptr, 10));
        i = j;
      }
      Try(hexes, "as hexadecimal numbers", m);
      Try(decimals, "as decimal numbers", m);
      if (m.find('\\') != std::string::npos) {
        for (size_t i = 0; i < m.size(); ++i) {
          if (m[i] != '\\' || i + 1 >= m.size()) {
            escaped.push_back(m[i]);
            continue;
          }
          char c = m[++i];
          if (c == 'x') {
            int v = 0, k = 0;
            while (k < 2 && i + 1 < m.size() && digit(m[i + 1]) >= 0) v = v << 4 | digit(m[++i]), ++k;
            escaped.push_back((uint8_t)v);
          } else if (c >= '0' && c <= '7') {
            int v = c - '0', k = 1;
            while (k < 3 && i + 1 < m.size() && m[i + 1] >= '0' && m[i + 1] <= '7') v = v << 3 | (m[++i] - '0'), ++k;
            escaped.push_back((uint8_t)v);
          } else {
            escaped.push_back(c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c);
          }
        }
        Try(escaped, "with escapes", m);
      }
      // Base64.
      for (size_t i = 0; i < m.size();) {
        auto value = [&](char c) {
          size_t v = k64.find(c == '-' ? '+' : c == '_' ? '/' : c);
          return v == std::string::npos ? -1 : (int)v;
        };
        size_t j = i;
        while (j < m.size() && value(m[j]) >= 0) ++j;
        for (size_t phase = 0; phase < 4 && j - i >= 12; ++phase) {
          Bytes b;
          for (size_t k = i + phase; k + 3 < j; k += 4) {
            uint32_t v = value(m[k]) << 18 | value(m[k + 1]) << 12 | value(m[k + 2]) << 6 | value(m[k + 3]);
            b.push_back(v >> 16);
            b.push_back(v >> 8);
            b.push_back(v);
          }
          Try(b, "in base64", m);
        }
        i = j + 1;
      }
    }
  }
};

// What is written to the standard streams meanwhile.
struct Streams {
  int fd, out, err;
  bool done = false;
  Streams() {
    fflush(nullptr);
    fd = memfd_create("streams", 0);
    out = dup(1);
    err = dup(2);
    dup2(fd, 1);
    dup2(fd, 2);
  }
  std::string Stop() {
    std::string s;
    if (done) return s;
    done = true;
    fflush(nullptr);
    dup2(out, 1);
    dup2(err, 2);
    close(out);
    close(err);
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, n);
    close(fd);
    return s;
  }
  ~Streams() { Stop(); }
};

struct Watch {
  Secrets secrets;
  Streams streams;
  void Finish(Gen& g) {
    std::string s = streams.Stop();
    if (!s.empty()) secrets.Hear(s);
    secrets.Scan();
    g.nontrivial(secrets.messages > 0);
    g.note(" ").note(secrets.messages).note(" messages");
  }
};

// The keys of a direction and of its next epochs.
void AddDirection(Secrets* s, int suite, const Bytes& secret) {
  ref::HalfConn h(suite, secret, 0);
  for (int i = 0; i < 3; ++i) {
    s->Add(h.secret);
    s->Add(h.key);
    s->Add(h.iv);
    h.Update();
  }
}

// Uses a frame protector in good and bad ways.
template <class Take>
void UseFrames(Gen& g, Watch* w, s2a::frame_protector::S2AFrameProtector* f, int suite, const Bytes& in_key,
               const Bytes& out_key, uint64_t in_seq, Take take) {
  ref::HalfConn in(suite, in_key, in_seq);
  AddDirection(&w->secrets, suite, in_key);
  AddDirection(&w->secrets, suite, out_key);
  for (size_t n = 1 + g.below(5); n > 0; --n) {
    Bytes data = g.random_bytes(16 + g.small_size(200));
    w->secrets.Add(data);
    fault::Arm a(g.chance(1, 3) ? g.below(12) : 1000000, g.boolean(), g.boolean());
    if (g.chance(1, 3)) {
      g.note("P");
      auto r = f->Protect({Iovec{data.data(), data.size()}});
      w->secrets.Hear(r.status);
      take(r.bytes);
      continue;
    }
    uint8_t type = 0x17;
    Bytes content = data;
    switch (g.below(6)) {
      case 0:
        content = rec::HandshakeMessage(4, data);
        type = 0x16;
        g.note("T");
        break;
      case 1:
        content = rec::HandshakeMessage(24, {(uint8_t)g.below(3)});
        if (g.chance(1, 3)) content.insert(content.end(), data.begin(), data.end());
        type = 0x16;
        g.note("K");
        break;
      case 2:
        type = 0x15;
        g.note("A");
        break;
      case 3:
        type = (uint8_t)g.below(256);
        g.note("?");
        break;
      default:
        g.note("D");
    }
    Bytes record = in.RecordAt(in.seq, rec::Inner(content, type, g.below(3)));
    switch (g.below(6)) {
      case 0:
        record[g.below(record.size())] ^= 1 << g.below(8);
        g.note("flipped");
        break;
      case 1:
        record.resize(g.below(record.size()));
        g.note("cut");
        break;
      case 2:
        record.push_back(7);
        g.note("longer");
        break;
      default:
        break;
    }
    auto r = f->Unprotect({Iovec{record.data(), record.size()}});
    w->secrets.Hear(r.status);
    if (r.status.ok()) take(r.bytes);
    ++in.seq;
    if (type == 0x16 && content[0] == 24 && r.status.ok()) {
      in.Update();
      in.seq = 0;
    }
  }
}
}  // namespace

PROPERTY(sessions, 40000, 400000,
         "whole sessions through a proxy (tokens, good and bad responses, records, forgeries, tickets, library "
         "failures), everything logged or reported searched for tokens, keys, tickets and data in plain, hexadecimal, "
         "decimal, escaped and base64 form; non-trivial: something was logged or reported") {
  Watch w;
  Config c = pr::AnyConfig(g);
  pr::Tokens::Log log;
  for (auto& i : c.local)
    if (!g.chance(1, 4)) log.table[i] = Letters(g, 20);
  if (!g.chance(1, 3)) log.table[Id()] = Letters(g, 20);
  for (auto& t : log.table) w.secrets.Add(t.second);
  s2a::s2a_proxy::S2AProxy::S2AProxyOptions o;
  o.logger = [&](const std::string& s) { w.secrets.Hear(s); };
  o.is_client = c.client;
  o.application_protocol = c.protocol;
  o.target_hostname = c.target;
  o.options = pr::MakeOptions(c);
  o.channel_factory.reset(new pr::ProxyFactory);
  o.channel_options = nullptr;
  if (!g.chance(1, 6)) o.token_manager.reset(new pr::Tokens(&log));
  auto p = s2a::s2a_proxy::S2AProxy::Create(o);
  REQUIRE(p != nullptr);
  int suite = (int)g.below(3);
  Bytes in_key = g.random_bytes(rec::SecretSize(suite)), out_key = g.random_bytes(rec::SecretSize(suite));
  w.secrets.Add(in_key);
  w.secrets.Add(out_key);
  uint64_t in_seq = 0;
  for (size_t n = 1 + g.below(5); n > 0; --n) {
    if (g.boolean()) {
      g.note("q");
      auto r = p->GetBytesForS2A(pr::Buf(g.boolean() ? "" : "hello"));
      w.secrets.Hear(r.status);
      continue;
    }
    pb::SessionResp r;
    if (!g.chance(1, 6)) r.mutable_status()->set_code(g.chance(1, 4) ? (uint32_t)g.below(30) : 0);
    if (g.chance(1, 3)) r.mutable_status()->set_details("bad luck");
    if (g.boolean()) Fill(c.local.empty() || g.boolean() ? pr::AnyId(g) : *c.local.begin(), r.mutable_local_identity());
    if (g.boolean()) {
      auto* res = r.mutable_result();
      res->set_application_protocol("grpc");
      if (!g.chance(1, 6)) Fill(pr::AnyId(g), res->mutable_local_identity());
      if (!g.chance(1, 3)) Fill(pr::AnyId(g), res->mutable_peer_identity());
      if (!g.chance(1, 6)) {
        auto* st = res->mutable_state();
        st->set_tls_version(g.chance(1, 6) ? (pb::TLSVersion)g.below(5) : pb::TLS1_3);
        st->set_tls_ciphersuite(g.chance(1, 6) ? (pb::Ciphersuite)g.below(6) : (pb::Ciphersuite)suite);
        Bytes k = in_key;
        if (g.chance(1, 8)) k.resize(k.size() - 1 - g.below(8));
        st->set_in_key(S(k));
        k = out_key;
        if (g.chance(1, 8)) k.push_back(1);
        st->set_out_key(S(k));
        st->set_connection_id(g.below(1000));
      }
    }
    std::string bytes = r.SerializeAsString();
    if (g.chance(1, 6)) bytes.resize(g.below(bytes.size() + 1));
    g.note("r");
    auto s = p->GetBytesForPeer(pr::Buf(bytes));
    w.secrets.Hear(s.status);
  }
  bool finished = p->IsHandshakeFinished();
  if (g.boolean()) {
    auto v = p->GetS2AContext();
    if (v.index() == 0) w.secrets.Hear(absl::get<0>(v));
  }
  auto f = p->CreateFrameProtector();
  if (!f.ok()) w.secrets.Hear(f.status());
  if (f.ok()) {
    g.label("records");
    UseFrames(g, &w, f->get(), suite, in_key, out_key, in_seq, [](std::vector<Iovec>& v) {
      for (auto& x : v) delete[] (uint8_t*)x.iov_base;
    });
  }
  g.note(finished ? " finished" : "");
  w.Finish(g);
  ERR_clear_error();
}

PROPERTY(records, 40000, 400000,
         "good and bad records and wrong calls on frame protectors, record crypters, AEAD crypters and key derivations "
         "with library failures, everything logged or reported searched as above; non-trivial: something was logged or "
         "reported") {
  Watch w;
  rec::Params p = rec::AnyParams(g, true);
  auto logger = [&](const std::string& s) { w.secrets.Hear(s); };
  switch (g.below(4)) {
    case 0: {
      g.note("frames ");
      rec::Ledger l;
      rec::S2AFrameProtector::S2AFrameProtectorOptions o = {pr::Version::TLS1_3,
                                                            rec::SuiteOf(p.suite),
                                                            p.in_secret,
                                                            p.out_secret,
                                                            p.in_seq,
                                                            p.out_seq,
                                                            p.url,
                                                            p.identity,
                                                            p.id,
                                                            nullptr,
                                                            nullptr,
                                                            [&](size_t n) { return l.Allocate(n); },
                                                            [&](Iovec v) { l.Release(v); },
                                                            logger};
      if (g.chance(1, 8)) o.in_traffic_secret.pop_back();
      if (g.chance(1, 8)) o.tls_version = pr::Version::TLS1_2;
      w.secrets.Add(p.in_secret);
      w.secrets.Add(p.out_secret);
      fault::Arm a(g.chance(1, 4) ? g.below(30) : 1000000, g.boolean(), g.boolean());
      auto f = rec::S2AFrameProtector::Create(o);
      if (!f.ok()) {
        w.secrets.Hear(f.status());
        break;
      }
      UseFrames(g, &w, f->get(), p.suite, p.in_secret, p.out_secret, p.in_seq,
                [&](std::vector<Iovec>& v) {
                  for (auto& x : v) l.Release(x);
                });
      break;
    }
    case 1: {
      g.note("crypter ");
      AddDirection(&w.secrets, p.suite, p.in_secret);
      AddDirection(&w.secrets, p.suite, p.out_secret);
      auto v = rec::S2ACrypter::Create(g.chance(1, 8) ? pr::Version::TLS1_2 : pr::Version::TLS1_3, rec::SuiteOf(p.suite), p.id,
                                       p.url, p.identity, p.in_secret, p.out_secret, p.in_seq, p.out_seq,
                                       &rec::RecordTickets, nullptr, nullptr, logger);
      if (v.index() == 0) {
        w.secrets.Hear(absl::get<0>(v));
        break;
      }
      auto& cr = absl::get<1>(v);
      ref::HalfConn in(p.suite, p.in_secret, p.in_seq);
      rec::Sink::Get().Reset();
      rec::Sink::Get().wait_result = g.boolean();
      for (size_t n = 1 + g.below(5); n > 0; --n) {
        Bytes data = g.random_bytes(16 + g.small_size(100));
        w.secrets.Add(data);
        fault::Arm a(g.chance(1, 4) ? g.below(12) : 1000000, g.boolean(), g.boolean());
        if (g.boolean()) {
          g.note("P");
          Bytes out(data.size() + (g.chance(1, 3) ? g.below(22) : 22));
          auto s = cr->Protect((rec::Type)g.below(4), {Iovec{data.data(), data.size()}}, Iovec{out.data(), out.size()});
          w.secrets.Hear(s.GetErrorMessage());
        } else {
          g.note("U");
          Bytes r = in.RecordAt(in.seq, rec::Inner(g.boolean() ? data : rec::HandshakeMessage((uint8_t)g.below(26), data),
                                                   (uint8_t)(0x15 + g.below(3)), 0));
          ++in.seq;
          if (g.chance(1, 3)) r[g.below(r.size())] ^= 1;
          Bytes out(r.size());
          auto s = cr->Unprotect(Iovec{r.data(), 5}, {Iovec{r.data() + 5, r.size() - 5}},
                                 Iovec{out.data(), g.chance(1, 4) ? 1 + g.below(out.size()) : out.size()});
          w.secrets.Hear(s.GetErrorMessage());
        }
        if (g.chance(1, 5)) w.secrets.Hear(cr->UpdateOutboundKey());
      }
      break;
    }
    case 2: {
      g.note("aead ");
      ref::Cipher c = (ref::Cipher)p.suite;
      Bytes key = g.random_bytes(ref::KeySize(c)), nonce = g.random_bytes(12), aad, data = g.random_bytes(16 + g.small_size(100));
      w.secrets.Add(key);
      w.secrets.Add(data);
      if (g.chance(1, 8)) key.resize(key.size() - 1 - g.below(4));
      auto v = c == ref::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key)
                                     : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
      if (v.index() == 0) {
        w.secrets.Hear(absl::get<0>(v));
        break;
      }
      auto& cr = absl::get<1>(v);
      Bytes sealed = ref::Seal(c, key, nonce, aad, data);
      if (g.boolean()) sealed[g.below(sealed.size())] ^= 4;
      if (g.chance(1, 6)) nonce.pop_back();
      Bytes out(data.size() + 16);
      fault::Arm a(g.chance(1, 2) ? g.below(10) : 1000000, g.boolean(), g.boolean());
      auto s = cr->Decrypt(nonce, {}, {Iovec{sealed.data(), sealed.size()}},
                           Iovec{out.data(), g.chance(1, 4) ? 1 + g.below(data.size()) : data.size()});
      w.secrets.Hear(s.GetStatus());
      auto t = cr->Encrypt(nonce, {}, {Iovec{data.data(), data.size()}},
                           Iovec{out.data(), g.chance(1, 4) ? 1 + g.below(out.size()) : out.size()});
      w.secrets.Hear(t.GetStatus());
      break;
    }
    default: {
      g.note("derivation ");
      Bytes prk = g.random_bytes(20 + g.below(40)), out(g.chance(1, 4) ? 13000 : 1 + g.below(60));
      w.secrets.Add(prk);
      fault::Arm a(g.chance(1, 2) ? g.below(8) : 1000000, g.boolean(), g.boolean());
      w.secrets.Hear(s2a::hkdf::HkdfDeriveSecret((s2a::hkdf::HashFunction)g.below(3), prk, {1, 2}, out));
    }
  }
  w.Finish(g);
  ERR_clear_error();
}
