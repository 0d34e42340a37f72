// C33: an application using S2A and a standard TLS 1.3 peer understand each
// other.  The peer, and the service that does the handshake, are OpenSSL's own
// TLS implementation.
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

#include "crypter_common.h"
#include "frame_common.h"
#include "proxy_common.h"

using namespace rec;
using pr::Config;
using pr::Id;
namespace pb = pr::pb;

extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(
    s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  return rec::RecordTickets(o);
}

namespace {
std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }

// ---- Random numbers of the TLS implementation, from one choice of the case.
uint64_t rand_state = 1;
int RandBytes(unsigned char* p, int n) {
  for (int i = 0; i < n; ++i) p[i] = (uint8_t)(pbt::mix64(rand_state++) >> 24);
  return 1;
}
int RandStatus() { return 1; }
RAND_METHOD rand_method = {nullptr, RandBytes, nullptr, nullptr, RandBytes, RandStatus};

// ---- One TLS endpoint.
struct Tls {
  SSL* ssl = nullptr;
  BIO *in = nullptr, *out = nullptr;
  Bytes client_secret, server_secret;  // Application traffic, first keys.
  std::vector<std::string> tickets;    // Sent, as messages.
  std::string sni;
  size_t updates = 0;   // Key updates sent.
  size_t padding = 0;   // 0: none, else up to.
  size_t appdata = 0;   // Makes tickets larger.
  uint64_t salt = 0;
  Tls() = default;
  Tls(const Tls&) = delete;
  ~Tls() { SSL_free(ssl); }
  std::string Take() {
    std::string s(BIO_pending(out), 0);
    if (!s.empty()) BIO_read(out, &s[0], (int)s.size());
    return s;
  }
  void Give(const std::string& s) {
    if (!s.empty()) BIO_write(in, s.data(), (int)s.size());
  }
  // Reads what there is; the error that stopped it.
  int Read(std::string* got) {
    char buf[5000];
    for (;;) {
      ERR_clear_error();
      int n = SSL_read(ssl, buf, sizeof(buf));
      if (n <= 0) return SSL_get_error(ssl, n);
      got->append(buf, n);
    }
  }
};
std::string LastError() {
  char b[300];
  ERR_error_string_n(ERR_peek_last_error(), b, sizeof(b));
  return b;
}
Tls* Of(const SSL* s) { return (Tls*)SSL_get_ex_data(s, 0); }

void KeyLog(const SSL* ssl, const char* line) {
  std::istringstream i(line);
  std::string what, random, secret;
  i >> what >> random >> secret;
  Bytes b;
  for (size_t k = 0; k + 1 < secret.size(); k += 2) b.push_back((uint8_t)std::stoi(secret.substr(k, 2), nullptr, 16));
  if (what == "CLIENT_TRAFFIC_SECRET_0") Of(ssl)->client_secret = b;
  if (what == "SERVER_TRAFFIC_SECRET_0") Of(ssl)->server_secret = b;
}
void OnMessage(int write, int, int type, const void* p, size_t n, SSL*, void* arg) {
  const uint8_t* b = (const uint8_t*)p;
  if (!write || type != SSL3_RT_HANDSHAKE || n < 4) return;
  if (b[0] == SSL3_MT_NEWSESSION_TICKET) ((Tls*)arg)->tickets.push_back(std::string(b, b + n));
  if (b[0] == SSL3_MT_KEY_UPDATE) ++((Tls*)arg)->updates;
}
size_t OnPadding(SSL*, int, size_t, void* arg) {
  Tls* t = (Tls*)arg;
  return t->padding ? pbt::mix64(t->salt++) % (t->padding + 1) : 0;
}
int OnTicket(SSL* s, void*) {
  Tls* t = Of(s);
  Bytes d(t->appdata ? pbt::mix64(t->salt++) % (t->appdata + 1) : 0);
  for (size_t i = 0; i < d.size(); ++i) d[i] = (uint8_t)pbt::mix64(t->salt + i);
  t->salt += d.size();
  return SSL_SESSION_set1_ticket_appdata(SSL_get_session(s), d.data(), d.size());
}
SSL_TICKET_RETURN OnTicketUsed(SSL*, SSL_SESSION*, const unsigned char*, size_t, SSL_TICKET_STATUS, void*) {
  return SSL_TICKET_RETURN_IGNORE;
}
int OnAlpn(SSL*, const unsigned char** out, unsigned char* n, const unsigned char* in, unsigned, void*) {
  *out = in + 1;
  *n = in[0];
  return SSL_TLSEXT_ERR_OK;
}
int OnServerName(SSL* s, int*, void*) {
  const char* n = SSL_get_servername(s, TLSEXT_NAMETYPE_host_name);
  if (n) Of(s)->sni = n;
  return SSL_TLSEXT_ERR_OK;
}

struct Contexts {
  SSL_CTX *client, *server;
  Bytes fingerprint;
  static Contexts& Get() {
    static Contexts c;
    return c;
  }
  Contexts() {
    RAND_set_rand_method(&rand_method);
    client = SSL_CTX_new(TLS_client_method());
    server = SSL_CTX_new(TLS_server_method());
    EVP_PKEY* key = EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", "P-256");
    X509* x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400);
    X509_gmtime_adj(X509_getm_notAfter(x), 864000);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const uint8_t*)"peer", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, key, EVP_sha256());
    fingerprint.resize(32);
    unsigned n = 32;
    X509_digest(x, EVP_sha256(), fingerprint.data(), &n);
    for (SSL_CTX* c : {client, server}) {
      SSL_CTX_set_min_proto_version(c, TLS1_3_VERSION);
      SSL_CTX_set_keylog_callback(c, KeyLog);
      SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
      SSL_CTX_use_certificate(c, x);
      SSL_CTX_use_PrivateKey(c, key);
      SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
      SSL_CTX_set_max_early_data(c, 0);
    }
    SSL_CTX_set_session_ticket_cb(server, OnTicket, OnTicketUsed, nullptr);
    SSL_CTX_set_alpn_select_cb(server, OnAlpn, nullptr);
    SSL_CTX_set_tlsext_servername_callback(server, OnServerName);
    X509_free(x);
    EVP_PKEY_free(key);
  }
};
const char* kSuites[] = {"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"};

void Open(Tls* t, bool client, const std::string& suites) {
  t->ssl = SSL_new(client ? Contexts::Get().client : Contexts::Get().server);
  SSL_set_ex_data(t->ssl, 0, t);
  SSL_set_ciphersuites(t->ssl, suites.c_str());
  t->in = BIO_new(BIO_s_mem());
  t->out = BIO_new(BIO_s_mem());
  SSL_set_bio(t->ssl, t->in, t->out);
  SSL_set_msg_callback(t->ssl, OnMessage);
  SSL_set_msg_callback_arg(t->ssl, t);
  SSL_set_record_padding_callback(t->ssl, OnPadding);
  SSL_set_record_padding_callback_arg(t->ssl, t);
  if (client)
    SSL_set_connect_state(t->ssl);
  else
    SSL_set_accept_state(t->ssl);
}
// The habits of a peer.
void Habits(Gen& g, Tls* t, bool server) {
  t->salt = g.u64();
  if (g.boolean()) t->padding = g.pick<size_t>({1, 100, 20000});
  if (g.boolean()) SSL_set_max_send_fragment(t->ssl, 512 + g.below(16384 - 512 + 1));
  if (server) {
    SSL_set_num_tickets(t->ssl, g.below(8));
    if (g.chance(1, 3)) t->appdata = g.pick<size_t>({10, 2000, 20000});
  }
}
void Seed(Gen& g) {
  Contexts::Get();
  Sink::Get().Reset();
  rand_state = g.u64();
}

// ---- The application's end: a frame protector or a crypter.
struct App {
  Ledger ledger;
  Frame frame;
  bool heap = true;  // The frame's buffers are plain arrays.
  Crypter crypter;
  Bytes Take(const std::vector<Iovec>& v) {
    if (!heap) return ledger.Take(v);
    Bytes r;
    for (auto& i : v) {
      r.insert(r.end(), (uint8_t*)i.iov_base, (uint8_t*)i.iov_base + i.iov_len);
      delete[] (uint8_t*)i.iov_base;
    }
    return r;
  }
  std::string Record(Gen& g, Type type, const Bytes& d) {
    util::Mem mem;
    size_t n = d.size() + kOverhead;
    uint8_t* out = mem.Alloc(g, n, 0);
    auto s = crypter->Protect(type, mem.Segments<Iovec>(g, d), Iovec{out, n});
    REQUIRE_MSG(s.GetCode() == Code::OK, s.GetErrorMessage());
    REQUIRE_EQ(s.GetBytesWritten(), n);
    return std::string(out, out + n);
  }
  std::string Send(Gen& g, const Bytes& d) {
    if (frame) {
      util::Mem mem;
      auto r = frame->Protect(mem.Segments<Iovec>(g, d));
      REQUIRE_MSG(r.status.ok(), r.status.ToString());
      return S(Take(r.bytes));
    }
    std::string w;
    size_t at = 0;
    do {
      size_t n = std::min(kMaxPlain, d.size() - at);
      w += Record(g, Type::APPLICATION_DATA, Bytes(d.begin() + at, d.begin() + at + n));
      at += n;
    } while (at < d.size());
    return w;
  }
};

// Whole records at the start of a stream.
size_t WholeRecords(const std::string& s, size_t max) {
  size_t at = 0;
  for (; max > 0 && s.size() - at >= 5; --max) {
    size_t n = 5 + ((uint8_t)s[at + 3] << 8 | (uint8_t)s[at + 4]);
    if (s.size() - at < n) break;
    at += n;
  }
  return at;
}

// ---- The conversation after the handshake.
struct Conversation {
  Gen& g;
  App& app;
  Tls& peer;
  bool peer_is_server;
  std::string to_app, to_peer;          // On the wire.
  std::string sent_by_peer, app_got;    // Data.
  std::string sent_by_app, peer_got;
  std::vector<std::string> tickets;     // The ones to be handed over.
  size_t seen_tickets = 0, app_updates = 0;
  bool handed = false;
  Conversation(Gen& g, App& a, Tls& p, bool server) : g(g), app(a), peer(p), peer_is_server(server) {}

  // What the peer put on the wire.
  void Drain(bool data) {
    to_app += peer.Take();
    for (; seen_tickets < peer.tickets.size(); ++seen_tickets)
      if (!handed && tickets.size() < 5) tickets.push_back(peer.tickets[seen_tickets]);
    if (tickets.size() == 5 || (data && !tickets.empty())) handed = true;
  }
  void PeerWrites(const Bytes& d) {
    if (d.empty()) return;
    ERR_clear_error();
    int n = SSL_write(peer.ssl, d.data(), (int)d.size());
    REQUIRE_MSG(n == (int)d.size(), "the peer could not write: " << LastError());
    sent_by_peer += S(d);
    Drain(true);
  }
  void PeerUpdates(bool request) {
    ERR_clear_error();
    size_t before = peer.updates;
    if (SSL_key_update(peer.ssl, request ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED) != 1) return;
    REQUIRE_MSG(SSL_do_handshake(peer.ssl) == 1, "the peer's key update: " << LastError());
    if (peer.updates > before) g.label("key update of the peer");
    Drain(false);
  }
  void PeerTicket() {
    ERR_clear_error();
    size_t before = peer.tickets.size();
    if (SSL_new_session_ticket(peer.ssl) != 1) return;
    REQUIRE_MSG(SSL_do_handshake(peer.ssl) == 1, "the peer's ticket: " << LastError());
    if (peer.tickets.size() > before) g.label("later ticket");  // Else it follows with the next record.
    Drain(false);
  }
  void AppWrites(const Bytes& d) {
    to_peer += app.Send(g, d);
    sent_by_app += S(d);
  }
  void AppUpdates(bool request) {
    to_peer += app.Record(g, Type::HANDSHAKE, {24, 0, 0, 1, (uint8_t)request});
    auto s = app.crypter->UpdateOutboundKey();
    REQUIRE_MSG(s.ok(), s.ToString());
    ++app_updates;
    g.label("key update of the application");
  }
  void DeliverToApp(size_t records) {
    size_t n = WholeRecords(to_app, records);
    if (n == 0) return;
    Bytes d(to_app.begin(), to_app.begin() + n);
    to_app.erase(0, n);
    util::Mem mem;
    if (app.frame) {
      auto r = app.frame->Unprotect(mem.Segments<Iovec>(g, d));
      REQUIRE_MSG(r.status.ok(), "the peer's records refused: " << r.status.ToString());
      app_got += S(app.Take(r.bytes));
    } else {
      for (size_t at = 0; at < d.size();) {
        size_t k = 5 + (d[at + 3] << 8 | d[at + 4]);
        auto u = DoUnprotect(g, app.crypter.get(), util::Sub(d, at, k));
        REQUIRE_MSG(u.code == Code::OK, "the peer's record refused: " << (int)u.code);
        app_got.append((const char*)u.out.data(), u.n);
        at += k;
      }
    }
    REQUIRE_MSG(app_got == sent_by_peer.substr(0, app_got.size()), "the application got other data than the peer sent");
    auto& s = Sink::Get().sent;
    REQUIRE_MSG(s.size() <= (handed ? 1u : 0u), "tickets handed over too early or again");
    if (!s.empty()) REQUIRE_MSG(s[0].tickets.size() <= tickets.size(), "more tickets than the peer sent");
  }
  void DeliverToPeer(size_t bytes) {
    peer.Give(to_peer.substr(0, bytes));
    to_peer.erase(0, bytes);
    int e = peer.Read(&peer_got);
    REQUIRE_MSG(e == SSL_ERROR_WANT_READ, "the peer refused the application's records: " << e << " " << LastError());
    REQUIRE_MSG(peer_got == sent_by_app.substr(0, peer_got.size()), "the peer got other data than the application sent");
    Drain(false);  // The answer to a key update.
  }
  Bytes Data() { return g.bytes(g.chance(1, 10) ? g.size(50000) : g.small_size(500)); }
  void Run(size_t steps) {
    for (size_t n = steps; n > 0; --n) switch (g.weighted({4, 4, 4, 4, 2, 2, 1})) {
        case 0:
          PeerWrites(Data());
          break;
        case 1:
          AppWrites(Data());
          break;
        case 2:
          DeliverToApp(1 + g.below(4));
          break;
        case 3:
          DeliverToPeer(to_peer.size() - (g.chance(1, 3) ? g.below(to_peer.size() + 1) : 0));
          break;
        case 4:
          PeerUpdates(g.boolean());
          break;
        case 5:
          if (app.crypter) AppUpdates(g.boolean());
          break;
        default:
          if (peer_is_server) PeerTicket();
      }
  }
  void Settle() {
    // Each side may have answers to the other's last records.
    for (int k = 0; k < 3; ++k) {
      if (!to_peer.empty()) DeliverToPeer(to_peer.size());
      while (!to_app.empty()) DeliverToApp(1 + g.below(20));
    }
    REQUIRE_MSG(app_got == sent_by_peer, "the application got " << app_got.size() << " of " << sent_by_peer.size() << " bytes");
    REQUIRE_MSG(peer_got == sent_by_app, "the peer got " << peer_got.size() << " of " << sent_by_app.size() << " bytes");
    auto& s = Sink::Get().sent;
    REQUIRE_MSG(s.size() == (handed ? 1u : 0u), "tickets handed over " << s.size() << " times, with " << tickets.size() << " sent");
    if (handed) REQUIRE_MSG(s[0].tickets == tickets, "not the peer's tickets");
  }
  void Close() {
    bool app_first = g.boolean();
    for (int k = 0; k < 2; ++k) {
      if ((k == 0) == app_first) {
        if (!app.crypter) continue;
        uint8_t level = g.chance(1, 4) ? 2 : 1, code = level == 1 ? 0 : g.pick<uint8_t>({10, 20, 22, 40, 47, 50, 80});
        peer.Give(app.Record(g, Type::ALERT, {level, code}));
        std::string got;
        int e = peer.Read(&got);
        REQUIRE_MSG(got.empty(), "the peer got data from an alert");
        if (level == 1) {
          REQUIRE_MSG(e == SSL_ERROR_ZERO_RETURN, "the peer did not take the close: " << e << " " << LastError());
          REQUIRE(SSL_get_shutdown(peer.ssl) & SSL_RECEIVED_SHUTDOWN);
        } else {
          REQUIRE_MSG(e == SSL_ERROR_SSL && ERR_GET_REASON(ERR_peek_last_error()) == SSL_AD_REASON_OFFSET + code,
                      "the peer read another alert than " << (int)code << ": " << LastError());
          return;
        }
        g.label("closed by the application");
      } else {
        ERR_clear_error();
        SSL_shutdown(peer.ssl);
        std::string r = peer.Take();
        REQUIRE_MSG(!r.empty() && WholeRecords(r, 1) == r.size(), "the peer's close");
        if (app.crypter) {
          auto u = DoUnprotect(g, app.crypter.get(), B(r));
          REQUIRE_MSG(u.code == Code::ALERT_CLOSE_NOTIFY && u.n == 0, "the peer's close: " << (int)u.code);
        } else {
          Bytes d = B(r);
          auto u = app.frame->Unprotect({Iovec{d.data(), d.size()}});
          REQUIRE_MSG(!u.status.ok() && u.bytes.empty(), "the end of the stream is not reported");
        }
        g.label("closed by the peer");
      }
    }
  }
};

void Shake(Tls& client, Tls& server, bool last_flight) {
  for (int i = 0; i < 10; ++i) {
    ERR_clear_error();
    SSL_do_handshake(client.ssl);
    server.Give(client.Take());
    SSL_do_handshake(server.ssl);
    if (SSL_is_init_finished(client.ssl) && SSL_is_init_finished(server.ssl)) {
      // The tickets of the server are the application's, or the client's.
      if (last_flight) {
        client.Give(server.Take());
        std::string none;
        client.Read(&none);
      }
      return;
    }
    client.Give(server.Take());
  }
  REQUIRE_MSG(false, "the TLS handshake did not finish: " << LastError());
}
}  // namespace

static const struct Setup {
  Setup() {
    pbt::global_setup = [] {
      ref::SelfTest();
      Contexts::Get();
    };
  }
} setup;

PROPERTY(records, 12000, 400000,
         "a TLS 1.3 handshake of a standard implementation, one side of which S2A then takes over, as a crypter or a frame "
         "protector: streams, key updates, tickets, padding, fragments, closes; non-trivial: data went both ways") {
  Seed(g);
  Params p;
  p.suite = (int)g.below(3);
  p.id = g.number();
  bool app_is_client = g.boolean();
  Tls client, server;
  Open(&client, true, kSuites[p.suite]);
  Open(&server, false, kSuites[p.suite]);
  Habits(g, app_is_client ? &server : &client, app_is_client);
  if (!app_is_client) SSL_set_num_tickets(server.ssl, g.below(8));
  Shake(client, server, !app_is_client);
  Tls& mine = app_is_client ? client : server;
  Tls& peer = app_is_client ? server : client;
  REQUIRE_MSG(mine.client_secret == peer.client_secret && mine.server_secret == peer.server_secret &&
                  mine.client_secret.size() == SecretSize(p.suite),
              "secrets of the handshake");
  p.in_secret = app_is_client ? mine.server_secret : mine.client_secret;
  p.out_secret = app_is_client ? mine.client_secret : mine.server_secret;
  p.out_seq = app_is_client ? 0 : mine.tickets.size();
  App app;
  app.heap = false;
  bool frames = g.boolean();
  if (frames)
    app.frame = MakeFrame(p, &app.ledger);
  else
    app.crypter = MakeRecordCrypter(p);
  g.note(kSuites[p.suite]).note(app_is_client ? " client" : " server").note(frames ? " frames" : " records");
  Conversation c(g, app, peer, app_is_client);
  c.Drain(false);
  c.Run(g.chance(1, 40) ? 300 + g.below(100) : 1 + g.below(14));
  c.Settle();
  g.note(", sent ").note(c.sent_by_app.size()).note(" received ").note(c.sent_by_peer.size());
  if (c.handed) REQUIRE_EQ(Sink::Get().sent[0].id, p.id);
  c.Close();
  app.frame.reset();
  app.crypter.reset();
  app.ledger.Check();
  REQUIRE_MSG(Sink::Get().sent.size() == (c.handed ? 1u : 0u), "tickets handed over at the end");
  g.label(frames ? "frames" : "records");
  if (c.handed) g.label("tickets");
  g.nontrivial(!c.sent_by_app.empty() && !c.sent_by_peer.empty());
}

PROPERTY(sessions, 10000, 300000,
         "the whole of it: a proxy whose service does the handshake with a standard implementation, as the requests say, a "
         "standard peer, bytes arriving in any portions, data sent before the handshake is over at the other side, then the "
         "conversation; non-trivial: data went both ways") {
  Seed(g);
  Config c = pr::AnyConfig(g);
  c.protocol = "p" + pr::Text(g, 15);
  // A name TLS can carry.
  c.target.clear();
  for (size_t n = 1 + g.below(40); n > 0; --n) c.target.push_back((char)('a' + g.below(26)));
  if (c.client)
    while (c.local.size() > 1) c.local.erase(c.local.begin());
  pr::Tokens::Log tokens;
  for (auto& i : c.local) tokens.table[i] = "token";
  tokens.table[Id()] = "default";
  auto p = MakeProxy(c, std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>(new pr::Tokens(&tokens)));
  Id local = c.local.empty() ? pr::AnyId(g) : *c.local.begin(), remote = pr::AnyId(g);
  uint64_t id = g.number();

  Tls service, peer;
  Open(&peer, !c.client, std::string(kSuites[0]) + ":" + kSuites[1] + ":" + kSuites[2]);
  Habits(g, &peer, c.client);
  bool early = g.boolean();  // The peer writes as early as it can.
  bool half = early && c.client;
  if (!c.client) {
    std::string alpn = std::string(1, (char)c.protocol.size()) + c.protocol;
    SSL_set_alpn_protos(peer.ssl, (const uint8_t*)alpn.data(), (unsigned)alpn.size());
  }
  App app;
  Conversation talk(g, app, peer, c.client);
  std::string wire;   // To the application, not yet consumed.
  bool opened = false, peer_read_early = false, peer_wrote = false;
  auto peer_step = [&](const std::string& s) {
    peer.Give(s);
    ERR_clear_error();
    if (half && !peer_read_early) {
      char b[1];
      size_t n;
      int r = SSL_read_early_data(peer.ssl, b, 1, &n);
      if (r == SSL_READ_EARLY_DATA_FINISH) {
        peer_read_early = true;
        Bytes d = g.bytes(1 + g.small_size(300));
        if (SSL_write_early_data(peer.ssl, d.data(), d.size(), &n) == 1) {
          talk.sent_by_peer += S(d).substr(0, n);
          g.label("data of a server before the client has finished");
        }
      }
    } else {
      SSL_do_handshake(peer.ssl);
      if (early && !half && SSL_is_init_finished(peer.ssl) && !peer_wrote) {
        Bytes d = g.bytes(1 + g.small_size(300));
        REQUIRE(SSL_write(peer.ssl, d.data(), (int)d.size()) == (int)d.size());
        peer_wrote = true;
        talk.sent_by_peer += S(d);
        g.label("data of a client with its last flight");
      }
    }
    wire += peer.Take();
  };
  auto service_step = [&](const std::string& in) {
    // As the application drives it.
    bool first = !opened;
    auto r = p->GetBytesForS2A(in.empty() && first && c.client ? nullptr : pr::Buf(in));
    REQUIRE_MSG(r.status.ok(), "request: " << r.status.ToString());
    pb::SessionReq q;
    REQUIRE_MSG(q.ParseFromString(pr::Str(r.buffer)), "not a request of the schema");
    std::string to_tls;
    if (first) {
      opened = true;
      REQUIRE_MSG(q.has_client_start() == c.client && q.has_server_start() == !c.client, "not the first request");
      std::string suites;
      auto add = [&](int s) { suites += (suites.empty() ? "" : ":") + std::string(kSuites[s]); };
      if (c.client)
        for (int s : q.client_start().tls_ciphersuites()) add(s);
      else
        for (int s : q.server_start().tls_ciphersuites()) add(s);
      if (suites.empty()) add((int)g.below(3));
      Open(&service, c.client, suites);
      service.salt = g.u64();
      if (c.client) {
        SSL_set_tlsext_host_name(service.ssl, q.client_start().target_name().c_str());
        std::string alpn;
        for (auto& a : q.client_start().application_protocols()) alpn += std::string(1, (char)a.size()) + a;
        SSL_set_alpn_protos(service.ssl, (const uint8_t*)alpn.data(), (unsigned)alpn.size());
      } else {
        SSL_set_num_tickets(service.ssl, g.below(8));
        to_tls = q.server_start().in_bytes();
      }
    } else {
      REQUIRE_MSG(q.has_next(), "not a next request");
      to_tls = q.next().in_bytes();
    }
    service.Give(to_tls);
    ERR_clear_error();
    SSL_do_handshake(service.ssl);
    pb::SessionResp s;
    s.mutable_status()->set_code(0);
    s.set_out_frames(service.Take());
    s.set_bytes_consumed((uint32_t)(to_tls.size() - BIO_pending(service.in)));
    if (SSL_is_init_finished(service.ssl)) {
      auto* x = s.mutable_result();
      const uint8_t* a;
      unsigned n;
      SSL_get0_alpn_selected(service.ssl, &a, &n);
      x->set_application_protocol(std::string((const char*)a, n));
      auto* st = x->mutable_state();
      st->set_tls_version(pb::TLS1_3);
      std::string name = SSL_CIPHER_get_name(SSL_get_current_cipher(service.ssl));
      int suite = 0;
      while (name != kSuites[suite]) ++suite;
      st->set_tls_ciphersuite((pb::Ciphersuite)suite);
      st->set_in_key(S(c.client ? service.server_secret : service.client_secret));
      st->set_out_key(S(c.client ? service.client_secret : service.server_secret));
      st->set_out_sequence(c.client ? 0 : service.tickets.size());
      st->set_connection_id(id);
      Fill(local, x->mutable_local_identity());
      Fill(remote, x->mutable_peer_identity());
      x->set_peer_cert_fingerprint(S(Contexts::Get().fingerprint));
    }
    auto u = p->GetBytesForPeer(pr::Buf(s.SerializeAsString()));
    REQUIRE_MSG(u.status.ok(), "response: " << u.status.ToString());
    REQUIRE_MSG(u.bytes_consumed <= in.size(), "more bytes consumed than there were");
    wire = wire.substr(u.bytes_consumed);
    if (u.buffer && !u.buffer->empty()) peer_step(pr::Str(u.buffer));
    REQUIRE_EQ(p->IsHandshakeFinished(), s.has_result());
  };
  if (c.client)
    service_step("");
  else
    peer_step("");
  for (int rounds = 0; !p->IsHandshakeFinished(); ++rounds) {
    REQUIRE_MSG(rounds < 20000, "the handshake does not finish: " << LastError());
    // Bytes the service left unread are passed on again with those after them.
    size_t n = g.boolean() ? wire.size() : std::min<size_t>(wire.size(), 1 + g.size(600));
    REQUIRE_MSG(n > 0, "the handshake does not go on: " << LastError());
    service_step(wire.substr(0, n));
  }
  talk.to_app = wire;  // The rest is for the frame protector.
  auto x = p->GetS2AContext();
  REQUIRE_MSG(x.index() == 1 && absl::get<1>(x), "no context");
  auto& ctx = *absl::get<1>(x);
  REQUIRE_MSG(ctx.ApplicationProtocol() == c.protocol, "application protocol " << ctx.ApplicationProtocol());
  REQUIRE_MSG(B(ctx.PeerCertFingerprint()) == Contexts::Get().fingerprint, "fingerprint");
  if (c.client) REQUIRE_MSG(peer.sni == c.target, "the name the peer was asked for: " << peer.sni);
  std::string name = SSL_CIPHER_get_name(SSL_get_current_cipher(peer.ssl));
  REQUIRE_MSG(ctx.Ciphersuite() == SuiteOf(name == kSuites[0] ? 0 : name == kSuites[1] ? 1 : 2), "ciphersuite");
  auto f = p->CreateFrameProtector();
  REQUIRE_MSG(f.ok(), f.status().ToString());
  app.frame = std::move(*f);
  p.reset();
  if (half && !SSL_is_init_finished(peer.ssl)) {
    ERR_clear_error();
    SSL_do_handshake(peer.ssl);
  }
  REQUIRE_MSG(SSL_is_init_finished(peer.ssl), "the peer's handshake is not over: " << LastError());
  // The data written early came before the tickets of a server.
  talk.Drain(false);
  g.note(name).note(c.client ? " client" : " server").note(early ? " early data of the peer" : "");
  talk.Run(g.chance(1, 40) ? 300 + g.below(100) : 1 + g.below(14));
  talk.Settle();
  g.note(", sent ").note(talk.sent_by_app.size()).note(" received ").note(talk.sent_by_peer.size());
  if (talk.handed) {
    auto& s = Sink::Get().sent[0];
    REQUIRE_EQ(s.id, id);
    REQUIRE_EQ((Id{(pr::Kind)s.kind, s.identity}), local);
    REQUIRE_MSG(s.url == c.address, "service address");
  }
  talk.Close();
  app.frame.reset();
  g.nontrivial(!talk.sent_by_app.empty() && !talk.sent_by_peer.empty());
}
