#ifndef VERIF_CRYPTER_COMMON_H_
#define VERIF_CRYPTER_COMMON_H_
#include "record_common.h"
#include "src/record_protocol/s2a_crypter.h"

namespace rec {
using s2a::record_protocol::S2ACrypter;
using Code = S2ACrypter::S2ACrypterStatusCode;
using Type = S2ACrypter::RecordType;
using Identity = S2AOptions::Identity;
using Crypter = std::unique_ptr<S2ACrypter>;
using s2a::s2a_channel::S2AChannelFactoryInterface;

constexpr size_t kMaxPlain = 16384, kOverhead = 22;
inline std::ostream& operator<<(std::ostream& o, Code c) { return o << (int)c; }

// What the ticket sender was given.
struct Sent {
  std::string url;
  uint64_t id;
  std::string identity;
  int kind;
  std::vector<std::string> tickets;
  const void* factory;
  const void* options;
};
struct Sink {
  std::vector<Sent> sent;
  size_t waits = 0;
  bool null_waiter = false, wait_result = true;
  static Sink& Get() {
    static Sink s;
    return s;
  }
  void Reset() { *this = Sink(); }
};
static const bool forget_sink = (pbt::after_case = [] { Sink::Get().Reset(); }, true);
inline bool Wait() {
  ++Sink::Get().waits;
  return Sink::Get().wait_result;
}
inline s2a::s2a_ticket_sender::WaitOnTicketSender RecordTickets(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  Sent s;
  s.url = o.handshaker_service_url;
  s.id = o.connection_id;
  s.identity = o.local_identity.GetIdentityString();
  s.kind = (int)o.local_identity.GetIdentityType();
  if (o.tickets)
    for (auto& t : *o.tickets) s.tickets.push_back(t ? *t : "<null>");
  s.factory = o.channel_factory.get();
  s.options = o.channel_options.get();
  Sink::Get().sent.push_back(s);
  return Sink::Get().null_waiter ? nullptr : &Wait;
}

struct Factory : S2AChannelFactoryInterface {
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override {
    return absl::Status(absl::StatusCode::kInternal, "no channel");
  }
};

struct Params {
  int suite = 0;
  uint64_t id = 1;
  std::string url = "service";
  Identity identity = Identity::FromSpiffeId("local");
  Bytes in_secret, out_secret;
  uint64_t in_seq = 0, out_seq = 0;
  const void* factory = nullptr;
  const void* options = nullptr;
};

inline Params AnyParams(Gen& g, bool last = false) {
  Params p;
  p.suite = (int)g.below(3);
  p.in_secret = g.random_bytes(SecretSize(p.suite));
  p.out_secret = g.random_bytes(SecretSize(p.suite));
  p.in_seq = last ? AnySequenceOrLast(g) : AnySequence(g);
  p.out_seq = last ? AnySequenceOrLast(g) : AnySequence(g);
  return p;
}

inline Crypter MakeRecordCrypter(Params& p) {
  auto f = std::unique_ptr<S2AChannelFactoryInterface>(new Factory);
  auto o = std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface>(
      new S2AChannelFactoryInterface::S2AChannelOptionsInterface);
  p.factory = f.get();
  p.options = o.get();
  auto v = S2ACrypter::Create(S2AOptions::TlsVersion::TLS1_3, SuiteOf(p.suite), p.id, p.url, p.identity, p.in_secret,
                              p.out_secret, p.in_seq, p.out_seq, &RecordTickets, std::move(f), std::move(o),
                              [](const std::string&) {});
  REQUIRE_MSG(v.index() == 1, "creation refused: " << absl::get<0>(v).ToString());
  REQUIRE(absl::get<1>(v) != nullptr);
  return std::move(absl::get<1>(v));
}

struct Unprotected {
  Code code;
  size_t n;
  Bytes out;  // The whole output buffer.
};
// Passes a record to Unprotect with a generated segmentation and output room.
inline Unprotected DoUnprotect(Gen& g, S2ACrypter* c, const Bytes& record, size_t header = 5, uint8_t fill = 0xA5) {
  util::Mem mem;
  if (header > record.size()) header = record.size();
  Bytes h(record.begin(), record.begin() + header), p(record.begin() + header, record.end());
  Iovec ih{mem.Input(g, h), h.size()};
  auto ip = mem.Segments<Iovec>(g, p);
  size_t room = (p.size() > 16 ? p.size() - 16 : 1) + (g.chance(1, 3) ? g.below(40) : 0);
  uint8_t* out = mem.Alloc(g, room, fill);
  auto s = c->Unprotect(ih, ip, Iovec{out, room});
  mem.Check();
  REQUIRE_MSG(s.GetBytesWritten() <= room, "more bytes reported than the buffer holds");
  return {s.GetCode(), s.GetBytesWritten(), Bytes(out, out + room)};
}

// Content, type byte and padding.
inline Bytes Inner(const Bytes& content, uint8_t type, size_t padding) {
  Bytes b = content;
  b.push_back(type);
  b.resize(b.size() + padding, 0);
  return b;
}
inline Bytes HandshakeMessage(uint8_t type, const Bytes& data) {
  Bytes m = {type, (uint8_t)(data.size() >> 16), (uint8_t)(data.size() >> 8), (uint8_t)data.size()};
  m.insert(m.end(), data.begin(), data.end());
  return m;
}
}  // namespace rec
#endif
