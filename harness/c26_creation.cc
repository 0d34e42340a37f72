// C26: connections are created exactly from usable parameters.
#include "frame_common.h"
#include "include/s2a_context.h"
#include "include/s2a_proxy.h"
using namespace rec;
using s2a::s2a_proxy::S2AProxy;
using Version = S2AOptions::TlsVersion;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(
    s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  return RecordTickets(o);
}

namespace {
// Tells when it is destroyed.
struct Counted : S2AChannelFactoryInterface {
  int* live;
  explicit Counted(int* l) : live(l) { ++*live; }
  ~Counted() override { --*live; }
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override {
    return absl::Status(absl::StatusCode::kInternal, "no channel");
  }
};
struct CountedOptions : S2AChannelFactoryInterface::S2AChannelOptionsInterface {
  int* live;
  explicit CountedOptions(int* l) : live(l) { ++*live; }
  ~CountedOptions() { --*live; }
};

// The parameters of a connection with at most a few defects.
struct Wish {
  Version version = Version::TLS1_3;
  int suite = 0;
  Bytes in, out;
  uint64_t in_seq, out_seq, id;
  std::string url;
  Identity identity = Identity::GetEmptyIdentity();
  bool logger = true, sender = true, allocator = true, destroy = true, factory = true, options = true;
  bool good = true;
};
Identity AnyIdentity(Gen& g) {
  std::string s = g.str(g.small_size(20));
  switch (g.below(4)) {
    case 0:
      return Identity::FromSpiffeId(s);
    case 1:
      return Identity::FromHostname(s);
    case 2:
      return Identity::FromUid(s);
    default:
      return Identity::GetEmptyIdentity();
  }
}
Wish AnyWish(Gen& g) {
  Wish w;
  w.suite = (int)g.below(3);
  w.in = g.random_bytes(SecretSize(w.suite));
  w.out = g.random_bytes(SecretSize(w.suite));
  w.in_seq = AnySequenceOrLast(g);
  w.out_seq = AnySequenceOrLast(g);
  w.id = g.number();
  w.url = "s" + g.str(g.small_size(20));
  w.identity = AnyIdentity(g);
  w.factory = g.boolean();
  w.options = g.boolean();
  for (size_t n = g.weighted({3, 5, 1}); n > 0; --n) {
    size_t d = g.below(9);
    g.note(" defect ").note(d);
    switch (d) {
      case 0:
        w.version = g.boolean() ? Version::TLS1_2 : (Version)(int)(2 + g.below(300));
        break;
      case 1: {
        int s = g.boolean() ? 3 + (int)g.below(5) : (int)(uint32_t)g.number();
        if (s >= 0 && s < 3) s = -1;
        w.suite = s;
        break;
      }
      case 2:
      case 3: {
        Bytes& k = d == 2 ? w.in : w.out;
        size_t n = g.pick<size_t>({0, 1, 16, 31, 32, 33, 47, 48, 49, 64, 65, 300});
        k.resize(n);
        break;
      }
      case 4:
        w.url.clear();
        break;
      case 5:
        w.logger = false;
        break;
      case 6:
        w.sender = false;  // Not a parameter of the frame protector.
        break;
      case 7:
        w.allocator = false;
        break;
      default:
        w.destroy = false;
    }
  }
  w.good = w.version == Version::TLS1_3 && w.suite >= 0 && w.suite < 3 && w.in.size() == SecretSize(w.suite) &&
           w.out.size() == SecretSize(w.suite) && !w.url.empty() && w.logger;
  return w;
}
void Exchange(Gen& g, const Wish& w, const std::function<bool(Bytes, Bytes*)>& protect,
              const std::function<bool(Bytes, Bytes*)>& unprotect) {
  ref::HalfConn in(w.suite, w.in, w.in_seq), out(w.suite, w.out, w.out_seq);
  Bytes data = g.random_bytes(1 + g.small_size(60)), got;
  REQUIRE_MSG(protect(data, &got), "the created object does not protect");
  REQUIRE_BYTES(got, out.RecordAt(out.seq, Inner(data, 0x17, 0)));
  REQUIRE_MSG(unprotect(in.RecordAt(in.seq, Inner(data, 0x17, 0)), &got), "the created object does not unprotect");
  REQUIRE_BYTES(got, data);
  // Something to report, long after the creation.
  if (g.boolean()) REQUIRE_MSG(!unprotect(in.RecordAt(in.seq, Inner(data, 0x17, 0)), &got), "a record accepted twice");
}
}  // namespace

PROPERTY(record_crypters, 60000, 600000,
         "record crypters from parameters with 0 to 2 defects: created exactly if there is none, and then working; "
         "non-trivial: every case") {
  Wish w = AnyWish(g);
  bool want = w.good && w.sender;
  int live = 0, logs = 0;
  Sink::Get().Reset();
  std::function<void(const std::string&)> logger;
  if (w.logger) logger = [&](const std::string&) { ++logs; };
  {
    std::unique_ptr<S2AChannelFactoryInterface> f(w.factory ? new Counted(&live) : nullptr);
    std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface> o(w.options ? new CountedOptions(&live) : nullptr);
    auto v = S2ACrypter::Create(w.version, w.suite >= 0 && w.suite < 3 ? SuiteOf(w.suite) : (Suite)w.suite, w.id, w.url,
                                w.identity, w.in, w.out, w.in_seq, w.out_seq, w.sender ? &RecordTickets : nullptr,
                                std::move(f), std::move(o), logger);
    REQUIRE_MSG((v.index() == 1) == want, (want ? "usable parameters refused: " + absl::get<0>(v).ToString() : "unusable parameters accepted"));
    if (!want) {
      REQUIRE_MSG(!absl::get<0>(v).ok(), "an OK status instead of an object");
    } else {
      auto& c = absl::get<1>(v);
      REQUIRE(c != nullptr);
      Exchange(
          g, w,
          [&](Bytes d, Bytes* r) {
            r->resize(d.size() + c->RecordOverhead());
            return c->Protect(Type::APPLICATION_DATA, {Iovec{d.data(), d.size()}}, Iovec{r->data(), r->size()}).GetCode() == Code::OK;
          },
          [&](Bytes d, Bytes* r) {
            r->resize(d.size());
            auto s = c->Unprotect(Iovec{d.data(), 5}, {Iovec{d.data() + 5, d.size() - 5}}, Iovec{r->data(), r->size()});
            r->resize(s.GetBytesWritten());
            return s.GetCode() == Code::OK;
          });
    }
  }
  REQUIRE_MSG(live == 0, "the channel factory or options were leaked");
  REQUIRE_MSG(Sink::Get().sent.empty(), "tickets sent by nobody");
  g.nontrivial();
  g.label(want ? "created" : "refused");
}

PROPERTY(frame_protectors, 60000, 600000,
         "frame protectors from parameters with 0 to 2 defects: created exactly if there is none, and then working; "
         "non-trivial: every case") {
  Wish w = AnyWish(g);
  bool want = w.good && w.allocator && w.destroy;
  int live = 0;
  Ledger l;
  {
    std::unique_ptr<S2AFrameProtector> f;
    {
      S2AFrameProtector::S2AFrameProtectorOptions o = {
          w.version,
          w.suite >= 0 && w.suite < 3 ? SuiteOf(w.suite) : (Suite)w.suite,
          w.in,
          w.out,
          w.in_seq,
          w.out_seq,
          w.url,
          w.identity,
          w.id,
          std::unique_ptr<S2AChannelFactoryInterface>(w.factory ? new Counted(&live) : nullptr),
          std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface>(w.options ? new CountedOptions(&live) : nullptr),
          nullptr,
          nullptr,
          nullptr};
      if (w.allocator) o.allocator = [&](size_t n) { return l.Allocate(n); };
      if (w.destroy) o.destroy = [&](Iovec v) { l.Release(v); };
      if (w.logger) o.logger = [](const std::string&) {};
      auto v = S2AFrameProtector::Create(o);
      REQUIRE_MSG(v.ok() == want, (want ? "usable parameters refused: " + v.status().ToString() : "unusable parameters accepted"));
      if (v.ok()) f = std::move(*v);
    }  // The options are gone before the protector is used.
    l.Check();
    if (want) {
      REQUIRE(f != nullptr);
      Exchange(
          g, w,
          [&](Bytes d, Bytes* r) {
            auto s = f->Protect({Iovec{d.data(), d.size()}});
            *r = l.Take(s.bytes);
            return s.status.ok();
          },
          [&](Bytes d, Bytes* r) {
            auto s = f->Unprotect({Iovec{d.data(), d.size()}});
            *r = l.Take(s.bytes);
            return s.status.ok();
          });
    }
  }
  REQUIRE_MSG(live == 0, "the channel factory or options were leaked");
  g.nontrivial();
  g.label(want ? "created" : "refused");
}

PROPERTY(proxies, 20000, 200000,
         "proxies with and without logger, options, token manager, channel factory: created exactly with logger and "
         "options; non-trivial: every case") {
  int live = 0;
  bool logger = !g.chance(1, 4), options = !g.chance(1, 4);
  bool client = g.boolean();
  g.note(logger ? "logger " : "").note(options ? "options " : "").note(client ? "client" : "server");
  {
    std::unique_ptr<S2AProxy> p;
    {
      S2AProxy::S2AProxyOptions o;
      if (logger) o.logger = [](const std::string&) {};
      o.is_client = client;
      o.application_protocol = g.str(g.small_size(9));
      o.target_hostname = g.str(g.small_size(9));
      if (options) o.options.reset(new S2AOptions);
      if (g.boolean()) o.channel_factory.reset(new Counted(&live));
      if (g.boolean()) o.channel_options.reset(new CountedOptions(&live));
      o.token_manager = nullptr;
      p = S2AProxy::Create(o);
    }
    REQUIRE_MSG((p != nullptr) == (logger && options), "proxy " << (p ? "created" : "refused"));
    if (p) {
      REQUIRE_MSG(!p->IsHandshakeFinished(), "finished at once");
      REQUIRE_MSG(!p->CreateFrameProtector().ok(), "frame protector before the handshake");
      REQUIRE_MSG(p->GetS2AContext().index() == 0, "context before the handshake");
      auto r = p->GetBytesForS2A(nullptr);
      REQUIRE_MSG(r.status.ok() && r.buffer && !r.buffer->empty(), "no first request");
    }
  }
  REQUIRE_MSG(live == 0, "the channel factory or options were leaked");
  g.nontrivial();
}
