// C10: keys advance once, tickets are forwarded once.
#include "crypter_common.h"
using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

namespace {
Identity AnyIdentity(Gen& g) {
  std::string s = g.str(g.small_size(30));
  switch (g.below(4)) {
    case 0:
      return Identity::FromSpiffeId(s);
    case 1:
      return Identity::FromHostname(s);
    case 2:
      return Identity::FromUid(s);
    default:
      return Identity::GetEmptyIdentity();
  }
}

struct Fixture {
  Params p;
  Crypter c;
  ref::HalfConn in;
  // Model.
  Bytes cur;
  std::vector<std::string> tickets;
  size_t total_tickets = 0, updates = 0;
  bool sent = false;
  explicit Fixture(Gen& g) : p(AnyParams(g)), in(p.suite, p.in_secret, p.in_seq) {
    Sink::Get().Reset();
    Sink::Get().null_waiter = g.chance(1, 6);
    Sink::Get().wait_result = !g.chance(1, 4);
    p.id = g.number();
    p.url = "s" + g.str(g.small_size(30));
    p.identity = AnyIdentity(g);
    c = MakeRecordCrypter(p);
  }
  void CheckSink(bool may, bool must) {
    auto& s = Sink::Get();
    REQUIRE_MSG(s.sent.size() <= 1, "tickets handed over " << s.sent.size() << " times");
    if (!sent && s.sent.size() == 1) {
      REQUIRE_MSG(may, "tickets handed over too early, with " << tickets.size() << " complete");
      const Sent& t = s.sent[0];
      REQUIRE_EQ(t.id, p.id);
      REQUIRE_MSG(t.url == p.url, "service address " << t.url);
      REQUIRE_EQ(t.kind, (int)p.identity.GetIdentityType());
      REQUIRE_MSG(t.identity == p.identity.GetIdentityString(), "identity " << t.identity);
      REQUIRE_MSG(t.factory == p.factory && t.options == p.options, "not the connection's channel factory and options");
      REQUIRE_EQ(t.tickets.size(), tickets.size());
      for (size_t i = 0; i < tickets.size(); ++i)
        REQUIRE_MSG(t.tickets[i] == tickets[i], "ticket " << i << " differs: sizes " << t.tickets[i].size() << " and " << tickets[i].size());
      sent = true;
    }
    REQUIRE_MSG(sent || !must, "the " << tickets.size() << " tickets were not handed over");
    REQUIRE_MSG(s.waits == 0, "waited for the ticket sender before destruction");
  }
  Unprotected Send(Gen& g, const Bytes& content, uint8_t type) {
    size_t pad = g.chance(1, 6) ? g.below(10) : 0;
    if (content.size() + pad > kMaxPlain) pad = 0;
    Bytes r = in.RecordAt(in.seq, Inner(content, type, pad));
    ++in.seq;
    return DoUnprotect(g, c.get(), r);
  }
  // content: non-empty piece of the stream of well-formed messages.
  void Handshake(Gen& g, const Bytes& content) {
    auto u = Send(g, content, 0x16);
    REQUIRE_MSG(u.code == Code::OK, "handshake record refused: " << (int)u.code);
    REQUIRE_MSG(u.n == 0, "handshake bytes returned as data");
    for (uint8_t b : content) {
      cur.push_back(b);
      if (cur.size() < 4) continue;
      size_t len = cur[1] << 16 | cur[2] << 8 | cur[3];
      if (cur.size() < 4 + len) continue;
      if (cur[0] == 0x18) {
        in.Update();
        in.seq = 0;
        ++updates;
      } else {
        ++total_tickets;
        if (!sent && tickets.size() < 5) tickets.push_back(std::string(cur.begin(), cur.end()));
      }
      cur.clear();
    }
    // Handing over may wait until the ticket being received is complete.
    CheckSink(tickets.size() == 5, tickets.size() == 5 && cur.empty());
  }
  void Data(Gen& g) {
    Bytes d = g.bytes(g.small_size(100));
    auto u = Send(g, d, 0x17);
    if (!cur.empty()) {
      REQUIRE_MSG(u.code != Code::OK, "application data accepted inside a handshake message");
      REQUIRE_EQ(u.n, (size_t)0);
      g.label("data inside a message");
      CheckSink(tickets.size() == 5, false);
      return;
    }
    REQUIRE_MSG(u.code == Code::OK, "application data refused: " << (int)u.code);
    REQUIRE_EQ(u.n, d.size());
    Bytes got(u.out.begin(), u.out.begin() + u.n);
    REQUIRE_BYTES(got, d);
    CheckSink(!tickets.empty(), !tickets.empty());
  }
  // An alert other than close-notify changes nothing.
  void Alert(Gen& g) {
    auto u = Send(g, {(uint8_t)(1 + g.below(2)), (uint8_t)(1 + g.below(255))}, 0x15);
    REQUIRE_EQ(u.n, (size_t)0);
    if (cur.empty())
      REQUIRE_MSG(u.code == Code::ALERT_OTHER, "alert reported as " << (int)u.code);
    else
      REQUIRE_MSG(u.code != Code::OK && u.code != Code::ALERT_CLOSE_NOTIFY, "alert reported as " << (int)u.code);
    CheckSink(false, false);
    g.label(cur.empty() ? "alert" : "alert inside a message");
  }
  // The last thing the connection sees: records that are refused, or the
  // peer's close-notify and what may come after it.  None of it hands tickets
  // over, and none of it takes back the wait for those handed over.
  void End(Gen& g) {
    switch (g.below(6)) {
      case 0: {
        auto u = Send(g, {(uint8_t)(1 + g.below(2)), 0}, 0x15);
        REQUIRE_EQ(u.n, (size_t)0);
        if (!cur.empty()) {
          REQUIRE_MSG(u.code != Code::OK, "close-notify accepted inside a message");
        } else {
          REQUIRE_MSG(u.code == Code::ALERT_CLOSE_NOTIFY, "close-notify reported as " << (int)u.code);
          for (size_t k = g.below(3); k > 0; --k) {
            auto v = g.boolean() ? Send(g, g.bytes(g.small_size(40)), 0x17) : Send(g, HandshakeMessage(4, g.bytes(g.small_size(40))), 0x16);
            REQUIRE_MSG(v.code != Code::OK && v.n == 0, "a record after close-notify gave " << (int)v.code);
          }
        }
        if (sent) g.label("closed after hand-over");
        break;
      }
      case 1: {  // Forged or cut.
        Bytes r = in.RecordAt(in.seq, Inner(g.bytes(g.small_size(40)), g.boolean() ? 0x17 : 0x16, 0));
        if (g.boolean())
          r[5 + g.below(r.size() - 5)] ^= (uint8_t)(1 + g.below(255));
        else
          r[g.below(3)] ^= (uint8_t)(1 + g.below(255));
        auto u = DoUnprotect(g, c.get(), r);
        REQUIRE_MSG(u.code != Code::OK && u.n == 0, "forged record gave " << (int)u.code);
        if (sent) g.label("forged after hand-over");
        break;
      }
      default:
        return;
    }
    CheckSink(false, false);
  }
  void Destroy(Gen& g) {
    End(g);
    auto& s = Sink::Get();
    size_t calls = s.sent.size();
    c.reset();
    REQUIRE_EQ(s.sent.size(), calls);
    REQUIRE_EQ(s.waits, (size_t)(calls && !s.null_waiter ? 1 : 0));
  }
};

// Messages, cut so that a key update always ends its record.
struct Stream {
  std::vector<Bytes> records;
  Bytes rest;  // What is still to come of the last message.
  bool split_update = false, split_any = false;
};
Stream Cut(Gen& g, const std::vector<Bytes>& messages, bool leave_open) {
  Stream s;
  Bytes run;
  std::vector<size_t> ends;
  auto flush = [&](bool last) {
    if (run.empty()) return;
    size_t at = 0;
    int mode = (int)g.below(4);
    if (last && leave_open && run.size() > 1) {
      size_t keep = run.size() - 1 - g.below(std::min<size_t>(run.size() - 1, 6));
      s.rest.assign(run.begin() + keep, run.end());
      run.resize(keep);
    }
    while (at < run.size()) {
      size_t left = run.size() - at, n;
      switch (mode) {
        case 0:
          n = left;
          break;
        case 1:
          n = 1 + g.below(6);
          if (run.size() > 600) n = 1 + g.below(run.size() / 20);
          break;
        case 2:
          n = 1 + g.below(left);
          break;
        default:  // Near the ends of messages.
          n = left;
          for (size_t e : ends) {
            size_t c = e + g.below(7);
            if (c >= 3 && c - 3 > at) {
              n = c - 3 - at;
              break;
            }
          }
      }
      n = std::min({n, left, kMaxPlain});
      if (n == 0) n = 1;
      if (n < left) {
        s.split_any = true;
        size_t cut = at + n, begin = 0;
        for (size_t e : ends) {
          if (cut < e && cut > begin && run[begin] == 0x18) s.split_update = true;
          begin = e;
        }
      }
      s.records.push_back(Bytes(run.begin() + at, run.begin() + at + n));
      at += n;
    }
    run.clear();
    ends.clear();
  };
  for (size_t i = 0; i < messages.size(); ++i) {
    run.insert(run.end(), messages[i].begin(), messages[i].end());
    ends.push_back(run.size());
    if (messages[i][0] == 0x18) flush(i + 1 == messages.size());
  }
  flush(true);
  return s;
}
Bytes Ticket(Gen& g, size_t max) {
  return HandshakeMessage(4, g.bytes(g.chance(1, 30) ? g.size(40000) : g.small_size(max)));
}
Bytes Update(Gen& g) { return HandshakeMessage(0x18, {(uint8_t)g.below(2)}); }
}  // namespace

PROPERTY(histories, 60000, 1200000,
         "phases of 0..8 tickets and key updates cut into records in any way, "
         "each followed by application data or by none; non-trivial: a message "
         "is split over records, or tickets and updates are mixed") {
  Fixture f(g);
  size_t phases = 1 + g.below(4);
  for (size_t i = 0; i < phases; ++i) {
    std::vector<Bytes> m;
    size_t n = g.below(9);
    bool t = false, k = false;
    for (size_t j = 0; j < n; ++j) {
      bool u = g.chance(1, 4);
      m.push_back(u ? Update(g) : Ticket(g, 200));
      (u ? k : t) = true;
    }
    bool open = !m.empty() && g.chance(1, 8);
    Stream s = Cut(g, m, open);
    g.note(n).note(" messages in ").note(s.records.size()).note(" records; ");
    bool alerts = g.chance(1, 6);
    for (auto& r : s.records) {
      f.Handshake(g, r);
      if (alerts && g.chance(1, 3)) f.Alert(g);
    }
    g.nontrivial(s.split_any || (t && k));
    if (s.split_update) g.label("key update split");
    if (f.tickets.size() == 5 && f.total_tickets > 5) g.label("over five tickets");
    if (!g.chance(1, 4)) {
      f.Data(g);
      g.note("data; ");
      if (f.sent) g.label("handed over");
    }
    if (!s.rest.empty()) {
      // Nothing that is refused meanwhile changes what the rest completes.
      for (size_t k = g.below(3); k > 0; --k) {
        if (g.boolean())
          f.Data(g);
        else
          f.Alert(g);
      }
      if (g.chance(1, 4)) break;
      f.Handshake(g, s.rest);
      if (g.boolean()) f.Data(g);
    }
  }
  f.Destroy(g);
}

PROPERTY(big_tickets, 600, 12000,
         "1..6 tickets of which some have 30000..200000 bytes, in full records, in small ones, or mixed; non-trivial: one "
         "over 65535 bytes") {
  Fixture f(g);
  size_t n = 1 + g.below(6);
  std::vector<Bytes> m;
  for (size_t i = 0; i < n; ++i) {
    size_t len = g.boolean() ? g.small_size(200) : g.pick<size_t>({30000, 65531, 65535, 65536, 70000, 131072, 200000}) + g.below(6);
    m.push_back(HandshakeMessage(4, g.random_bytes(len)));
    g.nontrivial(len > 65535);
    g.note(len).note(" ");
  }
  Bytes all;
  for (auto& x : m) all.insert(all.end(), x.begin(), x.end());
  size_t step = g.pick<size_t>({kMaxPlain, kMaxPlain, 16000, 8192, 4096, 1500});
  for (size_t at = 0; at < all.size();) {
    size_t k = std::min(all.size() - at, g.chance(1, 4) ? 1 + g.below(step) : step);
    f.Handshake(g, Bytes(all.begin() + at, all.begin() + at + k));
    at += k;
  }
  f.Data(g);
  f.Destroy(g);
}

PROPERTY(pieces, 300, 6000,
         "a ticket of 200..3000 bytes, and now and then of 66000, cut into hundreds or thousands of records of 1..3 bytes, "
         "among smaller messages; non-trivial: more than 255 pieces") {
  Fixture f(g);
  f.Handshake(g, Update(g));  // Room for as many records as it takes.
  if (g.boolean()) f.Handshake(g, HandshakeMessage(4, g.bytes(g.small_size(60))));
  Bytes t = HandshakeMessage(4, g.random_bytes(g.chance(1, 100) ? 65000 + g.below(2000) : 200 + g.below(2800)));
  size_t step = g.chance(2, 3) ? 1 : 3, pieces = 0;
  for (size_t at = 0; at < t.size(); ++pieces) {
    size_t k = std::min(t.size() - at, 1 + g.below(step));
    f.Handshake(g, Bytes(t.begin() + at, t.begin() + at + k));
    at += k;
  }
  if (g.boolean()) f.Handshake(g, Update(g));
  if (g.boolean()) f.Handshake(g, HandshakeMessage(4, g.bytes(g.small_size(60))));
  f.Data(g);
  f.Destroy(g);
  g.note(t.size()).note(" bytes in ").note(pieces);
  if (pieces > 65535) g.label("over 65535 pieces");
  g.nontrivial(pieces > 255);
}

PROPERTY(update_cuts, 16 * 16, 16 * 16 * 60,
         "two key updates, each cut in all 16 ways, data before and after; "
         "non-trivial: at least one cut") {
  uint64_t i = g.sweep(256);
  Fixture f(g);
  f.Data(g);
  for (int k = 0; k < 2; ++k) {
    unsigned mask = (unsigned)(i >> (4 * k)) & 15;
    Bytes m = Update(g), part;
    for (size_t b = 0; b < 5; ++b) {
      part.push_back(m[b]);
      if (b == 4 || (mask >> b & 1)) {
        f.Handshake(g, part);
        part.clear();
      }
    }
    REQUIRE_EQ(f.updates, (size_t)(k + 1));
    f.Data(g);
  }
  f.Destroy(g);
  g.note("masks ").note(i & 15).note(" ").note(i >> 4);
  g.nontrivial(i != 0);
}

PROPERTY(ticket_limit, 9 * 12 * 6, 9 * 12 * 6 * 40,
         "n tickets in one record plus the first m bytes of another message, "
         "the rest and application data following; non-trivial: five or more "
         "tickets, or a partial one") {
  uint64_t i = g.sweep(9 * 12 * 6);
  size_t n = i % 9, part = i / 9 % 12;
  int next = (int)(i / 108);  // What follows.
  Fixture f(g);
  Bytes r;
  for (size_t k = 0; k < n; ++k) {
    Bytes t = Ticket(g, 40);
    if (r.size() + t.size() > 15000) t = HandshakeMessage(4, g.bytes(k));
    r.insert(r.end(), t.begin(), t.end());
  }
  Bytes more = next % 2 ? Update(g) : HandshakeMessage(4, g.bytes(12));
  size_t cut = std::min(part, more.size() - 1);
  r.insert(r.end(), more.begin(), more.begin() + cut);
  if (!r.empty()) f.Handshake(g, r);
  if (next < 4) {
    f.Handshake(g, Bytes(more.begin() + cut, more.end()));
    if (next >= 2) f.Handshake(g, HandshakeMessage(4, g.bytes(3)));
  }
  f.Data(g);
  if (f.cur.empty()) {
    f.Handshake(g, HandshakeMessage(4, g.bytes(g.small_size(300))));
    f.Data(g);
  }
  f.Destroy(g);
  g.note(n).note(" tickets, then ").note(cut).note(" bytes of ").note(next % 2 ? "an update" : "a ticket").note(", case ").note(next);
  g.nontrivial(n >= 5 || cut > 0);
}

PROPERTY(misplaced, 20000, 300000,
         "a key update followed by more bytes in its record, or an unknown "
         "message type: an error, no data, no crash, and no hand-over of "
         "incomplete tickets; non-trivial: all") {
  Fixture f(g);
  if (g.boolean()) f.Handshake(g, HandshakeMessage(4, g.bytes(g.small_size(30))));
  Bytes bad;
  if (g.boolean()) {
    bad = Update(g);
    Bytes x = g.boolean() ? Update(g) : g.boolean() ? Ticket(g, 20) : g.bytes(1 + g.below(10));
    bad.insert(bad.end(), x.begin(), x.end());
    if (bad.size() > kMaxPlain) bad.resize(kMaxPlain);
    g.note("update not last");
  } else {
    uint8_t t = (uint8_t)g.below(256);
    if (t == 4 || t == 0x18) t = 2;
    bad = HandshakeMessage(t, g.bytes(g.small_size(50)));
    bad.resize(1 + g.below(bad.size()));
    g.note("type ").note((int)t);
  }
  auto u = f.Send(g, bad, 0x16);
  REQUIRE_MSG(u.code != Code::OK, "accepted");
  REQUIRE_EQ(u.n, (size_t)0);
  f.CheckSink(false, false);
  f.Destroy(g);
  g.nontrivial();
}
