// C07: unprotecting dispatches on content type, padding and header exactly.
#include "crypter_common.h"
using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

struct Fixture {
  Params p;
  Crypter c;
  ref::HalfConn in;
  bool closed = false;
  explicit Fixture(Params q) : p(q), c(MakeRecordCrypter(p)), in(q.suite, q.in_secret, q.in_seq) {
    Sink::Get().Reset();
  }
  void Expect(const Unprotected& u, Code code, const Bytes& data) {
    if (closed) code = Code::ALERT_CLOSE_NOTIFY;
    REQUIRE_EQ(u.code, code);
    if (closed || code != Code::OK) {
      REQUIRE_EQ(u.n, (size_t)0);
    } else {
      REQUIRE_EQ(u.n, data.size());
      Bytes got(u.out.begin(), u.out.begin() + data.size());
      REQUIRE_BYTES(got, data);
    }
  }
  // A genuine record of the peer; no handshake content.
  void Genuine(Gen& g, const Bytes& content, int type, size_t padding) {
    Bytes inner;
    if (type < 0) {  // No type byte at all.
      inner.assign(1 + padding, 0);
    } else {
      inner = Inner(content, (uint8_t)type, padding);
    }
    REQUIRE_MSG(inner.size() <= kMaxPlain + 1, "harness: record too long");
    Bytes r = in.RecordAt(in.seq, inner);
    Unprotected u = DoUnprotect(g, c.get(), r);
    Code want;
    Bytes data;
    switch (type) {
      case 0x17:
        want = Code::OK;
        data = content;
        break;
      case 0x15:
        want = content.size() < 2 ? Code::INVALID_RECORD : content[1] == 0 ? Code::ALERT_CLOSE_NOTIFY : Code::ALERT_OTHER;
        break;
      case 0x16:
        want = Code::OK;
        break;
      default:
        want = Code::INVALID_RECORD;
    }
    Expect(u, want, data);
    // Alerts and records of unknown type are wiped.
    if (want != Code::OK) util::RequireNoLeak(u.out.data(), u.out.size(), content, 0xA5);
    if (closed) return;
    ++in.seq;
    if (want == Code::ALERT_CLOSE_NOTIFY) closed = true;
  }
  void KeyUpdate(Gen& g) {
    bool was = closed;
    Genuine(g, {0x18, 0, 0, 1, (uint8_t)g.below(2)}, 0x16, 0);
    if (was) return;
    in.Update();
    in.seq = 0;
  }
  void Oversized(Gen& g) {
    size_t inner = kMaxPlain + 2 + (g.boolean() ? g.below(5) : g.size(65519 - kMaxPlain - 2));
    Bytes content = g.bytes(inner - 1);
    Bytes r = in.RecordAt(in.seq, Inner(content, 0x17, 0));
    Unprotected u = DoUnprotect(g, c.get(), r);
    Expect(u, Code::ALERT_RECORD_OVERFLOW, {});
    util::RequireNoLeak(u.out.data(), u.out.size(), content, 0xA5);
    g.label("oversized");
  }
  void BadHeader(Gen& g) {
    Bytes content = g.bytes(g.small_size(200));
    Bytes r = in.RecordAt(in.seq, Inner(content, 0x17, 0));
    size_t header = 5;
    Code want = Code::FAILED_PRECONDITION;
    switch (g.below(5)) {
      case 0:  // A wrong type or version byte.
        r[g.below(3)] ^= 1 + g.below(255);
        break;
      case 1: {  // A wrong length field.
        r[3 + g.below(2)] ^= 1 + g.below(255);
        break;
      }
      case 2:  // A record cut or extended behind its header.
        if (g.boolean())
          r.resize(g.range(5, r.size() - 1));
        else
          r.resize(r.size() + 1 + g.below(30), 0);
        break;
      case 3:  // A header of the wrong size.
        header = g.pick<size_t>({0, 1, 2, 3, 4, 6, 7, 10});
        break;
      default: {
        r.resize(g.below(kOverhead));
        if (r.size() >= 5) {
          r[3] = 0;
          r[4] = (uint8_t)(r.size() - 5);
        }
      }
    }
    Unprotected u = DoUnprotect(g, c.get(), r, header);
    Expect(u, want, {});
    util::RequireNoLeak(u.out.data(), u.out.size(), content, 0xA5);
    g.label("bad header");
  }
};

PROPERTY(histories, 40000, 800000,
         "1..14 records: data, alerts, handshake messages, unknown and missing "
         "types, padding, oversized and badly framed ones; non-trivial: a record "
         "follows one of another kind") {
  Fixture f(AnyParams(g));
  g.note("suite ").note(f.p.suite).note(": ");
  size_t n = 1 + g.below(14);
  int last = -1;
  for (size_t i = 0; i < n; ++i) {
    size_t pad = g.chance(1, 3) ? (g.chance(1, 8) ? g.size(kMaxPlain) : g.small_size(40)) : 0;
    auto room = [&](size_t max) { return std::min(max, kMaxPlain - pad); };
    int k = (int)g.weighted({8, 3, 2, 1, 1, 2, 1, 1, 1, 3});
    g.nontrivial(last >= 0 && last != k);
    last = k;
    switch (k) {
      case 0: {
        size_t len = room(g.chance(1, 8) ? g.size(kMaxPlain) : g.small_size(300));
        g.note("data").note(len).note("+").note(pad).note(" ");
        f.Genuine(g, g.bytes(len), 0x17, pad);
        break;
      }
      case 1: {  // Alert other than close-notify.
        Bytes a = g.bytes(2 + (g.chance(1, 4) ? g.chance(1, 4) ? g.size(kMaxPlain - 2) : g.below(10) : 0));
        if (a[1] == 0) a[1] = 1 + (uint8_t)g.below(255);
        pad = std::min(pad, kMaxPlain - a.size());
        g.note("alert ");
        f.Genuine(g, a, 0x15, pad);
        g.label("alert");
        break;
      }
      case 2:
        g.note("shortalert ");
        f.Genuine(g, g.bytes(room(g.below(2))), 0x15, std::min(pad, kMaxPlain - 1));
        g.label("short alert");
        break;
      case 3: {  // Close-notify.
        Bytes a = g.bytes(2 + (g.chance(1, 4) ? g.chance(1, 4) ? g.size(kMaxPlain - 2) : g.below(10) : 0));
        a[1] = 0;
        g.note("close ");
        f.Genuine(g, a, 0x15, std::min(pad, kMaxPlain - a.size()));
        g.label("close-notify");
        break;
      }
      case 4:
        g.note("update ");
        f.KeyUpdate(g);
        g.label("key update");
        break;
      case 5: {
        int t = 1 + (int)g.below(255);
        if (t == 0x15 || t == 0x16 || t == 0x17) t = 0x14;
        g.note("type").note(t).note(" ");
        f.Genuine(g, g.bytes(room(g.chance(1, 8) ? g.size(kMaxPlain) : g.small_size(100))), t, pad);
        g.label("unknown type");
        break;
      }
      case 6:
        g.note("notype ");
        f.Genuine(g, {}, -1, pad);
        g.label("missing type");
        break;
      case 7:
        g.note("oversized ");
        f.Oversized(g);
        break;
      case 8: {
        Bytes t = HandshakeMessage(4, g.bytes(g.small_size(100)));
        g.note("ticket ");
        f.Genuine(g, t, 0x16, std::min(pad, kMaxPlain - t.size()));
        g.label("ticket");
        break;
      }
      default:
        g.note("badheader ");
        f.BadHeader(g);
    }
    if (f.closed) g.label("after close-notify");
  }
}

PROPERTY(content_types, 256 * 8, 256 * 8 * 40,
         "every content type byte with 0..7 content bytes, any padding, between "
         "two data records; non-trivial: not application data") {
  uint64_t i = g.sweep(256 * 8);
  int t = (int)(i % 256);
  size_t len = i / 256;
  if (t == 0x16 || t == 0) return;  // Handshake contents: C10.
  Fixture f(AnyParams(g));
  f.Genuine(g, g.bytes(5), 0x17, 0);
  f.Genuine(g, g.bytes(len), t, g.small_size(600));
  f.Genuine(g, g.bytes(7), 0x17, g.below(3));
  f.Genuine(g, g.bytes(6), 0x17, g.below(3));
  g.note("type ").note(t).note(" length ").note(len);
  g.nontrivial(t != 0x17);
}

PROPERTY(alert_codes, 65536 / 16, 65536 * 4,
         "every alert level and description (a sixteenth of the levels per run "
         "in the quick tier), now and then with more content than these two bytes; non-trivial: all") {
  uint64_t i = g.sweep(4096);
  uint8_t level = (uint8_t)(i / 256 * 16 + g.below(16)), desc = (uint8_t)(i % 256);
  if (i < 512) level = (uint8_t)(1 + i / 256);
  Fixture f(AnyParams(g));
  Bytes alert = {level, desc};
  if (g.chance(1, 16)) alert.resize(2 + g.size(kMaxPlain - 2), (uint8_t)g.below(3));
  f.Genuine(g, alert, 0x15, g.chance(1, 3) ? g.below(std::min<size_t>(4, kMaxPlain - alert.size() + 1)) : 0);
  f.Genuine(g, g.bytes(7), 0x17, 0);
  g.note("level ").note((int)level).note(" description ").note((int)desc);
  g.nontrivial();
}

PROPERTY(data_and_padding, 3 * 3000, 3 * 60000,
         "application data of any length with padding up to the maximal record, "
         "content ending in zero bytes included; non-trivial: padded") {
  Params p = AnyParams(g);
  Fixture f(p);
  size_t len, pad;
  switch (g.below(4)) {
    case 0:
      len = g.size(kMaxPlain);
      pad = kMaxPlain - len - std::min<size_t>(g.below(3), kMaxPlain - len);
      break;
    case 1:
      len = g.size(kMaxPlain);
      pad = g.size(kMaxPlain - len);
      break;
    case 2:
      len = g.below(4);
      pad = g.size(kMaxPlain - len);
      break;
    default:
      len = kMaxPlain - g.below(3);
      pad = g.below(kMaxPlain - len + 1);
  }
  Bytes b = g.bytes(len);
  for (size_t i = g.below(len + 1); i < len && g.boolean(); ++i) b[len - 1 - (i % len)] = 0;
  f.Genuine(g, b, 0x17, pad);
  f.Genuine(g, g.bytes(9), 0x17, 0);
  g.note("length ").note(len).note(" padding ").note(pad);
  g.nontrivial(pad > 0);
}

PROPERTY(header_bytes, 3 * 256 + 2 * 256, (3 * 256 + 2 * 256) * 20,
         "every value of every header byte, between two data records; "
         "non-trivial: a wrong value") {
  uint64_t i = g.sweep(5 * 256);
  size_t pos = i / 256;
  uint8_t v = (uint8_t)i;
  Fixture f(AnyParams(g));
  Bytes content = g.bytes(g.chance(1, 2) ? g.size(3000) : g.below(20));
  Bytes r = f.in.RecordAt(f.in.seq, Inner(content, 0x17, 0));
  bool same = r[pos] == v;
  r[pos] = v;
  Unprotected u = DoUnprotect(g, f.c.get(), r);
  if (same) {
    f.Expect(u, Code::OK, content);
    ++f.in.seq;
  } else {
    f.Expect(u, Code::FAILED_PRECONDITION, {});
    util::RequireNoLeak(u.out.data(), u.out.size(), content, 0xA5);
  }
  f.Genuine(g, g.bytes(9), 0x17, 0);
  g.note("header[").note(pos).note("] = ").note((int)v);
  g.nontrivial(!same);
}

PROPERTY(sizes_at_the_limits, 4000, 80000,
         "total record sizes around the smallest and the largest legal one; "
         "non-trivial: within 2 of a limit") {
  Fixture f(AnyParams(g));
  if (g.boolean()) {
    size_t inner = kMaxPlain - 3 + g.below(8);
    Bytes content = g.bytes(inner - 1);
    if (inner <= kMaxPlain + 1) {
      f.Genuine(g, content, 0x17, 0);
    } else {
      Unprotected u = DoUnprotect(g, f.c.get(), f.in.RecordAt(f.in.seq, Inner(content, 0x17, 0)));
      f.Expect(u, Code::ALERT_RECORD_OVERFLOW, {});
    }
    g.note("inner ").note(inner);
  } else {
    size_t total = g.below(26);
    Bytes r = {0x17, 3, 3, 0, (uint8_t)(total > 5 ? total - 5 : 0)};
    r.resize(total, 0x11);
    if (total == 22) r = f.in.RecordAt(f.in.seq, {0x17});
    Unprotected u = DoUnprotect(g, f.c.get(), r);
    if (total < 22) {
      f.Expect(u, Code::FAILED_PRECONDITION, {});
    } else if (total == 22) {
      f.Expect(u, Code::OK, {});
      ++f.in.seq;
    } else {
      f.Expect(u, Code::INTERNAL_ERROR, {});
      ++f.in.seq;
    }
    g.note("total ").note(total);
  }
  f.Genuine(g, g.bytes(3), 0x17, 0);
  g.nontrivial();
}
