// C06: protected records are exact TLS 1.3 records.
#include "crypter_common.h"
using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

static const uint8_t kTypeByte[] = {0x17, 0x15, 0x16};
static const Type kTypes[] = {Type::APPLICATION_DATA, Type::ALERT, Type::HANDSHAKE};

struct Fixture {
  Params p;
  Crypter c;
  ref::HalfConn out;
  bool wrapped = false;
  explicit Fixture(Params q) : p(q), c(MakeRecordCrypter(p)), out(q.suite, q.out_secret, q.out_seq) {
    REQUIRE_EQ(c->RecordOverhead(), kOverhead);
  }
  void Protect(Gen& g, int type, const Bytes& pt, size_t spare, const std::vector<size_t>* parts = nullptr) {
    util::Mem mem;
    Bytes want = out.RecordAt(out.seq, Inner(pt, kTypeByte[type], 0));
    size_t room = want.size() + spare;
    uint8_t* buf = mem.Alloc(g, room, 0xA5);
    auto ip = parts ? mem.SegmentsOf<Iovec>(g, pt, *parts) : mem.Segments<Iovec>(g, pt);
    auto s = c->Protect(kTypes[type], ip, Iovec{buf, room});
    mem.Check();
    if (wrapped) {
      REQUIRE_MSG(s.GetCode() != Code::OK, "record written after the sequence number wrapped");
      REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
      util::RequireNoLeak(buf + 5, room - 5, want.size() > 5 ? Bytes(want.begin() + 5, want.end()) : Bytes(), 0xA5);
      g.label("after the wrap");
      return;
    }
    REQUIRE_MSG(s.GetCode() == Code::OK, "code " << (int)s.GetCode() << " " << s.GetErrorMessage());
    REQUIRE_EQ(s.GetBytesWritten(), pt.size() + kOverhead);
    Bytes got(buf, buf + want.size());
    REQUIRE_BYTES(got, want);
    for (size_t i = want.size(); i < room; ++i) REQUIRE_MSG(buf[i] == 0xA5, "byte written past the record");
    if (++out.seq == 0) wrapped = true;
  }
  // kind 0: over 2^14 bytes; 1: too small buffer; 2: unknown record type.
  void Refused(Gen& g, int kind) {
    util::Mem mem;
    size_t n = kind == 0 ? kMaxPlain + 1 + (g.boolean() ? g.below(4) : g.size(70000)) : g.small_size(300);
    Bytes pt = g.bytes(n);
    auto ip = mem.Segments<Iovec>(g, pt);
    size_t room = kind == 1 ? (g.boolean() ? n + kOverhead - 1 - g.below(2) : g.below(n + kOverhead)) : n + kOverhead + g.below(30);
    if (room == 0) room = 1;
    uint8_t* buf = mem.Alloc(g, room, 0xA5);
    Type t = kTypes[g.below(3)];
    if (kind == 2) {
      int v = g.boolean() ? 3 + (int)g.below(300) : -1 - (int)g.below(1000);
      t = (Type)v;
    }
    auto s = c->Protect(t, ip, Iovec{buf, room});
    mem.Check();
    REQUIRE_MSG(s.GetCode() != Code::OK, "kind " << kind << " accepted");
    REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
    g.label(kind == 0 ? "too long" : kind == 1 ? "too small buffer" : "unknown type");
  }
  void Update() {
    auto s = c->UpdateOutboundKey();
    REQUIRE_MSG(s.ok(), s.ToString());
    out.Update();
    out.seq = 0;
    wrapped = false;
  }
};

PROPERTY(histories, 30000, 600000,
         "1..16 records of any type and size, refused calls and outbound key "
         "updates; non-trivial: a record follows a refusal, a key update or "
         "another record") {
  Fixture f(AnyParams(g, true));
  g.note("suite ").note(f.p.suite).note(" seq ").note(f.p.out_seq).note(": ");
  size_t n = 1 + g.below(16);
  for (size_t i = 0; i < n; ++i) {
    switch (g.weighted({8, 3, 2})) {
      case 0: {
        g.nontrivial(i > 0);
        size_t len = g.weighted({9, 1}) ? g.size(kMaxPlain) : g.small_size(400);
        int t = (int)g.below(3);
        g.note("p").note(len).note(" ");
        f.Protect(g, t, g.bytes(len), g.chance(1, 3) ? g.below(50) : 0);
        break;
      }
      case 1: {
        int k = (int)g.below(3);
        g.note("refused").note(k).note(" ");
        f.Refused(g, k);
        break;
      }
      default:
        f.Update();
        g.note("update ");
        g.label("key update");
    }
  }
}

PROPERTY(lengths, 3 * 16385 / 4, 3 * 16385 * 2,
         "plaintext lengths 0..2^14 (a different quarter per build seed in the "
         "quick tier, all in the thorough one), any type; non-trivial: all") {
  uint64_t i = g.sweep(3 * 16385 / 4 + 1);
  size_t len = i * 4 / 3 % 16385;
  len = (len + g.below(4)) % 16385;
  if (i < 64) len = 16384 - i;
  Params p = AnyParams(g);
  p.suite = (int)(i % 3);
  p.in_secret = g.random_bytes(SecretSize(p.suite));
  p.out_secret = g.random_bytes(SecretSize(p.suite));
  Fixture f(p);
  f.Protect(g, (int)g.below(3), g.bytes(len), 0);
  g.note("length ").note(len);
  g.nontrivial();
}

PROPERTY(segmentations, 9 * 256, 9 * 256 * 10,
         "all ways to cut a 9-byte plaintext into buffers, empty ones "
         "interspersed; non-trivial: at least one cut") {
  uint64_t i = g.sweep(9 * 256);
  unsigned mask = (unsigned)(i % 256), e = (unsigned)(i / 256);
  std::vector<size_t> parts(1, 0);
  for (unsigned k = 0; k < 9; ++k) {
    ++parts.back();
    if (k < 8 && (mask >> k & 1)) parts.push_back(0);
  }
  if (e) parts.insert(parts.begin() + (e - 1) % (parts.size() + 1), 0);
  Fixture f(AnyParams(g));
  f.Protect(g, (int)g.below(3), g.bytes(9), 0, &parts);
  f.Protect(g, (int)g.below(3), g.bytes(3), 0);
  g.note("mask ").note(mask);
  g.nontrivial(mask != 0);
}

PROPERTY(refusals, 3 * 8000, 3 * 100000,
         "a refused call between two records of the same connection; "
         "non-trivial: all") {
  uint64_t k = g.sweep(3);
  Fixture f(AnyParams(g));
  f.Protect(g, (int)g.below(3), g.bytes(g.small_size(60)), 0);
  size_t n = 1 + g.below(3);
  for (size_t i = 0; i < n; ++i) f.Refused(g, (int)k);
  f.Protect(g, (int)g.below(3), g.bytes(g.small_size(60)), 0);
  g.note("kind ").note(k).note(" times ").note(n);
  g.nontrivial();
}
