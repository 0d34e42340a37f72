// C11: the frame protector round-trips every byte stream.
#include "frame_common.h"
using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

namespace {
size_t ExpectedSize(size_t n) {
  size_t records = n == 0 ? 1 : (n - 1) / kMaxPlain + 1;
  return n + records * kOverhead;
}

struct End {
  Ledger ledger;
  Frame f;
  ref::HalfConn out;
  explicit End(const Params& p) : f(MakeFrame(p, &ledger)), out(p.suite, p.out_secret, p.out_seq) {}
};

// Protects with either variant; compares with the reference records.
std::vector<Bytes> Protect(Gen& g, End& e, const Bytes& data) {
  util::Mem mem;
  auto in = mem.Segments<Iovec>(g, data);
  size_t want = ExpectedSize(data.size());
  REQUIRE_EQ(e.f->NumberBytesToProtect(in), want);
  REQUIRE_EQ(e.f->NumberBytesToProtect(data.size()), want);
  Bytes got;
  if (g.boolean()) {
    auto r = e.f->Protect(in);
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    got = e.ledger.Take(r.bytes);
    g.label("allocating protect");
  } else {
    size_t spare = g.chance(1, 4) ? g.below(60) : 0;
    uint8_t* buf = mem.Alloc(g, want + spare, 0x5A);
    Iovec out{buf, want + spare};
    auto s = e.f->Protect(in, out);
    REQUIRE_MSG(s.ok(), s.ToString());
    REQUIRE_MSG(out.iov_base == buf, "the caller's buffer was replaced");
    got.assign(buf, buf + want);
    for (size_t i = want; i < want + spare; ++i) REQUIRE_MSG(buf[i] == 0x5A, "byte written past the records");
    e.ledger.Check();
    g.label("caller-buffer protect");
  }
  mem.Check();
  auto records = ReferenceRecords(e.out, data);
  Bytes all = Join(records);
  REQUIRE_BYTES(got, all);
  return records;
}

Bytes Unprotect(Gen& g, End& e, const std::vector<Bytes>& records) {
  util::Mem mem;
  if (g.boolean()) {
    Bytes all = Join(records);
    auto in = mem.Segments<Iovec>(g, all);
    auto r = e.f->Unprotect(in);
    mem.Check();
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    g.label("allocating unprotect");
    return e.ledger.Take(r.bytes);
  }
  Bytes out;
  for (auto& rec : records) {
    util::Mem m2;
    auto in = m2.Segments<Iovec>(g, rec);
    size_t room = e.f->NumberBytesToUnprotect(in);
    REQUIRE_EQ(room, rec.size() - 5);
    REQUIRE_EQ(e.f->NumberBytesToUnprotect(rec.size()), rec.size() - 5);
    room += g.chance(1, 4) ? g.below(30) : 0;
    uint8_t* buf = m2.Alloc(g, room, 0x5A);
    Iovec o{buf, room};
    auto s = e.f->Unprotect(in, o);
    m2.Check();
    REQUIRE_MSG(s.ok(), s.ToString());
    REQUIRE_MSG(o.iov_base == buf && o.iov_len <= room, "the caller's buffer was replaced");
    out.insert(out.end(), buf, buf + o.iov_len);
    e.ledger.Check();
  }
  g.label("caller-buffer unprotect");
  return out;
}
size_t AnyLength(Gen& g) {
  switch (g.weighted({8, 1, 1, 1})) {
    case 0:
      return g.small_size(400);
    case 1:
      return g.size(kMaxPlain);
    case 2: {  // Around multiples of the record size.
      size_t k = 1 + g.below(4);
      return k * kMaxPlain + g.below(5) - 2;
    }
    default:
      return g.size(80000);
  }
}
}  // namespace

PROPERTY(streams, 30000, 500000,
         "1..8 messages in either direction, either variant on either side, any "
         "cuts; also several messages unprotected together; non-trivial: two or "
         "more messages") {
  Params p = AnyParams(g);
  End a(p), b(Peer(p));
  REQUIRE_EQ(a.f->MaxRecordSize(), kMaxPlain + kOverhead);
  size_t n = 1 + g.below(8);
  Bytes queued[2];
  std::vector<Bytes> records[2];
  for (size_t i = 0; i < n; ++i) {
    int d = (int)g.below(2);
    size_t len = AnyLength(g);
    g.note(d ? "<" : ">").note(len).note(" ");
    Bytes data = g.bytes(len);
    auto r = Protect(g, d ? b : a, data);
    queued[d].insert(queued[d].end(), data.begin(), data.end());
    records[d].insert(records[d].end(), r.begin(), r.end());
    if (r.size() > 1) g.label("several records");
    if (g.chance(2, 3) || i + 1 == n) {
      for (int k = 0; k < 2; ++k) {
        if (records[k].empty()) continue;
        Bytes got = Unprotect(g, k ? a : b, records[k]);
        REQUIRE_BYTES(got, queued[k]);
        records[k].clear();
        queued[k].clear();
      }
    }
  }
  g.nontrivial(n > 1);
}

PROPERTY(lengths, 400 + 4 * 40, (400 + 4 * 40) * 20,
         "every length 0..399 and around every multiple of 2^14 up to 4; "
         "non-trivial: all") {
  uint64_t i = g.sweep(400 + 4 * 40);
  size_t len = i < 400 ? i : (1 + (i - 400) / 40) * kMaxPlain + (i - 400) % 40 - 20;
  Params p = AnyParams(g);
  End a(p), b(Peer(p));
  Bytes data = g.bytes(len);
  auto r = Protect(g, a, data);
  REQUIRE_EQ(r.size(), len == 0 ? (size_t)1 : (len + kMaxPlain - 1) / kMaxPlain);
  for (auto& x : r) REQUIRE(x.size() <= a.f->MaxRecordSize());
  Bytes got = Unprotect(g, b, r);
  REQUIRE_BYTES(got, data);
  // And back.
  auto r2 = Protect(g, b, data);
  Bytes got2 = Unprotect(g, a, r2);
  REQUIRE_BYTES(got2, data);
  g.note("length ").note(len);
  g.nontrivial();
}

PROPERTY(size_queries, 100000, 2000000,
         "any length up to 2^40; non-trivial: not a small length") {
  Ledger l;
  Params p;
  p.in_secret = p.out_secret = Bytes(32, 1);
  Frame f = MakeFrame(p, &l);
  uint64_t n;
  switch (g.below(4)) {
    case 0:
      n = g.below(100000);
      break;
    case 1:
      n = (1 + g.below(1ull << 26)) * kMaxPlain + g.below(5) - 2;
      break;
    case 2:
      n = g.number() & ((1ull << 40) - 1);
      break;
    default:
      n = g.below(1ull << 40);
  }
  g.note(n);
  REQUIRE_EQ(f->NumberBytesToProtect((size_t)n), ExpectedSize(n));
  REQUIRE_EQ(f->NumberBytesToUnprotect((size_t)n), n < kOverhead ? (size_t)0 : (size_t)n - 5);
  // The vector variants go by the total.
  std::vector<Iovec> v;
  uint64_t left = n;
  static uint8_t byte;
  for (size_t k = g.below(4); k > 0; --k) {
    uint64_t x = g.below(left + 1);
    v.push_back(Iovec{&byte, (size_t)x});
    left -= x;
  }
  v.push_back(Iovec{&byte, (size_t)left});
  REQUIRE_EQ(f->NumberBytesToProtect(v), ExpectedSize(n));
  REQUIRE_EQ(f->NumberBytesToUnprotect(v), n < kOverhead ? (size_t)0 : (size_t)n - 5);
  l.Check();
  g.nontrivial(n > 1000);
}

PROPERTY(small_cuts, 64 * 40, 64 * 40 * 20,
         "a 24-byte record with every single cut position (and empty buffers "
         "there), and every pair-wise cut of a header; non-trivial: all") {
  uint64_t i = g.sweep(64 * 40);
  Params p = AnyParams(g);
  End b(Peer(p));
  ref::HalfConn h(p.suite, p.out_secret, p.out_seq);
  Bytes data = g.bytes(2), r = ReferenceRecords(h, data)[0];
  Bytes two = ReferenceRecords(h, g.bytes(3))[0];
  Bytes all = util::Cat({r, two});
  // Cuts from the bits of i in the first 6 bytes and a position.
  std::vector<size_t> parts(1, 0);
  size_t pos = i / 64;
  for (size_t k = 0; k < all.size(); ++k) {
    if (((k >= 1 && k <= 6) && (i >> (k - 1) & 1)) || k == pos || (k > 24 && k <= 30 && (i >> (k - 25) & 1))) {
      parts.push_back(0);
      if (g.chance(1, 4)) parts.push_back(0);
    }
    ++parts.back();
  }
  util::Mem mem;
  auto in = mem.SegmentsOf<Iovec>(g, all, parts);
  auto res = b.f->Unprotect(in);
  mem.Check();
  REQUIRE_MSG(res.status.ok(), res.status.ToString());
  Bytes got = b.ledger.Take(res.bytes);
  REQUIRE_EQ(got.size(), (size_t)5);
  REQUIRE_BYTES(Bytes(got.begin(), got.begin() + 2), data);
  g.nontrivial();
}

PROPERTY(many, 1200, 24000,
         "up to 700 small records unprotected together, or records in up to 20000 buffers of a byte or two, either side; "
         "non-trivial: over 64 records or over 1000 buffers") {
  Params p = AnyParams(g);
  p.in_seq = g.below(1000);
  p.out_seq = g.below(1000);
  End a(p), b(Peer(p));
  if (g.boolean()) {
    size_t n = g.pick<size_t>({20, 100, 300, 700}) - g.below(20);
    Bytes data, all;
    for (size_t i = 0; i < n; ++i) {
      Bytes d = g.random_bytes(i % 7 == 3 ? 0 : i % 5 + 1);
      for (auto& r : ReferenceRecords(a.out, d)) all.insert(all.end(), r.begin(), r.end());
      data.insert(data.end(), d.begin(), d.end());
    }
    util::Mem mem;
    auto r = b.f->Unprotect(mem.Segments<Iovec>(g, all));
    mem.Check();
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    Bytes got = b.ledger.Take(r.bytes);
    REQUIRE_BYTES(got, data);
    g.note(n).note(" records");
    g.nontrivial(n > 64);
    return;
  }
  size_t len = g.pick<size_t>({300, 1100, 4200, kMaxPlain, 20000}) - g.below(20), piece = 1 + g.below(2);
  Bytes data = g.random_bytes(len);
  auto cut = [&](Bytes& x) {
    std::vector<Iovec> v;
    for (size_t at = 0; at < x.size(); at += piece) {
      v.push_back(Iovec{x.data() + at, std::min(piece, x.size() - at)});
      if (at % 13 == 5) v.push_back(Iovec{nullptr, 0});
    }
    return v;
  };
  auto in = cut(data);
  REQUIRE_EQ(a.f->NumberBytesToProtect(in), ExpectedSize(len));
  auto r = a.f->Protect(in);
  REQUIRE_MSG(r.status.ok(), r.status.ToString());
  Bytes got = a.ledger.Take(r.bytes), want = Join(ReferenceRecords(a.out, data));
  REQUIRE_BYTES(got, want);
  auto rec = cut(want);
  auto u = b.f->Unprotect(rec);
  REQUIRE_MSG(u.status.ok(), u.status.ToString());
  Bytes back = b.ledger.Take(u.bytes);
  REQUIRE_BYTES(back, data);
  g.note(len).note(" bytes in ").note(in.size()).note(" buffers");
  g.nontrivial(in.size() > 1000);
}

PROPERTY(boundary_cuts, 2000, 40000,
         "2..7 buffers, each empty, tiny or of about the size of a record, on either side; non-trivial: at least two "
         "buffers of a whole record") {
  Params p = AnyParams(g);
  p.in_seq = g.below(1000);
  p.out_seq = g.below(1000);
  End a(p), b(Peer(p));
  // Buffer sizes around a unit, and the total.
  auto cuts = [&](size_t unit) {
    std::vector<size_t> v;
    for (size_t n = 2 + g.below(6); n > 0; --n) {
      switch (g.weighted({6, 3, 2, 2, 1})) {
        case 0:
          v.push_back(unit);
          break;
        case 1:
          v.push_back(unit + 2 - g.below(5));
          break;
        case 2:
          v.push_back(g.below(8));
          break;
        case 3:
          v.push_back(unit / 2 * (1 + 2 * g.below(2)));
          break;
        default:
          v.push_back(2 * unit);
      }
    }
    return v;
  };
  auto parts = cuts(kMaxPlain);
  size_t len = 0, whole = 0;
  for (size_t n : parts) {
    len += n;
    whole += n == kMaxPlain;
    g.note(n).note(" ");
  }
  Bytes data = g.random_bytes(len);
  Bytes want = Join(ReferenceRecords(a.out, data));
  {
    util::Mem mem;
    auto r = a.f->Protect(mem.SegmentsOf<Iovec>(g, data, parts));
    mem.Check();
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    Bytes got = a.ledger.Take(r.bytes);
    REQUIRE_BYTES(got, want);
  }
  // The records, cut near their ends.
  std::vector<size_t> back;
  size_t left = want.size();
  for (size_t n : cuts(kMaxPlain + kOverhead)) {
    n = std::min(n, left);
    back.push_back(n);
    left -= n;
  }
  back.push_back(left);
  util::Mem mem;
  auto u = b.f->Unprotect(mem.SegmentsOf<Iovec>(g, want, back));
  mem.Check();
  REQUIRE_MSG(u.status.ok(), u.status.ToString());
  Bytes got = b.ledger.Take(u.bytes);
  REQUIRE_BYTES(got, data);
  g.nontrivial(whole > 1);
}
