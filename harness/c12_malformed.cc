// C12: the frame protector on malformed input; buffer balance.
#include "frame_common.h"
using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

namespace {
// What the receiver must make of the bytes.
struct Outcome {
  bool ok = true;
  Bytes data;
  size_t records = 0;
};
// Alters in as the records are accepted.
Outcome Interpret(ref::HalfConn& in, const Bytes& b, bool one) {
  Outcome o;
  size_t at = 0;
  auto bad = [&] {
    o.ok = false;
    o.data.clear();
    return o;
  };
  if (b.size() < kOverhead) return bad();
  while (at < b.size()) {
    if (one && o.records == 1) return bad();
    if (b.size() - at < kOverhead) return bad();
    if (b[at] != 0x17 || b[at + 1] != 3 || b[at + 2] != 3) return bad();
    size_t n = b[at + 3] << 8 | b[at + 4];
    if (n + 5 > b.size() - at || n + 5 < kOverhead || n + 5 > kOverhead + kMaxPlain) return bad();
    Bytes inner, aad(b.begin() + at, b.begin() + at + 5);
    if (!in.OpenAt(in.seq, aad, Bytes(b.begin() + at + 5, b.begin() + at + 5 + n), &inner)) return bad();
    ++in.seq;
    while (!inner.empty() && inner.back() == 0) inner.pop_back();
    if (inner.empty()) return bad();
    uint8_t t = inner.back();
    inner.pop_back();
    if (t == 0x16) {
      if (inner.size() != 5 || inner[0] != 0x18) return bad();  // Only key updates are generated.
      in.Update();
      in.seq = 0;
    } else if (t == 0x17) {
      o.data.insert(o.data.end(), inner.begin(), inner.end());
    } else {
      return bad();
    }
    ++o.records;
    at += 5 + n;
  }
  return o;
}

// A stream of records of the peer, most of them good.
Bytes Stream(Gen& g, ref::HalfConn h, size_t n) {
  Bytes b;
  for (size_t i = 0; i < n; ++i) {
    Bytes inner;
    bool update = false;
    switch (g.weighted({10, 1, 1, 1, 1})) {
      case 0:
        inner = Inner(g.bytes(g.chance(1, 20) ? g.size(kMaxPlain) : g.small_size(120)), 0x17, 0);
        break;
      case 1:
        inner = Inner(g.bytes(g.below(20)), 0x17, g.below(20));
        break;
      case 2:
        inner = Inner({0x18, 0, 0, 1, 0}, 0x16, g.below(3));
        update = true;
        break;
      case 3:
        inner = Inner({(uint8_t)(1 + g.below(2)), (uint8_t)g.below(120)}, 0x15, 0);
        g.label("alert");
        break;
      default:
        inner = g.boolean() ? Inner(g.bytes(g.below(5)), (uint8_t)g.below(256), 0) : Bytes(1 + g.below(4), 0);
        if (inner.back() == 0x16) inner.back() = 0x77;
        g.label("other content type");
    }
    Bytes r = h.RecordAt(h.seq++, inner);
    b.insert(b.end(), r.begin(), r.end());
    if (update) {
      h.Update();
      h.seq = 0;
    }
  }
  return b;
}
void Mutate(Gen& g, Bytes* b) {
  switch (g.weighted({3, 3, 3, 2, 2, 1, 1})) {
    case 0:
      break;
    case 1:  // Truncate.
      b->resize(g.below(b->size() + 1));
      g.label("truncated");
      break;
    case 2: {  // Append a partial record or garbage.
      Bytes x = g.boolean() ? Bytes{0x17, 3, 3, 0, 60} : g.bytes(30);
      if (g.boolean()) x.resize(g.below(x.size() + 1));
      b->insert(b->end(), x.begin(), x.end());
      g.label("trailing bytes");
      break;
    }
    case 3:
      if (!b->empty()) (*b)[g.below(b->size())] ^= 1 << g.below(8);
      g.label("bit flip");
      break;
    case 4:  // A length field.
      if (b->size() > 5) {
        (*b)[3] = (uint8_t)(g.boolean() ? 0 : g.below(256));
        (*b)[4] = (uint8_t)g.below(256);
      }
      g.label("length field");
      break;
    case 5:
      *b = g.bytes(g.small_size(200));
      if (b->size() > 5 && g.boolean()) {
        (*b)[0] = 0x17;
        (*b)[1] = (*b)[2] = 3;
        if (g.boolean()) {
          (*b)[3] = (uint8_t)((b->size() - 5) >> 8);
          (*b)[4] = (uint8_t)(b->size() - 5);
        }
      }
      g.label("garbage");
      break;
    default:
      if (!b->empty()) b->erase(b->begin() + g.below(b->size()));
      g.label("byte removed");
  }
}
}  // namespace

PROPERTY(unprotect_any, 200000, 2000000,
         "streams of 0..5 records, truncated, extended, altered or garbage, in "
         "any segmentation, through both variants; non-trivial: not a whole "
         "number of genuine records") {
  Params p = AnyParams(g);
  Ledger l;
  {
    Frame f = MakeFrame(p, &l);
    ref::HalfConn in(p.suite, p.in_secret, p.in_seq);
    size_t rounds = 1 + g.below(3);
    for (size_t i = 0; i < rounds; ++i) {
      bool one = g.chance(1, 3);
      Bytes b = Stream(g, in, one && !g.chance(1, 4) ? 1 : g.below(6));
      Mutate(g, &b);
      Outcome o = Interpret(in, b, one);
      g.note(one ? "one " : "all ").note(b.size()).note(" bytes, ").note(o.ok ? "ok; " : "error; ");
      util::Mem mem;
      auto iv = mem.Segments<Iovec>(g, b);
      if (one) {
        size_t room = std::max<size_t>(f->NumberBytesToUnprotect(iv), 1) + (g.chance(1, 4) ? g.below(20) : 0);
        uint8_t* buf = mem.Alloc(g, room, 0x5A);
        Iovec out{buf, room};
        auto s = f->Unprotect(iv, out);
        mem.Check();
        l.Check();
        REQUIRE_MSG(s.ok() == o.ok, (o.ok ? "refused: " + s.ToString() : std::string("accepted")));
        if (o.ok) {
          REQUIRE_MSG(out.iov_base == buf, "the caller's buffer was replaced");
          REQUIRE_EQ(out.iov_len, o.data.size());
          Bytes got(buf, buf + out.iov_len);
          REQUIRE_BYTES(got, o.data);
        } else if (b.size() >= kOverhead) {
          REQUIRE_MSG(out.iov_base == buf && out.iov_len == 0, "a failed call reports " << out.iov_len << " bytes");
        }
      } else {
        auto r = f->Unprotect(iv);
        mem.Check();
        REQUIRE_MSG(l.error.empty(), l.error);
        REQUIRE_MSG(r.status.ok() == o.ok, (o.ok ? "refused: " + r.status.ToString() : std::string("accepted")));
        if (o.ok) {
          l.Check(r.bytes.size());
          Bytes got = l.Take(r.bytes);
          REQUIRE_BYTES(got, o.data);
        } else {
          REQUIRE_MSG(r.bytes.empty(), "buffers returned with an error");
          l.Check();
        }
      }
      if (!o.ok) {
        g.nontrivial();
        break;
      }
    }
  }
  l.Check();
}

PROPERTY(truncation, 3 * 120, 3 * 120 * 40,
         "two records (60 bytes each) cut at every position, or extended by "
         "every number of bytes below a record, both variants; non-trivial: not "
         "whole records") {
  uint64_t i = g.sweep(360);
  Params p = AnyParams(g);
  Ledger l;
  Frame f = MakeFrame(p, &l);
  ref::HalfConn in(p.suite, p.in_secret, p.in_seq), h = in;
  Bytes b = util::Cat({h.RecordAt(h.seq, Inner(g.bytes(38), 0x17, 0)), h.RecordAt(h.seq + 1, Inner(g.bytes(38), 0x17, 0))});
  size_t n = i / 3;
  bool one = i % 3 == 2;
  if (i % 3 == 1) {
    Bytes x = g.boolean() ? Bytes(b.begin(), b.begin() + n % 22) : g.bytes(n % 22);
    b.insert(b.end(), x.begin(), x.end());
  } else {
    b.resize(n + 1);
  }
  Outcome o = Interpret(in, b, one);
  util::Mem mem;
  auto iv = mem.Segments<Iovec>(g, b);
  if (one) {
    uint8_t* buf = mem.Alloc(g, b.size() + 1, 0x5A);
    Iovec out{buf, b.size() + 1};
    auto s = f->Unprotect(iv, out);
    REQUIRE_MSG(s.ok() == o.ok, (o.ok ? "refused" : "accepted") << " " << b.size() << " bytes");
    REQUIRE_MSG(o.ok || b.size() < kOverhead || out.iov_len == 0, "a failed call reports " << out.iov_len << " bytes");
  } else {
    auto r = f->Unprotect(iv);
    REQUIRE_MSG(r.status.ok() == o.ok, (o.ok ? "refused" : "accepted") << " " << b.size() << " bytes");
    if (o.ok) {
      Bytes got = l.Take(r.bytes);
      REQUIRE_BYTES(got, o.data);
    }
  }
  l.Check();
  mem.Check();
  g.note(b.size()).note(one ? " bytes, one record expected" : " bytes");
  g.nontrivial(!o.ok);
}

PROPERTY(protect_failure, 60000, 600000,
         "protecting until the sequence number wraps, in the middle of a "
         "message of several records or not, or into a too small caller "
         "buffer; non-trivial: a call fails") {
  Params p = AnyParams(g);
  uint64_t left = g.below(4);  // Records until the wrap.
  p.out_seq = 0 - left - 1;
  if (g.chance(1, 4)) p.out_seq = 0;
  Ledger l;
  Frame f = MakeFrame(p, &l);
  ref::HalfConn out(p.suite, p.out_secret, p.out_seq);
  bool wrapped = false;
  size_t n = 1 + g.below(5);
  for (size_t i = 0; i < n; ++i) {
    size_t len = g.chance(1, 3) ? kMaxPlain * (1 + g.below(2)) + g.below(100) : g.small_size(200);
    Bytes data = g.bytes(len);
    uint64_t records = len == 0 ? 1 : (len + kMaxPlain - 1) / kMaxPlain;
    bool fits = !wrapped && records - 1 <= ~out.seq;
    util::Mem mem;
    auto iv = mem.Segments<Iovec>(g, data);
    bool alloc = g.boolean();
    g.note(len).note(alloc ? "a " : "c ");
    if (alloc) {
      auto r = f->Protect(iv);
      REQUIRE_MSG(l.error.empty(), l.error);
      REQUIRE_MSG(r.status.ok() == fits, (fits ? "failed: " + r.status.ToString() : std::string("succeeded after the wrap")));
      if (fits) {
        Bytes got = l.Take(r.bytes);
        REQUIRE_BYTES(got, Join(ReferenceRecords(out, data)));
        if (out.seq == 0) wrapped = true;
      } else {
        REQUIRE(r.bytes.empty());
      }
    } else {
      size_t need = f->NumberBytesToProtect(len);
      bool small = g.chance(1, 3);
      size_t room = small ? 1 + g.below(need - 1) : need;
      uint8_t* buf = mem.Alloc(g, room, 0x5A);
      Iovec o{buf, room};
      auto s = f->Protect(iv, o);
      REQUIRE_MSG(l.error.empty(), "the caller's buffer: " << l.error);
      REQUIRE_MSG(s.ok() == (fits && !small), (s.ok() ? "succeeded" : "failed: " + s.ToString()));
      if (s.ok()) {
        Bytes got(buf, buf + room);
        REQUIRE_BYTES(got, Join(ReferenceRecords(out, data)));
        if (out.seq == 0) wrapped = true;
      } else if (small) {
        // How many records were made before the buffer ran out is unspecified.
        l.Check();
        mem.Check();
        g.nontrivial();
        g.label("too small buffer");
        return;
      }
    }
    l.Check();
    mem.Check();
    if (!fits) {
      g.nontrivial();
      g.label(records > 1 ? "wrap, several records" : "wrap");
      wrapped = true;
    }
  }
}

PROPERTY(allocator_failure, 40000, 400000,
         "the allocator gives no buffer, or one that is too small, for a "
         "generated request of Protect or Unprotect of one or more records; "
         "non-trivial: it was asked for that one") {
  Params p = AnyParams(g);
  Ledger l;
  {
    Frame f = MakeFrame(p, &l);
    ref::HalfConn in(p.suite, p.in_secret, p.in_seq);
    size_t at = g.below(6), asked = 0, given = 0;
    bool none = g.boolean(), hit = false;
    uint64_t cut = g.below(4) ? 1 + g.below(17) : 1 + g.below(20000);
    l.grant = [&](size_t n, size_t* give) {
      if (asked++ != at) return true;
      hit = true;
      if (none) return false;
      *give = given = cut > n ? 0 : n - cut;
      return true;
    };
    g.note(none ? "none" : "short").note(" at ").note(at).note(": ");
    for (size_t i = 0; i < 8 && !hit; ++i) {
      util::Mem mem;
      if (g.boolean()) {
        Bytes data = g.bytes(g.chance(1, 5) ? kMaxPlain + g.below(20000) : g.small_size(200));
        auto iv = mem.Segments<Iovec>(g, data);
        auto r = f->Protect(iv);
        mem.Check();
        g.note("P").note(data.size()).note(" ");
        if (!hit) REQUIRE_MSG(r.status.ok(), "failed: " << r.status.ToString());
        if (hit && given < f->NumberBytesToProtect(data.size())) REQUIRE_MSG(!r.status.ok(), "protected without room");
        if (!r.status.ok()) REQUIRE_MSG(r.bytes.empty(), "buffers returned with an error");
        l.Take(r.bytes);
      } else {
        size_t n = 1 + g.below(4);
        Bytes b, sent;
        size_t first = asked, need = 0;
        for (size_t j = 0; j < n; ++j) {
          Bytes d = g.bytes(g.chance(1, 20) ? g.size(kMaxPlain) : g.small_size(120));
          // How much more room than the data needs is asked for is left open.
          if (first + j == at) need = d.size();
          Bytes r = in.RecordAt(in.seq++, Inner(d, 0x17, 0));
          b.insert(b.end(), r.begin(), r.end());
          sent.insert(sent.end(), d.begin(), d.end());
        }
        auto iv = mem.Segments<Iovec>(g, b);
        auto r = f->Unprotect(iv);
        mem.Check();
        g.note("U").note(n).note(" ");
        if (!hit) {
          REQUIRE_MSG(r.status.ok(), r.status.ToString());
        } else if (none || given < need) {
          REQUIRE_MSG(!r.status.ok(), "unprotected without room");
        }
        if (!r.status.ok()) REQUIRE_MSG(r.bytes.empty(), "buffers returned with an error");
        bool ok = r.status.ok();
        Bytes got = l.Take(r.bytes);
        if (ok) REQUIRE_BYTES(got, sent);
      }
      REQUIRE_MSG(l.error.empty(), l.error);
      l.Check();
    }
    g.nontrivial(hit);
    g.label(hit ? (none ? "none" : "short") : "not asked");
  }
  l.Check();
}
