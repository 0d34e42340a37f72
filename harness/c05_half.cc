// C05: half connections follow the TLS 1.3 key schedule.
#include <set>

#include "record_common.h"
#include "src/record_protocol/s2a_half_connection.h"

using namespace rec;
using s2a::record_protocol::S2AHalfConnection;
using Half = std::unique_ptr<S2AHalfConnection>;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

static Half Make(int suite, uint64_t seq, const Bytes& secret) {
  auto v = S2AHalfConnection::Create(SuiteOf(suite), seq, secret);
  REQUIRE_MSG(v.index() == 1, "creation refused: " << absl::get<0>(v).ToString());
  Half h = std::move(absl::get<1>(v));
  REQUIRE(h != nullptr);
  REQUIRE_EQ(h->TagLength(), (size_t)16);
  return h;
}

// The reference, with the wrap of the sequence number.
struct Model {
  ref::HalfConn conn;
  bool wrapped = false;
  uint64_t epoch = 0;
  std::set<std::pair<uint64_t, uint64_t>> used;
  Model(int suite, const Bytes& secret, uint64_t seq) : conn(suite, secret, seq) {}
  void Step() {
    REQUIRE_MSG(used.insert({epoch, conn.seq}).second, "model error: nonce reused");
    if (++conn.seq == 0) wrapped = true;
  }
  void Update() {
    conn.Update();
    conn.seq = 0;
    wrapped = false;
    ++epoch;
  }
};

enum Op { kEncrypt, kDecrypt, kForged, kStale, kBadEncrypt, kBadDecrypt, kUpdate };

static void Run(Gen& g, S2AHalfConnection* h, Model& m, Op op, size_t max_len) {
  util::Mem mem;
  Bytes pt = g.bytes(g.small_size(max_len)), aad = g.bytes(g.small_size(40));
  auto ia = mem.Segments<Iovec>(g, aad);
  switch (op) {
    case kEncrypt: {
      Bytes want = m.conn.SealAt(m.conn.seq, aad, pt);
      size_t room = want.size() + (g.chance(1, 4) ? g.below(20) : 0);
      uint8_t* out = mem.Alloc(g, room, 0xA5);
      auto ip = mem.Segments<Iovec>(g, pt);
      auto r = h->Encrypt(ia, ip, Iovec{out, room});
      g.note("E");
      if (m.wrapped) {
        REQUIRE_MSG(!r.GetStatus().ok(), "encryption after the sequence number wrapped");
        REQUIRE_EQ(r.GetBytesWritten(), (size_t)0);
        for (size_t i = 0; i < room; ++i) REQUIRE_MSG(out[i] == 0xA5, "refused encryption wrote output");
        g.label("after the wrap");
        break;
      }
      REQUIRE_MSG(r.GetStatus().ok(), "seq " << m.conn.seq << ": " << r.GetStatus().ToString());
      REQUIRE_EQ(r.GetBytesWritten(), want.size());
      Bytes got(out, out + want.size());
      REQUIRE_BYTES(got, want);
      m.Step();
      break;
    }
    case kDecrypt:
    case kForged:
    case kStale: {
      uint64_t s = m.conn.seq;
      if (op == kStale) s += g.pick<uint64_t>({~0ull, 1, 2, ~0ull - 1, 256, 1ull << 32, 1ull << 63, ~0ull - 255});
      Bytes ct = m.conn.SealAt(s, aad, pt);
      if (op == kForged) ct[g.below(ct.size())] ^= 1 << g.below(8);
      size_t room = pt.size() + (g.chance(1, 4) ? g.below(20) : 0);
      uint8_t* out = mem.Alloc(g, room ? room : 1, 0xA5);
      auto ic = mem.Segments<Iovec>(g, ct);
      auto r = h->Decrypt(ia, ic, Iovec{out, room});
      g.note(op == kDecrypt ? "D" : op == kForged ? "F" : "S");
      if (m.wrapped || op != kDecrypt) {
        REQUIRE_MSG(!r.GetStatus().ok(), (m.wrapped ? "decryption after the wrap" : "forged or stale message accepted"));
        REQUIRE_EQ(r.GetBytesWritten(), (size_t)0);
        util::RequireNoLeak(out, room, pt, 0xA5);
        if (m.wrapped) {
          g.label("after the wrap");
          break;
        }
      } else {
        REQUIRE_MSG(r.GetStatus().ok(), "seq " << m.conn.seq << ": " << r.GetStatus().ToString());
        REQUIRE_EQ(r.GetBytesWritten(), pt.size());
        Bytes got(out, out + pt.size());
        REQUIRE_BYTES(got, pt);
      }
      m.Step();
      break;
    }
    case kBadEncrypt: {  // Too small output: an attempt all the same.
      size_t room = 1 + g.below(pt.size() + 15);
      uint8_t* out = mem.Alloc(g, room, 0);
      auto ip = mem.Segments<Iovec>(g, pt);
      auto r = h->Encrypt(ia, ip, Iovec{out, room});
      g.note("e");
      REQUIRE(!r.GetStatus().ok());
      REQUIRE_EQ(r.GetBytesWritten(), (size_t)0);
      if (!m.wrapped) m.Step();
      break;
    }
    case kBadDecrypt: {  // Shorter than a tag.
      Bytes ct = g.bytes(g.below(16));
      uint8_t* out = mem.Alloc(g, 32, 0);
      auto ic = mem.Segments<Iovec>(g, ct);
      auto r = h->Decrypt(ia, ic, Iovec{out, 32});
      g.note("d");
      REQUIRE(!r.GetStatus().ok());
      REQUIRE_EQ(r.GetBytesWritten(), (size_t)0);
      if (!m.wrapped) m.Step();
      break;
    }
    case kUpdate: {
      if (m.wrapped) g.label("update after the wrap");
      auto s = h->UpdateKey();
      g.note("U");
      REQUIRE_MSG(s.ok(), s.ToString());
      m.Update();
      break;
    }
  }
  REQUIRE_EQ(h->TagLength(), (size_t)16);
  mem.Check();
}

PROPERTY(histories, 60000, 1200000,
         "1..25 encryptions, decryptions, forgeries, stale messages, invalid "
         "calls and key updates from any starting sequence number; non-trivial: "
         "a key update, a wrap or a failed operation is followed by another") {
  int suite = (int)g.below(3);
  Bytes secret = g.bytes(SecretSize(suite));
  uint64_t seq = AnySequenceOrLast(g);
  Half h = Make(suite, seq, secret);
  Model m(suite, secret, seq);
  g.note("suite ").note(suite).note(" seq ").note(seq).note(": ");
  size_t n = 1 + g.below(25);
  bool special = false;
  for (size_t i = 0; i < n; ++i) {
    g.nontrivial(special);
    Op op = (Op)g.weighted({6, 6, 2, 2, 1, 1, 3});
    Run(g, h.get(), m, op, 200);
    special = special || m.wrapped || op != kEncrypt && op != kDecrypt;
    if (op == kUpdate) g.label("key update");
    if (m.wrapped) g.label("wrapped");
  }
}

PROPERTY(sequence_numbers, 3 * 64 * 3 * 4, 3 * 64 * 3 * 40,
         "every starting sequence number 2^k-1, 2^k, 2^k+1 for every suite, 1..4 "
         "operations each; non-trivial: all") {
  uint64_t i = g.sweep(3 * 64 * 3);
  int suite = (int)(i % 3);
  uint64_t seq = (1ull << (i / 9)) - 1 + i / 3 % 3;
  Bytes secret = g.random_bytes(SecretSize(suite));
  Half h = Make(suite, seq, secret);
  Model m(suite, secret, seq);
  size_t n = 1 + g.below(4);
  for (size_t j = 0; j < n; ++j) Run(g, h.get(), m, g.boolean() ? kEncrypt : kDecrypt, 60);
  g.note(" suite ").note(suite).note(" seq ").note(seq);
  g.nontrivial();
}

PROPERTY(long_runs, 200, 4000,
         "1..600 operations and 1..400 consecutive key updates; non-trivial: over "
         "256 operations under one key, or over 10 updates") {
  int suite = (int)g.below(3);
  Bytes secret = g.random_bytes(SecretSize(suite));
  uint64_t seq = g.boolean() ? 0 : 65536 - g.below(600);
  Half h = Make(suite, seq, secret);
  Model m(suite, secret, seq);
  size_t n = g.range(1, 600), at = 1 + g.below(g.chance(1, 3) ? 400 : 60);
  bool many_updates = g.boolean();
  for (size_t i = 0; i < n; ++i) {
    if (many_updates && i < at) {
      REQUIRE(h->UpdateKey().ok());
      m.Update();
    }
    if (!many_updates || i + 1 >= at || i % 7 == 0) Run(g, h.get(), m, i % 2 ? kEncrypt : kDecrypt, 20);
  }
  g.nontrivial(many_updates ? at > 10 && n > at : n > 256);
}

PROPERTY(creation, 3 * 130, 3 * 130 * 8,
         "every secret size 0..129 for every ciphersuite; non-trivial: wrong "
         "size") {
  uint64_t i = g.sweep(3 * 130);
  int suite = (int)(i % 3);
  size_t n = i / 3;
  auto v = S2AHalfConnection::Create(SuiteOf(suite), g.number(), g.bytes(n));
  g.note("suite ").note(suite).note(" secret size ").note(n);
  if (n == SecretSize(suite)) {
    REQUIRE_MSG(v.index() == 1, "creation refused");
    REQUIRE(absl::get<1>(v) != nullptr);
  } else {
    REQUIRE_MSG(v.index() == 0, "a secret of size " << n << " accepted");
    REQUIRE(!absl::get<0>(v).ok());
  }
  g.nontrivial(n != SecretSize(suite));
}

PROPERTY(unknown_suites, 20000, 300000,
         "ciphersuite values outside the enumeration with secrets of any size; "
         "non-trivial: all") {
  int k = (int)g.below(300) - 100;
  if (g.chance(1, 4)) k = (int)g.u64();
  Suite s = (Suite)k;
  if (s == SuiteOf(0) || s == SuiteOf(1) || s == SuiteOf(2)) return;
  auto v = S2AHalfConnection::Create(s, g.number(), g.bytes(g.pick<size_t>({32, 48, 0, 16, 64})));
  REQUIRE_MSG(v.index() == 0, "ciphersuite " << k << " accepted");
  REQUIRE(!absl::get<0>(v).ok());
  g.nontrivial();
}
