// C24: failures of the SSL library are reported, never turn into data, and
// leave every object in a known state.
#include "fault.h"
#include "frame_common.h"
#include "src/crypto/hkdf.h"
#include "src/record_protocol/s2a_half_connection.h"

using namespace rec;
using s2a::aead_crypter::S2AAeadCrypter;
using s2a::record_protocol::S2AHalfConnection;
using fault::Arm;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

// Where the next operation fails; mostly within its first few calls.
static uint64_t AnyPoint(Gen& g, uint64_t usual) {
  switch (g.weighted({2, 5, 1})) {
    case 0:
      return 1000000;  // Not at all.
    case 1:
      return g.below(usual);
    default:
      return g.below(60);
  }
}
static void NoteFault(Gen& g) {
  if (!fault::fired) return;
  g.note(" ").note(fault::where).note(fault::after ? " fails after its work" : " fails");
  g.label(fault::where);
  g.nontrivial();
}
static absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> CreateAead(ref::Cipher c, const Bytes& key) {
  return c == ref::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key)
                               : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
}

PROPERTY(aead, 60000, 1200000,
         "1..6 encryptions, decryptions and forgeries on one crypter, each with "
         "a library call failing at a generated point; non-trivial: a call "
         "failed") {
  ref::Cipher c = (ref::Cipher)g.below(3);
  Bytes key = g.random_bytes(ref::KeySize(c));
  auto v = CreateAead(c, key);
  REQUIRE(v.index() == 1);
  S2AAeadCrypter& cr = *absl::get<1>(v);
  size_t n = 1 + g.below(6);
  for (size_t i = 0; i < n; ++i) {
    util::Mem mem;
    Bytes nonce = g.random_bytes(12), aad = g.bytes(g.small_size(40)), pt = g.random_bytes(g.small_size(300));
    Bytes ct = ref::Seal(c, key, nonce, aad, pt);
    auto ia = mem.Segments<Iovec>(g, aad);
    size_t op = g.below(3);
    uint64_t at = AnyPoint(g, 7);
    bool after = g.boolean(), queue = g.boolean();
    g.note(op == 0 ? "E" : op == 1 ? "D" : "F");
    if (op == 0) {
      auto ip = mem.Segments<Iovec>(g, pt);
      uint8_t* out = mem.Alloc(g, ct.size(), 0xA5);
      Arm a(at, after, queue);
      auto s = cr.Encrypt(nonce, ia, ip, Iovec{out, ct.size()});
      if (fault::fired) {
        REQUIRE_MSG(!s.GetStatus().ok(), fault::where << " failed, encryption succeeded");
        REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
      } else {
        REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
        REQUIRE_EQ(s.GetBytesWritten(), ct.size());
        REQUIRE_BYTES(Bytes(out, out + ct.size()), ct);
      }
    } else {
      if (op == 2) ct[g.below(ct.size())] ^= 1 << g.below(8);
      auto ic = mem.Segments<Iovec>(g, ct);
      size_t room = pt.size() + (g.chance(1, 3) ? g.below(40) : 0);
      uint8_t* out = mem.Alloc(g, room, 0xA5);
      Arm a(at, after, queue);
      auto s = cr.Decrypt(nonce, ia, ic, Iovec{out, room});
      if (fault::fired || op == 2) {
        REQUIRE_MSG(!s.GetStatus().ok(), fault::where << " failed or forged, decryption succeeded");
        REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
        util::RequireNoLeak(out, room, ref::Raw(c, key, nonce, util::Sub(ct, 0, pt.size())), 0xA5);
      } else {
        REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
        REQUIRE_EQ(s.GetBytesWritten(), pt.size());
        REQUIRE_BYTES(Bytes(out, out + pt.size()), pt);
      }
    }
    NoteFault(g);
    mem.Check();
  }
  ERR_clear_error();
}

PROPERTY(creation, 4000, 60000,
         "creating AEAD crypters, half connections, record crypters and frame "
         "protectors with a library call failing; non-trivial: a call failed") {
  int what = (int)g.below(4);
  Params p = AnyParams(g);
  bool after = g.boolean(), queue = g.boolean();
  if (what == 0) {
    ref::Cipher c = (ref::Cipher)p.suite;
    Bytes key = g.random_bytes(ref::KeySize(c));
    Arm a(AnyPoint(g, 4), after, queue);
    auto v = CreateAead(c, key);
    REQUIRE_MSG(v.index() == (fault::fired ? 0 : 1), fault::where);
    if (fault::fired) REQUIRE(!absl::get<0>(v).ok());
  } else if (what == 1) {
    Arm a(AnyPoint(g, 14), after, queue);
    auto v = S2AHalfConnection::Create(SuiteOf(p.suite), p.in_seq, p.in_secret);
    REQUIRE_MSG(v.index() == (fault::fired ? 0 : 1), fault::where);
    if (fault::fired) REQUIRE(!absl::get<0>(v).ok());
  } else if (what == 2) {
    Arm a(AnyPoint(g, 28), after, queue);
    auto v = S2ACrypter::Create(S2AOptions::TlsVersion::TLS1_3, SuiteOf(p.suite), p.id, p.url, p.identity, p.in_secret,
                                p.out_secret, p.in_seq, p.out_seq, &RecordTickets, nullptr, nullptr,
                                [](const std::string&) {});
    REQUIRE_MSG(v.index() == (fault::fired ? 0 : 1), fault::where);
    if (fault::fired) REQUIRE(!absl::get<0>(v).ok());
  } else {
    Ledger l;
    S2AFrameProtector::S2AFrameProtectorOptions o = {S2AOptions::TlsVersion::TLS1_3,
                                                     SuiteOf(p.suite),
                                                     p.in_secret,
                                                     p.out_secret,
                                                     p.in_seq,
                                                     p.out_seq,
                                                     p.url,
                                                     p.identity,
                                                     p.id,
                                                     nullptr,
                                                     nullptr,
                                                     [&](size_t n) { return l.Allocate(n); },
                                                     [&](Iovec v) { l.Release(v); },
                                                     [](const std::string&) {}};
    Arm a(AnyPoint(g, 28), after, queue);
    auto r = S2AFrameProtector::Create(o);
    REQUIRE_MSG(r.ok() == !fault::fired, fault::where);
    l.Check();
  }
  g.note(what).note(" suite ").note(p.suite);
  NoteFault(g);
  ERR_clear_error();
}

PROPERTY(derivation, 10000, 200000,
         "key derivations with a library call failing at a generated point; "
         "non-trivial: a call failed") {
  int h = (int)g.below(2);
  Bytes prk = g.bytes(ref::HashSize((ref::Hash)h) + g.small_size(20)), info = g.bytes(g.small_size(60));
  Bytes out(g.small_size(400), 0xA5);
  Bytes want = ref::HkdfExpand((ref::Hash)h, prk, info, out.size());
  bool after = g.boolean(), queue = g.boolean();
  Arm a(AnyPoint(g, 10), after, queue);
  auto s = s2a::hkdf::HkdfDeriveSecret(h ? s2a::hkdf::HashFunction::SHA384_hash_function
                                         : s2a::hkdf::HashFunction::SHA256_hash_function,
                                       prk, info, out);
  if (fault::fired) {
    REQUIRE_MSG(!s.ok(), fault::where << " failed, derivation succeeded");
  } else {
    REQUIRE_MSG(s.ok(), s.ToString());
    REQUIRE_BYTES(out, want);
  }
  g.note(out.size()).note(" bytes");
  NoteFault(g);
  ERR_clear_error();
}

PROPERTY(half_connections, 40000, 800000,
         "1..8 operations and key updates on a half connection with library "
         "calls failing; after a failed update nothing works; non-trivial: a "
         "call failed") {
  int suite = (int)g.below(3);
  Bytes secret = g.random_bytes(SecretSize(suite));
  uint64_t seq = AnySequence(g);
  auto v = S2AHalfConnection::Create(SuiteOf(suite), seq, secret);
  REQUIRE(v.index() == 1);
  S2AHalfConnection& h = *absl::get<1>(v);
  ref::HalfConn m(suite, secret, seq);
  bool dead = false;
  g.note("suite ").note(suite).note(": ");
  for (size_t n = 1 + g.below(8); n > 0; --n) {
    util::Mem mem;
    size_t op = g.weighted({3, 3, 2});
    bool after = g.boolean(), queue = g.boolean();
    uint64_t at = AnyPoint(g, op == 2 ? 18 : 7);
    if (op == 2) {
      g.note("U");
      Arm a(at, after, queue);
      auto s = h.UpdateKey();
      if (fault::fired) {
        REQUIRE_MSG(!s.ok(), fault::where << " failed, key update succeeded");
        dead = true;
        g.label("failed update");
      } else if (!dead) {
        REQUIRE_MSG(s.ok(), s.ToString());
        m.Update();
        m.seq = 0;
      }
      NoteFault(g);
      continue;
    }
    Bytes pt = g.random_bytes(g.small_size(200)), aad = g.bytes(g.small_size(20));
    Bytes ct = m.SealAt(m.seq, aad, pt);
    auto ia = mem.Segments<Iovec>(g, aad);
    g.note(op ? "D" : "E");
    if (op == 0) {
      auto ip = mem.Segments<Iovec>(g, pt);
      uint8_t* out = mem.Alloc(g, ct.size(), 0xA5);
      Arm a(at, after, queue);
      auto s = h.Encrypt(ia, ip, Iovec{out, ct.size()});
      if (fault::fired || dead) {
        REQUIRE_MSG(!s.GetStatus().ok(), (dead ? "encryption after a failed key update" : fault::where));
        REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
        if (dead)
          for (size_t i = 0; i < ct.size(); ++i) REQUIRE_MSG(out[i] == 0xA5, "output after a failed key update");
      } else {
        REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
        REQUIRE_BYTES(Bytes(out, out + ct.size()), ct);
      }
    } else {
      auto ic = mem.Segments<Iovec>(g, ct);
      uint8_t* out = mem.Alloc(g, pt.size() ? pt.size() : 1, 0xA5);
      Arm a(at, after, queue);
      auto s = h.Decrypt(ia, ic, Iovec{out, pt.size()});
      if (fault::fired || dead) {
        REQUIRE_MSG(!s.GetStatus().ok(), (dead ? "decryption after a failed key update" : fault::where));
        REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
        util::RequireNoLeak(out, pt.size(), pt, 0xA5);
      } else {
        REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
        REQUIRE_BYTES(Bytes(out, out + pt.size()), pt);
      }
    }
    ++m.seq;  // An attempt uses its number up.
    NoteFault(g);
    mem.Check();
  }
  ERR_clear_error();
}

PROPERTY(records, 30000, 600000,
         "1..8 records in and out, key updates in both directions, with library "
         "calls failing: a failed record yields nothing and uses up its number, "
         "a direction whose key update failed carries no further record; "
         "non-trivial: a call failed") {
  Sink::Get().Reset();
  Params p = AnyParams(g);
  auto c = MakeRecordCrypter(p);
  ref::HalfConn in(p.suite, p.in_secret, p.in_seq), out(p.suite, p.out_secret, p.out_seq);
  bool out_dead = false, in_unsure = false, in_dead = false;
  g.note("suite ").note(p.suite).note(": ");
  for (size_t n = 1 + g.below(8); n > 0; --n) {
    util::Mem mem;
    size_t op = g.weighted({3, 3, 1, 2});
    bool after = g.boolean(), queue = g.boolean();
    uint64_t at = AnyPoint(g, op >= 2 ? 24 : 7);
    if (op == 0) {
      g.note("P");
      Bytes pt = g.random_bytes(g.small_size(200));
      Bytes want = out.RecordAt(out.seq, Inner(pt, 0x17, 0));
      auto ip = mem.Segments<Iovec>(g, pt);
      uint8_t* buf = mem.Alloc(g, want.size(), 0xA5);
      Arm a(at, after, queue);
      auto s = c->Protect(Type::APPLICATION_DATA, ip, Iovec{buf, want.size()});
      if (fault::fired || out_dead) {
        REQUIRE_MSG(s.GetCode() != Code::OK, (out_dead ? "record after a failed key update" : fault::where));
        REQUIRE_EQ(s.GetBytesWritten(), (size_t)0);
        util::RequireNoLeak(buf + 5, pt.size() + 17, Bytes(want.begin() + 5, want.end()), 0xA5);
      } else {
        REQUIRE_MSG(s.GetCode() == Code::OK, s.GetErrorMessage());
        REQUIRE_BYTES(Bytes(buf, buf + want.size()), want);
      }
      ++out.seq;
    } else if (op == 1) {
      g.note("R");
      Bytes pt = g.random_bytes(g.small_size(200));
      Bytes r = in.RecordAt(in.seq, Inner(pt, 0x17, g.chance(1, 4) ? g.below(20) : 0));
      Arm a(at, after, queue);
      auto u = DoUnprotect(g, c.get(), r);
      if (u.code == Code::OK && !in_dead && !fault::fired) {
        REQUIRE_EQ(u.n, pt.size());
        REQUIRE_BYTES(Bytes(u.out.begin(), u.out.begin() + u.n), pt);
        in_unsure = false;
      } else {
        REQUIRE_MSG(u.code != Code::OK, (in_dead ? "record after a failed key update" : fault::where));
        REQUIRE_MSG(fault::fired || in_dead || in_unsure, "a good record refused, code " << (int)u.code);
        REQUIRE_EQ(u.n, (size_t)0);
        util::RequireNoLeak(u.out.data(), u.out.size(), pt, 0xA5);
        if (in_unsure && !fault::fired) in_dead = true;
      }
      ++in.seq;
    } else if (op == 2) {
      g.note("U");
      Arm a(at, after, queue);
      auto s = c->UpdateOutboundKey();
      if (fault::fired) {
        REQUIRE_MSG(!s.ok(), fault::where << " failed, key update succeeded");
        out_dead = true;
        g.label("failed outbound update");
      } else if (!out_dead) {
        REQUIRE_MSG(s.ok(), s.ToString());
        out.Update();
        out.seq = 0;
      }
    } else {
      g.note("K");
      Bytes r = in.RecordAt(in.seq, Inner(HandshakeMessage(24, {0}), 0x16, 0));
      Arm a(at, after, queue);
      auto u = DoUnprotect(g, c.get(), r);
      REQUIRE_EQ(u.n, (size_t)0);
      if (u.code == Code::OK && !in_dead && !fault::fired) {
        in.Update();
        in.seq = 0;
        in_unsure = false;
      } else {
        REQUIRE_MSG(u.code != Code::OK, (in_dead ? "key update after a failed key update" : fault::where));
        REQUIRE_MSG(fault::fired || in_dead || in_unsure, "a good key update refused, code " << (int)u.code);
        // Either the record was lost, or the update failed, and then nothing
        // works any more.
        if (in_unsure && !fault::fired) in_dead = true;
        if (fault::fired) {
          in_unsure = true;
          g.label("failed inbound update");
        }
        ++in.seq;
      }
    }
    NoteFault(g);
    mem.Check();
  }
  ERR_clear_error();
}

PROPERTY(frames, 8000, 150000,
         "1..4 messages of up to 4 records through a frame protector, both ways, "
         "with library calls failing: an error and no buffer; records never "
         "repeat a sequence number; non-trivial: a call failed") {
  Params p = AnyParams(g);
  Ledger l;
  Frame f = MakeFrame(p, &l);
  ref::HalfConn in(p.suite, p.in_secret, p.in_seq), out(p.suite, p.out_secret, p.out_seq);
  g.note("suite ").note(p.suite).note(": ");
  uint64_t out_slack = 0, in_slack = 0;  // How many more numbers may be used up.
  for (size_t n = 1 + g.below(4); n > 0; --n) {
    util::Mem mem;
    Bytes pt = g.random_bytes(g.chance(1, 4) ? g.below(4) * kMaxPlain + g.small_size(kMaxPlain) : g.small_size(300));
    bool after = g.boolean(), queue = g.boolean();
    uint64_t records = pt.empty() ? 1 : (pt.size() + kMaxPlain - 1) / kMaxPlain;
    uint64_t at = AnyPoint(g, 7 * records);
    if (g.boolean()) {
      g.note("P").note(pt.size());
      auto ip = mem.Segments<Iovec>(g, pt);
      Arm a(at, after, queue);
      auto r = f->Protect(ip);
      if (fault::fired) {
        REQUIRE_MSG(!r.status.ok(), fault::where << " failed, Protect succeeded");
        REQUIRE(r.bytes.empty());
        l.Check();
        out_slack += records;
      } else {
        REQUIRE_MSG(r.status.ok(), r.status.ToString());
        Bytes got = l.Take(r.bytes);
        // The records of failed messages may or may not have used numbers up.
        bool found = false;
        for (uint64_t d = 0; d <= out_slack && !found; ++d) {
          ref::HalfConn t = out;
          t.seq += d;
          if (Join(ReferenceRecords(t, pt)) == got) {
            out = t;
            found = true;
          }
        }
        REQUIRE_MSG(found, "no sequence number explains the records");
        out_slack = 0;
      }
    } else {
      g.note("U").note(pt.size());
      ref::HalfConn t = in;
      // After a failure the peer is at most as far as the records it sent.
      uint64_t d = in_slack ? g.below(in_slack + 1) : 0;
      t.seq += d;
      auto rs = ReferenceRecords(t, pt);
      Bytes all = Join(rs);
      auto ic = mem.Segments<Iovec>(g, all);
      Arm a(at, after, queue);
      auto r = f->Unprotect(ic);
      if (r.status.ok()) {
        REQUIRE_MSG(!fault::fired, fault::where << " failed, Unprotect succeeded");
        REQUIRE_BYTES(l.Take(r.bytes), pt);
        in = t;
        in_slack = 0;
      } else {
        REQUIRE_MSG(fault::fired || in_slack, r.status.ToString());
        REQUIRE(r.bytes.empty());
        l.Check();
        in_slack += records;
      }
    }
    NoteFault(g);
    mem.Check();
  }
  ERR_clear_error();
}
