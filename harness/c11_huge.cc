// C11: messages longer than 2^32 bytes.
#include <sys/mman.h>

#include "alias.h"
#include "crypter_common.h"
#include "frame_common.h"

using namespace rec;

PROPERTY(huge_messages, 2, 4,
         "a message of about 2^31 or 2^32 bytes through one frame protector as one call, its records sampled against the "
         "reference and all given to the peer in one call; non-trivial: all") {
  constexpr size_t kRecord = 16384, kOver = 22;
  Params p;
  p.suite = (int)g.below(3);
  p.in_secret = g.random_bytes(SecretSize(p.suite));
  p.out_secret = g.random_bytes(SecretSize(p.suite));
  Params q = Peer(p);
  size_t n = (g.sweep(2) ? (1ull << 31) : (1ull << 32)) + g.below(40000);
  size_t records = (n + kRecord - 1) / kRecord, total = n + records * kOver;
  bool caller = g.boolean();
  uint64_t salt = g.u64();
  g.note("suite ").note(p.suite).note(" bytes ").note(n).note(caller ? " caller's buffer" : "");
  util::Alias in(n);
  in.Fill(salt);
  struct Mapped {
    size_t n;
    uint8_t* p;
    explicit Mapped(size_t n) : n(n), p((uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) {
      REQUIRE_MSG(p != MAP_FAILED, "no memory");
    }
    ~Mapped() { munmap(p, n); }
  } wire(total);
  // What is received is looked at piece by piece, the last pieces only.
  constexpr size_t kSlots = 256, kSlot = 17000;
  Bytes slots(kSlots * kSlot);
  size_t handed = 0, returned = 0, asked = 0;
  auto make = [&](const Params& a, std::function<Iovec(size_t)> alloc) {
    S2AFrameProtector::S2AFrameProtectorOptions o = {S2AOptions::TlsVersion::TLS1_3, SuiteOf(a.suite), a.in_secret, a.out_secret,
                                                     a.in_seq, a.out_seq, a.url, a.identity, a.id,
                                                     std::unique_ptr<S2AChannelFactoryInterface>(new Factory), nullptr, alloc,
                                                     [&](Iovec) { ++returned; }, [](const std::string&) {}};
    auto r = S2AFrameProtector::Create(o);
    REQUIRE_MSG(r.ok(), r.status().ToString());
    return std::move(*r);
  };
  Frame a = make(p, [&](size_t k) {
    ++handed;
    asked = k;
    return Iovec{wire.p, std::min(k, total)};
  });
  Frame b = make(q, [&](size_t k) {
    size_t i = handed++ % kSlots;
    if (k > kSlot) return Iovec{nullptr, 0};
    return Iovec{slots.data() + i * kSlot, k};
  });
  std::vector<Iovec> pieces;
  size_t cut = g.boolean() ? g.below(100000) : 0;
  if (cut) pieces.push_back({in.data(), cut});
  pieces.push_back({in.data() + cut, n - cut});
  REQUIRE_EQ(a->NumberBytesToProtect(n), total);
  REQUIRE_EQ(a->NumberBytesToProtect(pieces), total);
  if (caller) {
    Iovec o{wire.p, total};
    auto s = a->Protect(pieces, o);
    REQUIRE_MSG(s.ok(), s.ToString());
    REQUIRE_EQ(o.iov_len, total);
  } else {
    auto r = a->Protect(pieces);
    REQUIRE_MSG(r.status.ok(), r.status.ToString());
    REQUIRE_EQ(asked, total);
    REQUIRE_EQ(handed, (size_t)1);
    REQUIRE(r.bytes.size() == 1 && r.bytes[0].iov_base == wire.p && r.bytes[0].iov_len == total);
  }
  ref::HalfConn h(p.suite, p.out_secret, p.out_seq);
  auto content = [&](size_t i) {
    size_t at = i * kRecord;
    return Bytes(in.data() + at, in.data() + std::min(n, at + kRecord));
  };
  for (int t = 0; t < 60; ++t) {
    size_t i = t < 20 ? records - 1 - t : t < 30 ? t - 20 : g.below(records);
    if (t >= 50) i = std::min<uint64_t>(records - 1, ((t % 2 ? 1ull << 32 : 1ull << 31) / (kRecord + (t % 4 < 2 ? kOver : 0))) - 5 + t % 10);
    Bytes want = h.RecordAt(p.out_seq + i, Inner(content(i), 0x17, 0));
    REQUIRE_MSG(memcmp(wire.p + i * (kRecord + kOver), want.data(), want.size()) == 0, "record " << i << " of " << records << " differs");
  }
  handed = 0;
  std::vector<Iovec> sent;
  size_t to = g.boolean() ? g.below(100000) : 0;
  if (to) sent.push_back({wire.p, to});
  sent.push_back({wire.p + to, total - to});
  auto r = b->Unprotect(sent);
  REQUIRE_MSG(r.status.ok(), r.status.ToString());
  REQUIRE_EQ(returned, (size_t)0);
  REQUIRE_EQ(handed, records);
  REQUIRE_EQ(r.bytes.size(), records);
  size_t sum = 0;
  for (size_t i = 0; i < records; ++i) {
    sum += r.bytes[i].iov_len;
    REQUIRE_MSG(r.bytes[i].iov_base == slots.data() + i % kSlots * kSlot, "record " << i << " is not where it was written");
    if (i + kSlots < records) continue;
    Bytes want = content(i);
    REQUIRE_MSG(r.bytes[i].iov_len == want.size() && memcmp(r.bytes[i].iov_base, want.data(), want.size()) == 0,
                "received record " << i << " differs");
  }
  REQUIRE_EQ(sum, n);
  g.nontrivial();
}
