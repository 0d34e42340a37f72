// C08: a tampered, replayed, reordered or dropped record never yields data.
#include "crypter_common.h"
using namespace rec;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

namespace {
struct Record {
  Bytes bytes, content;
  int type;  // 0 data, 1 alert, 2 handshake (key update)
};
// One direction: what was sent, and what the receiver is due next.
struct Direction {
  S2ACrypter* from;
  S2ACrypter* to;
  ref::HalfConn rx;  // For the would-be plaintext of rejected records.
  std::vector<std::vector<Record>> sent{1};  // By epoch and position.
  std::vector<std::pair<size_t, size_t>> order;
  size_t rx_epoch = 0, rx_pos = 0;
  bool closed = false;
  Bytes delivered;
  Direction(int suite, const Bytes& secret, uint64_t seq) : rx(suite, secret, seq) {}
};

struct World {
  Params a, b;
  Crypter ca, cb;
  std::vector<Direction> dir;
  explicit World(Gen& g) {
    Sink::Get().Reset();
    a = AnyParams(g);
    if (g.chance(1, 5)) {  // The same secret both ways: reflection must be
      a.out_secret = a.in_secret;  // told apart by position only.
    }
    b.suite = a.suite;
    b.in_secret = a.out_secret;
    b.out_secret = a.in_secret;
    b.in_seq = a.out_seq;
    b.out_seq = a.in_seq;
    ca = MakeRecordCrypter(a);
    cb = MakeRecordCrypter(b);
    dir.emplace_back(a.suite, a.out_secret, a.out_seq);
    dir.emplace_back(a.suite, a.in_secret, a.in_seq);
    dir[0].from = dir[1].to = ca.get();
    dir[0].to = dir[1].from = cb.get();
  }
  void Send(Gen& g, int d, int type) {
    Direction& D = dir[d];
    Record r;
    r.type = type;
    r.content = type == 0   ? g.bytes(g.chance(1, 10) ? g.size(kMaxPlain) : g.small_size(150))
                : type == 1 ? Bytes{1, 0}
                            : Bytes{0x18, 0, 0, 1, (uint8_t)g.below(2)};
    util::Mem mem;
    size_t n = r.content.size() + kOverhead;
    uint8_t* out = mem.Alloc(g, n, 0);
    auto s = D.from->Protect(type == 0 ? Type::APPLICATION_DATA : type == 1 ? Type::ALERT : Type::HANDSHAKE,
                             mem.Segments<Iovec>(g, r.content), Iovec{out, n});
    REQUIRE_MSG(s.GetCode() == Code::OK, s.GetErrorMessage());
    r.bytes.assign(out, out + n);
    D.order.push_back({D.sent.size() - 1, D.sent.back().size()});
    D.sent.back().push_back(r);
    if (type == 2) {
      REQUIRE(D.from->UpdateOutboundKey().ok());
      D.sent.emplace_back();
    }
  }
  // Delivers the bytes to the receiver of direction d.
  // would: the content of the record they were made from.
  bool Deliver(Gen& g, int d, const Bytes& bytes, const Bytes& would) {
    Direction& D = dir[d];
    Unprotected u = DoUnprotect(g, D.to, bytes);
    if (D.closed) {
      REQUIRE_MSG(u.code == Code::ALERT_CLOSE_NOTIFY, "code " << (int)u.code);
      REQUIRE_EQ(u.n, (size_t)0);
      util::RequireNoLeak(u.out.data(), u.out.size(), would, 0xA5);
      return false;
    }
    const Record* due = D.rx_epoch < D.sent.size() && D.rx_pos < D.sent[D.rx_epoch].size() ? &D.sent[D.rx_epoch][D.rx_pos] : nullptr;
    bool framed = bytes.size() >= kOverhead && bytes.size() <= kOverhead + kMaxPlain && bytes[0] == 0x17 &&
                  bytes[1] == 3 && bytes[2] == 3 && (size_t)(bytes[3] << 8 | bytes[4]) == bytes.size() - 5;
    if (due && due->bytes == bytes) {
      switch (due->type) {
        case 0: {
          REQUIRE_MSG(u.code == Code::OK, "the genuine next record was refused: " << (int)u.code);
          REQUIRE_EQ(u.n, due->content.size());
          Bytes got(u.out.begin(), u.out.begin() + u.n);
          REQUIRE_BYTES(got, due->content);
          D.delivered.insert(D.delivered.end(), got.begin(), got.end());
          break;
        }
        case 1:
          REQUIRE_MSG(u.code == Code::ALERT_CLOSE_NOTIFY, "code " << (int)u.code);
          REQUIRE_EQ(u.n, (size_t)0);
          D.closed = true;
          return true;
        default:
          REQUIRE_MSG(u.code == Code::OK, "key update refused: " << (int)u.code);
          REQUIRE_EQ(u.n, (size_t)0);
          ++D.rx_epoch;
          D.rx_pos = 0;
          D.rx.Update();
          D.rx.seq = 0;
          g.label("key update delivered");
          return true;
      }
      ++D.rx_pos;
      ++D.rx.seq;
      return true;
    }
    REQUIRE_MSG(u.code != Code::OK, "accepted a record that is not the next genuine one, " << u.n << " bytes of data");
    REQUIRE_MSG(u.code != Code::ALERT_CLOSE_NOTIFY && u.code != Code::ALERT_OTHER, "a forged alert was acted upon");
    REQUIRE_EQ(u.n, (size_t)0);
    util::RequireNoLeak(u.out.data(), u.out.size(), would, 0xA5);
    if (framed) {
      Bytes body(bytes.begin() + 5, bytes.end() - 16);
      util::RequireNoLeak(u.out.data(), u.out.size(), ref::Raw((ref::Cipher)D.rx.suite, D.rx.key, D.rx.Nonce(), body), 0xA5);
      ++D.rx_pos;
      ++D.rx.seq;
      g.label("rejected by authentication");
    } else {
      g.label("rejected by framing");
    }
    return false;
  }
};

Bytes Tamper(Gen& g, Bytes b, const Bytes& other) {
  auto fix = [&] {
    if (b.size() >= 5) {
      b[3] = (uint8_t)((b.size() - 5) >> 8);
      b[4] = (uint8_t)(b.size() - 5);
    }
  };
  switch (g.below(9)) {
    case 0:  // A bit of the body.
      b[5 + g.below(b.size() - 5)] ^= 1 << g.below(8);
      break;
    case 1:  // A bit of the tag.
      b[b.size() - 1 - g.below(16)] ^= 1 << g.below(8);
      break;
    case 2:
      b[g.below(5)] ^= 1 << g.below(8);
      break;
    case 3:  // Truncated.
      b.resize(g.below(b.size()));
      if (g.boolean()) fix();
      break;
    case 4: {  // Extended.
      Bytes x = g.bytes(1 + g.below(20));
      if (g.boolean())
        b.insert(b.end(), x.begin(), x.end());
      else
        b.insert(b.end() - 16, x.begin(), x.end());
      if (!g.chance(1, 4)) fix();
      break;
    }
    case 5: {  // The body of one record with the tag of another.
      std::copy(other.end() - 16, other.end(), b.end() - 16);
      break;
    }
    case 6: {  // Bytes swapped or removed.
      size_t i = 5 + g.below(b.size() - 5), j = 5 + g.below(b.size() - 5);
      if (g.boolean()) {
        std::swap(b[i], b[j]);
      } else {
        b.erase(b.begin() + i);
        fix();
      }
      break;
    }
    case 7:  // All of the tag replaced.
      for (size_t i = 0; i < 16; ++i) b[b.size() - 1 - i] = (uint8_t)g.below(256);
      break;
    default:  // Two records glued together.
      b.insert(b.end(), other.begin(), other.end());
      if (g.boolean()) fix();
  }
  return b;
}
}  // namespace

PROPERTY(adversary, 60000, 1200000,
         "2..30 steps: the two ends send, the adversary delivers, drops, "
         "replays, reorders, reflects, tampers or injects; non-trivial: an "
         "attack was made and a genuine record was accepted") {
  World w(g);
  size_t n = 2 + g.below(29);
  bool attacked = false, accepted = false;
  size_t next[2] = {0, 0};  // The adversary's own reading position.
  for (size_t i = 0; i < n; ++i) {
    int d = (int)g.below(2);
    Direction& D = w.dir[d];
    auto rec = [&](int dd, size_t k) -> const Record& {
      auto& o = w.dir[dd].order[k];
      return w.dir[dd].sent[o.first][o.second];
    };
    switch (g.weighted({6, 7, 2, 3, 3, 1, 1})) {
      case 0: {
        int t = (int)g.weighted({20, 1, 3});
        w.Send(g, d, t);
        g.note(t == 0 ? "send" : t == 1 ? "close" : "update").note(d).note(" ");
        break;
      }
      case 1: {  // Honest delivery of the next record in line.
        if (next[d] >= D.order.size()) break;
        size_t at = next[d]++;
        bool ok = w.Deliver(g, d, rec(d, at).bytes, rec(d, at).content);
        accepted = accepted || ok;
        g.note(ok ? "deliver" : "late").note(d).note(" ");
        break;
      }
      case 2:  // Drop.
        if (next[d] >= D.order.size()) break;
        ++next[d];
        attacked = true;
        g.label("drop");
        g.note("drop").note(d).note(" ");
        break;
      case 3: {  // Replay or deliver early.
        if (D.order.empty()) break;
        size_t k = g.below(D.order.size());
        bool ok = w.Deliver(g, d, rec(d, k).bytes, rec(d, k).content);
        accepted = accepted || ok;
        attacked = true;
        g.label("replay or reorder");
        g.note("any").note(d).note("[").note(k).note("] ");
        break;
      }
      case 4: {  // Tamper.
        if (D.order.empty()) break;
        size_t k = g.boolean() && next[d] < D.order.size() ? next[d]++ : g.below(D.order.size());
        Bytes t = Tamper(g, rec(d, k).bytes, rec(d, g.below(D.order.size())).bytes);
        w.Deliver(g, d, t, rec(d, k).content);
        attacked = true;
        g.label("tamper");
        g.note("tamper").note(d).note("[").note(k).note("] ");
        break;
      }
      case 5: {  // Reflect.
        auto& o = w.dir[1 - d].order;
        if (o.empty()) break;
        size_t k = g.below(o.size());
        // With equal secrets a reflected record can be the genuine next one
        // only if the bytes agree, which the oracle handles.
        if (w.a.in_secret == w.a.out_secret) break;
        w.Deliver(g, d, rec(1 - d, k).bytes, rec(1 - d, k).content);
        attacked = true;
        g.label("reflect");
        g.note("reflect").note(d).note(" ");
        break;
      }
      default: {  // Inject.
        Bytes r = g.bytes(g.small_size(60) + 5);
        if (g.boolean()) {
          r[0] = 0x17;
          r[1] = r[2] = 3;
          r[3] = (uint8_t)((r.size() - 5) >> 8);
          r[4] = (uint8_t)(r.size() - 5);
        }
        w.Deliver(g, d, r, {});
        attacked = true;
        g.label("inject");
        g.note("inject").note(d).note(" ");
      }
    }
  }
  // Whatever was delivered is a subsequence by position of what was sent.
  g.nontrivial(attacked && accepted);
}

PROPERTY(every_bit, 3 * 8 * 64, 3 * 8 * 64 * 20,
         "every single-bit flip of a 64-byte record, then the genuine record at "
         "the next position; non-trivial: all") {
  uint64_t i = g.sweep(3 * 8 * 64);
  World w(g);
  Direction& D = w.dir[0];
  size_t before = g.below(3);
  for (size_t k = 0; k < before; ++k) w.Send(g, 0, 0);
  for (size_t k = 0; k < before; ++k) w.Deliver(g, 0, D.sent[0][k].bytes, D.sent[0][k].content);
  // One record of exactly 64 bytes.
  Record r;
  r.type = 0;
  r.content = g.bytes(64 - kOverhead);
  util::Mem mem;
  uint8_t* out = mem.Alloc(g, 64, 0);
  auto s = D.from->Protect(Type::APPLICATION_DATA, mem.Segments<Iovec>(g, r.content), Iovec{out, 64});
  REQUIRE(s.GetCode() == Code::OK);
  r.bytes.assign(out, out + 64);
  D.order.push_back({0, D.sent[0].size()});
  D.sent[0].push_back(r);
  w.Send(g, 0, 0);
  Bytes t = r.bytes;
  size_t bit = i / 3;
  t[bit / 8] ^= 1 << (bit % 8);
  w.Deliver(g, 0, t, r.content);
  // A framing error does not use up the position, an authentication failure does.
  const Record& next = D.sent[0][D.rx_pos];
  REQUIRE_MSG(w.Deliver(g, 0, next.bytes, next.content), "the next genuine record was refused");
  g.note("bit ").note(bit);
  g.nontrivial();
}

PROPERTY(positions, 20 * 20 * 2, 20 * 20 * 2 * 20,
         "any record of twenty delivered at any position (replay, reordering, "
         "drop) with a key update in between or not; non-trivial: wrong position") {
  uint64_t i = g.sweep(800);
  size_t pos = i % 20, k = i / 20 % 20;
  bool update = i >= 400;
  World w(g);
  Direction& D = w.dir[0];
  size_t at = g.range(0, 19);
  for (size_t j = 0; j < 20; ++j) w.Send(g, 0, update && j == at ? 2 : 0);
  auto rec = [&](size_t j) -> const Record& { return D.sent[D.order[j].first][D.order[j].second]; };
  for (size_t j = 0; j < pos; ++j) REQUIRE(w.Deliver(g, 0, rec(j).bytes, rec(j).content));
  w.Deliver(g, 0, rec(k).bytes, rec(k).content);
  if (pos + 1 < 20) w.Deliver(g, 0, rec(pos + 1).bytes, rec(pos + 1).content);
  g.note("record ").note(k).note(" at position ").note(pos).note(update ? " with update" : "");
  g.nontrivial(k != pos);
}
