// C09: handshake message parsing is independent of fragmentation.
#include "pbt.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "util.h"

using pbt::Bytes;
using pbt::Gen;
using s2a::handshake_message_handler::HandshakeMessageHandler;

namespace {

// Reference: parses the concatenation of all bytes, message by message.
struct Model {
  Bytes cur;  // Bytes of the incomplete message.
  std::vector<Bytes> tickets;
  bool retrieved = false;
  struct Out {
    bool error = false, expecting = false, ku = false, ticket = false, ku_complete = false;
    int ku_type = -1;  // -1: unspecified
    size_t stored = 0;
  };
  Out Record(const Bytes& r) {
    Out o;
    for (size_t i = 0; i < r.size(); ++i) {
      cur.push_back(r[i]);
      uint8_t type = cur[0];
      if (type != 0x04 && type != 0x18) {
        o.error = true;
        return o;
      }
      (type == 0x04 ? o.ticket : o.ku) = true;
      if (cur.size() < 4) continue;
      size_t len = (cur[1] << 16) | (cur[2] << 8) | cur[3];
      if (cur.size() < 4 + len) continue;
      if (type == 0x18) {
        if (i + 1 < r.size()) {
          o.error = true;
          return o;
        }
        o.ku_complete = true;
        if (len >= 1) o.ku_type = cur[4];
      } else if (!retrieved && tickets.size() < 5) {
        tickets.push_back(cur);
      }
      cur.clear();
    }
    o.expecting = !cur.empty();
    o.stored = tickets.size();
    return o;
  }
};

Bytes Message(uint8_t type, const Bytes& data) {
  Bytes m = {type, (uint8_t)(data.size() >> 16), (uint8_t)(data.size() >> 8), (uint8_t)data.size()};
  m.insert(m.end(), data.begin(), data.end());
  return m;
}

struct Pair {
  HandshakeMessageHandler h;
  Model m;
  size_t retrievals = 0, records = 0;
  // False once an error has been reported.
  bool Feed(Gen& g, const Bytes& rec) {
    util::Mem mem;
    uint8_t* p = mem.Input(g, rec);
    auto r = h.ProcessHandshakeMessage(p, rec.size());
    Model::Out o = m.Record(rec);
    ++records;
    if (o.error) {
      REQUIRE_MSG(r.index() == 0 && !absl::get<0>(r).ok(), "record " << records << ": error expected");
      g.label("error");
      mem.Check();
      return false;
    }
    REQUIRE_MSG(r.index() == 1, "record " << records << ": " << absl::get<0>(r).ToString());
    auto& x = absl::get<1>(r);
    REQUIRE_EQ(x.expecting_to_read_more_bytes, o.expecting);
    REQUIRE_EQ(x.contains_key_update, o.ku);
    REQUIRE_EQ(x.contains_ticket, o.ticket);
    REQUIRE_EQ(x.num_full_tickets_stored, o.stored);
    if (o.ku_complete && o.ku_type >= 0) REQUIRE_EQ((int)x.key_update_type, o.ku_type);
    mem.Check();
    return true;
  }
  void Retrieve(Gen& g) {
    auto r = h.GetStoredTickets();
    bool mid_ticket = !m.cur.empty() && m.cur[0] == 0x04;
    if (m.retrieved || mid_ticket) {
      REQUIRE_MSG(r.index() == 0 && !absl::get<0>(r).ok(),
                  (m.retrieved ? "tickets retrieved twice" : "tickets retrieved in the middle of a ticket"));
      g.label(m.retrieved ? "second retrieval refused" : "retrieval mid-ticket refused");
      return;
    }
    REQUIRE_MSG(r.index() == 1, absl::get<0>(r).ToString());
    auto& v = absl::get<1>(r);
    REQUIRE(v != nullptr);
    REQUIRE_EQ(v->size(), m.tickets.size());
    for (size_t i = 0; i < v->size(); ++i) {
      Bytes b;
      REQUIRE((*v)[i] != nullptr);
      for (auto& f : *(*v)[i]) {
        REQUIRE(f != nullptr);
        b.insert(b.end(), f->begin(), f->end());
      }
      REQUIRE_BYTES(b, m.tickets[i]);
    }
    g.label("retrieved " + std::to_string(v->size()));
    m.tickets.clear();
    m.retrieved = true;
    ++retrievals;
  }
};

size_t TicketSize(Gen& g) {
  switch (g.weighted({4, 2, 2, 1, 1})) {
    case 0:
      return g.below(6);
    case 1:
      return g.small_size(300);
    case 2:
      return g.size(3000);
    case 3:
      return g.size(20000);
    default:
      return g.size(70000);
  }
}

// Cuts a stream into records; a cut is forced after each key update unless
// the case is meant to break that rule.
std::vector<Bytes> Cut(Gen& g, const Bytes& s, const std::vector<size_t>& forced) {
  std::vector<Bytes> recs;
  size_t at = 0, fi = 0;
  size_t mode = g.below(5);
  size_t step = 1 + g.below(mode == 1 ? 3 : 40);
  while (at < s.size()) {
    while (fi < forced.size() && forced[fi] <= at) ++fi;
    size_t limit = fi < forced.size() ? forced[fi] : s.size();
    size_t n = limit - at;
    if (mode == 1 || mode == 2) n = std::min(n, s.size() > 3000 ? step * 100 : step);
    if (mode == 3) n = std::min(n, 1 + g.size(n));
    if (mode == 4) n = 1 + g.below(n);
    if (recs.size() > 300) n = limit - at;
    if (g.chance(1, 12)) recs.push_back({});
    recs.push_back(util::Sub(s, at, n));
    at += n;
  }
  return recs;
}

}  // namespace

PROPERTY(histories, 200000, 3000000,
         "streams of 1..12 tickets (0..70000 bytes) and key updates cut into "
         "records in any way, tickets retrieved at random points; "
         "non-trivial: some message is split over records") {
  Pair p;
  size_t n = 1 + g.below(12);
  Bytes s;
  std::vector<size_t> forced;
  bool split = false;
  bool rule = !g.chance(1, 12);
  for (size_t i = 0; i < n; ++i) {
    Bytes m;
    if (g.weighted({3, 1})) {
      m = Message(0x18, {(uint8_t)(g.boolean() ? g.below(2) : g.below(256))});
      g.note("K");
    } else {
      size_t t = TicketSize(g);
      m = Message(0x04, g.bytes(t));
      g.note("T").note(t);
    }
    g.note(" ");
    s.insert(s.end(), m.begin(), m.end());
    if (m[0] == 0x18 && rule) forced.push_back(s.size());
  }
  if (g.chance(1, 15)) {  // A foreign message.
    Bytes m = Message((uint8_t)g.below(256), g.bytes(g.below(6)));
    s.insert(s.end(), m.begin(), m.end());
    g.note("X").note((int)m[0]);
  }
  if (g.chance(1, 4)) s.resize(g.below(s.size()) + 1);  // Ends mid-message.
  auto recs = Cut(g, s, forced);
  g.note(" in ").note(recs.size()).note(" records");
  for (auto& r : recs) {
    if (!p.Feed(g, r)) {
      g.nontrivial(split);
      return;
    }
    split |= !p.m.cur.empty();
    if (g.chance(1, 10)) p.Retrieve(g);
  }
  p.Retrieve(g);
  if (g.boolean()) p.Retrieve(g);
  g.nontrivial(split);
}

PROPERTY(every_cut, 40 * 4096, 40 * 4096 * 4,
         "short streams cut at every subset of positions; non-trivial: some "
         "message is split over records") {
  uint64_t mask = g.sweep(4096);
  static const std::vector<std::vector<int>> kinds = {
      // -1: key update, n >= 0: ticket with n bytes
      {0}, {1}, {2, 0}, {0, 0, 0}, {-1, 1}, {1, -1}, {-1, -1}, {0, -1}, {-1, 0}, {5}, {1, 1}, {0, 1}, {8}};
  const auto& k = kinds[g.below(kinds.size())];
  Bytes s;
  std::set<size_t> ends;
  for (int x : k) {
    Bytes m = x < 0 ? Message(0x18, {(uint8_t)g.below(256)}) : Message(0x04, g.bytes(x));
    s.insert(s.end(), m.begin(), m.end());
    if (x < 0) ends.insert(s.size());
    g.note(x).note(" ");
  }
  bool rule = g.below(8) != 7;
  Pair p;
  Bytes rec;
  bool split = false;
  for (size_t i = 0; i < s.size(); ++i) {
    rec.push_back(s[i]);
    bool cut = (mask >> (i % 12)) & 1;
    if (cut || i + 1 == s.size() || (rule && ends.count(i + 1))) {
      if (!p.Feed(g, rec)) return;
      split |= !p.m.cur.empty();
      rec.clear();
    }
  }
  g.note("mask ").note(mask);
  p.Retrieve(g);
  g.nontrivial(split);
}

PROPERTY(limits, 100000, 300000,
         "around the limit of five: 3..9 small tickets with retrieval at "
         "every point; non-trivial: more than five tickets sent") {
  uint64_t i = g.sweep(7 * 12);
  size_t n = 3 + i % 7, at = i / 7;
  Pair p;
  Bytes s;
  for (size_t q = 0; q < n; ++q) {
    Bytes m = Message(0x04, g.bytes(g.below(4)));
    s.insert(s.end(), m.begin(), m.end());
  }
  auto recs = Cut(g, s, {});
  g.note(n).note(" tickets, retrieval after record ").note(at);
  size_t r = 0;
  for (auto& x : recs) {
    REQUIRE(p.Feed(g, x));
    if (++r == at) p.Retrieve(g);
  }
  p.Retrieve(g);
  p.Retrieve(g);
  g.nontrivial(n > 5);
}

PROPERTY(any_bytes, 300000, 3000000,
         "arbitrary records, biased to valid types and short lengths, also "
         "continuing after errors (then only crashes and undefined behaviour "
         "are judged); non-trivial: at least two records before an error") {
  Pair p;
  size_t n = 1 + g.below(12);
  bool alive = true;
  size_t good = 0;
  for (size_t i = 0; i < n; ++i) {
    Bytes r;
    size_t k = g.below(6);
    for (size_t j = 0; j < k; ++j) {
      switch (g.below(5)) {
        case 0:
          r.push_back(g.pick<uint8_t>({0x04, 0x18}));
          break;
        case 1:
          r.push_back(0);
          break;
        case 2: {
          Bytes m = Message(g.pick<uint8_t>({0x04, 0x18}), g.bytes(g.below(4)));
          r.insert(r.end(), m.begin(), m.end());
          break;
        }
        case 3: {
          Bytes m = {g.pick<uint8_t>({0x04, 0x18}), 0, (uint8_t)g.below(3), (uint8_t)g.below(256)};
          r.insert(r.end(), m.begin(), m.end());
          break;
        }
        default: {
          Bytes m = g.bytes(g.small_size(40));
          r.insert(r.end(), m.begin(), m.end());
        }
      }
    }
    if (alive) {
      alive = p.Feed(g, r);
      if (alive) {
        ++good;
        if (g.chance(1, 10)) p.Retrieve(g);
      }
    } else {
      g.label("continued after error");
      util::Mem mem;
      (void)p.h.ProcessHandshakeMessage(mem.Input(g, r), r.size());
      if (g.chance(1, 6)) (void)p.h.GetStoredTickets();
      mem.Check();
    }
    g.note(pbt::hex(r, 12)).note(" | ");
  }
  g.nontrivial(good >= 2);
}
