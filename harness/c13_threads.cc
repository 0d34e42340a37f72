// C13: Protect and Unprotect may run concurrently.  Built with ThreadSanitizer
// (data races are reported whatever the timing of the racing accesses, as long
// as no lock orders them) and with AddressSanitizer.
#include <atomic>
#include <thread>

#include "frame_common.h"
using namespace rec;
using s2a::record_protocol::S2AHalfConnection;

static const struct Setup {
  Setup() { pbt::global_setup = ref::SelfTest; }
} setup;

namespace {
// Starts all threads together, runs them, reports the first failure.
void Run(const std::vector<std::function<void()>>& bodies) {
  std::atomic<size_t> ready{0};
  std::vector<std::string> errors(bodies.size());
  std::vector<std::thread> ts;
  for (size_t i = 0; i < bodies.size(); ++i) {
    ts.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < bodies.size()) std::this_thread::yield();
      try {
        bodies[i]();
      } catch (const pbt::Fail& f) {
        errors[i] = f.msg.empty() ? "failed" : f.msg;
      }
    });
  }
  for (auto& t : ts) t.join();
  for (auto& e : errors) REQUIRE_MSG(e.empty(), e);
}
struct Message {
  Bytes data;
  std::vector<size_t> parts;
  bool alloc;
  unsigned yields;
};
Message AnyMessage(Gen& g, bool may_be_long) {
  Message m;
  size_t n = may_be_long && g.chance(1, 20) ? kMaxPlain + g.below(500) : g.small_size(100);
  m.data = g.bytes(n);
  m.parts = g.split(n);
  m.alloc = g.boolean();
  m.yields = (unsigned)g.below(4);
  return m;
}
std::vector<Iovec> Segments(const Message& m) {
  std::vector<Iovec> v;
  size_t at = 0;
  for (size_t p : m.parts) {
    v.push_back(Iovec{(void*)(m.data.data() + at), p});
    at += p;
  }
  return v;
}
void Yield(unsigned n) {
  while (n--) std::this_thread::yield();
}
struct Output {
  Bytes bytes;
  size_t records;
};
// The outputs are the messages' records at disjoint consecutive positions that
// together fill [start, start + total), in order within a thread.
void CheckSerial(const ref::HalfConn& h, const std::vector<std::vector<Message>>& in,
                 const std::vector<std::vector<Output>>& out) {
  size_t total = 0;
  for (auto& t : out)
    for (auto& o : t) total += o.records;
  std::vector<bool> used(total, false);
  for (size_t t = 0; t < out.size(); ++t) {
    size_t from = 0;
    for (size_t k = 0; k < out[t].size(); ++k) {
      bool found = false;
      for (size_t s = from; s + out[t][k].records <= total && !found; ++s) {
        if (used[s]) continue;
        ref::HalfConn c = h;
        c.seq = h.seq + s;
        if (Join(ReferenceRecords(c, in[t][k].data)) == out[t][k].bytes) {
          found = true;
          for (size_t j = 0; j < out[t][k].records; ++j) {
            REQUIRE_MSG(!used[s + j], "a sequence number was used twice");
            used[s + j] = true;
          }
          from = s + out[t][k].records;
        }
      }
      REQUIRE_MSG(found, "thread " << t << " message " << k << " is not at any free position of the sequence");
    }
  }
}
}  // namespace

PROPERTY(frame_protector, 8000, 100000,
         "1..3 threads protecting and one unprotecting a stream with key "
         "updates on one frame protector, others asking for sizes; "
         "non-trivial: a key update was received meanwhile") {
  Params p = AnyParams(g);
  Ledger l;
  Frame f = MakeFrame(p, &l);
  size_t writers = 1 + (g.chance(1, 3) ? 1 + g.below(2) : 0);
  std::vector<std::vector<Message>> out(writers);
  for (auto& w : out)
    for (size_t n = 1 + g.below(10); n > 0; --n) w.push_back(AnyMessage(g, true));
  // Inbound stream.
  ref::HalfConn in(p.suite, p.in_secret, p.in_seq);
  struct Inbound {
    Message record;
    Bytes want;
  };
  std::vector<Inbound> stream;
  bool updated = false;
  for (size_t n = 1 + g.below(16); n > 0; --n) {
    Inbound i;
    Message m = AnyMessage(g, false);
    bool update = g.chance(1, 3);
    if (update) m.data = {0x18, 0, 0, 1, 0};
    i.want = update ? Bytes() : m.data;
    m.data = in.RecordAt(in.seq++, Inner(m.data, update ? 0x16 : 0x17, 0));
    m.parts = g.split(m.data.size());
    if (update) {
      in.Update();
      in.seq = 0;
      updated = true;
    }
    i.record = m;
    stream.push_back(i);
  }
  std::vector<std::vector<Output>> got(writers);
  std::vector<std::function<void()>> bodies;
  for (size_t w = 0; w < writers; ++w) {
    bodies.push_back([&, w] {
      for (auto& m : out[w]) {
        auto iv = Segments(m);
        Yield(m.yields);
        Output o;
        if (m.alloc) {
          auto r = f->Protect(iv);
          REQUIRE_MSG(r.status.ok(), r.status.ToString());
          for (auto& b : r.bytes) {
            o.bytes.insert(o.bytes.end(), (uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len);
            l.Release(b);
          }
        } else {
          o.bytes.resize(f->NumberBytesToProtect(iv));
          Iovec b{o.bytes.data(), o.bytes.size()};
          auto s = f->Protect(iv, b);
          REQUIRE_MSG(s.ok(), s.ToString());
        }
        o.records = m.data.empty() ? 1 : (m.data.size() + kMaxPlain - 1) / kMaxPlain;
        got[w].push_back(std::move(o));
      }
    });
  }
  bodies.push_back([&] {
    for (auto& i : stream) {
      auto iv = Segments(i.record);
      Yield(i.record.yields);
      Bytes r;
      if (i.record.alloc) {
        auto x = f->Unprotect(iv);
        REQUIRE_MSG(x.status.ok(), x.status.ToString());
        for (auto& b : x.bytes) {
          r.insert(r.end(), (uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len);
          l.Release(b);
        }
      } else {
        Bytes buf(f->NumberBytesToUnprotect(iv));
        Iovec b{buf.data(), buf.size()};
        auto s = f->Unprotect(iv, b);
        REQUIRE_MSG(s.ok(), s.ToString());
        r.assign(buf.begin(), buf.begin() + b.iov_len);
      }
      REQUIRE_BYTES(r, i.want);
    }
  });
  if (g.chance(1, 4)) {
    bodies.push_back([&] {
      for (int k = 0; k < 20; ++k) {
        REQUIRE_EQ(f->NumberBytesToProtect((size_t)100), (size_t)122);
        REQUIRE_EQ(f->MaxRecordSize(), (size_t)16406);
        REQUIRE_EQ(f->NumberBytesToUnprotect((size_t)100), (size_t)95);
        std::this_thread::yield();
      }
    });
  }
  Run(bodies);
  l.Check();
  CheckSerial(ref::HalfConn(p.suite, p.out_secret, p.out_seq), out, got);
  g.note(writers).note(" writers, ").note(stream.size()).note(" inbound records");
  if (writers > 1) g.label("several writers");
  if (updated) g.label("inbound key update");
  g.nontrivial(updated);
}

PROPERTY(record_crypter, 8000, 100000,
         "2..4 threads protecting records and one unprotecting on one record "
         "crypter; non-trivial: a key update or an alert was received meanwhile") {
  Params p = AnyParams(g);
  Sink::Get().Reset();
  Crypter c = MakeRecordCrypter(p);
  size_t writers = 1 + g.below(4);
  std::vector<std::vector<Message>> out(writers);
  for (auto& w : out)
    for (size_t n = 1 + g.below(8); n > 0; --n) w.push_back(AnyMessage(g, false));
  ref::HalfConn in(p.suite, p.in_secret, p.in_seq);
  struct Inbound {
    Bytes record, want;
    Code code;
    unsigned yields;
  };
  std::vector<Inbound> stream;
  bool special = false;
  for (size_t n = 1 + g.below(12); n > 0; --n) {
    Inbound i;
    i.code = Code::OK;
    i.yields = (unsigned)g.below(4);
    bool update = false;
    Bytes inner;
    switch (g.weighted({4, 2, 1})) {
      case 0:
        i.want = g.bytes(g.small_size(80));
        inner = Inner(i.want, 0x17, 0);
        break;
      case 1:
        inner = Inner({0x18, 0, 0, 1, 0}, 0x16, 0);
        update = special = true;
        break;
      default:
        inner = Inner({1, 90}, 0x15, 0);
        i.code = Code::ALERT_OTHER;
        special = true;
    }
    i.record = in.RecordAt(in.seq++, inner);
    if (update) {
      in.Update();
      in.seq = 0;
    }
    stream.push_back(i);
  }
  std::vector<std::vector<Output>> got(writers);
  std::vector<std::function<void()>> bodies;
  for (size_t w = 0; w < writers; ++w) {
    bodies.push_back([&, w] {
      for (auto& m : out[w]) {
        auto iv = Segments(m);
        Yield(m.yields);
        Output o;
        o.bytes.resize(m.data.size() + c->RecordOverhead());
        auto s = c->Protect(Type::APPLICATION_DATA, iv, Iovec{o.bytes.data(), o.bytes.size()});
        REQUIRE_MSG(s.GetCode() == Code::OK, s.GetErrorMessage());
        REQUIRE_EQ(s.GetBytesWritten(), o.bytes.size());
        o.records = 1;
        got[w].push_back(std::move(o));
      }
    });
  }
  bodies.push_back([&] {
    for (auto& i : stream) {
      Yield(i.yields);
      Bytes buf(i.record.size());
      auto s = c->Unprotect(Iovec{i.record.data(), 5}, {Iovec{i.record.data() + 5, i.record.size() - 5}}, Iovec{buf.data(), buf.size()});
      REQUIRE_EQ(s.GetCode(), i.code);
      Bytes r(buf.begin(), buf.begin() + s.GetBytesWritten());
      REQUIRE_BYTES(r, i.want);
    }
  });
  Run(bodies);
  CheckSerial(ref::HalfConn(p.suite, p.out_secret, p.out_seq), out, got);
  g.note(writers).note(" writers, ").note(stream.size()).note(" inbound records");
  g.nontrivial(special);
}

PROPERTY(half_connection, 8000, 100000,
         "2..4 threads encrypting (and asking the tag length), one updating the "
         "key, on one half connection; non-trivial: the key was updated in "
         "between") {
  int suite = (int)g.below(3);
  Bytes secret = g.random_bytes(SecretSize(suite));
  uint64_t seq = AnySequence(g);
  auto v = S2AHalfConnection::Create(SuiteOf(suite), seq, secret);
  REQUIRE(v.index() == 1);
  auto& h = absl::get<1>(v);
  size_t writers = 2 + g.below(3), updates = g.below(4);
  std::vector<std::vector<Message>> out(writers);
  for (auto& w : out)
    for (size_t n = 1 + g.below(8); n > 0; --n) w.push_back(AnyMessage(g, false));
  std::vector<unsigned> pause;
  for (size_t i = 0; i < updates; ++i) pause.push_back((unsigned)g.below(30));
  std::vector<std::vector<Bytes>> got(writers);
  std::vector<std::function<void()>> bodies;
  for (size_t w = 0; w < writers; ++w) {
    bodies.push_back([&, w] {
      for (auto& m : out[w]) {
        Bytes o(m.data.size() + h->TagLength());
        auto s = h->Encrypt({}, Segments(m), Iovec{o.data(), o.size()});
        REQUIRE_MSG(s.GetStatus().ok(), s.GetStatus().ToString());
        REQUIRE_EQ(s.GetBytesWritten(), o.size());
        got[w].push_back(o);
        Yield(m.yields);
      }
    });
  }
  bodies.push_back([&] {
    for (unsigned y : pause) {
      Yield(y);
      REQUIRE(h->UpdateKey().ok());
    }
  });
  Run(bodies);
  // Every output is at its own (epoch, position); positions have no gaps.
  size_t total = 0;
  for (auto& w : got) total += w.size();
  std::vector<std::vector<bool>> used(updates + 1, std::vector<bool>(total, false));
  std::vector<ref::HalfConn> epochs{ref::HalfConn(suite, secret, seq)};
  for (size_t i = 0; i < updates; ++i) {
    ref::HalfConn n = epochs.back();
    n.Update();
    n.seq = 0;
    epochs.push_back(n);
  }
  for (size_t w = 0; w < writers; ++w) {
    size_t e = 0, s = 0;
    for (size_t k = 0; k < got[w].size(); ++k) {
      bool found = false;
      for (; e <= updates; ++e, s = 0) {
        for (; s < total; ++s) {
          if (used[e][s]) continue;
          if (epochs[e].SealAt(epochs[e].seq + s, {}, out[w][k].data) == got[w][k]) {
            used[e][s] = found = true;
            break;
          }
        }
        if (found) break;
      }
      REQUIRE_MSG(found, "thread " << w << " output " << k << " is at no free position");
    }
  }
  bool later = false;
  for (size_t e = 0; e <= updates; ++e) {
    bool end = false;
    for (size_t s = 0; s < total; ++s) {
      REQUIRE_MSG(!(end && used[e][s]), "a gap in the sequence of epoch " << e);
      end = end || !used[e][s];
      later = later || (e > 0 && used[e][s]);
    }
  }
  g.note(writers).note(" writers, ").note(updates).note(" updates");
  g.nontrivial(later && used[0][0]);
}
