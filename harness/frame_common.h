#ifndef VERIF_FRAME_COMMON_H_
#define VERIF_FRAME_COMMON_H_
#include <functional>
#include <mutex>
#include <set>

#include "crypter_common.h"
#include "include/s2a_frame_protector.h"

namespace rec {
using s2a::frame_protector::S2AFrameProtector;
using Frame = std::unique_ptr<S2AFrameProtector>;

// Every buffer the frame protector allocates and releases.
struct Ledger {
  std::mutex mu;
  std::set<void*> live;
  std::string error;
  size_t allocated = 0, released = 0;
  // An allocator that runs short: whether a request of so many bytes gets a
  // buffer (else a null one of no length), and of what size.
  std::function<bool(size_t, size_t*)> grant;
  Iovec Allocate(size_t n) {
    if (grant && !grant(n, &n)) return Iovec{nullptr, 0};
    uint8_t* p = (uint8_t*)malloc(n ? n : 1);
    memset(p, 0xA5, n ? n : 1);
    std::lock_guard<std::mutex> l(mu);
    live.insert(p);
    ++allocated;
    return Iovec{p, n};
  }
  void Release(Iovec v) {
    if (grant && v.iov_base == nullptr) return;
    std::lock_guard<std::mutex> l(mu);
    if (!live.erase(v.iov_base)) {
      error = "a buffer was released that is not live: released twice, or not from the allocator";
      return;
    }
    ++released;
    free(v.iov_base);
  }
  void Check(size_t outstanding = 0) {
    REQUIRE_MSG(error.empty(), error);
    REQUIRE_MSG(live.size() == outstanding, live.size() - outstanding << " buffers neither returned nor released");
  }
  // Takes the caller's buffers over and releases them.
  Bytes Take(const std::vector<Iovec>& v) {
    Bytes r;
    for (auto& i : v) {
      REQUIRE_MSG(live.count(i.iov_base), "a returned buffer is not live");
      const uint8_t* p = (const uint8_t*)i.iov_base;
      r.insert(r.end(), p, p + i.iov_len);
      Release(i);
    }
    Check();
    return r;
  }
  ~Ledger() {
    for (void* p : live) free(p);
  }
};

inline Frame MakeFrame(const Params& p, Ledger* l) {
  S2AFrameProtector::S2AFrameProtectorOptions o = {S2AOptions::TlsVersion::TLS1_3,
                                                   SuiteOf(p.suite),
                                                   p.in_secret,
                                                   p.out_secret,
                                                   p.in_seq,
                                                   p.out_seq,
                                                   p.url,
                                                   p.identity,
                                                   p.id,
                                                   std::unique_ptr<S2AChannelFactoryInterface>(new Factory),
                                                   nullptr,
                                                   [l](size_t n) { return l->Allocate(n); },
                                                   [l](Iovec v) { l->Release(v); },
                                                   [](const std::string&) {}};
  auto r = S2AFrameProtector::Create(o);
  REQUIRE_MSG(r.ok(), r.status().ToString());
  REQUIRE(*r != nullptr);
  return std::move(*r);
}
inline Params Peer(const Params& p) {
  Params q = p;
  std::swap(q.in_secret, q.out_secret);
  std::swap(q.in_seq, q.out_seq);
  return q;
}
// The records a stream becomes.
inline std::vector<Bytes> ReferenceRecords(ref::HalfConn& h, const Bytes& data) {
  std::vector<Bytes> r;
  size_t at = 0;
  do {
    size_t n = std::min(kMaxPlain, data.size() - at);
    r.push_back(h.RecordAt(h.seq++, Inner(Bytes(data.begin() + at, data.begin() + at + n), 0x17, 0)));
    at += n;
  } while (at < data.size());
  return r;
}
inline Bytes Join(const std::vector<Bytes>& v) {
  Bytes r;
  for (auto& b : v) r.insert(r.end(), b.begin(), b.end());
  return r;
}
}  // namespace rec
#endif
