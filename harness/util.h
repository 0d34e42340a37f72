// Buffers that make out-of-bounds accesses visible.
//
// Uninstrumented library code (libcrypto) is invisible to AddressSanitizer, so
// besides exact-size heap blocks, buffers are also placed flush against an
// inaccessible page, and surrounded by canary bytes checked afterwards.
#ifndef VERIF_UTIL_H_
#define VERIF_UTIL_H_
#include <sys/mman.h>

#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>

#include "pbt.h"

namespace util {
using pbt::Bytes;
using pbt::Gen;

inline Bytes Cat(std::initializer_list<Bytes> l) {
  Bytes r;
  for (auto& b : l) r.insert(r.end(), b.begin(), b.end());
  return r;
}
inline Bytes Sub(const Bytes& b, size_t from, size_t n) {
  return Bytes(b.begin() + from, b.begin() + from + n);
}

class Mem {
 public:
  Mem() = default;
  Mem(const Mem&) = delete;
  ~Mem() {
    for (auto& b : blocks_)
      if (b.heap) free(b.heap);
    for (int s : slots_) used()[s] = false;
  }
  // A buffer of n bytes filled with fill.
  uint8_t* Alloc(Gen& g, size_t n, uint8_t fill) {
    Block b;
    b.n = n;
    size_t where = g.weighted({4, 3, 2});
    int slot = where == 0 || n > kSlot - 64 ? -1 : TakeSlot();
    if (slot < 0) {
      b.heap = (uint8_t*)malloc(n ? n : 1);
      b.p = b.heap;
      if (n == 0) b.p = b.heap + 1;  // Any access is out of bounds.
    } else {
      uint8_t* base = Pool() + (size_t)slot * (kSlot + 2 * kPage) + kPage;
      if (where == 1) {  // Ends at an inaccessible page.
        b.p = base + kSlot - n;
        b.pre = 32;
      } else {  // Starts after one.
        b.p = base;
        b.post = 32;
      }
      memset(b.p - b.pre, kCanary, b.pre);
      memset(b.p + n, kCanary, b.post);
    }
    if (n) memset(b.p, fill, n);
    blocks_.push_back(b);
    return b.p;
  }
  // A read-only copy of the data.
  uint8_t* Input(Gen& g, const uint8_t* d, size_t n) {
    uint8_t* p = Alloc(g, n, 0);
    if (n) memcpy(p, d, n);
    blocks_.back().copy.assign(d, d + n);
    blocks_.back().input = true;
    return p;
  }
  uint8_t* Input(Gen& g, const Bytes& b) { return Input(g, b.data(), b.size()); }
  // data as a vector of buffers; empty ones may have a null base.
  template <class Iovec>
  std::vector<Iovec> Segments(Gen& g, const Bytes& data) {
    return SegmentsOf<Iovec>(g, data, g.split(data.size()));
  }
  template <class Iovec>
  std::vector<Iovec> SegmentsOf(Gen& g, const Bytes& data,
                                const std::vector<size_t>& parts) {
    std::vector<Iovec> v;
    size_t at = 0;
    for (size_t p : parts) {
      if (p == 0 && g.boolean()) {
        v.push_back(Iovec{nullptr, 0});
      } else {
        v.push_back(Iovec{Input(g, data.data() + at, p), p});
      }
      at += p;
    }
    return v;
  }
  // Canaries intact and inputs unmodified.
  void Check() const {
    for (auto& b : blocks_) {
      for (size_t i = 0; i < b.pre; ++i)
        REQUIRE_MSG(b.p[-(ptrdiff_t)i - 1] == kCanary, "write before a buffer");
      for (size_t i = 0; i < b.post; ++i)
        REQUIRE_MSG(b.p[b.n + i] == kCanary, "write after a buffer");
      if (b.input && b.n)
        REQUIRE_MSG(memcmp(b.p, b.copy.data(), b.n) == 0,
                    "input buffer modified");
    }
  }

 private:
  static constexpr size_t kPage = 4096, kSlot = 128 * 1024, kSlots = 32;
  static constexpr uint8_t kCanary = 0xC7;
  struct Block {
    uint8_t* p = nullptr;
    uint8_t* heap = nullptr;
    size_t n = 0, pre = 0, post = 0;
    bool input = false;
    Bytes copy;
  };
  static bool* used() {
    static bool u[kSlots];
    return u;
  }
  static uint8_t* Pool() {
    static uint8_t* p = [] {
      size_t n = kSlots * (kSlot + 2 * kPage);
      auto* q = (uint8_t*)mmap(nullptr, n, PROT_NONE,
                               MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (q == MAP_FAILED) _Exit(3);
      for (size_t s = 0; s < kSlots; ++s)
        if (mprotect(q + s * (kSlot + 2 * kPage) + kPage, kSlot,
                     PROT_READ | PROT_WRITE))
          _Exit(3);
      return q;
    }();
    return p;
  }
  int TakeSlot() {
    for (size_t s = 0; s < kSlots; ++s) {
      if (!used()[s]) {
        used()[s] = true;
        slots_.push_back((int)s);
        return (int)s;
      }
    }
    return -1;
  }
  std::vector<Block> blocks_;
  std::vector<int> slots_;
};

// A rejected message must not leave plaintext behind: no byte of out may equal
// the corresponding byte of the would-be plaintext unless it is zero or was
// there before (prefill).
inline void RequireNoLeak(const uint8_t* out, size_t n, const Bytes& would_be,
                          uint8_t prefill) {
  for (size_t i = 0; i < n && i < would_be.size(); ++i) {
    if (out[i] == would_be[i] && out[i] != 0 && out[i] != prefill) {
      std::ostringstream o;
      o << "unverified plaintext byte " << i << " of " << would_be.size()
        << " left in the output: " << pbt::hex(out + i, 1);
      pbt::fail(o.str());
    }
  }
}

}  // namespace util
#endif
