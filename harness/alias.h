#ifndef VERIF_ALIAS_H_
#define VERIF_ALIAS_H_
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstring>

#include "pbt.h"

namespace util {
// Gigabytes of address space over few bytes of memory: every window of the
// space but the last shows the same bytes.
class Alias {
 public:
  static constexpr size_t kWindow = 16 << 20;
  explicit Alias(size_t n) {
    size_ = (n + kWindow - 1) / kWindow * kWindow;
    int fd = memfd_create("alias", 0);
    REQUIRE_MSG(fd >= 0 && ftruncate(fd, kWindow) == 0, "no memory file");
    p_ = (uint8_t*)mmap(nullptr, size_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    REQUIRE_MSG(p_ != MAP_FAILED, "no address space");
    for (size_t at = 0; at < size_; at += kWindow) {
      bool last = at + kWindow == size_;
      void* q = mmap(p_ + at, kWindow, PROT_READ | PROT_WRITE,
                     MAP_FIXED | (last ? MAP_PRIVATE | MAP_ANONYMOUS : MAP_SHARED), last ? -1 : fd, 0);
      REQUIRE_MSG(q == p_ + at, "no mapping");
    }
    close(fd);
  }
  Alias(const Alias&) = delete;
  ~Alias() { munmap(p_, size_); }
  uint8_t* data() { return p_; }
  // Different bytes throughout the window and in the last one.
  void Fill(uint64_t salt) {
    for (size_t w : {(size_t)0, size_ - kWindow})
      for (size_t i = 0; i < kWindow; i += 8) {
        uint64_t v = (salt + w + i) * 0x9E3779B97F4A7C15ull;
        memcpy(p_ + w + i, &v, 8);
      }
  }

 private:
  uint8_t* p_;
  size_t size_;
};
// Memory that is really there, for one process of a check at a time.
class Real {
 public:
  explicit Real(size_t n) : size_(n) {
    fd_ = open("/proc/self/exe", O_RDONLY);
    REQUIRE_MSG(fd_ >= 0 && flock(fd_, LOCK_EX) == 0, "no lock");
    p_ = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    REQUIRE_MSG(p_ != MAP_FAILED, "no address space");
  }
  Real(const Real&) = delete;
  ~Real() {
    munmap(p_, size_);
    close(fd_);
  }
  uint8_t* data() { return p_; }

 private:
  uint8_t* p_;
  size_t size_;
  int fd_;
};
}  // namespace util
#endif
