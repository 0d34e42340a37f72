#include "pbt.h"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>

namespace pbt {

void (*global_setup)() = nullptr;
void (*after_case)() = nullptr;

std::vector<Target>& targets() {
  static std::vector<Target>* t = new std::vector<Target>();
  return *t;
}
Register::Register(const char* name, Property fn, uint64_t quick,
                   uint64_t thorough, const char* rule) {
  targets().push_back({name, fn, quick, thorough, rule});
}

void fail(const std::string& msg) { throw Fail{msg}; }

std::string hex(const uint8_t* p, size_t n, size_t max) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < max; ++i) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  if (n > max) s += "...(" + std::to_string(n) + " bytes)";
  return s;
}

// Integer constants found in the code under test (written by check.py), so
// that special-cased lengths are reached.
static const std::vector<uint64_t>& dictionary() {
  static std::vector<uint64_t>* d = [] {
    auto* v = new std::vector<uint64_t>();
    if (const char* f = getenv("PBT_DICT")) {
      std::ifstream in(f);
      uint64_t x;
      while (in >> x) v->push_back(x);
    }
    return v;
  }();
  return *d;
}

uint64_t Gen::raw() {
  state_ += 0x9e3779b97f4a7c15ULL;
  return mix64(state_);
}

uint64_t Gen::record(uint64_t v) {
  out_.push_back(v);
  fp_ = mix64(fp_ ^ (v * 0x9fb21c651e98df25ULL + 0x1234567));
  return v;
}

bool Gen::take(uint64_t* v, uint64_t n) {
  if (mode_ == kReplay) {
    uint64_t x = pos_ < in_.size() ? in_[pos_] : 0;
    ++pos_;
    if (n != 0 && x >= n) x = n - 1;
    *v = x;
    return true;
  }
  if (mode_ == kBytes) {
    uint64_t x = 0, m = n == 0 ? ~0ULL : n - 1;
    while (m != 0) {
      x = (x << 8) | (pos_ < n_ ? data_[pos_] : 0);
      ++pos_;
      m >>= 8;
    }
    *v = n == 0 ? x : x % n;
    return true;
  }
  return false;
}

uint64_t Gen::below(uint64_t n) {
  if (n == 1) return 0;
  uint64_t v;
  if (!take(&v, n)) {
    v = n == 0 ? raw()
               : (uint64_t)(((unsigned __int128)raw() * n) >> 64);
  }
  return record(v);
}

uint64_t Gen::sweep(uint64_t n) {
  if (n == 1) return 0;
  uint64_t v;
  if (!take(&v, n)) v = index_ % n;
  return record(v);
}

size_t Gen::weighted(std::initializer_list<unsigned> w) {
  uint64_t total = 0;
  for (unsigned x : w) total += x;
  uint64_t v;
  if (!take(&v, w.size())) {
    uint64_t r = (uint64_t)(((unsigned __int128)raw() * total) >> 64);
    v = 0;
    for (unsigned x : w) {
      if (r < x) break;
      r -= x;
      ++v;
    }
  }
  return record(v);
}

uint64_t Gen::biased(uint64_t max, const std::function<uint64_t()>& f) {
  uint64_t v;
  if (!take(&v, max == ~0ULL ? 0 : max + 1)) {
    v = f();
    for (int i = 0; v > max && i < 4; ++i) v = f();
    if (v > max) v = max == ~0ULL ? v : v % (max + 1);
  }
  return record(v);
}

static const uint64_t kInteresting[] = {
    0,   1,   2,   3,   4,    5,    7,    8,    9,    12,    13,    14,   15,
    16,  17,  20,  21,  22,   23,   24,   31,   32,   33,    47,    48,   49,
    55,  56,  57,  63,  64,   65,   95,   96,   97,   111,   112,   113,  127,
    128, 129, 191, 192, 193,  255,  256,  257,  383,  384,   511,   512,  513,
    767, 768, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192,
    8193, 16383, 16384, 16385, 16400, 16405, 16406, 16407, 32767, 32768, 32769,
    65535, 65536, 65537};

size_t Gen::size(size_t max) {
  return (size_t)biased(max, [&]() -> uint64_t {
    auto rnd = [&](uint64_t n) {
      return (uint64_t)(((unsigned __int128)raw() * n) >> 64);
    };
    switch (rnd(8)) {
      case 0:
      case 1:
        return rnd(40);
      case 2: {
        const auto n = sizeof(kInteresting) / sizeof(kInteresting[0]);
        return kInteresting[rnd(n)];
      }
      case 3: {
        const auto& d = dictionary();
        if (d.empty()) return rnd(300);
        uint64_t x = d[rnd(d.size())] + rnd(5);
        return x >= 2 ? x - 2 : 0;
      }
      case 4:
        return max - rnd(std::min<uint64_t>(max, 20) + 1);
      case 5:
        return rnd(max == ~0ULL ? max : max + 1);
      case 6:
        return rnd(1ULL << (1 + rnd(17)));
      default:
        return rnd(600);
    }
  });
}

size_t Gen::small_size(size_t max) {
  return (size_t)biased(max, [&]() -> uint64_t {
    auto rnd = [&](uint64_t n) {
      return (uint64_t)(((unsigned __int128)raw() * n) >> 64);
    };
    switch (rnd(8)) {
      case 0:
        return 0;
      case 1:
      case 2:
      case 3:
        return rnd(20);
      case 4:
      case 5:
        return rnd(80);
      case 6:
        return rnd(300);
      default: {
        const auto& d = dictionary();
        if (d.empty()) return rnd(300);
        uint64_t x = d[rnd(d.size())] + rnd(3);
        x = x >= 1 ? x - 1 : 0;
        return x > 2000 ? rnd(300) : x;
      }
    }
  });
}

uint64_t Gen::number() {
  return biased(~0ULL, [&]() -> uint64_t {
    uint64_t r = raw();
    switch (r & 7) {
      case 0:
        return (r >> 8) & 15;
      case 1:
      case 2: {
        uint64_t p = 1ULL << ((r >> 8) & 63);
        return p + ((r >> 16) & 7) - 3;
      }
      case 3:
        return ~0ULL - ((r >> 8) & 7);
      case 4:
        return (r >> 8) & 0xffff;
      case 5: {
        const auto& d = dictionary();
        if (d.empty()) return r >> 40;
        return d[(r >> 8) % d.size()] + ((r >> 40) & 3) - 1;
      }
      case 6:
        return raw() >> ((r >> 8) & 63);
      default:
        return raw();
    }
  });
}

Bytes Gen::bytes(size_t n) {
  uint64_t s;
  if (!take(&s, 0)) s = raw();
  record(s);
  Bytes b(n);
  uint64_t st = s;
  auto next = [&] {
    st += 0x9e3779b97f4a7c15ULL;
    return mix64(st);
  };
  switch (s % 16) {
    case 0:
      break;  // All zero.
    case 1:
      std::fill(b.begin(), b.end(), (uint8_t)(s >> 8));
      break;
    case 2:
      std::fill(b.begin(), b.end(), 0xff);
      break;
    case 3:  // Low entropy with runs of zeros.
      for (auto& x : b) {
        uint64_t r = next();
        x = (r & 3) ? 0 : (uint8_t)(r >> 8);
      }
      break;
    case 4:  // Counting.
      for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i + (s >> 8));
      break;
    case 5:  // Random with trailing zeros.
    {
      for (auto& x : b) x = (uint8_t)next();
      size_t z = n ? (s >> 8) % (n + 1) : 0;
      for (size_t i = n - z; i < n; ++i) b[i] = 0;
      break;
    }
    case 6:  // ASCII.
      for (auto& x : b) x = (uint8_t)(' ' + next() % 95);
      break;
    default:
      for (size_t i = 0; i < n; i += 8) {
        uint64_t r = next();
        memcpy(&b[i], &r, std::min<size_t>(8, n - i));
      }
  }
  return b;
}

Bytes Gen::random_bytes(size_t n) {
  uint64_t s;
  if (!take(&s, 0)) s = raw();
  record(s);
  Bytes b(n);
  for (size_t i = 0; i < n; i += 8) {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t r = mix64(s);
    memcpy(&b[i], &r, std::min<size_t>(8, n - i));
  }
  return b;
}

std::string Gen::str(size_t n) {
  uint64_t s;
  if (!take(&s, 0)) s = raw();
  record(s);
  std::string r(n, 'a');
  uint64_t st = s;
  for (auto& c : r) {
    st += 0x9e3779b97f4a7c15ULL;
    uint64_t x = mix64(st);
    switch (s % 4) {
      case 0:
        c = (char)('a' + x % 3);
        break;
      case 1:
        c = (char)(1 + x % 255);
        break;
      default:
        c = (char)(' ' + x % 95);
    }
  }
  return r;
}

std::vector<size_t> Gen::split(size_t total) {
  std::vector<size_t> parts;
  switch (weighted({6, 8, 3, 2, 3})) {
    case 0:
      if (total > 0 || boolean()) parts.push_back(total);
      break;
    case 1: {  // A few random cuts.
      size_t k = 1 + below(5), left = total;
      for (size_t i = 0; i < k; ++i) {
        size_t p = below(left + 1);
        parts.push_back(p);
        left -= p;
      }
      parts.push_back(left);
      break;
    }
    case 2: {  // Small pieces of a fixed size.
      size_t step = 1 + below(33), left = total, guard = 0;
      while (left > 0 && guard++ < 400) {
        size_t p = std::min(step, left);
        parts.push_back(p);
        left -= p;
      }
      if (left > 0) parts.push_back(left);
      break;
    }
    case 3: {  // A cut near the end.
      size_t tail = std::min(total, (size_t)below(40));
      parts.push_back(total - tail);
      size_t a = below(tail + 1);
      parts.push_back(a);
      parts.push_back(tail - a);
      break;
    }
    default: {  // Many cuts with empty pieces.
      size_t left = total, k = 1 + below(24);
      for (size_t i = 0; i < k; ++i) {
        size_t p = boolean() ? 0 : std::min(left, (size_t)below(40));
        parts.push_back(p);
        left -= p;
      }
      size_t at = below(parts.size() + 1);
      parts.insert(parts.begin() + at, left);
    }
  }
  return parts;
}

}  // namespace pbt
