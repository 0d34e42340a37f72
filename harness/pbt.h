// A small property-based testing engine.
//
// A property is a function of a Gen.  Every random decision goes through the
// Gen and is recorded as one unsigned number ("choice"), 0 being the simplest.
// A case is therefore completely described by its choice sequence, which is
// what gets shrunk and written to the replay file.  The same functions can be
// driven by libFuzzer (pbt_fuzz.cc), whose input bytes become the choices.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

using Bytes = std::vector<uint8_t>;

struct Fail {
  std::string msg;
};

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

class Gen {
 public:
  // Random mode.
  explicit Gen(uint64_t seed, uint64_t index)
      : mode_(kRandom), state_(seed), index_(index) {}
  // Replay mode: missing choices read as 0.
  explicit Gen(const std::vector<uint64_t>& choices)
      : mode_(kReplay), in_(choices) {}
  // Byte-driven mode.
  Gen(const uint8_t* data, size_t n) : mode_(kBytes), data_(data), n_(n) {}

  // Uniform in [0, n).
  uint64_t below(uint64_t n);
  // Uniform in [lo, hi].
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  uint64_t u64() { return below(0); }  // 0 means 2^64.
  bool boolean() { return below(2) == 1; }
  // True with probability num/den; shrinks to false.
  bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
  // Index drawn with the given weights; shrinks to 0.
  size_t weighted(std::initializer_list<unsigned> w);
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  template <class V>
  auto pick_from(const V& v) -> decltype(v[0]) {
    return v[below(v.size())];
  }
  // Forced to (case index) mod n in random mode, so that n consecutive cases
  // enumerate the whole range.
  uint64_t sweep(uint64_t n);
  // A length in [0, max]: small values, values around powers of two, block and
  // record sizes and constants found in the code, or uniform.
  size_t size(size_t max);
  // Like size, but usually small.
  size_t small_size(size_t max);
  // n bytes determined by a single choice: random, constant, low entropy, ...
  Bytes bytes(size_t n);
  // n uniformly random bytes.
  Bytes random_bytes(size_t n);
  std::string str(size_t n);  // Printable mostly; any byte except NUL.
  // A 64-bit number: small, near powers of two, or uniform.
  uint64_t number();
  // Cuts total into parts (empty parts included).
  std::vector<size_t> split(size_t total);

  void label(const std::string& l) { labels_.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  // Appends to the human-readable description of the case.
  template <class T>
  Gen& note(const T& t) {
    if (notes_.size() < 4000) {
      std::ostringstream o;
      o << t;
      notes_ += o.str();
    }
    return *this;
  }

  const std::vector<uint64_t>& choices() const { return out_; }
  const std::set<std::string>& labels() const { return labels_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::string& notes() const { return notes_; }
  uint64_t fingerprint() const { return fp_; }

 private:
  enum Mode { kRandom, kReplay, kBytes };
  uint64_t raw();
  uint64_t record(uint64_t v);
  // Biased draw: in random mode f() proposes a value, clipped to [0, max].
  uint64_t biased(uint64_t max, const std::function<uint64_t()>& f);
  bool take(uint64_t* v, uint64_t n);

  Mode mode_;
  uint64_t state_ = 0, index_ = 0;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  const uint8_t* data_ = nullptr;
  size_t n_ = 0;
  std::vector<uint64_t> out_;
  uint64_t fp_ = 0;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  std::string notes_;
};

using Property = void (*)(Gen&);

struct Target {
  const char* name;
  Property fn;
  uint64_t quick, thorough;  // Number of cases.
  const char* rule;
};

struct Register {
  Register(const char* name, Property fn, uint64_t quick, uint64_t thorough,
           const char* rule);
};
std::vector<Target>& targets();

// Called once per process before the first case (self-tests of the oracle).
extern void (*global_setup)();
// Drops what the harness keeps of a case.
extern void (*after_case)();

[[noreturn]] void fail(const std::string& msg);
std::string hex(const uint8_t* p, size_t n, size_t max = 48);
inline std::string hex(const Bytes& b, size_t max = 48) {
  return hex(b.data(), b.size(), max);
}

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(cond)                                                      \
  do {                                                                     \
    if (!(cond)) pbt::fail(std::string("line " PBT_STR(__LINE__) ": ") +   \
                           #cond);                                         \
  } while (0)
#define REQUIRE_MSG(cond, m)                                               \
  do {                                                                     \
    if (!(cond)) {                                                         \
      std::ostringstream _o;                                               \
      _o << "line " PBT_STR(__LINE__) ": " #cond ": " << m;                \
      pbt::fail(_o.str());                                                 \
    }                                                                      \
  } while (0)
#define REQUIRE_EQ(a, b)                                                   \
  do {                                                                     \
    auto _a = (a);                                                         \
    auto _b = (b);                                                         \
    if (!(_a == _b)) {                                                     \
      std::ostringstream _o;                                               \
      _o << "line " PBT_STR(__LINE__) ": " #a " == " #b ": " << _a         \
         << " vs " << _b;                                                  \
      pbt::fail(_o.str());                                                 \
    }                                                                      \
  } while (0)
#define REQUIRE_BYTES(a, b)                                                \
  do {                                                                     \
    const pbt::Bytes& _a = (a);                                            \
    const pbt::Bytes& _b = (b);                                            \
    if (_a != _b) {                                                        \
      size_t _i = 0;                                                       \
      while (_i < _a.size() && _i < _b.size() && _a[_i] == _b[_i]) ++_i;   \
      std::ostringstream _o;                                               \
      _o << "line " PBT_STR(__LINE__) ": " #a " == " #b ": sizes "         \
         << _a.size() << " vs " << _b.size() << ", first difference at "   \
         << _i << ": " << pbt::hex(_a) << " vs " << pbt::hex(_b);          \
      pbt::fail(_o.str());                                                 \
    }                                                                      \
  } while (0)

#define PROPERTY(name, quick, thorough, rule)                              \
  static void prop_##name(pbt::Gen& g);                                    \
  static pbt::Register reg_##name(#name, prop_##name, quick, thorough,     \
                                  rule);                                   \
  static void prop_##name(pbt::Gen& g)

#endif
