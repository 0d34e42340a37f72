// ThreadSanitizer builds only: the system Abseil is not instrumented, so its
// Mutex would be invisible and every lock-protected access reported.  These
// definitions take precedence over the shared library's: a reader-writer lock
// that tells the sanitizer what it does.  They also yield at random points to
// vary the schedule.
#include <sanitizer/tsan_interface.h>
#include <sched.h>
#include <stdlib.h>

#include <atomic>

#include "absl/synchronization/mutex.h"

static std::atomic<uint32_t> yield_state{1};
static void MaybeYield() {
  uint32_t x = yield_state.fetch_add(0x9e3779b9u, std::memory_order_relaxed);
  x ^= x >> 15;
  x *= 0x2c1b3c6du;
  x ^= x >> 12;
  if ((x & 7) == 0) sched_yield();
}
// -1: held by a writer; otherwise the number of readers.
static std::atomic<intptr_t>* Word(const absl::Mutex* m) {
  return reinterpret_cast<std::atomic<intptr_t>*>(const_cast<absl::Mutex*>(m));
}
// The order between threads is what the annotations say, nothing more.
static bool Acquire(absl::Mutex* m, bool reader, bool wait) {
  unsigned flags = reader ? __tsan_mutex_read_lock : 0;
  if (!wait) flags |= __tsan_mutex_try_lock;
  __tsan_mutex_pre_lock(m, flags);
  bool got = false;
  do {
    intptr_t v = Word(m)->load(std::memory_order_relaxed);
    got = (reader ? v >= 0 : v == 0) &&
          Word(m)->compare_exchange_strong(v, reader ? v + 1 : -1, std::memory_order_acquire);
    if (!got && wait) sched_yield();
  } while (!got && wait);
  __tsan_mutex_post_lock(m, got ? flags : flags | __tsan_mutex_try_lock_failed, 0);
  return got;
}
static void Release(absl::Mutex* m, bool reader) {
  unsigned flags = reader ? __tsan_mutex_read_lock : 0;
  __tsan_mutex_pre_unlock(m, flags);
  if (reader)
    Word(m)->fetch_sub(1, std::memory_order_release);
  else
    Word(m)->store(0, std::memory_order_release);
  __tsan_mutex_post_unlock(m, flags);
}

namespace absl {
Mutex::~Mutex() { __tsan_mutex_destroy(this, __tsan_mutex_not_static); }
void Mutex::Lock() {
  MaybeYield();
  Acquire(this, false, true);
}
void Mutex::Unlock() {
  Release(this, false);
  MaybeYield();
}
bool Mutex::TryLock() { return Acquire(this, false, false); }
void Mutex::ReaderLock() {
  MaybeYield();
  Acquire(this, true, true);
}
void Mutex::ReaderUnlock() {
  Release(this, true);
  MaybeYield();
}
bool Mutex::ReaderTryLock() { return Acquire(this, true, false); }
void Mutex::LockWhen(const Condition& c) {
  for (;;) {
    Lock();
    if (c.Eval()) return;
    Unlock();
    sched_yield();
  }
}
void Mutex::ReaderLockWhen(const Condition& c) {
  for (;;) {
    ReaderLock();
    if (c.Eval()) return;
    ReaderUnlock();
    sched_yield();
  }
}
void Mutex::Await(const Condition& c) {
  bool writer = Word(this)->load(std::memory_order_relaxed) < 0;
  if (c.Eval()) return;
  writer ? Unlock() : ReaderUnlock();
  writer ? LockWhen(c) : ReaderLockWhen(c);
}
void Mutex::AssertHeld() const {
  if (Word(this)->load(std::memory_order_relaxed) >= 0) abort();
}
void Mutex::AssertReaderHeld() const {
  if (Word(this)->load(std::memory_order_relaxed) == 0) abort();
}
void Mutex::AssertNotHeld() const {}
}  // namespace absl
