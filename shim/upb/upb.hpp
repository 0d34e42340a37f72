#ifndef VERIF_UPB_HPP_
#define VERIF_UPB_HPP_
#include <memory>
#include "upb/shim_core.h"
namespace upb {
class Arena {
 public:
  Arena() : a_(upb_arena_new()) {}
  ~Arena() { upb_arena_free(a_); }
  Arena(const Arena&) = delete;
  Arena& operator=(const Arena&) = delete;
  upb_arena* ptr() { return a_; }
 private:
  upb_arena* a_;
};
}  // namespace upb
#endif
