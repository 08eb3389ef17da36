#ifndef S2A_VERIF_UPB_HPP_
#define S2A_VERIF_UPB_HPP_
#include "upb/msg.h"
namespace upb {
class Arena {
 public:
  Arena() : p_(upb_arena_new()) {}
  ~Arena() { upb_arena_free(p_); }
  Arena(const Arena&) = delete;
  Arena& operator=(const Arena&) = delete;
  upb_arena* ptr() const { return p_; }
 private:
  upb_arena* p_;
};
}  // namespace upb
#endif
