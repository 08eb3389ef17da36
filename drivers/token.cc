// Entry points over the access token manager API (analysed, never run).
#include <memory>
#include <new>
#include <string>
#include <utility>

#include "include/access_token_manager.h"
#include "include/access_token_manager_factory.h"

using M = s2a::token_manager::AccessTokenManagerInterface;
using I = s2a::s2a_options::S2AOptions::Identity;

static bool put(std::string* out, absl::StatusOr<std::string> r) {
  if (!r.ok()) return false;
  new (out) std::string(*std::move(r));
  return true;
}

extern "C" {
M* drv_build() {
  auto m = s2a::token_manager::BuildAccessTokenManager();
  if (!m.ok()) return nullptr;
  return std::move(m).value().release();
}
bool drv_default(M* m, std::string* out) { return put(out, m->GetDefaultToken()); }
bool drv_token(M* m, const I& id, std::string* out) { return put(out, m->GetToken(id)); }
void drv_name(M* m, std::string* out) { new (out) std::string(m->DebugName()); }
void drv_destroy(M* m) { delete m; }
}
