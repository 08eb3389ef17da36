// Entry points over the public options API (analysed, never run).
#include "include/s2a_options.h"

#include <memory>
#include <new>
#include <string>
#include <utility>

#include "absl/memory/memory.h"

using O = s2a::s2a_options::S2AOptions;
using I = O::Identity;

extern "C" {
void drv_new(O* o) { new (o) O(); }
O* drv_copy(const O& o) { return o.Copy().release(); }
int drv_min(const O& o) { return static_cast<int>(o.min_tls_version()); }
int drv_max(const O& o) { return static_cast<int>(o.max_tls_version()); }
void drv_addr(std::string* out, const O& o) { new (out) std::string(o.s2a_address()); }
const void* drv_cs(const O& o) { return &o.supported_ciphersuites(); }
const void* drv_local(const O& o) { return &o.local_identities(); }
const void* drv_target(const O& o) { return &o.target_identities(); }
void drv_set_min(O& o, int v) { o.set_min_tls_version(static_cast<O::TlsVersion>(v)); }
void drv_set_max(O& o, int v) { o.set_max_tls_version(static_cast<O::TlsVersion>(v)); }
void drv_set_addr(O& o, const std::string& s) { o.set_s2a_address(s); }
void drv_add_cs(O& o, int v) { o.add_supported_ciphersuite(static_cast<O::Ciphersuite>(v)); }
void drv_ls(O& o, const std::string& s) { o.add_local_spiffe_id(s); }
void drv_lh(O& o, const std::string& s) { o.add_local_hostname(s); }
void drv_lu(O& o, const std::string& s) { o.add_local_uid(s); }
void drv_ts(O& o, const std::string& s) { o.add_target_spiffe_id(s); }
void drv_th(O& o, const std::string& s) { o.add_target_hostname(s); }
void drv_tu(O& o, const std::string& s) { o.add_target_uid(s); }

// Identities.
void drv_id_none(I* out) { new (out) I(I::GetEmptyIdentity()); }
void drv_id_host(I* out, const std::string& s) { new (out) I(I::FromHostname(s)); }
void drv_id_spiffe(I* out, const std::string& s) { new (out) I(I::FromSpiffeId(s)); }
void drv_id_uid(I* out, const std::string& s) { new (out) I(I::FromUid(s)); }
void drv_id_copy(I* out, const I& a) { new (out) I(a); }
void drv_id_assign(I* out, const I& a) { *out = a; }
int drv_id_kind(const I& a) { return static_cast<int>(a.GetIdentityType()); }
void drv_id_name(std::string* out, const I& a) { new (out) std::string(a.GetIdentityString()); }
const char* drv_id_cname(const I& a) { return a.GetIdentityCString(); }
bool drv_id_eq(const I& a, const I& b) { return a == b; }
}

// A hash state that reports what is hashed.
extern "C" void rec_int(long v);
extern "C" void rec_str(const std::string& s);
extern "C" void rec_chars(const char* p, unsigned long n);
struct RecH {
  static RecH combine(RecH h) { return h; }
  template <typename T, typename... R>
  static RecH combine(RecH h, const T& v, const R&... r) {
    one(v);
    return combine(std::move(h), r...);
  }
  template <typename T>
  static RecH combine_contiguous(RecH h, const T* p, size_t n) {
    rec_chars(reinterpret_cast<const char*>(p), n * sizeof(T));
    return h;
  }
  static void one(const std::string& s) { rec_str(s); }
  static void one(const absl::string_view& s) { rec_chars(s.data(), s.size()); }
  template <typename T>
  static absl::enable_if_t<std::is_enum<T>::value || std::is_integral<T>::value> one(const T& v) { rec_int(static_cast<long>(v)); }
};
extern "C" void drv_id_hash(const I& a) { AbslHashValue(RecH(), a); }
