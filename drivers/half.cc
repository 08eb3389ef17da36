// Entry points over the half connection (analysed, never run).  The AEAD
// crypters and HKDF are cut off here: the functions below hand their arguments
// to undefined stub_* functions, which the analysis models.
#include <memory>
#include <vector>

#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/record_protocol/s2a_crypter_util.h"
#include "src/record_protocol/s2a_half_connection.h"

using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;
using H = s2a::record_protocol::S2AHalfConnection;
using C = s2a::s2a_options::S2AOptions::Ciphersuite;
using V = std::vector<uint8_t>;
using IV = std::vector<Iovec>;

extern "C" {
bool stub_hkdf(int hash, const uint8_t* prk, size_t nprk, const uint8_t* info, size_t ninfo, uint8_t* out, size_t nout);
int stub_new(int kind, const uint8_t* key, size_t n);
bool stub_cipher(int id, int enc, const uint8_t* nonce, size_t n, const IV* aad, const IV* in, void* out, size_t nout, size_t* written);
void stub_delete(int id);
}

namespace {
class StubCrypter : public S2AAeadCrypter {
 public:
  StubCrypter(int id, size_t n) : S2AAeadCrypter(n, 12, 16), id_(id) {}
  ~StubCrypter() override { stub_delete(id_); }
  CrypterStatus Encrypt(const V& nonce, const IV& aad, const IV& in, Iovec out) override { return Run(1, nonce, aad, in, out); }
  CrypterStatus Decrypt(const V& nonce, const IV& aad, const IV& in, Iovec out) override { return Run(0, nonce, aad, in, out); }

 private:
  CrypterStatus Run(int enc, const V& nonce, const IV& aad, const IV& in, Iovec out) {
    size_t written = 0;
    bool ok = stub_cipher(id_, enc, nonce.data(), nonce.size(), &aad, &in, out.iov_base, out.iov_len, &written);
    if (!ok) return CrypterStatus(absl::Status(absl::StatusCode::kDataLoss, "cipher"), written);
    return CrypterStatus(absl::Status(), written);
  }
  int id_;
};

absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> Make(int kind, const V& key) {
  int id = stub_new(kind, key.data(), key.size());
  if (id == 0) return absl::Status(absl::StatusCode::kAborted, "crypter");
  return std::unique_ptr<S2AAeadCrypter>(new StubCrypter(id, key.size()));
}
}  // namespace

namespace s2a {
namespace hkdf {
absl::Status HkdfDeriveSecret(HashFunction h, const V& prk, const V& info, V& out) {
  if (stub_hkdf(static_cast<int>(h), prk.data(), prk.size(), info.data(), info.size(), out.data(), out.size())) return absl::Status();
  return absl::Status(absl::StatusCode::kAborted, "hkdf");
}
}  // namespace hkdf
namespace aead_crypter {
absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(const V& key) { return Make(0, key); }
absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> CreateChachaPolyAeadCrypter(const V& key) { return Make(1, key); }
}  // namespace aead_crypter
}  // namespace s2a

extern "C" {
H* drv_create(unsigned cs, uint64_t seq, const V* secret) {
  auto r = H::Create(static_cast<C>(cs), seq, *secret);
  if (r.index() == 0) return nullptr;
  return absl::get<1>(r).release();
}
bool drv_encrypt(H* h, const IV* aad, const IV* in, void* out, size_t n, size_t* written) {
  Iovec v;
  v.iov_base = out;
  v.iov_len = n;
  S2AAeadCrypter::CrypterStatus s = h->Encrypt(*aad, *in, v);
  *written = s.GetBytesWritten();
  return s.GetStatus().ok();
}
bool drv_decrypt(H* h, const IV* aad, const IV* in, void* out, size_t n, size_t* written) {
  Iovec v;
  v.iov_base = out;
  v.iov_len = n;
  S2AAeadCrypter::CrypterStatus s = h->Decrypt(*aad, *in, v);
  *written = s.GetBytesWritten();
  return s.GetStatus().ok();
}
bool drv_update(H* h) { return h->UpdateKey().ok(); }
size_t drv_tag(H* h) { return h->TagLength(); }
void drv_destroy(H* h) { delete h; }
bool drv_hash(unsigned cs, s2a::hkdf::HashFunction* out) { return s2a::CiphersuiteToHashFunction(static_cast<C>(cs), out).ok(); }
}
