// Two ends of a connection (analysed, never run): the whole record layer, from
// the frame protector down to the half connections, with HKDF and the AEAD
// crypters cut off at their interfaces as in half.cc.
#include <memory>
#include <vector>

#include "include/s2a_frame_protector.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_ticket_sender.h"

using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;
using s2a::frame_protector::S2AFrameProtector;
using s2a::s2a_channel::S2AChannelFactoryInterface;
using Crypter = s2a::record_protocol::S2ACrypter;
using Code = Crypter::S2ACrypterStatusCode;
using Opt = s2a::s2a_options::S2AOptions;
using V = std::vector<uint8_t>;
using IV = std::vector<Iovec>;

extern "C" {
bool stub_hkdf(int hash, const uint8_t* prk, size_t nprk, const uint8_t* info, size_t ninfo, uint8_t* out, size_t nout);
int stub_new(int kind, const uint8_t* key, size_t n);
bool stub_cipher(int id, int enc, const uint8_t* nonce, size_t n, const IV* aad, const IV* in, void* out, size_t nout, size_t* written);
void stub_alloc(size_t n, void** base, size_t* len);
}

namespace {
class StubCrypter : public S2AAeadCrypter {
 public:
  StubCrypter(int id, size_t n) : S2AAeadCrypter(n, 12, 16), id_(id) {}
  ~StubCrypter() override {}
  CrypterStatus Encrypt(const V& nonce, const IV& aad, const IV& in, Iovec out) override { return Run(1, nonce, aad, in, out); }
  CrypterStatus Decrypt(const V& nonce, const IV& aad, const IV& in, Iovec out) override { return Run(0, nonce, aad, in, out); }

 private:
  CrypterStatus Run(int enc, const V& nonce, const IV& aad, const IV& in, Iovec out) {
    size_t written = 0;
    if (!stub_cipher(id_, enc, nonce.data(), nonce.size(), &aad, &in, out.iov_base, out.iov_len, &written))
      return CrypterStatus(absl::Status(absl::StatusCode::kDataLoss, "cipher"), 0);
    return CrypterStatus(absl::Status(), written);
  }
  int id_;
};

absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> Make(int kind, const V& key) {
  int id = stub_new(kind, key.data(), key.size());
  if (id == 0) return absl::Status(absl::StatusCode::kAborted, "crypter");
  return std::unique_ptr<S2AAeadCrypter>(new StubCrypter(id, key.size()));
}
}  // namespace

namespace s2a {
namespace hkdf {
absl::Status HkdfDeriveSecret(HashFunction h, const V& prk, const V& info, V& out) {
  if (stub_hkdf(static_cast<int>(h), prk.data(), prk.size(), info.data(), info.size(), out.data(), out.size())) return absl::Status();
  return absl::Status(absl::StatusCode::kAborted, "hkdf");
}
}  // namespace hkdf
namespace aead_crypter {
absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(const V& key) { return Make(0, key); }
absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> CreateChachaPolyAeadCrypter(const V& key) { return Make(1, key); }
}  // namespace aead_crypter
}  // namespace s2a

namespace {
Iovec Alloc(size_t n) {
  Iovec v;
  v.iov_base = nullptr;
  v.iov_len = 0;
  stub_alloc(n, &v.iov_base, &v.iov_len);
  return v;
}
void Destroy(Iovec v) {}
void Log(const std::string& s) {}
}  // namespace

extern "C" {
S2AFrameProtector* drv_frame_create(unsigned version, unsigned cs, const V* in, const V* out, uint64_t inseq, uint64_t outseq) {
  S2AFrameProtector::S2AFrameProtectorOptions opt = {static_cast<Opt::TlsVersion>(version), static_cast<Opt::Ciphersuite>(cs), *in, *out, inseq, outseq, "s2a", Opt::Identity::FromSpiffeId("id"), 1, nullptr, nullptr, &Alloc, &Destroy, &Log};
  auto r = S2AFrameProtector::Create(opt);
  if (!r.ok()) return nullptr;
  return r->release();
}
bool drv_frame_protect(S2AFrameProtector* p, const IV* in, IV* out) {
  S2AFrameProtector::Result r = p->Protect(*in);
  for (const Iovec& v : r.bytes) out->push_back(v);
  return r.status.ok();
}
bool drv_frame_protect_into(S2AFrameProtector* p, const IV* in, Iovec* out) { return p->Protect(*in, *out).ok(); }
bool drv_frame_unprotect(S2AFrameProtector* p, const IV* in, IV* out) {
  S2AFrameProtector::Result r = p->Unprotect(*in);
  for (const Iovec& v : r.bytes) out->push_back(v);
  return r.status.ok();
}
bool drv_frame_unprotect_into(S2AFrameProtector* p, const IV* in, Iovec* out) { return p->Unprotect(*in, *out).ok(); }
size_t drv_frame_bytes_vec(S2AFrameProtector* p, const IV* in) { return p->NumberBytesToProtect(*in); }
size_t drv_frame_un(S2AFrameProtector* p, const IV* in) { return p->NumberBytesToUnprotect(*in); }

Crypter* drv_create(unsigned version, unsigned cs, const V* in, const V* out, uint64_t inseq, uint64_t outseq) {
  Opt::Identity local = Opt::Identity::FromSpiffeId("id");
  auto r = Crypter::Create(static_cast<Opt::TlsVersion>(version), static_cast<Opt::Ciphersuite>(cs), 1, "s2a", local, *in, *out, inseq, outseq, s2a::s2a_ticket_sender::SendTicketsToS2A, nullptr, nullptr, &Log);
  if (r.index() == 0) return nullptr;
  return absl::get<1>(r).release();
}
bool drv_protect(Crypter* c, int type, const IV* in, void* rec, size_t n, size_t* written) {
  Iovec v;
  v.iov_base = rec;
  v.iov_len = n;
  Crypter::RecordType t = type == 0 ? Crypter::RecordType::APPLICATION_DATA : type == 1 ? Crypter::RecordType::ALERT : Crypter::RecordType::HANDSHAKE;
  Crypter::S2ACrypterStatus s = c->Protect(t, *in, v);
  *written = s.GetBytesWritten();
  return s.GetCode() == Code::OK;
}
bool drv_unprotect(Crypter* c, void* hdr, size_t nhdr, const IV* in, void* out, size_t n, size_t* written) {
  Iovec h, v;
  h.iov_base = hdr;
  h.iov_len = nhdr;
  v.iov_base = out;
  v.iov_len = n;
  Crypter::S2ACrypterStatus s = c->Unprotect(h, *in, v);
  *written = s.GetBytesWritten();
  return s.GetCode() == Code::OK;
}
bool drv_update_out(Crypter* c) { return c->UpdateOutboundKey().ok(); }
}
