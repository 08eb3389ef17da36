// Entry points over S2ACrypter (analysed, never run).  The half connections
// are cut off: their public methods hand their arguments to undefined stub_*
// functions, which the analysis models.
#include <memory>
#include <vector>

#include "src/record_protocol/s2a_crypter.h"

using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;
using s2a::s2a_channel::S2AChannelFactoryInterface;
using s2a::s2a_channel::S2AChannelInterface;
using H = s2a::record_protocol::S2AHalfConnection;
using Crypter = s2a::record_protocol::S2ACrypter;
using Code = Crypter::S2ACrypterStatusCode;
using Opt = s2a::s2a_options::S2AOptions;
using V = std::vector<uint8_t>;
using IV = std::vector<Iovec>;

extern "C" {
H* stub_half(unsigned cs, uint64_t seq, const uint8_t* secret, size_t n);
bool stub_crypt(H* h, int enc, const IV* aad, const IV* in, void* out, size_t nout, size_t* written);
bool stub_update(H* h);
void stub_log(const std::string* s);
void stub_send(const std::string* url, uint64_t id, unsigned kind, const std::string* name, size_t n, const std::unique_ptr<std::string>* tickets, const void* factory, const void* options);
bool stub_wait();
bool stub_has_wait();
}

namespace s2a {
namespace record_protocol {
absl::variant<absl::Status, std::unique_ptr<H>> H::Create(Opt::Ciphersuite cs, uint64_t seq, const V& secret) {
  H* h = stub_half(static_cast<unsigned>(cs), seq, secret.data(), secret.size());
  if (h == nullptr) return absl::Status(absl::StatusCode::kAborted, "half connection");
  return std::unique_ptr<H>(h);
}
static S2AAeadCrypter::CrypterStatus Run(H* h, int enc, const IV& aad, const IV& in, Iovec out) {
  size_t written = 0;
  if (!stub_crypt(h, enc, &aad, &in, out.iov_base, out.iov_len, &written))
    return S2AAeadCrypter::CrypterStatus(absl::Status(absl::StatusCode::kDataLoss, "cipher"), 0);
  return S2AAeadCrypter::CrypterStatus(absl::Status(), written);
}
S2AAeadCrypter::CrypterStatus H::Encrypt(const IV& aad, const IV& in, Iovec out) { return Run(this, 1, aad, in, out); }
S2AAeadCrypter::CrypterStatus H::Decrypt(const IV& aad, const IV& in, Iovec out) { return Run(this, 0, aad, in, out); }
absl::Status H::UpdateKey() {
  if (stub_update(this)) return absl::Status();
  return absl::Status(absl::StatusCode::kAborted, "update");
}
size_t H::TagLength() { return 16; }
}  // namespace record_protocol
}  // namespace s2a

namespace {
class Factory : public S2AChannelFactoryInterface {
 public:
  ~Factory() override {}
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<S2AChannelInterface>> Build(S2AChannelOptionsInterface* options) override {
    return absl::Status(absl::StatusCode::kAborted, "build");
  }
};

s2a::s2a_ticket_sender::WaitOnTicketSender Send(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  std::string name = o.local_identity.GetIdentityString();
  stub_send(&o.handshaker_service_url, o.connection_id, static_cast<unsigned>(o.local_identity.GetIdentityType()), &name, o.tickets->size(), o.tickets->data(), o.channel_factory.get(), o.channel_options.get());
  return stub_has_wait() ? &stub_wait : nullptr;
}
void Log(const std::string& s) { stub_log(&s); }

int Num(Code c) {
  switch (c) {
    case Code::OK: return 0;
    case Code::INCOMPLETE_RECORD: return 1;
    case Code::INVALID_ARGUMENT: return 2;
    case Code::INVALID_RECORD: return 3;
    case Code::RENEGOTIATION_ATTEMPT: return 4;
    case Code::ALERT_CLOSE_NOTIFY: return 5;
    case Code::ALERT_RECORD_OVERFLOW: return 6;
    case Code::ALERT_OTHER: return 7;
    case Code::INTERNAL_ERROR: return 8;
    case Code::FAILED_PRECONDITION: return 9;
    case Code::END_OF_DATA: return 10;
    case Code::UNIMPLEMENTED: return 11;
    case Code::UNKNOWN: return 12;
  }
  return 13;
}
}  // namespace

extern "C" {
Crypter* drv_create(unsigned version, unsigned cs, uint64_t id, const std::string* url, const std::string* name, const V* in, const V* out, uint64_t inseq, uint64_t outseq, const void** factory, const void** options) {
  Opt::Identity local = Opt::Identity::FromSpiffeId(*name);
  std::unique_ptr<S2AChannelFactoryInterface> f(new Factory());
  std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface> o(new S2AChannelFactoryInterface::S2AChannelOptionsInterface());
  *factory = f.get();
  *options = o.get();
  auto r = Crypter::Create(static_cast<Opt::TlsVersion>(version), static_cast<Opt::Ciphersuite>(cs), id, *url, local, *in, *out, inseq, outseq, &Send, std::move(f), std::move(o), &Log);
  if (r.index() == 0) return nullptr;
  return absl::get<1>(r).release();
}
int drv_protect(Crypter* c, int type, const IV* in, void* rec, size_t n, size_t* written) {
  Iovec v;
  v.iov_base = rec;
  v.iov_len = n;
  Crypter::RecordType t = type == 0 ? Crypter::RecordType::APPLICATION_DATA : type == 1 ? Crypter::RecordType::ALERT : Crypter::RecordType::HANDSHAKE;
  Crypter::S2ACrypterStatus s = c->Protect(t, *in, v);
  *written = s.GetBytesWritten();
  return Num(s.GetCode());
}
int drv_unprotect(Crypter* c, void* hdr, size_t nhdr, const IV* in, void* out, size_t n, size_t* written) {
  Iovec h, v;
  h.iov_base = hdr;
  h.iov_len = nhdr;
  v.iov_base = out;
  v.iov_len = n;
  Crypter::S2ACrypterStatus s = c->Unprotect(h, *in, v);
  *written = s.GetBytesWritten();
  return Num(s.GetCode());
}
bool drv_update_out(Crypter* c) { return c->UpdateOutboundKey().ok(); }
size_t drv_overhead(Crypter* c) { return c->RecordOverhead(); }
void drv_destroy(Crypter* c) { delete c; }
}
