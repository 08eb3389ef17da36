// Entry points over S2AFrameProtector (analysed, never run).  The record layer
// (S2ACrypter) is cut off: its public methods hand their arguments to
// undefined stub_* functions, which the analysis models.
#include <memory>
#include <vector>

#include "include/s2a_frame_protector.h"
#include "src/record_protocol/s2a_ticket_sender.h"

using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using s2a::s2a_channel::S2AChannelFactoryInterface;
using s2a::s2a_channel::S2AChannelInterface;
using Crypter = s2a::record_protocol::S2ACrypter;
using Code = Crypter::S2ACrypterStatusCode;
using Opt = s2a::s2a_options::S2AOptions;
using V = std::vector<uint8_t>;
using IV = std::vector<Iovec>;

extern "C" {
Crypter* stub_crypter(unsigned version, unsigned cs, uint64_t id, const std::string* url, unsigned kind, const std::string* name, const V* in, const V* out, uint64_t inseq, uint64_t outseq, const void* factory, const void* options);
bool stub_protect(Crypter* c, int type, const IV* in, void* out, size_t nout, size_t* written);
bool stub_unprotect(Crypter* c, void* hdr, size_t nhdr, const IV* in, void* out, size_t nout, size_t* written);
void stub_alloc(size_t n, void** base, size_t* len);
void stub_destroy(void* base, size_t len);
void stub_log(const std::string* s);
}

namespace s2a {
namespace record_protocol {
absl::variant<absl::Status, std::unique_ptr<Crypter>> Crypter::Create(
    Opt::TlsVersion tls_version, Opt::Ciphersuite ciphersuite, uint64_t connection_id, const std::string& url,
    const Opt::Identity local_identity, const V& in_traffic_secret, const V& out_traffic_secret, uint64_t in_sequence,
    uint64_t out_sequence, s2a_ticket_sender::TicketSender ticket_sender_function,
    std::unique_ptr<S2AChannelFactoryInterface> channel_factory,
    std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface> channel_options,
    std::function<void(const std::string&)> logger) {
  std::string name = local_identity.GetIdentityString();
  Crypter* c = stub_crypter(static_cast<unsigned>(tls_version), static_cast<unsigned>(ciphersuite), connection_id, &url,
                            static_cast<unsigned>(local_identity.GetIdentityType()), &name, &in_traffic_secret,
                            &out_traffic_secret, in_sequence, out_sequence, channel_factory.get(), channel_options.get());
  if (c == nullptr) return absl::Status(absl::StatusCode::kAborted, "crypter");
  return std::unique_ptr<Crypter>(c);
}
Crypter::S2ACrypterStatus::S2ACrypterStatus(Code code, const std::string& m, size_t n) : code_(code), error_message_(m), bytes_written_(n) {}
Code Crypter::S2ACrypterStatus::GetCode() const { return code_; }
std::string Crypter::S2ACrypterStatus::GetErrorMessage() const { return error_message_; }
size_t Crypter::S2ACrypterStatus::GetBytesWritten() const { return bytes_written_; }
Crypter::S2ACrypterStatus Crypter::Protect(RecordType t, const IV& in, const Iovec& out) {
  size_t n = 0;
  if (!stub_protect(this, static_cast<int>(t), &in, out.iov_base, out.iov_len, &n)) return S2ACrypterStatus(Code::INVALID_RECORD, "protect", 0);
  return S2ACrypterStatus(Code::OK, "", n);
}
Crypter::S2ACrypterStatus Crypter::Unprotect(const Iovec& h, const IV& in, const Iovec& out) {
  size_t n = 0;
  if (!stub_unprotect(this, h.iov_base, h.iov_len, &in, out.iov_base, out.iov_len, &n)) return S2ACrypterStatus(Code::INVALID_RECORD, "unprotect", 0);
  return S2ACrypterStatus(Code::OK, "", n);
}
size_t Crypter::RecordOverhead() const { return 22; }
}  // namespace record_protocol
}  // namespace s2a

namespace {
class Factory : public S2AChannelFactoryInterface {
 public:
  ~Factory() override {}
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<S2AChannelInterface>> Build(S2AChannelOptionsInterface* options) override {
    return absl::Status(absl::StatusCode::kAborted, "build");
  }
};
Iovec Alloc(size_t n) {
  Iovec v;
  v.iov_base = nullptr;
  v.iov_len = 0;
  stub_alloc(n, &v.iov_base, &v.iov_len);
  return v;
}
void Destroy(Iovec v) { stub_destroy(v.iov_base, v.iov_len); }
void Log(const std::string& s) { stub_log(&s); }
}  // namespace

extern "C" {
// `null`: 1 no allocator, 2 no destroy function, 3 no logger.
S2AFrameProtector* drv_frame_create(int null, unsigned version, unsigned cs, uint64_t id, const std::string* url, const std::string* name, const V* in, const V* out, uint64_t inseq, uint64_t outseq, const void** factory, const void** options) {
  Opt::Identity local = Opt::Identity::FromSpiffeId(*name);
  std::unique_ptr<S2AChannelFactoryInterface> f(new Factory());
  std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface> o(new S2AChannelFactoryInterface::S2AChannelOptionsInterface());
  *factory = f.get();
  *options = o.get();
  S2AFrameProtector::S2AFrameProtectorOptions opt = {static_cast<Opt::TlsVersion>(version), static_cast<Opt::Ciphersuite>(cs), *in, *out, inseq, outseq, *url, local, id, std::move(f), std::move(o), nullptr, nullptr, nullptr};
  if (null != 1) opt.allocator = &Alloc;
  if (null != 2) opt.destroy = &Destroy;
  if (null != 3) opt.logger = &Log;
  auto r = S2AFrameProtector::Create(opt);
  if (!r.ok()) return nullptr;
  return r->release();
}
bool drv_frame_protect(S2AFrameProtector* p, const IV* in, IV* out) {
  S2AFrameProtector::Result r = p->Protect(*in);
  for (const Iovec& v : r.bytes) out->push_back(v);
  return r.status.ok();
}
bool drv_frame_protect_into(S2AFrameProtector* p, const IV* in, Iovec* out) { return p->Protect(*in, *out).ok(); }
bool drv_frame_unprotect(S2AFrameProtector* p, const IV* in, IV* out) {
  S2AFrameProtector::Result r = p->Unprotect(*in);
  for (const Iovec& v : r.bytes) out->push_back(v);
  return r.status.ok();
}
bool drv_frame_unprotect_into(S2AFrameProtector* p, const IV* in, Iovec* out) { return p->Unprotect(*in, *out).ok(); }
size_t drv_frame_bytes(S2AFrameProtector* p, size_t n) { return p->NumberBytesToProtect(n); }
size_t drv_frame_bytes_vec(S2AFrameProtector* p, const IV* in) { return p->NumberBytesToProtect(*in); }
size_t drv_frame_un(S2AFrameProtector* p, const IV* in) { return p->NumberBytesToUnprotect(*in); }
size_t drv_frame_max(S2AFrameProtector* p) { return p->MaxRecordSize(); }
}
