// Entry points over S2AProxy, S2AContext and s2a_util (analysed, never run).
// The frame protector and the access token manager are cut off: they hand
// their arguments to undefined stub_* functions, which the analysis models.
#include <memory>
#include <new>
#include <string>
#include <vector>

#include "include/s2a_context.h"
#include "include/s2a_proxy.h"
#include "src/handshaker/s2a_util.h"
#include "src/record_protocol/s2a_ticket_sender.h"

using s2a::frame_protector::S2AFrameProtector;
using s2a::s2a_channel::S2AChannelFactoryInterface;
using s2a::s2a_channel::S2AChannelInterface;
using s2a::s2a_context::S2AContext;
using s2a::s2a_proxy::S2AProxy;
using Opt = s2a::s2a_options::S2AOptions;
using Id = Opt::Identity;
using V = std::vector<uint8_t>;
using Buffer = std::vector<char>;

namespace s2a {
namespace s2a_context {
absl::StatusOr<std::unique_ptr<S2AContext>> GetS2AContextFromSerializedContext(const char* serialized_context, size_t serialized_context_length);
}
namespace s2a_ticket_sender {
bool PrepareResumptionTicketReq(uint64_t connection_id, const s2a_options::S2AOptions::Identity& local_identity,
                                const std::unique_ptr<std::vector<std::unique_ptr<std::string>>>& tickets, void* arena, void* request);
}
}  // namespace s2a

extern "C" {
bool stub_token(int kind, const std::string* name, std::string* out);
bool stub_default_token(std::string* out);
bool stub_frame(unsigned version, unsigned cs, const V* in, const V* out, uint64_t inseq, uint64_t outseq, const std::string* url, int kind, const std::string* name, uint64_t id, const void* factory, const void* options, bool fns);
void stub_log(const std::string* s);
}

namespace s2a {
namespace frame_protector {
absl::StatusOr<std::unique_ptr<S2AFrameProtector>> S2AFrameProtector::Create(S2AFrameProtectorOptions& o) {
  std::string name = o.local_identity.GetIdentityString();
  if (!stub_frame(static_cast<unsigned>(o.tls_version), static_cast<unsigned>(o.tls_ciphersuite), &o.in_traffic_secret, &o.out_traffic_secret, o.in_sequence,
                  o.out_sequence, &o.handshaker_service_url, static_cast<int>(o.local_identity.GetIdentityType()), &name, o.connection_id, o.channel_factory.get(),
                  o.channel_options.get(), o.allocator != nullptr && o.destroy != nullptr && o.logger != nullptr))
    return absl::Status(absl::StatusCode::kAborted, "frame");
  return std::unique_ptr<S2AFrameProtector>();
}
}  // namespace frame_protector
}  // namespace s2a

namespace {
class Factory : public S2AChannelFactoryInterface {
 public:
  ~Factory() override {}
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<S2AChannelInterface>> Build(S2AChannelOptionsInterface* options) override {
    return absl::Status(absl::StatusCode::kAborted, "build");
  }
};
class Tokens : public s2a::token_manager::AccessTokenManagerInterface {
 public:
  ~Tokens() override {}
  absl::StatusOr<std::string> GetDefaultToken() override {
    std::string out;
    if (!stub_default_token(&out)) return absl::Status(absl::StatusCode::kAborted, "token");
    return out;
  }
  absl::StatusOr<std::string> GetToken(const Id& identity) override {
    std::string name = identity.GetIdentityString();
    std::string out;
    if (!stub_token(static_cast<int>(identity.GetIdentityType()), &name, &out)) return absl::Status(absl::StatusCode::kAborted, "token");
    return out;
  }
  std::string DebugName() const override { return "tokens"; }
};
void Log(const std::string& s) { stub_log(&s); }
Id MakeId(int kind, const std::string& name) {
  switch (kind) {
    case 1:
      return Id::FromSpiffeId(name);
    case 2:
      return Id::FromHostname(name);
    case 3:
      return Id::FromUid(name);
    default:
      return Id::GetEmptyIdentity();
  }
}
int Status2Int(const absl::Status& s) { return s.ok() ? 1 : 0; }
}  // namespace

extern "C" {
int drv_api_enum(int i) {
  switch (i) {
    case 0: return static_cast<int>(Opt::TlsVersion::TLS1_2);
    case 1: return static_cast<int>(Opt::TlsVersion::TLS1_3);
    case 2: return static_cast<int>(Opt::Ciphersuite::AES_128_GCM_SHA256);
    case 3: return static_cast<int>(Opt::Ciphersuite::AES_256_GCM_SHA384);
    case 4: return static_cast<int>(Opt::Ciphersuite::CHACHA20_POLY1305_SHA256);
    case 5: return static_cast<int>(Opt::IdentityType::SPIFFE_ID);
    case 6: return static_cast<int>(Opt::IdentityType::HOSTNAME);
    case 7: return static_cast<int>(Opt::IdentityType::UID);
    default: return static_cast<int>(Opt::IdentityType::NONE);
  }
}
int drv_wire_enum(int i) {
  switch (i) {
    case 0: return s2a_proto_TLS1_2;
    case 1: return s2a_proto_TLS1_3;
    case 2: return s2a_proto_AES_128_GCM_SHA256;
    case 3: return s2a_proto_AES_256_GCM_SHA384;
    default: return s2a_proto_CHACHA20_POLY1305_SHA256;
  }
}
// Options.
Opt* drv_opt_new(int min, int max, const std::string& addr) {
  Opt* o = new Opt();
  o->set_min_tls_version(static_cast<Opt::TlsVersion>(min));
  o->set_max_tls_version(static_cast<Opt::TlsVersion>(max));
  o->set_s2a_address(addr);
  return o;
}
void drv_opt_cs(Opt& o, int v) { o.add_supported_ciphersuite(static_cast<Opt::Ciphersuite>(v)); }
void drv_opt_ls(Opt& o, const std::string& s) { o.add_local_spiffe_id(s); }
void drv_opt_lh(Opt& o, const std::string& s) { o.add_local_hostname(s); }
void drv_opt_lu(Opt& o, const std::string& s) { o.add_local_uid(s); }
void drv_opt_ts(Opt& o, const std::string& s) { o.add_target_spiffe_id(s); }
void drv_opt_th(Opt& o, const std::string& s) { o.add_target_hostname(s); }
void drv_opt_tu(Opt& o, const std::string& s) { o.add_target_uid(s); }
// The proxy.
S2AProxy* drv_proxy_create(bool client, const std::string& proto, const std::string& host, Opt* o, bool tokens, bool logger, const void** factory, const void** options) {
  S2AProxy::S2AProxyOptions po;
  if (logger) po.logger = &Log;
  po.is_client = client;
  po.application_protocol = proto;
  po.target_hostname = host;
  po.options = std::unique_ptr<Opt>(o);
  po.channel_factory = std::unique_ptr<S2AChannelFactoryInterface>(new Factory());
  po.channel_options = std::unique_ptr<S2AChannelFactoryInterface::S2AChannelOptionsInterface>(new S2AChannelFactoryInterface::S2AChannelOptionsInterface());
  *factory = po.channel_factory.get();
  *options = po.channel_options.get();
  if (tokens) po.token_manager = std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>(new Tokens());
  return S2AProxy::Create(po).release();
}
int drv_proxy_s2a(S2AProxy& p, Buffer* in, Buffer** out, size_t* consumed) {
  S2AProxy::ProxyStatus r = p.GetBytesForS2A(std::unique_ptr<Buffer>(in));
  *out = r.buffer.release();
  *consumed = r.bytes_consumed;
  return Status2Int(r.status);
}
int drv_proxy_peer(S2AProxy& p, Buffer* in, Buffer** out, size_t* consumed) {
  S2AProxy::ProxyStatus r = p.GetBytesForPeer(std::unique_ptr<Buffer>(in));
  *out = r.buffer.release();
  *consumed = r.bytes_consumed;
  return Status2Int(r.status);
}
int drv_proxy_done(S2AProxy& p) { return p.IsHandshakeFinished() ? 1 : 0; }
int drv_proxy_frame(S2AProxy& p) { return p.CreateFrameProtector().ok() ? 1 : 0; }
int drv_proxy_context(S2AProxy& p, S2AContext** out) {
  absl::variant<absl::Status, std::unique_ptr<S2AContext>> r = p.GetS2AContext();
  if (r.index() == 0) return absl::get<0>(r).ok() ? 2 : 0;
  *out = absl::get<1>(r).release();
  return 1;
}
// The context.
S2AContext* drv_ctx_new(const std::string& proto, int version, int cs, const Id& peer, const Id& local, const std::string& pf, const std::string& lf, bool resumed) {
  return new S2AContext(proto, static_cast<Opt::TlsVersion>(version), static_cast<Opt::Ciphersuite>(cs), peer, local, pf, lf, resumed);
}
void drv_ctx_proto(std::string* out, const S2AContext& c) { new (out) std::string(c.ApplicationProtocol()); }
int drv_ctx_version(const S2AContext& c) { return static_cast<int>(c.TlsVersion()); }
int drv_ctx_cs(const S2AContext& c) { return static_cast<int>(c.Ciphersuite()); }
void drv_ctx_peer(Id* out, const S2AContext& c) { new (out) Id(c.PeerIdentity()); }
void drv_ctx_local(Id* out, const S2AContext& c) { new (out) Id(c.LocalIdentity()); }
void drv_ctx_pf(std::string* out, const S2AContext& c) { new (out) std::string(c.PeerCertFingerprint()); }
void drv_ctx_lf(std::string* out, const S2AContext& c) { new (out) std::string(c.LocalCertFingerprint()); }
int drv_ctx_resumed(const S2AContext& c) { return c.IsHandshakeResumed() ? 1 : 0; }
int drv_ctx_ser(const S2AContext& c, Buffer** out) {
  absl::variant<absl::Status, std::unique_ptr<Buffer>> r = c.GetSerializedContext();
  if (r.index() == 0) return absl::get<0>(r).ok() ? 2 : 0;
  *out = absl::get<1>(r).release();
  return 1;
}
S2AContext* drv_ctx_parse(const char* p, size_t n) {
  absl::StatusOr<std::unique_ptr<S2AContext>> r = s2a::s2a_context::GetS2AContextFromSerializedContext(p, n);
  if (!r.ok()) return nullptr;
  return r->release();
}
// Identities and conversions.
void drv_id(Id* out, int kind, const std::string& name) { new (out) Id(MakeId(kind, name)); }
int drv_id_kind(const Id& a) { return static_cast<int>(a.GetIdentityType()); }
void drv_id_name(std::string* out, const Id& a) { new (out) std::string(a.GetIdentityString()); }
int drv_to_version(int v, int* ok) {
  absl::variant<absl::Status, s2a_proto_TLSVersion> r = s2a::s2a_util::ConvertTlsVersionToProto(static_cast<Opt::TlsVersion>(v));
  *ok = static_cast<int>(r.index());
  if (r.index() == 0) return absl::get<0>(r).ok() ? 1 : 0;
  return absl::get<1>(r);
}
int drv_to_cs(int v, int* ok) {
  absl::variant<absl::Status, s2a_proto_Ciphersuite> r = s2a::s2a_util::ConvertCiphersuiteToProto(static_cast<Opt::Ciphersuite>(v));
  *ok = static_cast<int>(r.index());
  if (r.index() == 0) return absl::get<0>(r).ok() ? 1 : 0;
  return absl::get<1>(r);
}
int drv_from_version(int v, int* ok) {
  absl::variant<absl::Status, Opt::TlsVersion> r = s2a::s2a_util::ConvertFromProtoToTlsVersion(static_cast<s2a_proto_TLSVersion>(v));
  *ok = static_cast<int>(r.index());
  if (r.index() == 0) return absl::get<0>(r).ok() ? 1 : 0;
  return static_cast<int>(absl::get<1>(r));
}
int drv_from_cs(int v, int* ok) {
  absl::variant<absl::Status, Opt::Ciphersuite> r = s2a::s2a_util::ConvertFromProtoToCiphersuite(static_cast<s2a_proto_Ciphersuite>(v));
  *ok = static_cast<int>(r.index());
  if (r.index() == 0) return absl::get<0>(r).ok() ? 1 : 0;
  return static_cast<int>(absl::get<1>(r));
}
const void* drv_to_id(upb_arena* a, const Id& id, int* ok) {
  absl::variant<absl::Status, s2a_proto_Identity*> r = s2a::s2a_util::ConvertIdentityToProto(a, id);
  *ok = static_cast<int>(r.index());
  if (r.index() == 0) return nullptr;
  return absl::get<1>(r);
}
void drv_from_id(Id* out, const s2a_proto_Identity* p) { new (out) Id(s2a::s2a_util::ConvertFromProtoToIdentity(p)); }
// The ticket request.
bool drv_ticket_req(uint64_t id, const Id& local, std::vector<std::unique_ptr<std::string>>* tickets, void* arena, void* request) {
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t(tickets);
  bool r = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(id, local, t, arena, request);
  t.release();
  return r;
}
}
