// The handshake message handler cut off at its interface: the outcome of every
// call is chosen by the analysis (stub_*).
#include <memory>
#include <vector>

#include "src/record_protocol/handshake_message_handler.h"

extern "C" {
bool stub_process(const uint8_t* p, size_t n, bool* more, bool* ku, uint8_t* type, bool* ticket, size_t* stored);
int stub_tickets();                       // number handed out, or -1
int stub_fragments(int ticket);
const uint8_t* stub_fragment(int ticket, int k, size_t* n);
}

namespace s2a {
namespace handshake_message_handler {
HandshakeMessageHandler::HandshakeMessageHandler() {}
absl::variant<absl::Status, HandshakeMessageHandler::Result> HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* p, size_t n) {
  Result r;
  if (!stub_process(p, n, &r.expecting_to_read_more_bytes, &r.contains_key_update, &r.key_update_type, &r.contains_ticket, &r.num_full_tickets_stored))
    return absl::Status(absl::StatusCode::kAborted, "handshake message");
  return r;
}
absl::variant<absl::Status, std::unique_ptr<std::vector<std::unique_ptr<HandshakeMessageHandler::Message>>>> HandshakeMessageHandler::GetStoredTickets() {
  int n = stub_tickets();
  if (n < 0) return absl::Status(absl::StatusCode::kAborted, "tickets");
  std::unique_ptr<std::vector<std::unique_ptr<Message>>> out(new std::vector<std::unique_ptr<Message>>());
  for (int i = 0; i < n; i++) {
    std::unique_ptr<Message> m(new Message());
    int k = stub_fragments(i);
    for (int j = 0; j < k; j++) {
      size_t len = 0;
      const uint8_t* p = stub_fragment(i, j, &len);
      m->push_back(std::unique_ptr<MessageFragment>(new MessageFragment(p, p + len)));
    }
    out->push_back(std::move(m));
  }
  return out;
}
}  // namespace handshake_message_handler
}  // namespace s2a
