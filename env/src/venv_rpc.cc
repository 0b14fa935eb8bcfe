#include "brpc/channel.h"
namespace brpc {
uint64_t FLAGS_max_body_size = 0;
int64_t FLAGS_socket_max_unwritten_bytes = 0;
}  // namespace brpc
namespace venv {
std::map<std::string, google::protobuf::Service*> g_rpc_services;
std::vector<size_t> g_rpc_pieces = {1 << 20};
std::function<void(const std::string&, const google::protobuf::Message&)>
    g_rpc_request;
std::function<void(std::string&)> g_rpc_response;
}  // namespace venv
namespace brpc {
void Controller::ReadProgressiveAttachmentBy(ProgressiveReader* r) {
  std::string data = pa_ ? pa_->data : std::string();
  if (venv::g_rpc_response) venv::g_rpc_response(data);
  size_t pos = 0, k = 0;
  while (pos < data.size()) {
    size_t n = std::min(data.size() - pos,
                        venv::g_rpc_pieces[k++ % venv::g_rpc_pieces.size()]);
    auto st = r->OnReadOnePart(data.data() + pos, n);
    if (!st.ok()) {
      r->OnEndOfMessage(st);
      return;
    }
    pos += n;
  }
  r->OnEndOfMessage(butil::Status::OK());
}
void Channel::CallMethod(const google::protobuf::MethodDescriptor* m,
                         google::protobuf::RpcController* c,
                         const google::protobuf::Message* req,
                         google::protobuf::Message* rsp,
                         google::protobuf::Closure* done) {
  auto it = venv::g_rpc_services.find(host_);
  if (it == venv::g_rpc_services.end()) {
    c->SetFailed("no such server: " + host_);
    return;
  }
  if (venv::g_rpc_request) venv::g_rpc_request(m->name(), *req);
  {
    // what the service draws is not known to the party that called it
    struct As {
      int old = venv::g_as_party;
      As() { venv::g_as_party = -1; }
      ~As() { venv::g_as_party = old; }
    } as;
    it->second->CallMethod(m, c, req, rsp, nullptr);
  }
  if (done != nullptr) done->Run();
}
}  // namespace brpc
