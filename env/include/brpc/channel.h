#pragma once
// In-process stand-in for the few brpc facilities the trusted third party
// beaver client and server use: a channel calls the registered service
// directly; a progressive attachment is a byte string handed to the reader in
// pieces whose sizes are an environment choice.
#include <google/protobuf/service.h>

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "venv/env.h"

#define DECLARE_uint64(n) extern uint64_t FLAGS_##n
#define DECLARE_int64(n) extern int64_t FLAGS_##n

namespace butil {
class Status {
 public:
  Status() = default;
  Status(int c, const std::string& m) : c_(c), m_(m) {}
  static Status OK() { return {}; }
  bool ok() const { return c_ == 0; }
  std::string error_str() const { return m_; }

 private:
  int c_ = 0;
  std::string m_;
};
template <typename T>
using intrusive_ptr = std::shared_ptr<T>;
inline std::string endpoint2str(int) { return "peer"; }
}  // namespace butil

namespace venv {
extern std::map<std::string, google::protobuf::Service*> g_rpc_services;
// piece sizes used to deliver a progressive attachment (cycled)
extern std::vector<size_t> g_rpc_pieces;
// observer of requests
extern std::function<void(const std::string& method,
                          const google::protobuf::Message&)>
    g_rpc_request;
// observer / adversary of the response stream
extern std::function<void(std::string&)> g_rpc_response;
}  // namespace venv

namespace brpc {
class ProgressiveReader {
 public:
  virtual ~ProgressiveReader() = default;
  virtual butil::Status OnReadOnePart(const void* data, size_t length) = 0;
  virtual void OnEndOfMessage(const butil::Status& status) = 0;
};
class ProgressiveAttachment {
 public:
  int Write(const void* p, size_t n) {
    data.append(static_cast<const char*>(p), n);
    return 0;
  }
  int remote_side() const { return 0; }
  std::string data;
};
struct HttpHeader {
  void SetHeader(const std::string&, const std::string&) {}
};
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override {}
  bool Failed() const override { return failed_; }
  std::string ErrorText() const override { return text_; }
  int ErrorCode() const { return failed_ ? 1 : 0; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override {
    failed_ = true;
    text_ = r;
  }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure*) override {}
  void response_will_be_read_progressively() {}
  HttpHeader& http_request() { return h_; }
  int remote_side() const { return 0; }
  butil::intrusive_ptr<ProgressiveAttachment> CreateProgressiveAttachment() {
    pa_ = std::make_shared<ProgressiveAttachment>();
    return pa_;
  }
  void ReadProgressiveAttachmentBy(ProgressiveReader* r);

 private:
  bool failed_ = false;
  std::string text_;
  HttpHeader h_;
  std::shared_ptr<ProgressiveAttachment> pa_;
};
struct VerifyOptions {
  std::string ca_file_path;
  int verify_depth = 0;
};
struct CertInfo {
  std::string certificate, private_key;
};
struct ChannelSSLOptions {
  VerifyOptions verify;
  CertInfo client_cert;
};
struct ServerSSLOptions {
  VerifyOptions verify;
  CertInfo default_cert;
};
struct ChannelOptions {
  std::string protocol;
  int timeout_ms = 0, connect_timeout_ms = 0, max_retry = 0;
  ChannelSSLOptions ssl;
  ChannelSSLOptions* mutable_ssl_options() { return &ssl; }
};
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(const char* host, const ChannelOptions*) {
    host_ = host;
    return 0;
  }
  void CallMethod(const google::protobuf::MethodDescriptor* m,
                  google::protobuf::RpcController* c,
                  const google::protobuf::Message* req,
                  google::protobuf::Message* rsp,
                  google::protobuf::Closure* done) override;

 private:
  std::string host_;
};
class ClosureGuard {
 public:
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() {
    if (d_ != nullptr) d_->Run();
  }

 private:
  google::protobuf::Closure* d_;
};
struct ServerOptions {
  bool has_builtin_services = true;
  ServerSSLOptions ssl;
  ServerSSLOptions* mutable_ssl_options() { return &ssl; }
};
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
class Server {
 public:
  int AddService(google::protobuf::Service* s, ServiceOwnership) {
    svc_.reset(s);
    return 0;
  }
  ServerOptions options() const { return {}; }
  int Start(int port, const ServerOptions*) {
    host_ = std::to_string(port);
    venv::g_rpc_services[host_] = svc_.get();
    return 0;
  }
  void RunUntilAskedToQuit() {}
  ~Server() { venv::g_rpc_services.erase(host_); }

 private:
  std::unique_ptr<google::protobuf::Service> svc_;
  std::string host_;
};
}  // namespace brpc
