#pragma once
// In-memory stand-in for leveldb (used as the spill store of BeaverCache).
#include <map>
#include <string>
namespace leveldb {
struct ReadOptions {
  bool verify_checksums = false;
  bool fill_cache = true;
};
struct WriteOptions {
  bool sync = false;
};
enum CompressionType { kNoCompression = 0, kSnappyCompression = 1 };
struct Options {
  bool create_if_missing = false;
  bool error_if_exists = false;
  CompressionType compression = kSnappyCompression;
  size_t max_file_size = 0;
  size_t write_buffer_size = 0;
  size_t block_size = 4096;
};
class Slice {
 public:
  Slice() = default;
  Slice(const char* d, size_t n) : d_(d), n_(n) {}
  Slice(const std::string& s) : d_(s.data()), n_(s.size()) {}
  Slice(const char* s) : Slice(std::string_view(s)) {}
  Slice(std::string_view s) : d_(s.data()), n_(s.size()) {}
  const char* data() const { return d_; }
  size_t size() const { return n_; }
  std::string ToString() const { return std::string(d_, n_); }

 private:
  const char* d_ = "";
  size_t n_ = 0;
};
class Status {
 public:
  explicit Status(bool ok = true) : ok_(ok) {}
  bool ok() const { return ok_; }
  bool IsNotFound() const { return !ok_; }
  std::string ToString() const { return ok_ ? "OK" : "NotFound"; }

 private:
  bool ok_;
};
class DB {
 public:
  static Status Open(const Options&, const std::string&, DB** db) {
    *db = new DB();
    return Status();
  }
  Status Get(const ReadOptions&, const Slice& k, std::string* v) {
    auto it = m_.find(k.ToString());
    if (it == m_.end()) return Status(false);
    *v = it->second;
    return Status();
  }
  Status Put(const WriteOptions&, const Slice& k, const Slice& v) {
    m_[k.ToString()] = v.ToString();
    return Status();
  }
  Status Delete(const WriteOptions&, const Slice& k) {
    m_.erase(k.ToString());
    return Status();
  }
  size_t count() const { return m_.size(); }

 private:
  std::map<std::string, std::string> m_;
};
}  // namespace leveldb
