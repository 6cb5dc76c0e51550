#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace google { namespace protobuf { namespace io {
class StringOutputStream { public: explicit StringOutputStream(std::string* s) : s_(s) {} std::string* s_; };
class CodedOutputStream {
 public:
  explicit CodedOutputStream(StringOutputStream* s) : s_(s) {}
  void SetSerializationDeterministic(bool) {}
  void WriteString(const std::string& d) { s_->s_->append(d); }
  bool HadError() const { return false; }
 private:
  StringOutputStream* s_;
};
class CodedInputStream {
 public:
  CodedInputStream(const uint8_t* d, int n) : p_(reinterpret_cast<const char*>(d)), e_(p_ + n) {}
  const char* cur() const { return p_; } size_t left() const { return static_cast<size_t>(e_ - p_); } void set(const char* p) { p_ = p; }
 private:
  const char* p_; const char* e_;
};
}}}  // namespace google::protobuf::io
