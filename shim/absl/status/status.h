// Stand-in for absl::Status: the code and nothing else is significant; messages
// are dropped (formatting has an empty body).
#pragma once
#include <string>
#include <utility>
#include "absl/strings/cord.h"
#include "absl/strings/string_view.h"
#include "absl/types/optional.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode c, absl::string_view) : code_(c) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  absl::string_view message() const { return absl::string_view(); }
  std::string ToString() const { return std::string(); }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  void SetPayload(absl::string_view, Cord) {}
  absl::optional<Cord> GetPayload(absl::string_view) const { return absl::nullopt; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_; }
  friend bool operator!=(const Status& a, const Status& b) { return a.code_ != b.code_; }
 private:
  StatusCode code_ = StatusCode::kOk;
};
inline Status OkStatus() { return Status(); }
#define SYMX_ERR_(N) inline Status N##Error(absl::string_view m) { return Status(StatusCode::k##N, m); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SYMX_ERR_(Cancelled) SYMX_ERR_(Unknown) SYMX_ERR_(InvalidArgument) SYMX_ERR_(DeadlineExceeded) SYMX_ERR_(NotFound) SYMX_ERR_(AlreadyExists) SYMX_ERR_(PermissionDenied) SYMX_ERR_(ResourceExhausted) SYMX_ERR_(FailedPrecondition) SYMX_ERR_(Aborted) SYMX_ERR_(OutOfRange) SYMX_ERR_(Unimplemented) SYMX_ERR_(Internal) SYMX_ERR_(Unavailable) SYMX_ERR_(DataLoss) SYMX_ERR_(Unauthenticated)
}  // namespace absl
