#pragma once
#include <memory>
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto { namespace tink { class HybridDecrypt { public: virtual ~HybridDecrypt() = default; virtual absl::StatusOr<std::string> Decrypt(absl::string_view c, absl::string_view info) const = 0; }; class HybridEncrypt { public: virtual ~HybridEncrypt() = default; virtual absl::StatusOr<std::string> Encrypt(absl::string_view c, absl::string_view info) const = 0; }; } }
