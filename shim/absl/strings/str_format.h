#pragma once
#include <string>
namespace absl { template <class... A> std::string StrFormat(A&&...) { return std::string(); } }
