#pragma once
#include <string>
namespace absl { template <class... A> std::string StrJoin(A&&...) { return std::string(); } }
