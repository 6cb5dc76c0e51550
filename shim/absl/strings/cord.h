#pragma once
#include <string>
namespace absl { class Cord { public: Cord() = default; template <class T> Cord(const T& s) : s_(s) {} std::string s_; }; }
