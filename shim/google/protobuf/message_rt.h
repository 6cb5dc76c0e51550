// Runtime for the generated stand-in message classes (see tools/protogen.py).
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/repeated_field.h"
extern "C" int symx_is_const(uint64_t);
namespace absl { class Cord; }
namespace google { namespace protobuf {
class Arena {
 public:
  template <class T, class... A> static T* CreateMessage(Arena*, A&&... a) { return new T(std::forward<A>(a)...); }
};
class Message {};
using MessageLite = Message;
struct CordT { std::string s; explicit CordT(std::string x) : s(std::move(x)) {} operator std::string() const { return s; } };
inline std::string ToStr(std::string&& s) { return std::move(s); }
inline std::string ToStr(const std::string& s) { return s; }
inline std::string ToStr(const char* s) { return std::string(s); }
template <class S> std::string ToStr(const S& s) { return std::string(s.data(), s.size()); }
template <class T> uint64_t ToU64(T v) { return static_cast<uint64_t>(v); }
template <> inline uint64_t ToU64<double>(double v) { uint64_t u; std::memcpy(&u, &v, 8); return u; }
template <class T> T FromU64(uint64_t v) { return static_cast<T>(v); }
template <> inline double FromU64<double>(uint64_t v) { double d; std::memcpy(&d, &v, 8); return d; }
// Encoding: varint tag, wire type 1 (fixed64) for all numbers, wire type 2 with a
// varint length for strings and messages. Constant zeros are omitted as in proto3.
struct Writer {
  std::string out;
  void Varint(uint64_t v) { while (v >= 0x80) { out.push_back(static_cast<char>((v & 0x7f) | 0x80)); v >>= 7; } out.push_back(static_cast<char>(v)); }
  void NumAlways(int f, uint64_t v) { Varint(f * 8 + 1); char b[8]; std::memcpy(b, &v, 8); out.append(b, 8); }
  void Num(int f, uint64_t v) { if (symx_is_const(v) && v == 0) return; NumAlways(f, v); }
  void Str(int f, const std::string& s) { Varint(f * 8 + 2); Varint(s.size()); out.append(s); }
  template <class M> void Msg(int f, const M& m) { Writer w; m.SerializeBody(w); Str(f, w.out); }
};
struct Reader {
  const char* p; const char* e;
  Reader(const char* d, size_t n) : p(d), e(d + n) {}
  bool Varint(uint64_t& v) {
    v = 0;
    for (int s = 0; s < 64; s += 7) {
      if (p == e) return false;
      uint8_t b = static_cast<uint8_t>(*p++);
      v |= static_cast<uint64_t>(b & 0x7f) << s;
      if (!(b & 0x80)) return true;
    }
    return false;
  }
  bool Tag(uint32_t& t) {
    uint64_t v;
    if (!Varint(v)) return false;
    t = static_cast<uint32_t>(v);
    return (t >> 3) != 0;   // tag 0 ends the parse, as in protobuf
  }
  bool Num(uint32_t t, uint64_t& v) { if ((t & 7) != 1 || e - p < 8) return false; std::memcpy(&v, p, 8); p += 8; return true; }
  bool Bytes(uint32_t t, std::string& s) {
    uint64_t n;
    if ((t & 7) != 2 || !Varint(n) || n > static_cast<uint64_t>(e - p)) return false;
    s.assign(p, static_cast<size_t>(n)); p += n; return true;
  }
  template <class M> bool Msg(uint32_t t, M& m) { std::string s; if (!Bytes(t, s)) return false; Reader r(s.data(), s.size()); return m.ParseBody(r) && r.p == r.e; }
  bool Skip(uint32_t t) {
    uint64_t v; std::string s;
    switch (t & 7) { case 0: return Varint(v); case 1: if (e - p < 8) return false; p += 8; return true; case 2: return Bytes(t, s); case 5: if (e - p < 4) return false; p += 4; return true; }
    return false;
  }
};
inline bool WriteTo(io::CodedOutputStream* s, const std::string& d) { s->WriteString(d); return true; }
inline const char* DataOf(io::CodedInputStream* s) { return s->cur(); }
inline size_t SizeOf(io::CodedInputStream* s) { return s->left(); }
inline void Advance(io::CodedInputStream* s, const char* p) { s->set(p); }
}}  // namespace google::protobuf
