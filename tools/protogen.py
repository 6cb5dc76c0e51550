#!/usr/bin/env python3
"""Generates light-weight C++ message classes (header-only) from proto3 files.

The generated classes model the protobuf C++ API the code under test relies on
(has_/mutable_/set_/clear_/oneof cases/repeated fields/copy/serialize/parse).
Assumption recorded in DESIGN.md: protobuf's own implementation of that API is
trusted; serialization is modelled by an injective tag/length/value encoding with
fixed-width integers (see shim/google/protobuf/message_rt.h).
Usage: protogen.py <proto root> <out dir> <proto path relative to root>...
"""
import os, re, sys

SCALARS = {'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'bool': 'bool',
           'double': 'double', 'float': 'float', 'fixed32': 'uint32_t', 'fixed64': 'uint64_t', 'sint32': 'int32_t', 'sint64': 'int64_t',
           'string': 'std::string', 'bytes': 'std::string'}


class Msg:
    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.fields, self.oneofs, self.nested, self.enums = [], [], [], []

    def path(self):
        return (self.parent.path() if self.parent else []) + [self.name]

    def cname(self):
        return '_'.join(self.path())


class Field:
    pass


def tokenize(s):
    s = re.sub(r'//[^\n]*', '', s)
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    return re.findall(r'"[^"]*"|[A-Za-z_][A-Za-z_0-9.]*|\d+|[{}=;<>,\[\]()\-]', s)


class Parser:
    def __init__(self, text):
        self.t, self.i = tokenize(text), 0
        self.package, self.imports, self.msgs, self.enums = [], [], [], []

    def peek(self): return self.t[self.i]

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def skip_stmt(self):
        while self.nx() != ';':
            pass

    def parse(self):
        while self.i < len(self.t):
            k = self.nx()
            if k == 'package':
                self.package = self.nx().split('.'); self.nx()
            elif k == 'import':
                n = self.nx()
                if n in ('public', 'weak'): n = self.nx()
                self.imports.append(n.strip('"')); self.nx()
            elif k == 'message':
                self.msgs.append(self.message(None))
            elif k == 'enum':
                self.enums.append(self.enum())
            elif k == ';':
                pass
            else:
                self.skip_stmt()
        return self

    def enum(self):
        name = self.nx(); assert self.nx() == '{'
        vals = []
        while self.peek() != '}':
            n = self.nx()
            if n in ('option', 'reserved'):
                self.skip_stmt(); continue
            if n == ';': continue
            assert self.nx() == '='
            v = self.nx()
            if v == '-': v = '-' + self.nx()
            vals.append((n, v)); self.skip_stmt()
        self.nx()
        return (name, vals)

    def message(self, parent):
        m = Msg(self.nx(), parent); assert self.nx() == '{'
        while self.peek() != '}':
            k = self.peek()
            if k == 'message': self.nx(); m.nested.append(self.message(m))
            elif k == 'enum': self.nx(); m.enums.append(self.enum())
            elif k in ('reserved', 'option', 'extensions'): self.skip_stmt()
            elif k == 'oneof':
                self.nx(); o = self.nx(); assert self.nx() == '{'
                m.oneofs.append(o)
                while self.peek() != '}':
                    m.fields.append(self.field(o))
                self.nx()
            elif k == ';': self.nx()
            else: m.fields.append(self.field(None))
        self.nx()
        return m

    def field(self, oneof):
        f = Field(); f.oneof = oneof; f.repeated = False; f.optional = False
        t = self.nx()
        if t == 'repeated': f.repeated = True; t = self.nx()
        elif t == 'optional': f.optional = True; t = self.nx()
        assert t != 'map', 'map fields not supported'
        f.type = t; f.name = self.nx(); assert self.nx() == '='
        f.num = int(self.nx())
        self.skip_stmt()
        return f


def camel(s):
    return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))


def main():
    root, out, files = sys.argv[1], sys.argv[2], sys.argv[3:]
    parsed = {}

    def load(f):
        if f in parsed: return parsed[f]
        p = Parser(open(os.path.join(root, f)).read()).parse()
        parsed[f] = p
        for i in p.imports: load(i)
        return p
    for f in files: load(f)
    # symbol table: fully qualified proto name -> (kind, c++ name)
    syms = {}

    def add(m, pkg):
        q = pkg + m.path()
        syms['.'.join(q)] = ('msg', '::' + '::'.join(pkg) + '::' + m.cname())
        for n in m.nested: add(n, pkg)
        for (en, vals) in m.enums:
            syms['.'.join(q + [en])] = ('enum', '::' + '::'.join(pkg) + '::' + m.cname() + '_' + en)
    for p in parsed.values():
        for m in p.msgs: add(m, p.package)
        for (en, _) in p.enums: syms['.'.join(p.package + [en])] = ('enum', '::' + '::'.join(p.package) + '::' + en)

    def resolve(t, scope):
        if t in SCALARS: return ('str' if SCALARS[t] == 'std::string' else 'scalar', SCALARS[t])
        for k in range(len(scope), -1, -1):
            q = '.'.join(scope[:k] + [t])
            if q in syms: return syms[q]
        raise Exception('unresolved type ' + t)

    for f in files:
        p = parsed[f]
        o = []
        w = o.append
        w('#pragma once\n// generated by protogen.py from %s' % f)
        w('#include "google/protobuf/message_rt.h"')
        for i in p.imports: w('#include "%s"' % (i[:-6] + '.pb.h'))
        allm = []

        def order(m):
            for n in m.nested: order(n)
            allm.append(m)
        for m in p.msgs: order(m)
        w('namespace ' + '::'.join(p.package) + ' {')
        for m in allm: w('class %s;' % m.cname())
        for (en, vals) in p.enums: w('enum %s : int { %s };' % (en, ', '.join('%s = %s' % v for v in vals)))
        for m in allm:
            for (en, vals) in m.enums:
                w('enum %s_%s : int { %s };' % (m.cname(), en, ', '.join('%s_%s_%s = %s' % (m.cname(), en, a, b) for a, b in vals)))
        inl = []
        iw = inl.append
        for m in allm:
            C = m.cname()
            w('class %s final : public ::google::protobuf::Message {\n public:' % C)
            w('  %s(); explicit %s(::google::protobuf::Arena*); ~%s(); %s(const %s&); %s(%s&&) noexcept; %s& operator=(const %s&); %s& operator=(%s&&) noexcept;' % (C, C, C, C, C, C, C, C, C, C, C))
            w('  static const %s& default_instance();' % C)
            w('  void Clear(); void CopyFrom(const %s& o) { if (&o != this) *this = o; } void MergeFrom(const %s& o); void Swap(%s* o) { std::swap(*this, *o); }' % (C, C, C))
            w('  void SerializeBody(::google::protobuf::Writer& w) const; bool ParseBody(::google::protobuf::Reader& r);')
            w('  std::string SerializeAsString() const { ::google::protobuf::Writer w; SerializeBody(w); return std::move(w.out); }')
            w('  bool SerializeToString(std::string* s) const { *s = SerializeAsString(); return true; }')
            w('  ::google::protobuf::CordT SerializeAsCord() const { return ::google::protobuf::CordT(SerializeAsString()); }')
            w('  bool SerializeToCodedStream(::google::protobuf::io::CodedOutputStream* s) const;')
            w('  template <class S> bool ParseFromString(const S& s) { Clear(); ::google::protobuf::Reader r(s.data(), s.size()); return ParseBody(r) && r.p == r.e; }')
            w('  bool ParseFromCodedStream(::google::protobuf::io::CodedInputStream* s);')
            w('  size_t ByteSizeLong() const { return SerializeAsString().size(); }')
            w('  std::string DebugString() const { return std::string(); } std::string ShortDebugString() const { return std::string(); }')
            for n in m.nested: w('  using %s = %s;' % (n.name, n.cname()))
            for (en, vals) in m.enums:
                w('  using %s = %s_%s;' % (en, C, en))
                for a, b in vals: w('  static constexpr %s %s = %s_%s_%s;' % (en, a, C, en, a))
                w('  static std::string %s_Name(int) { return std::string(); }' % en)
            for on in m.oneofs:
                cc = camel(on) + 'Case'
                fs = [x for x in m.fields if x.oneof == on]
                w('  enum %s { %s, %s_NOT_SET = 0 };' % (cc, ', '.join('k%s = %d' % (camel(x.name), x.num) for x in fs), on.upper()))
                w('  %s %s_case() const { return %s_case_; } void clear_%s();' % (cc, on, on, on))
                w('  %s %s_case_ = %s_NOT_SET;' % (cc, on, on.upper()))
                iw('inline void %s::clear_%s() {' % (C, on))
                for x in fs: iw('  %s_ = {};' % x.name)
                iw('  %s_case_ = %s_NOT_SET;\n}' % (on, on.upper()))
            body_ser, body_parse, body_clear, body_merge = [], [], [], []
            copies = []
            scope = p.package + m.path()
            for x in m.fields:
                kind, T = resolve(x.type, scope)
                n = x.name
                w('  enum : int { k%sFieldNumber = %d };' % (camel(n), x.num))
                if x.repeated:
                    if kind == 'msg' or kind == 'str':
                        R = '::google::protobuf::RepeatedPtrField<%s>' % T
                        w('  %s %s_;' % (R, n))
                        w('  int %s_size() const { return %s_.size(); } const %s& %s(int i) const { return %s_.Get(i); } %s* mutable_%s(int i) { return %s_.Mutable(i); } %s* add_%s() { return %s_.Add(); }' % (n, n, T, n, n, T, n, n, T, n, n))
                        w('  const %s& %s() const { return %s_; } %s* mutable_%s() { return &%s_; } void clear_%s() { %s_.Clear(); }' % (R, n, n, R, n, n, n, n))
                        if kind == 'str':
                            w('  template <class S> void add_%s(S&& s) { *%s_.Add() = ::google::protobuf::ToStr(std::forward<S>(s)); } template <class S> void set_%s(int i, S&& s) { *%s_.Mutable(i) = ::google::protobuf::ToStr(std::forward<S>(s)); }' % (n, n, n, n))
                            body_ser.append('for (const auto& x : %s_) w.Str(%d, x);' % (n, x.num))
                            body_parse.append('case %d: { if (!r.Bytes(t, *%s_.Add())) return false; break; }' % (x.num, n))
                        else:
                            body_ser.append('for (const auto& x : %s_) w.Msg(%d, x);' % (n, x.num))
                            body_parse.append('case %d: { if (!r.Msg(t, *%s_.Add())) return false; break; }' % (x.num, n))
                    else:
                        R = '::google::protobuf::RepeatedField<%s>' % T
                        w('  %s %s_;' % (R, n))
                        w('  int %s_size() const { return %s_.size(); } %s %s(int i) const { return %s_.Get(i); } void set_%s(int i, %s v) { %s_.Set(i, v); } void add_%s(%s v) { %s_.Add(v); }' % (n, n, T, n, n, n, T, n, n, T, n))
                        w('  const %s& %s() const { return %s_; } %s* mutable_%s() { return &%s_; } void clear_%s() { %s_.Clear(); }' % (R, n, n, R, n, n, n, n))
                        body_ser.append('for (auto x : %s_) w.Num(%d, ::google::protobuf::ToU64(x));' % (n, x.num))
                        body_parse.append('case %d: { uint64_t v; if (!r.Num(t, v)) return false; %s_.Add(::google::protobuf::FromU64<%s>(v)); break; }' % (x.num, n, T))
                    body_clear.append('%s_.Clear();' % n)
                    body_merge.append('%s_.MergeFrom(o.%s_);' % (n, n))
                elif kind == 'msg':
                    w('  std::unique_ptr<%s> %s_;' % (T, n))
                    if x.oneof:
                        case = 'k' + camel(n)
                        w('  bool has_%s() const { return %s_case_ == %s; }' % (n, x.oneof, case))
                        w('  const %s& %s() const; %s* mutable_%s(); void clear_%s();' % (T, n, T, n, n))
                        w('  void set_allocated_%s(%s* p); %s* release_%s();' % (n, T, T, n))
                        iw('inline const %s& %s::%s() const { return has_%s() ? *%s_ : %s::default_instance(); }' % (T, C, n, n, n, T))
                        iw('inline %s* %s::mutable_%s() { if (!has_%s()) { clear_%s(); %s_ = std::make_unique<%s>(); %s_case_ = %s; } return %s_.get(); }' % (T, C, n, n, x.oneof, n, T, x.oneof, case, n))
                        iw('inline void %s::clear_%s() { if (has_%s()) clear_%s(); }' % (C, n, n, x.oneof))
                        iw('inline void %s::set_allocated_%s(%s* p) { clear_%s(); if (p) { %s_.reset(p); %s_case_ = %s; } }' % (C, n, T, x.oneof, n, x.oneof, case))
                        iw('inline %s* %s::release_%s() { if (!has_%s()) return nullptr; %s_case_ = %s_NOT_SET; return %s_.release(); }' % (T, C, n, n, x.oneof, x.oneof.upper(), n))
                        body_ser.append('if (has_%s()) w.Msg(%d, *%s_);' % (n, x.num, n))
                        body_merge.append('if (o.has_%s()) mutable_%s()->MergeFrom(*o.%s_);' % (n, n, n))
                    else:
                        w('  bool has_%s() const { return %s_ != nullptr; }' % (n, n))
                        w('  const %s& %s() const; %s* mutable_%s(); void clear_%s();' % (T, n, T, n, n))
                        w('  void set_allocated_%s(%s* p); %s* release_%s();' % (n, T, T, n))
                        iw('inline const %s& %s::%s() const { return %s_ ? *%s_ : %s::default_instance(); }' % (T, C, n, n, n, T))
                        iw('inline %s* %s::mutable_%s() { if (!%s_) %s_ = std::make_unique<%s>(); return %s_.get(); }' % (T, C, n, n, n, T, n))
                        iw('inline void %s::clear_%s() { %s_.reset(); }' % (C, n, n))
                        iw('inline void %s::set_allocated_%s(%s* p) { %s_.reset(p); }' % (C, n, T, n))
                        iw('inline %s* %s::release_%s() { return %s_.release(); }' % (T, C, n, n))
                        body_ser.append('if (%s_) w.Msg(%d, *%s_);' % (n, x.num, n))
                        body_clear.append('%s_.reset();' % n)
                        body_merge.append('if (o.%s_) mutable_%s()->MergeFrom(*o.%s_);' % (n, n, n))
                    body_parse.append('case %d: { if (!r.Msg(t, *mutable_%s())) return false; break; }' % (x.num, n))
                    copies.append((n, T))
                elif kind == 'str':
                    w('  std::string %s_;' % n)
                    if x.oneof:
                        case = 'k' + camel(n)
                        w('  bool has_%s() const { return %s_case_ == %s; }' % (n, x.oneof, case))
                        w('  const std::string& %s() const { return %s_; } std::string* mutable_%s() { if (!has_%s()) { clear_%s(); %s_case_ = %s; } return &%s_; } void clear_%s() { if (has_%s()) clear_%s(); }' % (n, n, n, n, x.oneof, x.oneof, case, n, n, n, x.oneof))
                        body_ser.append('if (has_%s()) w.Str(%d, %s_);' % (n, x.num, n))
                        body_merge.append('if (o.has_%s()) *mutable_%s() = o.%s_;' % (n, n, n))
                    else:
                        w('  const std::string& %s() const { return %s_; } std::string* mutable_%s() { return &%s_; } void clear_%s() { %s_.clear(); }' % (n, n, n, n, n, n))
                        body_ser.append('if (!%s_.empty()) w.Str(%d, %s_);' % (n, x.num, n))
                        body_clear.append('%s_.clear();' % n)
                        body_merge.append('if (!o.%s_.empty()) %s_ = o.%s_;' % (n, n, n))
                    w('  template <class S> void set_%s(S&& s) { *mutable_%s() = ::google::protobuf::ToStr(std::forward<S>(s)); } void set_%s(const void* p, size_t k) { mutable_%s()->assign(static_cast<const char*>(p), k); }' % (n, n, n, n))
                    body_parse.append('case %d: { if (!r.Bytes(t, *mutable_%s())) return false; break; }' % (x.num, n))
                else:
                    w('  %s %s_ = {};' % (T, n))
                    w('  %s %s() const { return %s_; }' % (T, n, n))
                    if x.oneof:
                        case = 'k' + camel(n)
                        w('  bool has_%s() const { return %s_case_ == %s; } void set_%s(%s v) { if (!has_%s()) clear_%s(); %s_ = v; %s_case_ = %s; } void clear_%s() { if (has_%s()) clear_%s(); }' % (n, x.oneof, case, n, T, n, x.oneof, n, x.oneof, case, n, n, x.oneof))
                        body_ser.append('if (has_%s()) w.NumAlways(%d, ::google::protobuf::ToU64(%s_));' % (n, x.num, n))
                        body_merge.append('if (o.has_%s()) set_%s(o.%s_);' % (n, n, n))
                    else:
                        w('  void set_%s(%s v) { %s_ = v; } void clear_%s() { %s_ = {}; }' % (n, T, n, n, n))
                        body_ser.append('w.Num(%d, ::google::protobuf::ToU64(%s_));' % (x.num, n))
                        body_clear.append('%s_ = {};' % n)
                        body_merge.append('if (o.%s_ != %s()) %s_ = o.%s_;' % (n, T, n, n))
                    body_parse.append('case %d: { uint64_t v; if (!r.Num(t, v)) return false; set_%s(::google::protobuf::FromU64<%s>(v)); break; }' % (x.num, n, T))
            for on in m.oneofs: body_clear.append('clear_%s();' % on)
            w('};')
            # out-of-line
            iw('inline %s::%s() = default; inline %s::%s(::google::protobuf::Arena*) {} inline %s::~%s() = default; inline %s::%s(%s&& o) noexcept : %s() { *this = std::move(o); }' % (C, C, C, C, C, C, C, C, C, C))
            iw('inline %s::%s(const %s& o) : %s() { *this = o; }' % (C, C, C, C))
            iw('inline %s& %s::operator=(const %s& o) { if (this == &o) return *this;' % (C, C, C))
            names = [n for n, _ in copies]
            for x in m.fields:
                if x.name in names:
                    T = dict(copies)[x.name]
                    iw('  %s_ = o.%s_ ? std::make_unique<%s>(*o.%s_) : nullptr;' % (x.name, x.name, T, x.name))
                else: iw('  %s_ = o.%s_;' % (x.name, x.name))
            for on in m.oneofs: iw('  %s_case_ = o.%s_case_;' % (on, on))
            iw('  return *this; }')
            iw('inline %s& %s::operator=(%s&& o) noexcept { if (this == &o) return *this;' % (C, C, C))
            for x in m.fields: iw('  %s_ = std::move(o.%s_);' % (x.name, x.name))
            for on in m.oneofs: iw('  %s_case_ = o.%s_case_;' % (on, on))
            iw('  o.Clear(); return *this; }')
            iw('inline const %s& %s::default_instance() { static const %s* d = new %s(); return *d; }' % (C, C, C, C))
            iw('inline void %s::Clear() { %s }' % (C, ' '.join(body_clear)))
            iw('inline void %s::MergeFrom(const %s& o) { %s }' % (C, C, ' '.join(body_merge)))
            iw('inline void %s::SerializeBody(::google::protobuf::Writer& w) const { %s }' % (C, ' '.join(body_ser)))
            iw('inline bool %s::ParseBody(::google::protobuf::Reader& r) { while (r.p != r.e) { uint32_t t; if (!r.Tag(t)) return false; switch (t >> 3) { %s default: if (!r.Skip(t)) return false; } } return true; }' % (C, ' '.join(body_parse)))
            iw('inline bool %s::SerializeToCodedStream(::google::protobuf::io::CodedOutputStream* s) const { return ::google::protobuf::WriteTo(s, SerializeAsString()); }' % C)
            iw('inline bool %s::ParseFromCodedStream(::google::protobuf::io::CodedInputStream* s) { Clear(); ::google::protobuf::Reader r(::google::protobuf::DataOf(s), ::google::protobuf::SizeOf(s)); bool ok = ParseBody(r); ::google::protobuf::Advance(s, r.p); return ok; }' % C)
        o += inl
        w('}  // namespace')
        path = os.path.join(out, f[:-6] + '.pb.h')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        data = '\n'.join(o) + '\n'
        if not os.path.exists(path) or open(path).read() != data:
            open(path, 'w').write(data)


main()
