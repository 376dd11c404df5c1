#!/usr/bin/env python3
"""A small proto3 compiler: turns .proto files into plain C++ classes with the
accessor API of protoc's generated code (see shim/vshim/pb.h).

usage: pbgen.py OUTDIR SEARCHDIR... -- file.proto...
"""
import os, re, sys

SCALARS = {'double': 'double', 'float': 'float', 'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t',
           'uint64': 'uint64_t', 'sint32': 'int32_t', 'sint64': 'int64_t', 'fixed32': 'uint32_t', 'fixed64': 'uint64_t',
           'sfixed32': 'int32_t', 'sfixed64': 'int64_t', 'bool': 'bool', 'string': 'std::string', 'bytes': 'std::string'}

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z0-9_.]*|\.[A-Za-z_][A-Za-z0-9_.]*|-?[0-9][0-9xXa-fA-F.]*|[{}=;<>,\[\]()])', re.S)


def tokens(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SystemExit('pbgen: cannot tokenise at %r' % s[i:i + 40])
        if m.group(1):
            out.append(m.group(1))
        i = m.end()
    return out


class Msg:
    def __init__(s, name, full, parent):
        s.name, s.full, s.parent = name, full, parent
        s.fields, s.msgs, s.enums, s.oneofs = [], [], [], []

    def cname(s):
        return (s.parent.cname() + '_' if s.parent else '') + s.name


class Enum:
    def __init__(s, name, full, parent):
        s.name, s.full, s.parent, s.vals = name, full, parent, []

    def cname(s):
        return (s.parent.cname() + '_' if s.parent else '') + s.name


class Field:
    pass


class File:
    def __init__(s, path):
        s.path, s.pkg, s.imports, s.msgs, s.enums, s.services = path, '', [], [], [], []


class Parser:
    def __init__(self, path, text):
        self.t, self.i = tokens(text), 0
        self.f = File(path)

    def nx(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def pk(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def ex(self, v):
        w = self.nx()
        if w != v:
            raise SystemExit('pbgen: %s: expected %s got %s' % (self.f.path, v, w))

    def skip_stmt(self):
        d = 0
        while True:
            v = self.nx()
            if v in '{[(':
                d += 1
            elif v in '}])':
                d -= 1
            elif v == ';' and d == 0:
                return

    def opts(self):
        if self.pk() == '[':
            while self.nx() != ']':
                pass

    def run(self):
        while self.pk() is not None:
            v = self.nx()
            if v in ('syntax', 'option'):
                self.skip_stmt()
            elif v == 'package':
                self.f.pkg = self.nx()
                self.ex(';')
            elif v == 'import':
                p = self.nx()
                if p in ('public', 'weak'):
                    p = self.nx()
                self.f.imports.append(p.strip('"'))
                self.ex(';')
            elif v == 'message':
                self.f.msgs.append(self.message(None))
            elif v == 'enum':
                self.f.enums.append(self.enum(None))
            elif v == 'service':
                self.service()
            elif v == ';':
                pass
            else:
                raise SystemExit('pbgen: %s: unexpected %s' % (self.f.path, v))
        return self.f

    def service(self):
        name = self.nx()
        self.ex('{')
        rpcs = []
        while True:
            v = self.nx()
            if v == '}':
                break
            if v == ';':
                continue
            if v == 'option':
                self.skip_stmt()
                continue
            assert v == 'rpc', v
            n = self.nx()
            self.ex('(')
            a = self.nx()
            cs = a == 'stream'
            if cs:
                a = self.nx()
            self.ex(')')
            self.ex('returns')
            self.ex('(')
            b = self.nx()
            ss = b == 'stream'
            if ss:
                b = self.nx()
            self.ex(')')
            if self.pk() == '{':
                d = 0
                while True:
                    w = self.nx()
                    d += w == '{'
                    d -= w == '}'
                    if d == 0:
                        break
            else:
                self.ex(';')
            rpcs.append((n, a, cs, b, ss))
        self.f.services.append((name, rpcs))

    def enum(self, parent):
        name = self.nx()
        e = Enum(name, (parent.full if parent else self.f.pkg) + '.' + name, parent)
        self.ex('{')
        while True:
            v = self.nx()
            if v == '}':
                break
            if v in ('option', 'reserved'):
                self.skip_stmt()
                continue
            if v == ';':
                continue
            self.ex('=')
            n = self.nx()
            self.opts()
            self.ex(';')
            e.vals.append((v, n))
        return e

    def field(self, m, label, typ, oneof):
        f = Field()
        f.map = None
        if typ == 'map':
            self.ex('<')
            k = self.nx()
            self.ex(',')
            v = self.nx()
            self.ex('>')
            f.map = (k, v)
            typ = v
        f.label, f.type, f.oneof = label, typ, oneof
        f.name = self.nx()
        self.ex('=')
        f.num = int(self.nx())
        self.opts()
        self.ex(';')
        m.fields.append(f)
        return f

    def message(self, parent):
        name = self.nx()
        m = Msg(name, (parent.full if parent else self.f.pkg) + '.' + name, parent)
        self.ex('{')
        while True:
            v = self.nx()
            if v == '}':
                break
            if v == ';':
                continue
            if v in ('option', 'reserved', 'extensions'):
                self.skip_stmt()
            elif v == 'message':
                m.msgs.append(self.message(m))
            elif v == 'enum':
                m.enums.append(self.enum(m))
            elif v == 'oneof':
                o = self.nx()
                self.ex('{')
                mem = []
                while self.pk() != '}':
                    w = self.nx()
                    if w in (';',):
                        continue
                    if w == 'option':
                        self.skip_stmt()
                        continue
                    mem.append(self.field(m, '', w, o))
                self.ex('}')
                m.oneofs.append((o, mem))
            elif v in ('repeated', 'optional', 'required'):
                self.field(m, v, self.nx(), None)
            else:
                self.field(m, '', v, None)
        return m


def camel(s):
    return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))


class Gen:
    def __init__(self, files):
        self.types = {}
        self.files = files
        for f in files.values():
            for m in f.msgs:
                self.reg(f, m)
            for e in f.enums:
                self.types[e.full] = (f, e)

    def reg(self, f, m):
        self.types[m.full] = (f, m)
        for e in m.enums:
            self.types[e.full] = (f, e)
        for n in m.msgs:
            self.reg(f, n)

    def resolve(self, name, scope):
        if name.startswith('.'):
            return self.types[name[1:]]
        parts = scope.split('.')
        while True:
            c = '.'.join(parts + [name]) if parts else name
            if c in self.types:
                return self.types[c]
            if not parts:
                raise SystemExit('pbgen: unknown type %s in %s' % (name, scope))
            parts.pop()

    def cpp(self, ft):
        f, t = ft
        return '::' + f.pkg.replace('.', '::') + '::' + t.cname()

    def order(self, f):
        """All messages of a file, nested first, dependencies before users where possible."""
        out = []

        def walk(m):
            for n in m.msgs:
                walk(n)
            out.append(m)
        for m in f.msgs:
            walk(m)
        return out

    def emit_enum(self, e, o):
        cn = e.cname()
        pre = (e.parent.cname() + '_') if e.parent else ''
        o.append('enum %s : int {' % cn)
        for n, v in e.vals:
            o.append('  %s%s = %s,' % (pre, n, v))
        o.append('};')
        o.append('inline bool %s_IsValid(int v) { switch (v) {%s return true; default: return false; } }' % (
            cn, ' '.join('case %s:' % v for v in sorted({v for _, v in e.vals}))))
        o.append('inline std::string %s_Name(int v) { switch (v) {%s default: return ""; } }' % (
            cn, ' '.join('case %s: return "%s";' % (v, n) for v, n in {v: n for n, v in reversed(e.vals)}.items())))

    def emit_decl(self, m, o, defs):
        cn = m.cname()
        scope = m.full
        fields = []
        for f in m.fields:
            k = Field()
            k.f = f
            k.n = f.name
            k.rep = f.label == 'repeated'
            k.opt = f.label == 'optional'
            k.oneof = f.oneof
            k.map = None
            if f.type in SCALARS:
                k.kind = 'str' if SCALARS[f.type] == 'std::string' else 'num'
                k.t = SCALARS[f.type]
            else:
                ft = self.resolve(f.type, scope)
                k.t = self.cpp(ft)
                k.kind = 'enum' if isinstance(ft[1], Enum) else 'msg'
            if f.map:
                k.map = (SCALARS[f.map[0]], k.t)
            fields.append(k)
        o.append('class %s : public ::google::protobuf::Message {' % cn)
        o.append(' public:')
        for n in m.msgs:
            o.append('  using %s = %s;' % (n.name, n.cname()))
        for e in m.enums:
            o.append('  using %s = %s;' % (e.name, e.cname()))
            for n, v in e.vals:
                o.append('  static constexpr %s %s = %s_%s;' % (e.cname(), n, m.cname(), n))
        o.append('  enum : int { %s };' % ', '.join('k%sFieldNumber = %d' % (camel(k.n), k.f.num) for k in fields))
        for on, mem in m.oneofs:
            o.append('  enum %sCase { %s, %s_NOT_SET = 0 };' % (camel(on), ', '.join('k%s = %d' % (camel(x.name), x.num) for x in mem), on.upper()))
            o.append('  %sCase %s_case() const { return (%sCase)%s_case_; }' % (camel(on), on, camel(on), on))
            o.append('  void clear_%s();' % on)
            o.append('  int %s_case_ = 0;' % on)
            defs.append('inline void %s::clear_%s() { switch (%s_case_) {' % (cn, on, on))
            for x in mem:
                k = [k for k in fields if k.f is x][0]
                if k.kind == 'msg':
                    defs.append('  case %d: delete %s_; %s_ = nullptr; break;' % (x.num, k.n, k.n))
                elif k.kind == 'str':
                    defs.append('  case %d: %s_.clear(); break;' % (x.num, k.n))
                else:
                    defs.append('  case %d: %s_ = (%s)0; break;' % (x.num, k.n, k.t))
            defs.append('  default: break; } %s_case_ = 0; }' % on)
        o.append('  %s() {}' % cn)
        o.append('  explicit %s(::google::protobuf::Arena*) {}' % cn)
        o.append('  %s(const %s& o) : %s() { MergeFrom(o); }' % (cn, cn, cn))
        o.append('  %s(%s&& o) : %s() { Swap(&o); }' % (cn, cn, cn))
        o.append('  %s& operator=(const %s& o) { CopyFrom(o); return *this; }' % (cn, cn))
        o.append('  %s& operator=(%s&& o) { if (this != &o) { Clear(); Swap(&o); } return *this; }' % (cn, cn))
        o.append('  ~%s();' % cn)
        o.append('  static const %s& default_instance() { static const %s* d = new %s; return *d; }' % (cn, cn, cn))
        o.append('  %s* New() const { return new %s; }' % (cn, cn))
        o.append('  void CopyFrom(const %s& o) { if (&o == this) return; Clear(); MergeFrom(o); }' % cn)
        o.append('  void MergeFrom(const %s& o);' % cn)
        o.append('  void Clear();')
        o.append('  void Swap(%s* o);' % cn)
        o.append('  friend void swap(%s& a, %s& b) { a.Swap(&b); }' % (cn, cn))
        o.append('  void vwrite(std::string* s) const;')
        o.append('  bool vread(::google::protobuf::VReader* r);')
        o.append('  size_t ByteSizeLong() const;')
        o.append('  bool vequals(const %s& o) const;' % cn)
        o.append('  static constexpr const char* vname = "%s";' % m.full)
        o.append('  std::string GetTypeName() const { return vname; }')
        o.append('  std::string SerializeAsString() const { std::string s; vwrite(&s); return s; }')
        o.append('  bool SerializeToString(std::string* s) const { s->clear(); vwrite(s); return true; }')
        o.append('  bool AppendToString(std::string* s) const { vwrite(s); return true; }')
        o.append('  bool ParseFromArray(const void* p, int n) { Clear(); ::google::protobuf::VReader r{(const char*)p, (size_t)n, true}; return vread(&r) && r.n == 0; }')
        o.append('  template <class S> bool ParseFromString(const S& s) { return ParseFromArray(s.data(), (int)s.size()); }')
        o.append('  std::string DebugString() const { return vname; }')
        o.append('  std::string ShortDebugString() const { return vname; }')
        o.append('  bool IsInitialized() const { return true; }')
        o.append('  ::google::protobuf::Arena* GetArena() const { return nullptr; }')
        clear, merge, swp, wr, rd, size, eq, dtor = [], [], [], [], [], [], [], []
        for k in fields:
            n, t = k.n, k.t
            setcase = ''
            isset = None
            if k.oneof:
                num = k.f.num
                setcase = 'if (%s_case_ != %d) { clear_%s(); %s_case_ = %d; } ' % (k.oneof, num, k.oneof, k.oneof, num)
                isset = '%s_case_ == %d' % (k.oneof, num)
                o.append('  bool has_%s() const { return %s; }' % (n, isset))
            if k.map:
                mt = '::google::protobuf::Map<%s, %s>' % k.map
                o.append('  %s %s_;' % (mt, n))
                o.append('  const %s& %s() const { return %s_; }' % (mt, n, n))
                o.append('  %s* mutable_%s() { return &%s_; }' % (mt, n, n))
                o.append('  int %s_size() const { return (int)%s_.size(); }' % (n, n))
                o.append('  void clear_%s() { %s_.clear(); }' % (n, n))
                clear.append('%s_.clear();' % n)
                merge.append('for (auto& kv : o.%s_) %s_[kv.first] = kv.second;' % (n, n))
                swp.append('%s_.swap(o->%s_);' % (n, n))
                wr.append('::google::protobuf::vput(s, (uint64_t)%s_.size()); for (auto& kv : %s_) { ::google::protobuf::vput(s, kv.first); ::google::protobuf::vput(s, kv.second); }' % (n, n))
                rd.append('{ uint64_t c; if (!::google::protobuf::vget(r, &c)) return false; for (uint64_t i = 0; i < c; i++) { %s kk{}; if (!::google::protobuf::vget(r, &kk)) return false; if (!::google::protobuf::vget(r, &%s_[kk])) return false; } }' % (k.map[0], n))
                size.append('for (auto& kv : %s_) z += 4 + ::google::protobuf::vsize(kv.first) + ::google::protobuf::vsize(kv.second);' % n)
                eq.append('if (%s_.size() != o.%s_.size()) return false; for (auto& kv : %s_) { auto it = o.%s_.find(kv.first); if (it == o.%s_.end() || !::google::protobuf::veq(kv.second, it->second)) return false; }' % (n, n, n, n, n))
                continue
            if k.rep:
                ptr = k.kind in ('msg', 'str')
                rt = '::google::protobuf::Repeated%sField<%s>' % ('Ptr' if ptr else '', t)
                o.append('  %s %s_;' % (rt, n))
                o.append('  int %s_size() const { return %s_.size(); }' % (n, n))
                o.append('  const %s& %s() const { return %s_; }' % (rt, n, n))
                o.append('  %s* mutable_%s() { return &%s_; }' % (rt, n, n))
                o.append('  void clear_%s() { %s_.Clear(); }' % (n, n))
                if ptr:
                    o.append('  const %s& %s(int i) const { return %s_.Get(i); }' % (t, n, n))
                    o.append('  %s* mutable_%s(int i) { return %s_.Mutable(i); }' % (t, n, n))
                    o.append('  %s* add_%s() { return %s_.Add(); }' % (t, n, n))
                    if k.kind == 'str':
                        o.append('  template <class S> void add_%s(S&& v) { *%s_.Add() = ::google::protobuf::vstr(std::forward<S>(v)); }' % (n, n))
                        o.append('  template <class S> void set_%s(int i, S&& v) { *%s_.Mutable(i) = ::google::protobuf::vstr(std::forward<S>(v)); }' % (n, n))
                else:
                    o.append('  %s %s(int i) const { return %s_.Get(i); }' % (t, n, n))
                    o.append('  void add_%s(%s v) { %s_.Add(v); }' % (n, t, n))
                    o.append('  void set_%s(int i, %s v) { %s_.Set(i, v); }' % (n, t, n))
                clear.append('%s_.Clear();' % n)
                merge.append('%s_.MergeFrom(o.%s_);' % (n, n))
                swp.append('%s_.Swap(&o->%s_);' % (n, n))
                wr.append('::google::protobuf::vput(s, (uint64_t)%s_.size()); for (auto& v : %s_) ::google::protobuf::vput(s, v);' % (n, n))
                add = '%s_.Add()' % n if ptr else '%s_.AddSlot()' % n
                rd.append('{ uint64_t c; if (!::google::protobuf::vget(r, &c)) return false; for (uint64_t i = 0; i < c; i++) if (!::google::protobuf::vget(r, %s)) return false; }' % add)
                size.append('for (auto& v : %s_) z += 2 + ::google::protobuf::vsize(v);' % n)
                eq.append('if (%s_.size() != o.%s_.size()) return false; for (int i = 0; i < %s_.size(); i++) if (!::google::protobuf::veq(%s_.Get(i), o.%s_.Get(i))) return false;' % (n, n, n, n, n))
                continue
            if k.kind == 'msg':
                o.append('  %s* %s_ = nullptr;' % (t, n))
                if not k.oneof:
                    o.append('  bool has_%s() const { return %s_ != nullptr; }' % (n, n))
                o.append('  const %s& %s() const;' % (t, n))
                o.append('  %s* mutable_%s();' % (t, n))
                o.append('  void clear_%s();' % n)
                o.append('  %s* release_%s() { %s%s* p = %s_; %s_ = nullptr; %s return p; }' % (
                    t, n, ('if (!(%s)) return nullptr; ' % isset) if k.oneof else '', t, n, n, ('%s_case_ = 0;' % k.oneof) if k.oneof else ''))
                o.append('  %s* unsafe_arena_release_%s() { return release_%s(); }' % (t, n, n))
                o.append('  void set_allocated_%s(%s* p);' % (n, t))
                o.append('  void unsafe_arena_set_allocated_%s(%s* p) { set_allocated_%s(p); }' % (n, t, n))
                defs.append('inline const %s& %s::%s() const { return %s_ ? *%s_ : %s::default_instance(); }' % (t, cn, n, n, n, t))
                defs.append('inline %s* %s::mutable_%s() { %sif (!%s_) %s_ = new %s; return %s_; }' % (t, cn, n, setcase, n, n, t, n))
                if k.oneof:
                    defs.append('inline void %s::clear_%s() { if (%s) clear_%s(); }' % (cn, n, isset, k.oneof))
                    defs.append('inline void %s::set_allocated_%s(%s* p) { clear_%s(); if (p) { %s_case_ = %d; %s_ = p; } }' % (cn, n, t, k.oneof, k.oneof, k.f.num, n))
                else:
                    defs.append('inline void %s::clear_%s() { delete %s_; %s_ = nullptr; }' % (cn, n, n, n))
                    defs.append('inline void %s::set_allocated_%s(%s* p) { if (%s_ != p) delete %s_; %s_ = p; }' % (cn, n, t, n, n, n))
                clear.append('delete %s_; %s_ = nullptr;' % (n, n))
                dtor.append('delete %s_;' % n)
                merge.append('if (o.%s_) mutable_%s()->MergeFrom(*o.%s_);' % (n, n, n))
                swp.append('std::swap(%s_, o->%s_);' % (n, n))
                wr.append('::google::protobuf::vput(s, %s_ != nullptr); if (%s_) %s_->vwrite(s);' % (n, n, n))
                rd.append('{ bool h; if (!::google::protobuf::vget(r, &h)) return false; if (h && !mutable_%s()->vread(r)) return false; }' % n)
                size.append('if (%s_) z += 2 + %s_->ByteSizeLong();' % (n, n))
                eq.append('if ((%s_ == nullptr) != (o.%s_ == nullptr)) return false; if (%s_ && !%s_->vequals(*o.%s_)) return false;' % (n, n, n, n, n))
                continue
            if k.kind == 'str':
                o.append('  std::string %s_;' % n)
                o.append('  const std::string& %s() const { return %s_; }' % (n, n))
                o.append('  std::string* mutable_%s() { %sreturn &%s_; }' % (n, setcase, n))
                o.append('  template <class S> void set_%s(S&& v) { %s%s_ = ::google::protobuf::vstr(std::forward<S>(v)); }' % (n, setcase, n))
                o.append('  void set_%s(const char* p, size_t c) { %s%s_.assign(p, c); }' % (n, setcase, n))
                o.append('  std::string* release_%s() { auto* p = new std::string(std::move(%s_)); %s_.clear(); %sreturn p; }' % (n, n, n, ('%s_case_ = 0; ' % k.oneof) if k.oneof else ''))
                o.append('  void set_allocated_%s(std::string* p) { %s%s_ = p ? *p : std::string(); delete p; }' % (n, setcase, n))
                init = '%s_.clear();' % n
                zero = 'false'
            else:
                o.append('  %s %s_ = (%s)0;' % (t, n, t))
                o.append('  %s %s() const { return %s_; }' % (t, n, n))
                pres = ('has_%s_ = true; ' % n) if k.opt else ''
                o.append('  void set_%s(%s v) { %s%s%s_ = v; }' % (n, t, setcase, pres, n))
                init = '%s_ = (%s)0;' % (n, t)
            if k.opt:
                o.append('  bool has_%s_ = false;\n  bool has_%s() const { return has_%s_; }' % (n, n, n))
                if k.kind == 'str':
                    pass
            if k.oneof:
                o.append('  void clear_%s() { if (%s) clear_%s(); }' % (n, isset, k.oneof))
                merge.append('if (o.%s_case_ == %d) set_%s(o.%s_);' % (k.oneof, k.f.num, n, n))
                clear.append(init)
            else:
                o.append('  void clear_%s() { %s }' % (n, init))
                # proto3 merges non-default values only; on a cleared message this is a copy.
                if k.kind == 'str':
                    merge.append('if (!o.%s_.empty()) %s_ = o.%s_;' % (n, n, n))
                else:
                    merge.append('%s_ = vmerging_ ? (o.%s_ ? o.%s_ : %s_) : o.%s_;' % (n, n, n, n, n))
                clear.append(init)
            swp.append('std::swap(%s_, o->%s_);' % (n, n))
            wr.append('::google::protobuf::vput(s, %s_);' % n)
            rd.append('if (!::google::protobuf::vget(r, &%s_)) return false;' % n)
            size.append('z += ::google::protobuf::vsize(%s_);' % n)
            eq.append('if (!::google::protobuf::veq(%s_, o.%s_)) return false;' % (n, n))
        for on, _ in m.oneofs:
            clear.append('%s_case_ = 0;' % on)
            swp.append('std::swap(%s_case_, o->%s_case_);' % (on, on))
            wr.append('::google::protobuf::vput(s, %s_case_);' % on)
            rd.append('if (!::google::protobuf::vget(r, &%s_case_)) return false;' % on)
            eq.append('if (%s_case_ != o.%s_case_) return false;' % (on, on))
        o.append('  static constexpr bool vmerging_ = false;')
        o.append('};')
        defs.append('inline %s::~%s() { %s }' % (cn, cn, ' '.join(dtor)))
        defs.append('inline void %s::Clear() { %s }' % (cn, ' '.join(clear)))
        defs.append('inline void %s::MergeFrom(const %s& o) { (void)o; %s }' % (cn, cn, ' '.join(merge)))
        defs.append('inline void %s::Swap(%s* o) { if (this == o) return; %s }' % (cn, cn, ' '.join(swp)))
        defs.append('inline void %s::vwrite(std::string* s) const { %s }' % (cn, ' '.join(wr)))
        defs.append('inline bool %s::vread(::google::protobuf::VReader* r) { %s return true; }' % (cn, ' '.join(rd)))
        defs.append('inline size_t %s::ByteSizeLong() const { size_t z = 0; %s return z; }' % (cn, ' '.join(size)))
        defs.append('inline bool %s::vequals(const %s& o) const { %s return true; }' % (cn, cn, ' '.join(eq)))

    def header(self, f):
        o = ['// Generated by pbgen.py from %s' % f.path, '#pragma once', '#include "vshim/pb.h"']
        for i in f.imports:
            o.append('#include "%s"' % re.sub(r'\.proto$', '.pb.h', i))
        ns = f.pkg.split('.')
        o.append(' '.join('namespace %s {' % n for n in ns))
        msgs = self.order(f)

        def enums(m):
            for e in m.enums:
                self.emit_enum(e, o)
            for n in m.msgs:
                enums(n)
        for e in f.enums:
            self.emit_enum(e, o)
        for m in msgs:
            o.append('class %s;' % m.cname())
        for m in f.msgs:
            enums(m)
        defs = []
        for m in msgs:
            self.emit_decl(m, o, defs)
        o += defs
        o.append('}' * len(ns))
        return '\n'.join(o) + '\n'

    def grpc_header(self, f):
        o = ['#pragma once', '#include "vshim/grpc.h"', '#include "%s"' % re.sub(r'\.proto$', '.pb.h', f.path)]
        ns = f.pkg.split('.')
        o.append(' '.join('namespace %s {' % n for n in ns))
        for name, rpcs in f.services:
            T = {}
            for r in rpcs:
                for x in (r[1], r[3]):
                    T[x] = self.cpp(self.resolve(x, f.pkg))
            o.append('class %s {\n public:' % name)
            # Stub interface.
            for cls, kind in (('StubInterface', 'i'), ('Stub', 'c')):
                o.append('  class %s%s {\n   public:' % (cls, ' : public StubInterface' if kind == 'c' else ''))
                o.append('    virtual ~%s() {}' % cls)
                for n, a, cs, b, ss in rpcs:
                    A, B = T[a], T[b]
                    if cs and ss:
                        rt = '::grpc::ClientReaderWriterInterface<%s, %s>' % (A, B)
                        if kind == 'i':
                            o.append('    std::unique_ptr<%s> %s(::grpc::ClientContext* c) { return std::unique_ptr<%s>(%sRaw(c)); }' % (rt, n, rt, n))
                            o.append('    virtual %s* %sRaw(::grpc::ClientContext* c) = 0;' % (rt, n))
                            o.append('    virtual ::grpc::ClientAsyncReaderWriterInterface<%s, %s>* Async%sRaw(::grpc::ClientContext*, ::grpc::CompletionQueue*, void*) { return nullptr; }' % (A, B, n))
                            o.append('    virtual ::grpc::ClientAsyncReaderWriterInterface<%s, %s>* PrepareAsync%sRaw(::grpc::ClientContext*, ::grpc::CompletionQueue*) { return nullptr; }' % (A, B, n))
                        else:
                            o.append('    %s* %sRaw(::grpc::ClientContext* c) override { return nullptr; }' % (rt, n))
                    else:
                        if kind == 'i':
                            o.append('    virtual ::grpc::Status %s(::grpc::ClientContext* c, const %s& q, %s* r) = 0;' % (n, A, B))
                            o.append('    virtual ::grpc::ClientAsyncResponseReaderInterface<%s>* Async%sRaw(::grpc::ClientContext*, const %s&, ::grpc::CompletionQueue*) { return nullptr; }' % (B, n, A))
                            o.append('    virtual ::grpc::ClientAsyncResponseReaderInterface<%s>* PrepareAsync%sRaw(::grpc::ClientContext*, const %s&, ::grpc::CompletionQueue*) { return nullptr; }' % (B, n, A))
                        else:
                            o.append('    ::grpc::Status %s(::grpc::ClientContext* c, const %s& q, %s* r) override { return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, ""); }' % (n, A, B))
                o.append('  };')
            o.append('  static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::ChannelInterface>&) { return std::unique_ptr<Stub>(new Stub); }')
            o.append('  class Service : public ::grpc::Service {\n   public:')
            for n, a, cs, b, ss in rpcs:
                A, B = T[a], T[b]
                if cs and ss:
                    o.append('    virtual ::grpc::Status %s(::grpc::ServerContext*, ::grpc::ServerReaderWriter<%s, %s>*) { return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, ""); }' % (n, B, A))
                else:
                    o.append('    virtual ::grpc::Status %s(::grpc::ServerContext*, const %s*, %s*) { return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, ""); }' % (n, A, B))
            o.append('  };')
            for cls in ('ExperimentalCallbackService', 'CallbackService'):
                o.append('  class %s : public ::grpc::Service {\n   public:' % cls)
                for n, a, cs, b, ss in rpcs:
                    A, B = T[a], T[b]
                    if cs and ss:
                        o.append('    virtual ::grpc::ServerBidiReactor<%s, %s>* %s(::grpc::CallbackServerContext*) { return nullptr; }' % (A, B, n))
                    else:
                        o.append('    virtual ::grpc::ServerUnaryReactor* %s(::grpc::CallbackServerContext*, const %s*, %s*) { return nullptr; }' % (n, A, B))
                o.append('  };')
            o.append('};')
        o.append('}' * len(ns))
        return '\n'.join(o) + '\n'


def main():
    args = sys.argv[1:]
    out = args[0]
    k = args.index('--')
    search, roots = args[1:k], args[k + 1:]
    files = {}

    def load(p):
        if p in files:
            return
        for d in search:
            q = os.path.join(d, p)
            if os.path.exists(q):
                files[p] = None
                f = Parser(p, open(q).read()).run()
                for i in f.imports:
                    load(i)
                files[p] = f
                return
        raise SystemExit('pbgen: cannot find ' + p)
    for r in roots:
        load(r)
    g = Gen(files)
    for p, f in files.items():
        dst = os.path.join(out, re.sub(r'\.proto$', '.pb.h', p))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, 'w').write(g.header(f))
        if f.services:
            open(re.sub(r'\.proto$', '.grpc.pb.h', os.path.join(out, p)), 'w').write(g.grpc_header(f))


main()
