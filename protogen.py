#!/usr/bin/env python3
"""Turn a .proto file into a plain C++ header with the accessor interface of protobuf generated code.
The wire library has no source here, so the message classes are re-created from the current .proto (their storage
semantics: defaults, oneof exclusivity, deep copies); the code under test that fills and reads them is the real one."""
import re, os, sys
SC = dict(int32='int32_t', sint32='int32_t', sfixed32='int32_t', uint32='uint32_t', fixed32='uint32_t', int64='int64_t', sint64='int64_t', sfixed64='int64_t', uint64='uint64_t', fixed64='uint64_t', bool='bool', float='float', double='double', string='std::string', bytes='std::string')
def toks(t):
    t = re.sub(r'//[^\n]*', '', t); t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    return re.findall(r'"[^"]*"|[\w.]+|[{}\[\]=;<>,()-]', t)
def parse(t):
    T = toks(t); i = 0; pkg = ''; imports = []; top = []
    def skip():
        nonlocal i; d = 0
        while True:
            x = T[i]; i += 1
            if x == '{': d += 1
            elif x == '}':
                d -= 1
                if d == 0: return
            elif x == ';' and d == 0: return
    def enum():
        nonlocal i; n = T[i]; i += 2; vs = []
        while T[i] != '}':
            if T[i] in ('reserved', 'option'): skip(); continue
            a = T[i]; i += 2; s = ''
            if T[i] == '-': s = '-'; i += 1
            b = s + T[i]; i += 1
            while T[i] != ';': i += 1
            i += 1; vs.append((a, b))
        i += 1; return ('enum', n, vs)
    def field(one, label=''):
        nonlocal i; ty = T[i]; i += 1
        if ty == 'map':
            i += 1; k = T[i]; i += 2; v = T[i]; i += 2; ty = ('map', k, v)
        n = T[i]; i += 2; num = T[i]; i += 1
        while T[i] != ';': i += 1
        i += 1; return dict(ty=ty, name=n, num=num, one=one, label=label)
    def msg():
        nonlocal i; n = T[i]; i += 2; m = dict(name=n, subs=[], fields=[], ones=[])
        while T[i] != '}':
            x = T[i]
            if x == 'message': i += 1; m['subs'].append(msg())
            elif x == 'enum': i += 1; m['subs'].append(enum())
            elif x in ('reserved', 'option', 'extensions'): skip()
            elif x == 'oneof':
                o = T[i + 1]; i += 3; m['ones'].append(o)
                while T[i] != '}':
                    if T[i] == 'option': skip(); continue
                    m['fields'].append(field(o))
                i += 1
            elif x in ('repeated', 'optional', 'required'): i += 1; m['fields'].append(field(None, x))
            elif x == ';': i += 1
            else: m['fields'].append(field(None))
        i += 1; return ('msg', n, m)
    while i < len(T):
        x = T[i]
        if x == 'package': pkg = T[i + 1]; skip()
        elif x == 'import': imports.append(T[i + 1].strip('"') if T[i + 1].startswith('"') else T[i + 2].strip('"')); skip()
        elif x == 'message': i += 1; top.append(msg())
        elif x == 'enum': i += 1; top.append(enum())
        else: skip()
    return pkg, imports, top
def camel(s): return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))
PRE = r'''#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <utility>
#include <map>
#include <istream>
#include <ostream>
#ifndef PB_MINI
#define PB_MINI
namespace pb_mini {
template <class T> inline bool (*parse_fn)(T&, std::istream&) = nullptr; // a harness that needs decoding sets this
template <class T> inline bool (*ser_fn)(T const&, std::ostream&) = nullptr; template <class T> inline bool (*arr_fn)(T&, void const*, int) = nullptr; // same, encoding and decoding of byte arrays
template <class T> T const& def() { static T const d{}; return d; }
template <class T> struct ptr { T* p{nullptr}; ptr() = default; ptr(ptr const& o) : p(nullptr) { if (o.p) p = new T(*o.p); } ptr(ptr&& o) noexcept : p(o.p) { o.p = nullptr; } ptr& operator=(ptr const& o) { if (this != &o) { delete p; p = o.p ? new T(*o.p) : nullptr; } return *this; } ptr& operator=(ptr&& o) noexcept { std::swap(p, o.p); return *this; } ~ptr() { delete p; } T const& get() const { return p ? *p : def<T>(); } T* mut() { if (!p) p = new T(); return p; } void reset(T* q = nullptr) { delete p; p = q; } T* release() { T* r = p; p = nullptr; return r; } };
template <class T> struct rep {
    std::vector<T*> v; rep() = default; rep(rep const& o) { for (auto* e : o.v) v.push_back(new T(*e)); } rep(rep&& o) noexcept : v(std::move(o.v)) { o.v.clear(); } rep& operator=(rep o) { std::swap(v, o.v); return *this; } ~rep() { clear(); } void clear() { for (auto* e : v) delete e; v.clear(); } void Clear() { clear(); }
    T* Add() { v.push_back(new T()); return v.back(); } void Add(T x) { v.push_back(new T(std::move(x))); } int size() const { return (int)v.size(); } bool empty() const { return v.empty(); } void Reserve(int) {} T const& operator[](int i) const { return *v.at((size_t)i); } T const& Get(int i) const { return *v.at((size_t)i); } T* Mutable(int i) { return v.at((size_t)i); }
    template <class U, class P> struct it { P p; using value_type = T; using reference = U&; using pointer = U*; using difference_type = long; using iterator_category = std::forward_iterator_tag; U& operator*() const { return **p; } U* operator->() const { return *p; } it& operator++() { ++p; return *this; } it operator++(int) { auto r = *this; ++p; return r; } bool operator==(it const& o) const { return p == o.p; } bool operator!=(it const& o) const { return p != o.p; } };
    auto begin() const { return it<T const, T* const*>{v.data()}; } auto end() const { return it<T const, T* const*>{v.data() + v.size()}; } auto begin() { return it<T, T* const*>{v.data()}; } auto end() { return it<T, T* const*>{v.data() + v.size()}; }
};
}
namespace google::protobuf { struct Empty { bool operator==(Empty const&) const { return true; } }; }
#endif
'''
def gen(pkg, imports, top):
    o = PRE + ''.join('#include <%s>\n' % (x[:-6] + '.pb.h') for x in imports if not x.startswith('google/')); ns = pkg.replace('.', '::'); o += 'namespace %s {\n' % ns
    enums = set()
    def collect(l, pre):
        for x in l:
            if x[0] == 'enum': enums.add(x[1])
            else: collect(x[2]['subs'], pre)
    collect(top, '')
    ext_enums = gen.enums
    ext_enums |= enums
    def tname(t):
        p = t.split('.'); return '::'.join(p) if len(p) > 1 else t
    def emit(x, ind, outer):
        if x[0] == 'enum':
            r = 'enum %s : int { %s };\n' % (x[1], ', '.join('%s = %s' % v for v in x[2])); return r
        n, m = x[1], x[2]; r = 'class %s {\npublic:\n' % n
        for s in m['subs']:
            if s[0] == 'msg': r += 'class %s;\n' % s[1]
        for s in sorted(m['subs'], key=lambda z: z[0] != 'enum'): r += emit(s, ind + 1, n)
        priv = ''
        for on in m['ones']:
            fs = [f for f in m['fields'] if f['one'] == on]; C = camel(on) + 'Case'
            r += 'enum %s { %s, %s_NOT_SET = 0 };\n' % (C, ', '.join('k%s = %s' % (camel(f['name']), f['num']) for f in fs), on.upper())
            r += '%s %s_case() const { return %s_c_; }\n' % (C, on, on); priv += '%s %s_c_{%s_NOT_SET};\n' % (C, on, on.upper())
            r += 'void clear_%s() { %s %s_c_ = %s_NOT_SET; }\n' % (on, ' '.join('%s_ = {};' % f['name'] for f in fs), on, on.upper())
        for f in m['fields']:
            t, nm, on = f['ty'], f['name'], f['one']
            if isinstance(t, tuple):
                k, v = [SC.get(z, tname(z)) for z in t[1:]]; r += 'std::map<%s, %s> const& %s() const { return %s_; } std::map<%s, %s>* mutable_%s() { return &%s_; }\n' % (k, v, nm, nm, k, v, nm, nm); priv += 'std::map<%s, %s> %s_;\n' % (k, v, nm); continue
            isen = t.split('.')[-1] in ext_enums; sc = t in SC or isen; ct = SC.get(t, tname(t)); st = ct == 'std::string'
            sel = ('if (%s_c_ != k%s) { clear_%s(); %s_c_ = k%s; } ' % (on, camel(nm), on, on, camel(nm))) if on else ''
            if f['label'] == 'repeated':
                r += 'int %s_size() const { return %s_.size(); } pb_mini::rep<%s> const& %s() const { return %s_; } pb_mini::rep<%s>* mutable_%s() { return &%s_; } %s const& %s(int i) const { return %s_.Get(i); } %s* mutable_%s(int i) { return %s_.Mutable(i); } void clear_%s() { %s_.clear(); } %s* add_%s() { return %s_.Add(); }\n' % (nm, nm, ct, nm, nm, ct, nm, nm, ct, nm, nm, ct, nm, nm, nm, nm, ct, nm, nm)
                if sc: r += 'void add_%s(%s v) { %s_.Add(std::move(v)); } void set_%s(int i, %s v) { *%s_.Mutable(i) = std::move(v); }\n' % (nm, ct, nm, nm, ct, nm)
                priv += 'pb_mini::rep<%s> %s_;\n' % (ct, nm); continue
            has = ('return %s_c_ == k%s;' % (on, camel(nm))) if on else None
            if sc:
                r += '%s%s %s() const { return %s_; }\n' % (ct, ' const&' if st else '', nm, nm)
                opt = f['label'] == 'optional'
                r += 'void set_%s(%s v) { %s%s_ = %s; %s }\n' % (nm, ct, sel, nm, 'std::move(v)' if st else 'v', nm + '_h_ = true;' if opt else '')
                if st: r += 'void set_%s(void const* p, size_t n) { set_%s(std::string((char const*)p, n)); } std::string* mutable_%s() { %s%s return &%s_; } void set_allocated_%s(std::string* s) { set_%s(*s); delete s; }\n' % (nm, nm, nm, sel, nm + '_h_ = true;' if opt else '', nm, nm, nm)
                if st: r += 'void set_%s(char const* p) { set_%s(std::string(p)); } template <class V, class = decltype(std::declval<V const&>().data())> void set_%s(V const& v) { set_%s(std::string(v.data(), v.size())); }\n' % (nm, nm, nm, nm)
                if on: r += 'bool has_%s() const { %s } void clear_%s() { if (%s_c_ == k%s) clear_%s(); }\n' % (nm, has, nm, on, camel(nm), on)
                else: r += 'void clear_%s() { %s_ = {}; %s }\n' % (nm, nm, nm + '_h_ = false;' if opt else '')
                if opt: r += 'bool has_%s() const { return %s_h_; }\n' % (nm, nm); priv += 'bool %s_h_{false};\n' % nm
                priv += '%s %s_{};\n' % (ct, nm)
            else:
                ct = ct if not ct.startswith('google') else '::' + ct
                r += '%s const& %s() const { return %s_.get(); } %s* mutable_%s() { %sreturn %s_.mut(); } void set_allocated_%s(%s* q) { %s%s_.reset(q); } bool has_%s() const { %s } void clear_%s() { %s }\n' % (ct, nm, nm, ct, nm, sel, nm, nm, ct, ('clear_%s(); if (q) %s_c_ = k%s; ' % (on, on, camel(nm))) if on else '', nm, nm, has or 'return %s_.p != nullptr;' % nm, nm, ('if (%s_c_ == k%s) clear_%s();' % (on, camel(nm), on)) if on else '%s_.reset();' % nm)
                r += '%s* release_%s() { %sreturn %s_.release(); }\n' % (ct, nm, ('if (%s_c_ == k%s) %s_c_ = %s_NOT_SET; ' % (on, camel(nm), on, on.upper())) if on else '', nm)
                priv += 'pb_mini::ptr<%s> %s_;\n' % (ct, nm)
        r += 'static %s const& default_instance() { return pb_mini::def<%s>(); } void Clear() { *this = %s(); } template <class S> bool ParseFromIstream(S* s) { auto f = pb_mini::parse_fn<%s>; return f && f(*this, *s); } template <class S> bool SerializeToOstream(S* s) const { auto f = pb_mini::ser_fn<%s>; return f && f(*this, *s); } bool ParseFromArray(void const* p, int n) { auto f = pb_mini::arr_fn<%s>; return f && f(*this, p, n); } void CopyFrom(%s const& o) { *this = o; } void Swap(%s* o) { std::swap(*this, *o); }\nprivate:\n%s};\n' % (n, n, n, n, n, n, n, n, priv)
        return r
    for x in top:
        if x[0] == 'enum': o += emit(x, 0, '')
    for x in top:
        if x[0] == 'msg': o += 'class %s;\n' % x[1]
    body = [x for x in top if x[0] == 'msg']
    for x in body: o += emit(x, 0, '')
    def alias(x, path):
        r = ''
        for s in x[2]['subs']:
            if s[0] == 'msg': r += 'using %s = %s;\n' % ('_'.join(path + [s[1]]), '::'.join(path + [s[1]])); r += alias(s, path + [s[1]])
        return r
    for x in body: o += alias(x, [x[1]])
    return o + '}\n'
gen.enums = set()
def generate(root, rel, outdir, done=None):
    """root: directory the import paths are relative to"""
    done = set() if done is None else done
    if rel in done: return
    done.add(rel); pkg, imports, top = parse(open(os.path.join(root, rel)).read())
    for i in imports:
        if not i.startswith('google/'): generate(root, i, outdir, done)
    p = os.path.join(outdir, rel[:-6] + '.pb.h'); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(gen(pkg, imports, top))
if __name__ == '__main__': generate(sys.argv[1], sys.argv[2], sys.argv[3])
