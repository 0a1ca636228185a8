#!/usr/bin/env python3
"""Generates a header-only stand-in for protoc's raft.pb.h from a proto2 file."""
import re, sys

SC = {'uint64': 'uint64_t', 'uint32': 'uint32_t', 'int64': 'int64_t', 'int32': 'int32_t', 'bool': 'bool'}

def parse(text):
    text = re.sub(r'//[^\n]*', '', text)
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    pkg = re.search(r'package\s+([\w.]+)\s*;', text).group(1)
    items = []
    for m in re.finditer(r'\b(enum|message)\s+(\w+)\s*\{([^}]*)\}', text):
        kind, name, body = m.groups()
        if kind == 'enum':
            vals = [(a, int(b)) for a, b in re.findall(r'(\w+)\s*=\s*(-?\d+)\s*;', body)]
            items.append(('enum', name, vals))
        else:
            fs = []
            for lab, ty, fn, num, opt in re.findall(r'(optional|required|repeated)\s+([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;', body):
                fs.append((lab, ty, fn.lower(), int(num)))
            items.append(('message', name, fs))
    return pkg, items

def gen(path):
    pkg, items = parse(open(path).read())
    enums = {n: v for k, n, v in items if k == 'enum'}
    msgs = {n: v for k, n, v in items if k == 'message'}
    order, seen = [], set()
    def visit(n):
        if n in seen: return
        seen.add(n)
        for _, ty, _, _ in msgs[n]:
            if ty in msgs: visit(ty)
        order.append(n)
    for n in msgs: visit(n)
    o = []
    w = o.append
    w('// generated by tools/gen_pb.py')
    w('#pragma once')
    w('#include <google/protobuf/repeated_field.h>')
    w(f'namespace {pkg} {{')
    for n, vals in enums.items():
        w(f'enum {n} : int {{ ' + ', '.join(f'{a} = {b}' for a, b in vals) + ' };')
        ns = sorted(b for _, b in vals)
        if ns == list(range(ns[0], ns[-1] + 1)):
            w(f'inline bool {n}_IsValid(int v) {{ return (unsigned)(v - ({ns[0]})) <= {ns[-1]-ns[0]}u; }}')
        else:
            w(f'inline bool {n}_IsValid(int v) {{ return ' + ' || '.join(f'v == {b}' for b in ns) + '; }')
        w(f'constexpr {n} {n}_MIN = {n}({ns[0]}), {n}_MAX = {n}({ns[-1]});')
        w(f'constexpr int {n}_ARRAYSIZE = {ns[-1]+1};')
        w(f'template <class T> inline const std::string& {n}_Name(T) {{ static const std::string* s = new std::string("{n}"); return *s; }}')
    for n in order:
        fs = msgs[n]
        w(f'class {n};')
    for n in order:
        fs = sorted(msgs[n], key=lambda f: f[3])
        opt = [f for f in fs if f[0] != 'repeated']
        w(f'class {n} final : public ::google::protobuf::Message {{\n public:')
        # members
        mem, init = [], []
        for lab, ty, fn, num in fs:
            if lab == 'repeated':
                if ty in msgs: mem.append(f'::google::protobuf::RepeatedPtrField<{ty}> {fn}_;')
                elif ty in ('bytes', 'string'): mem.append(f'::google::protobuf::RepeatedPtrField<std::string> {fn}_;')
                else: mem.append(f'::google::protobuf::RepeatedField<{ "int" if ty in enums else SC[ty]}> {fn}_;')
            elif ty in msgs: mem.append(f'{ty}* {fn}_ = nullptr;')
            elif ty in ('bytes', 'string'): mem.append(f'std::string {fn}_;')
            elif ty in enums: mem.append(f'int {fn}_ = {enums[ty][0][1]};')
            else: mem.append(f'{SC[ty]} {fn}_ = 0;')
        for lab, ty, fn, num in opt: mem.append(f'bool h_{fn}_ = false;')
        w(f'  {n}() {{}}')
        w(f'  {n}(const {n}& o) {{ MergeFrom(o); }}')
        w(f'  {n}({n}&& o) noexcept {{ InternalSwap(&o); }}')
        w(f'  {n}& operator=(const {n}& o) {{ CopyFrom(o); return *this; }}')
        w(f'  {n}& operator=({n}&& o) noexcept {{ if (this != &o) InternalSwap(&o); return *this; }}')
        w(f'  ~{n}() {{ ' + ' '.join(f'delete {fn}_;' for lab, ty, fn, num in opt if ty in msgs) + ' }')
        w(f'  static const {n}& default_instance() {{ static const {n}* d = new {n}(); return *d; }}')
        w('  bool IsInitialized() const { return true; }')
        w('  std::string GetTypeName() const { return "%s.%s"; }' % (pkg, n))
        w('  std::string DebugString() const { return "%s"; }' % n)
        w('  std::string ShortDebugString() const { return "%s"; }' % n)
        w(f'  {n}* New() const {{ return new {n}(); }}')
        w(f'  void Clear() {{ ' + ' '.join(f'clear_{f[2]}();' for f in fs) + ' }')
        w(f'  void CopyFrom(const {n}& o) {{ if (this != &o) {{ Clear(); MergeFrom(o); }} }}')
        w(f'  void MergeFrom(const {n}& o) {{')
        for lab, ty, fn, num in fs:
            if lab == 'repeated': w(f'    {fn}_.MergeFrom(o.{fn}_);')
            elif ty in msgs: w(f'    if (o.h_{fn}_) mutable_{fn}()->MergeFrom(*o.{fn}_);')
            else: w(f'    if (o.h_{fn}_) {{ {fn}_ = o.{fn}_; h_{fn}_ = true; }}')
        w('  }')
        w(f'  void InternalSwap({n}* o) {{')
        for lab, ty, fn, num in fs:
            if lab == 'repeated': w(f'    {fn}_.Swap(&o->{fn}_);')
            elif ty in ('bytes', 'string'): w(f'    {fn}_.swap(o->{fn}_);')
            else: w(f'    std::swap({fn}_, o->{fn}_);')
            if lab != 'repeated': w(f'    std::swap(h_{fn}_, o->h_{fn}_);')
        w('  }')
        w(f'  void Swap({n}* o) {{ if (this != o) InternalSwap(o); }}')
        w(f'  friend void swap({n}& a, {n}& b) {{ a.Swap(&b); }}')
        # accessors
        for lab, ty, fn, num in fs:
            w(f'  static constexpr int k{"".join(x.capitalize() for x in fn.split("_"))}FieldNumber = {num};')
            if lab == 'repeated':
                w(f'  int {fn}_size() const {{ return {fn}_.size(); }}')
                w(f'  void clear_{fn}() {{ {fn}_.Clear(); }}')
                if ty in msgs:
                    R = f'::google::protobuf::RepeatedPtrField<{ty}>'
                    w(f'  const {ty}& {fn}(int i) const {{ return {fn}_.Get(i); }}')
                    w(f'  {ty}* mutable_{fn}(int i) {{ return {fn}_.Mutable(i); }}')
                    w(f'  {ty}* add_{fn}() {{ return {fn}_.Add(); }}')
                elif ty in ('bytes', 'string'):
                    R = '::google::protobuf::RepeatedPtrField<std::string>'
                    w(f'  const std::string& {fn}(int i) const {{ return {fn}_.Get(i); }}')
                    w(f'  void add_{fn}(const std::string& v) {{ *{fn}_.Add() = v; }}')
                else:
                    T = ty if ty in enums else SC[ty]
                    S = 'int' if ty in enums else SC[ty]
                    R = f'::google::protobuf::RepeatedField<{S}>'
                    w(f'  {T} {fn}(int i) const {{ return ({T}){fn}_.Get(i); }}')
                    w(f'  void set_{fn}(int i, {T} v) {{ {fn}_.Set(i, v); }}')
                    w(f'  void add_{fn}({T} v) {{ {fn}_.Add(v); }}')
                w(f'  const {R}& {fn}() const {{ return {fn}_; }}')
                w(f'  {R}* mutable_{fn}() {{ return &{fn}_; }}')
                continue
            w(f'  bool has_{fn}() const {{ return h_{fn}_; }}')
            if ty in msgs:
                w(f'  const {ty}& {fn}() const {{ return {fn}_ ? *{fn}_ : {ty}::default_instance(); }}')
                w(f'  {ty}* mutable_{fn}() {{ h_{fn}_ = true; if (!{fn}_) {fn}_ = new {ty}(); return {fn}_; }}')
                w(f'  void clear_{fn}() {{ if ({fn}_) {fn}_->Clear(); h_{fn}_ = false; }}')
                w(f'  {ty}* release_{fn}() {{ {ty}* t = h_{fn}_ ? {fn}_ : nullptr; if (!h_{fn}_) delete {fn}_; {fn}_ = nullptr; h_{fn}_ = false; return t; }}')
                w(f'  void set_allocated_{fn}({ty}* t) {{ delete {fn}_; {fn}_ = t; h_{fn}_ = t != nullptr; }}')
            elif ty in ('bytes', 'string'):
                w(f'  const std::string& {fn}() const {{ return {fn}_; }}')
                w(f'  std::string* mutable_{fn}() {{ h_{fn}_ = true; return &{fn}_; }}')
                w(f'  template <class A, class... B> void set_{fn}(A&& a, B&&... b) {{ h_{fn}_ = true; {fn}_ = std::string(std::forward<A>(a), std::forward<B>(b)...); }}')
                w(f'  void set_{fn}(const std::string& v) {{ h_{fn}_ = true; {fn}_ = v; }}')
                w(f'  void set_{fn}(std::string&& v) {{ h_{fn}_ = true; {fn}_ = std::move(v); }}')
                w(f'  void set_{fn}(const void* p, size_t k) {{ h_{fn}_ = true; {fn}_.assign((const char*)p, k); }}')
                w(f'  void clear_{fn}() {{ {fn}_.clear(); h_{fn}_ = false; }}')
                w(f'  std::string* release_{fn}() {{ if (!h_{fn}_) return nullptr; h_{fn}_ = false; std::string* t = new std::string(std::move({fn}_)); {fn}_.clear(); return t; }}')
                w(f'  void set_allocated_{fn}(std::string* t) {{ h_{fn}_ = t != nullptr; if (t) {{ {fn}_ = std::move(*t); delete t; }} else {fn}_.clear(); }}')
            elif ty in enums:
                w(f'  {ty} {fn}() const {{ return static_cast<{ty}>({fn}_); }}')
                w(f'  void set_{fn}({ty} v) {{ assert({ty}_IsValid(v)); h_{fn}_ = true; {fn}_ = v; }}')
                w(f'  void clear_{fn}() {{ {fn}_ = {enums[ty][0][1]}; h_{fn}_ = false; }}')
            else:
                T = SC[ty]
                w(f'  {T} {fn}() const {{ return {fn}_; }}')
                w(f'  void set_{fn}({T} v) {{ h_{fn}_ = true; {fn}_ = v; }}')
                w(f'  void clear_{fn}() {{ {fn}_ = 0; h_{fn}_ = false; }}')
        # size
        w('  size_t ByteSizeLong() const {\n    using namespace ::google::protobuf::wire;\n    size_t n = 0;')
        def tag(num, wt): return (num << 3) | wt
        def tsz(num): return 1 if num < 16 else 2
        def cast(ty): return '(uint64_t)(int64_t)' if ty in enums or ty in ('int32', 'int64') else '(uint64_t)'
        for lab, ty, fn, num in fs:
            t = tsz(num)
            if lab == 'repeated':
                if ty in msgs: w(f'    for (int i = 0; i < {fn}_.size(); i++) {{ size_t k = {fn}_.Get(i).ByteSizeLong(); n += {t} + VarintSize(k) + k; }}')
                elif ty in ('bytes', 'string'): w(f'    for (int i = 0; i < {fn}_.size(); i++) {{ size_t k = {fn}_.Get(i).size(); n += {t} + VarintSize(k) + k; }}')
                else: w(f'    for (int i = 0; i < {fn}_.size(); i++) n += {t} + VarintSize({cast(ty)}{fn}_.Get(i));')
            elif ty in msgs: w(f'    if (h_{fn}_) {{ size_t k = {fn}_->ByteSizeLong(); n += {t} + VarintSize(k) + k; }}')
            elif ty in ('bytes', 'string'): w(f'    if (h_{fn}_) n += {t} + VarintSize({fn}_.size()) + {fn}_.size();')
            elif ty == 'bool': w(f'    if (h_{fn}_) n += {t} + 1;')
            else: w(f'    if (h_{fn}_) n += {t} + VarintSize({cast(ty)}{fn}_);')
        w('    return n;\n  }')
        w('  int ByteSize() const { return (int)ByteSizeLong(); }')
        # write
        w('  void AppendTo_(std::string* o) const {\n    using namespace ::google::protobuf::wire;')
        for lab, ty, fn, num in fs:
            t0, t2 = tag(num, 0), tag(num, 2)
            if lab == 'repeated':
                if ty in msgs: w(f'    for (int i = 0; i < {fn}_.size(); i++) {{ PutVarint(o, {t2}); PutVarint(o, {fn}_.Get(i).ByteSizeLong()); {fn}_.Get(i).AppendTo_(o); }}')
                elif ty in ('bytes', 'string'): w(f'    for (int i = 0; i < {fn}_.size(); i++) {{ PutVarint(o, {t2}); PutVarint(o, {fn}_.Get(i).size()); o->append({fn}_.Get(i)); }}')
                else: w(f'    for (int i = 0; i < {fn}_.size(); i++) {{ PutVarint(o, {t0}); PutVarint(o, {cast(ty)}{fn}_.Get(i)); }}')
            elif ty in msgs: w(f'    if (h_{fn}_) {{ PutVarint(o, {t2}); PutVarint(o, {fn}_->ByteSizeLong()); {fn}_->AppendTo_(o); }}')
            elif ty in ('bytes', 'string'): w(f'    if (h_{fn}_) {{ PutVarint(o, {t2}); PutVarint(o, {fn}_.size()); o->append({fn}_); }}')
            else: w(f'    if (h_{fn}_) {{ PutVarint(o, {t0}); PutVarint(o, {cast(ty)}{fn}_); }}')
        w('  }')
        # parse
        w('  bool ParseFrom_(const char* p, const char* e) {\n    using namespace ::google::protobuf::wire;')
        w('    while (p != e) {\n      uint64_t t, v; (void)v;\n      if (!GetVarint(p, e, &t)) return false;')
        for lab, ty, fn, num in fs:
            if ty in msgs:
                tgt = f'add_{fn}()' if lab == 'repeated' else f'mutable_{fn}()'
                w(f'      if (t == {tag(num,2)}) {{ if (!GetVarint(p, e, &v) || v > (uint64_t)(e - p)) return false; if (!{tgt}->ParseFrom_(p, p + v)) return false; p += v; continue; }}')
            elif ty in ('bytes', 'string'):
                tgt = f'add_{fn}(std::string(p, v))' if lab == 'repeated' else f'set_{fn}(p, (size_t)v)'
                w(f'      if (t == {tag(num,2)}) {{ if (!GetVarint(p, e, &v) || v > (uint64_t)(e - p)) return false; {tgt}; p += v; continue; }}')
            else:
                T = ty if ty in enums else SC[ty]
                st = f'add_{fn}(({T})v)' if lab == 'repeated' else f'set_{fn}(({T})v)'
                if ty == 'bool': st = st.replace('(bool)v', 'v != 0')
                if ty in enums: st = f'if ({ty}_IsValid((int)v)) {st}'
                w(f'      if (t == {tag(num,0)}) {{ if (!GetVarint(p, e, &v)) return false; {st}; continue; }}')
                if lab == 'repeated':
                    w(f'      if (t == {tag(num,2)}) {{ if (!GetVarint(p, e, &v) || v > (uint64_t)(e - p)) return false; const char* q = p + v; while (p != q) {{ if (!GetVarint(p, q, &v)) return false; {st}; }} continue; }}')
        w('      if ((t >> 3) == 0 || !Skip(p, e, t & 7)) return false;')
        w('    }\n    return true;\n  }')
        w('  bool SerializeToString(std::string* o) const { o->clear(); AppendTo_(o); return true; }')
        w('  bool AppendToString(std::string* o) const { AppendTo_(o); return true; }')
        w('  std::string SerializeAsString() const { std::string s; AppendTo_(&s); return s; }')
        w('  bool SerializeToArray(void* p, int k) const { std::string s; AppendTo_(&s); if ((size_t)k < s.size()) return false; for (size_t i = 0; i < s.size(); i++) ((char*)p)[i] = s[i]; return true; }')
        w('  bool ParseFromArray(const void* p, int k) { Clear(); return ParseFrom_((const char*)p, (const char*)p + k); }')
        w('  bool ParseFromString(const std::string& s) { Clear(); return ParseFrom_(s.data(), s.data() + s.size()); }')
        w('  bool MergeFromString(const std::string& s) { return ParseFrom_(s.data(), s.data() + s.size()); }')
        w(' private:')
        for m in mem: w('  ' + m)
        w('};')
    w(f'}}  // namespace {pkg}')
    return '\n'.join(o) + '\n'

if __name__ == '__main__':
    s = gen(sys.argv[1])
    open(sys.argv[2], 'w').write(s)
