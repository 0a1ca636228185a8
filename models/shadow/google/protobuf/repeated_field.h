// Header-only stand-in for the protobuf runtime (encoded program only; every
// counterexample is replayed against the real libprotobuf).
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <ostream>
#include <set>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace google {
namespace protobuf {
typedef uint64_t uint64;
typedef uint32_t uint32;
typedef int64_t int64;
typedef int32_t int32;
typedef uint8_t uint8;

class Arena;
class MessageLite {
 public:
  virtual ~MessageLite() = default;
};
typedef MessageLite Message;

template <class T>
class RepeatedField {
 public:
  typedef T value_type;
  typedef T* iterator;
  typedef const T* const_iterator;
  typedef T& reference;
  typedef const T& const_reference;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  typedef int size_type;
  typedef ptrdiff_t difference_type;
  RepeatedField() {}
  RepeatedField(const RepeatedField& o) : v_(o.v_) {}
  RepeatedField(RepeatedField&& o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); }
  template <class It> RepeatedField(It a, It b) : v_(a, b) {}
  RepeatedField& operator=(const RepeatedField& o) { if (this != &o) v_ = o.v_; return *this; }
  RepeatedField& operator=(RepeatedField&& o) noexcept { if (this != &o) { v_ = std::move(o.v_); o.v_.clear(); } return *this; }
  bool empty() const { return v_.empty(); }
  int size() const { return (int)v_.size(); }
  int Capacity() const { return (int)v_.capacity(); }
  const T& Get(int i) const { chk(i); return v_[i]; }
  T* Mutable(int i) { chk(i); return &v_[i]; }
  const T& operator[](int i) const { chk(i); return v_[i]; }
  T& operator[](int i) { chk(i); return v_[i]; }
  const T& at(int i) const { chk(i); return v_[i]; }
  T& at(int i) { chk(i); return v_[i]; }
  void Set(int i, const T& x) { chk(i); v_[i] = x; }
  void Add(const T& x) { v_.push_back(x); }
  T* Add() { v_.push_back(T()); return &v_.back(); }
  template <class It> void Add(It a, It b) { v_.insert(v_.end(), a, b); }
  void RemoveLast() { assert(!v_.empty()); v_.pop_back(); }
  void Clear() { v_.clear(); }
  void MergeFrom(const RepeatedField& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
  void CopyFrom(const RepeatedField& o) { if (this != &o) v_ = o.v_; }
  template <class It> void Assign(It a, It b) { v_.assign(a, b); }
  void Reserve(int n) { v_.reserve(n); }
  void Truncate(int n) { v_.resize(n); }
  void Resize(int n, const T& x) { v_.resize(n, x); }
  T* mutable_data() { return v_.data(); }
  const T* data() const { return v_.data(); }
  void Swap(RepeatedField* o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { std::swap(v_[a], v_[b]); }
  iterator begin() { return v_.data(); }
  iterator end() { return v_.data() + v_.size(); }
  const_iterator begin() const { return v_.data(); }
  const_iterator end() const { return v_.data() + v_.size(); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  iterator erase(const_iterator p) { size_t k = p - begin(); v_.erase(v_.begin() + k); return begin() + k; }
  iterator erase(const_iterator a, const_iterator b) { size_t k = a - begin(), n = b - a; v_.erase(v_.begin() + k, v_.begin() + k + n); return begin() + k; }

 private:
  void chk(int i) const { assert(i >= 0 && (size_t)i < v_.size()); }
  std::vector<T> v_;
};

template <class T, bool Const>
class RepPtrIter_ {
 public:
  typedef std::random_access_iterator_tag iterator_category;
  typedef T value_type;
  typedef ptrdiff_t difference_type;
  typedef typename std::conditional<Const, const T*, T*>::type pointer;
  typedef typename std::conditional<Const, const T&, T&>::type reference;
  T* const* p;
  RepPtrIter_() : p(nullptr) {}
  explicit RepPtrIter_(T* const* q) : p(q) {}
  template <bool C2, class = typename std::enable_if<Const && !C2>::type> RepPtrIter_(const RepPtrIter_<T, C2>& o) : p(o.p) {}
  reference operator*() const { return **p; }
  pointer operator->() const { return *p; }
  reference operator[](ptrdiff_t n) const { return *p[n]; }
  RepPtrIter_& operator++() { ++p; return *this; }
  RepPtrIter_ operator++(int) { RepPtrIter_ t = *this; ++p; return t; }
  RepPtrIter_& operator--() { --p; return *this; }
  RepPtrIter_ operator--(int) { RepPtrIter_ t = *this; --p; return t; }
  RepPtrIter_& operator+=(ptrdiff_t n) { p += n; return *this; }
  RepPtrIter_& operator-=(ptrdiff_t n) { p -= n; return *this; }
  RepPtrIter_ operator+(ptrdiff_t n) const { return RepPtrIter_(p + n); }
  RepPtrIter_ operator-(ptrdiff_t n) const { return RepPtrIter_(p - n); }
  friend RepPtrIter_ operator+(ptrdiff_t n, RepPtrIter_ i) { return i + n; }
  friend ptrdiff_t operator-(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p - b.p; }
  friend bool operator==(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p == b.p; }
  friend bool operator!=(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p != b.p; }
  friend bool operator<(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p < b.p; }
  friend bool operator<=(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p <= b.p; }
  friend bool operator>(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p > b.p; }
  friend bool operator>=(const RepPtrIter_& a, const RepPtrIter_& b) { return a.p >= b.p; }
};

template <class T>
class RepeatedPtrField {
 public:
  typedef T value_type;
  typedef RepPtrIter_<T, false> iterator;
  typedef RepPtrIter_<T, true> const_iterator;
  typedef T& reference;
  typedef const T& const_reference;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  typedef int size_type;
  typedef ptrdiff_t difference_type;
  RepeatedPtrField() {}
  RepeatedPtrField(const RepeatedPtrField& o) { MergeFrom(o); }
  RepeatedPtrField(RepeatedPtrField&& o) noexcept { v_.swap(o.v_); }
  template <class It> RepeatedPtrField(It a, It b) { for (; a != b; ++a) *Add() = *a; }
  ~RepeatedPtrField() { Clear(); }
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { CopyFrom(o); return *this; }
  RepeatedPtrField& operator=(RepeatedPtrField&& o) noexcept { if (this != &o) { Clear(); v_.swap(o.v_); } return *this; }
  bool empty() const { return v_.empty(); }
  int size() const { return (int)v_.size(); }
  const T& Get(int i) const { chk(i); return *v_[i]; }
  T* Mutable(int i) { chk(i); return v_[i]; }
  const T& operator[](int i) const { chk(i); return *v_[i]; }
  T& operator[](int i) { chk(i); return *v_[i]; }
  const T& at(int i) const { chk(i); return *v_[i]; }
  T& at(int i) { chk(i); return *v_[i]; }
  T* Add() { v_.push_back(new T()); return v_.back(); }
  void Add(T&& x) { v_.push_back(new T(std::move(x))); }
  template <class It> void Add(It a, It b) { for (; a != b; ++a) *Add() = *a; }
  void RemoveLast() { assert(!v_.empty()); delete v_.back(); v_.pop_back(); }
  void DeleteSubrange(int a, int n) { for (int i = a; i < a + n; i++) delete v_[i]; v_.erase(v_.begin() + a, v_.begin() + a + n); }
  void Clear() { for (T* t : v_) delete t; v_.clear(); }
  void MergeFrom(const RepeatedPtrField& o) { v_.reserve(v_.size() + o.v_.size()); for (size_t i = 0, n = o.v_.size(); i < n; i++) v_.push_back(new T(*o.v_[i])); }
  void CopyFrom(const RepeatedPtrField& o) { if (this != &o) { Clear(); MergeFrom(o); } }
  template <class It> void Assign(It a, It b) { Clear(); Add(a, b); }
  void Reserve(int n) { v_.reserve(n); }
  void Swap(RepeatedPtrField* o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { std::swap(v_[a], v_[b]); }
  void AddAllocated(T* t) { v_.push_back(t); }
  T* ReleaseLast() { T* t = v_.back(); v_.pop_back(); return t; }
  iterator begin() { return iterator(v_.data()); }
  iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  iterator erase(const_iterator p) { return erase(p, p + 1); }
  iterator erase(const_iterator a, const_iterator b) { int k = a - cbegin(); DeleteSubrange(k, b - a); return begin() + k; }

 private:
  void chk(int i) const { assert(i >= 0 && (size_t)i < v_.size()); }
  std::vector<T*> v_;
};

// ---- wire format ----
namespace wire {
inline size_t VarintSize(uint64_t v) {
  return 1 + (size_t)(v >= (1ull << 7)) + (size_t)(v >= (1ull << 14)) + (size_t)(v >= (1ull << 21)) + (size_t)(v >= (1ull << 28)) +
         (size_t)(v >= (1ull << 35)) + (size_t)(v >= (1ull << 42)) + (size_t)(v >= (1ull << 49)) + (size_t)(v >= (1ull << 56)) + (size_t)(v >= (1ull << 63));
}
inline void PutVarint(std::string* o, uint64_t v) {
  while (v >= 0x80) { o->push_back((char)(0x80 | (v & 0x7f))); v >>= 7; }
  o->push_back((char)v);
}
inline bool GetVarint(const char*& p, const char* e, uint64_t* v) {
  uint64_t r = 0;
  for (int i = 0; i < 10; i++) {
    if (p == e) return false;
    uint8_t b = (uint8_t)*p++;
    r |= (uint64_t)(b & 0x7f) << (7 * i);
    if (!(b & 0x80)) { *v = r; return true; }
  }
  return false;
}
inline bool Skip(const char*& p, const char* e, unsigned wt) {
  uint64_t v;
  switch (wt) {
    case 0: return GetVarint(p, e, &v);
    case 1: if (e - p < 8) return false; p += 8; return true;
    case 2: if (!GetVarint(p, e, &v) || v > (uint64_t)(e - p)) return false; p += v; return true;
    case 5: if (e - p < 4) return false; p += 4; return true;
    default: return false;
  }
}
}  // namespace wire
}  // namespace protobuf
}  // namespace google
