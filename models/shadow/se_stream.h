// Stand-in for the iostream family.  Formatting into text that only ends up in
// logs is a no-op unless the harness asks for exact text (se_exact_text = 1).
#ifndef SE_SHADOW_STREAM
#define SE_SHADOW_STREAM
#include <iosfwd>
#include <string>
#include <type_traits>
extern "C" int se_exact_text;
namespace std {
template <>
class basic_ios<char, char_traits<char>> {
 public:
  std::string b_;
  size_t g_ = 0;
  bool fail_ = false;
  void num_(unsigned long long v, bool neg) {
    char t[24];
    int n = 0;
    do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v);
    if (neg) b_.push_back('-');
    while (n) b_.push_back(t[--n]);
  }
  void put_(const char* s) { if (se_exact_text) b_.append(s); }
  void put_(const std::string& s) { if (se_exact_text) b_.append(s); }
  void put_(char c) { if (se_exact_text) b_.push_back(c); }
  void put_(bool v) { if (se_exact_text) b_.push_back(v ? '1' : '0'); }
  void put_(double) { put_("?"); }
  template <class T> typename enable_if<is_integral<T>::value>::type put_(T v) {
    if (!se_exact_text) return;
    bool neg = v < 0;
    num_(neg ? 0 - (unsigned long long)v : (unsigned long long)v, neg);
  }
  template <class T> typename enable_if<is_enum<T>::value>::type put_(T v) { put_((long long)v); }
  template <class T> typename enable_if<is_pointer<T>::value>::type put_(T) { put_("0xptr"); }
  void clear() { fail_ = false; }
  bool eof() const { return g_ >= b_.size(); }
  bool fail() const { return fail_; }
  bool good() const { return !fail_; }
  explicit operator bool() const { return !fail_; }
  bool operator!() const { return fail_; }
  long precision(long) { return 6; }
  long width(long) { return 0; }
};
template <>
class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
 public:
  typedef basic_ostream& (*Manip)(basic_ostream&);
  basic_ostream& operator<<(Manip f) { return f(*this); }
  basic_ostream& write(const char* p, long n) { if (se_exact_text) b_.append(p, n); return *this; }
  basic_ostream& put(char c) { put_(c); return *this; }
  basic_ostream& flush() { return *this; }
};
template <>
class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
 public:
  int get() { return g_ < b_.size() ? (unsigned char)b_[g_++] : (fail_ = true, -1); }
  int peek() { return g_ < b_.size() ? (unsigned char)b_[g_] : -1; }
};
template <>
class basic_iostream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>, public basic_ostream<char, char_traits<char>> {};
template <class S, class T>
typename enable_if<is_base_of<basic_ostream<char, char_traits<char>>, typename remove_reference<S>::type>::value &&
                       (is_arithmetic<T>::value || is_enum<T>::value || is_pointer<T>::value),
                   S&&>::type
operator<<(S&& s, const T& v) {
  s.put_(v);
  return static_cast<S&&>(s);
}
template <class S>
typename enable_if<is_base_of<basic_ostream<char, char_traits<char>>, typename remove_reference<S>::type>::value, S&&>::type operator<<(S&& s, const char* v) {
  s.put_(v);
  return static_cast<S&&>(s);
}
template <class S>
typename enable_if<is_base_of<basic_ostream<char, char_traits<char>>, typename remove_reference<S>::type>::value, S&&>::type operator<<(S&& s, const string& v) {
  s.put_(v);
  return static_cast<S&&>(s);
}
inline ostream& operator<<(ostream& s, const string& v) { s.put_(v); return s; }
inline ostream& operator<<(ostream& s, const char* v) { s.put_(v); return s; }
inline ostream& endl(ostream& s) { s.put_('\n'); return s; }
inline ostream& flush(ostream& s) { return s; }
inline ostream& ends(ostream& s) { s.put_('\0'); return s; }
inline ostream& boolalpha(ostream& s) { return s; }
inline ostream& hex(ostream& s) { return s; }
inline ostream& dec(ostream& s) { return s; }
struct se_manip {};
inline se_manip setw(int) { return {}; }
inline se_manip setprecision(int) { return {}; }
inline se_manip setfill(char) { return {}; }
inline ostream& operator<<(ostream& s, se_manip) { return s; }
#define SE_STREAM(NAME, BASE)                                          \
  template <> class NAME<char, char_traits<char>, allocator<char>> : public BASE { \
   public:                                                             \
    NAME() {}                                                          \
    explicit NAME(const string& s) { b_ = s; }                         \
    string str() const { return b_; }                                  \
    void str(const string& s) { b_ = s; g_ = 0; }                      \
  }
SE_STREAM(basic_stringstream, iostream);
SE_STREAM(basic_ostringstream, ostream);
SE_STREAM(basic_istringstream, istream);
inline istream& getline(istream& s, string& o, char d = '\n') {
  o.clear();
  if (s.g_ >= s.b_.size()) { s.fail_ = true; return s; }
  while (s.g_ < s.b_.size()) {
    char c = s.b_[s.g_++];
    if (c == d) break;
    o.push_back(c);
  }
  return s;
}
inline istream& operator>>(istream& s, string& o) {
  o.clear();
  while (s.g_ < s.b_.size() && (s.b_[s.g_] == ' ' || s.b_[s.g_] == '\n' || s.b_[s.g_] == '\t')) s.g_++;
  if (s.g_ >= s.b_.size()) { s.fail_ = true; return s; }
  while (s.g_ < s.b_.size() && !(s.b_[s.g_] == ' ' || s.b_[s.g_] == '\n' || s.b_[s.g_] == '\t')) o.push_back(s.b_[s.g_++]);
  return s;
}
template <class T> typename enable_if<is_integral<T>::value && !is_same<T, char>::value, istream&>::type operator>>(istream& s, T& v) {
  string t;
  s >> t;
  bool neg = !t.empty() && t[0] == '-';
  unsigned long long r = 0;
  size_t i = neg ? 1 : 0, i0 = i;
  for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++) r = r * 10 + (t[i] - '0');
  if (i == i0) s.fail_ = true;
  s.g_ -= t.size() - i;
  v = (T)(neg ? 0 - r : r);
  return s;
}
inline istream& operator>>(istream& s, char& c) {
  while (s.g_ < s.b_.size() && s.b_[s.g_] == ' ') s.g_++;
  if (s.g_ >= s.b_.size()) s.fail_ = true; else c = s.b_[s.g_++];
  return s;
}
struct se_null_ostream : ostream {};
inline se_null_ostream cout, cerr, clog;
}  // namespace std
#endif
