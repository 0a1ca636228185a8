// Stand-in: a random draw is an arbitrary value of the requested range.
#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#include <type_traits>
#include <bits/move.h>
extern "C" unsigned long se_sym(const char* name, unsigned bits);
extern "C" void se_assume(bool);
namespace std {
template <class T = int>
class uniform_int_distribution {
 public:
  typedef T result_type;
  struct param_type {
    typedef uniform_int_distribution<T> distribution_type;
    T a_, b_;
    explicit param_type(T a = 0, T b = (T)(~0ull >> (65 - 8 * sizeof(T)))) : a_(a), b_(b) {}
    T a() const { return a_; }
    T b() const { return b_; }
  };
  explicit uniform_int_distribution(T a = 0, T b = (T)(~0ull >> (65 - 8 * sizeof(T)))) : p_(a, b) {}
  explicit uniform_int_distribution(const param_type& p) : p_(p) {}
  void reset() {}
  T a() const { return p_.a_; }
  T b() const { return p_.b_; }
  T min() const { return p_.a_; }
  T max() const { return p_.b_; }
  param_type param() const { return p_; }
  void param(const param_type& p) { p_ = p; }
  template <class G> T operator()(G&) { return draw(p_); }
  template <class G> T operator()(G&, const param_type& p) { return draw(p); }

 private:
  static T draw(const param_type& p) {
    if (p.a_ == p.b_) return p.a_;
    T v = (T)se_sym("rand", 8 * sizeof(T));
    se_assume((v >= p.a_) & (v <= p.b_));
    return v;
  }
  param_type p_;
};
}  // namespace std
#endif
