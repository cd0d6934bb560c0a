// Random engine and integer distribution of the <random> model (see random).
#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#include <cstdint>
#include <cstddef>
#include <type_traits>
extern "C" uint64_t krandom_draw(uint64_t seed, uint64_t pos, uint64_t lo, uint64_t hi);
namespace std {
struct __kengine {
  typedef uint_fast32_t result_type;
  uint64_t seed_, pos_ = 0;
  __kengine() : seed_(1) {}
  template <typename S> explicit __kengine(S s) : seed_((uint64_t)s) {}
  void seed(uint64_t s = 1) { seed_ = s; pos_ = 0; }
  static constexpr result_type min() { return 1; }
  static constexpr result_type max() { return 2147483646u; }
  result_type operator()() { return (result_type)krandom_draw(seed_, pos_++, min(), max()); }
  void discard(unsigned long long n) { pos_ += n; }
  bool operator==(const __kengine &o) const { return seed_ == o.seed_ && pos_ == o.pos_; }
};
template <typename I = int>
class uniform_int_distribution {
  I a_, b_;
 public:
  struct param_type { typedef uniform_int_distribution distribution_type; I a, b; explicit param_type(I a = 0, I b = 0) : a(a), b(b) {} };
  typedef I result_type;
  explicit uniform_int_distribution(I a = 0, I b = (I)(~(uint64_t)0 >> (65 - 8 * sizeof(I)))) : a_(a), b_(b) {}
  template <typename E> I operator()(E &e) { return (I)krandom_draw(e.seed_, e.pos_++, (uint64_t)a_, (uint64_t)b_); }
  template <typename E> I operator()(E &e, const param_type &p) { return (I)krandom_draw(e.seed_, e.pos_++, (uint64_t)p.a, (uint64_t)p.b); }
  I a() const { return a_; }
  I b() const { return b_; }
  I min() const { return a_; }
  I max() const { return b_; }
  void reset() {}
};
}
#endif
