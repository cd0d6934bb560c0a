#pragma once
#include <iosfwd>
namespace std {
class locale {};
struct ctype_base { enum mask { space = 1 }; };
typedef ctype_base __ctype_base;
template <typename C> struct ctype : ctype_base { bool is(mask, C c) const { return c == ' ' || (unsigned)(c - 9) <= 4u; } };
template <typename F> const F &use_facet(const locale &) { static F f; return f; }
template <typename F> const F &__check_facet(const F *f) { return *f; }
}
