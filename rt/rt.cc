// Runtime linked with every harness for symbolic execution: the out-of-line
// parts of libstdc++ that the headers call, the virtual file system behind the
// iostream model, and the random-number model.
#include <kio.h>
#include <new>
#include <list>
#include <map>
#include <set>
#include <exception>
#include <typeinfo>
#include <functional>
#include <unordered_map>
#include <vector>
#include <random>
#include "ksym.h"

// ---------------------------------------------------------------- libstdc++
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char *dup(const char *s) { size_t n = 0; while (s[n]) ++n; char *p = (char *)__builtin_malloc(n + 1); for (size_t i = 0; i <= n; ++i) p[i] = s[i]; return p; }
__cow_string::__cow_string() : _M_p(dup("")) {}
__cow_string::__cow_string(const string &s) : _M_p(dup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(dup(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { __builtin_free((void *)_M_p); _M_p = dup(o._M_p); } return *this; }
__cow_string::~__cow_string() { __builtin_free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dup(""); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define KX(cls, base) cls::cls(const string &s) : base(s) {} cls::cls(const char *s) : base(s) {} cls::~cls() noexcept {}
KX(domain_error, logic_error) KX(invalid_argument, logic_error) KX(length_error, logic_error) KX(out_of_range, logic_error)
KX(range_error, runtime_error) KX(overflow_error, runtime_error) KX(underflow_error, runtime_error)

system_error::~system_error() noexcept {}
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition &c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code &c, int v) const noexcept { return *this == c.category() && c.value() == v; }
}
#if _GLIBCXX_USE_CXX11_ABI
__cow_string error_category::_M_message(int) const { return __cow_string(); }
#endif
struct __kcategory : error_category {
  const char *name() const noexcept override { return "generic"; }
  string message(int) const override { return "error"; }
};
inline namespace _V2 {
const error_category &generic_category() noexcept { alignas(__kcategory) static char b[sizeof(__kcategory)]; static bool made = false; if (!made) { new (b) __kcategory; made = true; } return *(__kcategory *)b; }
const error_category &system_category() noexcept { return generic_category(); }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }

// Any deterministic function of the bytes is a valid hash.
size_t _Hash_bytes(const void *, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 0; }

namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = n <= 13 ? 13 : n | 1;
  _M_next_resize = b;
  return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= _M_next_resize) return {false, 0};
  if (elt + ins > bkt || bkt == 1) { size_t want = elt + ins > 2 * bkt ? elt + ins : 2 * bkt; return {true, _M_next_bkt(want)}; }
  _M_next_resize = bkt;
  return {false, 0};
}

void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}  // namespace __detail

// Red-black trees (same algorithms as libstdc++'s tree.cc).
typedef _Rb_tree_node_base N;
N *_Rb_tree_increment(N *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const N *_Rb_tree_increment(const N *x) throw() { return _Rb_tree_increment(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const N *_Rb_tree_decrement(const N *x) throw() { return _Rb_tree_decrement(const_cast<N *>(x)); }
static void rotL(N *x, N *&root) {
  N *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(N *x, N *&root) {
  N *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() {
  N *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      N *const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); }
    } else {
      N *const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); }
    }
  }
  root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
  N *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  N *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { N *t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { N *t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        N *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
        }
      } else {
        N *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
}  // namespace std

template class std::basic_string<char>;
// ---------------------------------------------------------------- files
namespace {
struct KFile { std::string name, content; bool broken; };
std::vector<KFile> *kfiles;
int kfind(const char *n) {
  if (!kfiles) return -1;
  for (size_t i = 0; i < kfiles->size(); ++i) if ((*kfiles)[i].name == n) return (int)i;
  return -1;
}
int kmake(const char *n) {
  int i = kfind(n);
  if (i >= 0) return i;
  if (!kfiles) kfiles = new std::vector<KFile>();
  kfiles->push_back(KFile{n, std::string(), false});
  return (int)kfiles->size() - 1;
}
std::stringbuf kcin, kcout, kcerr;
bool kcinBroken;
char kstdin;
}
FILE *stdin = (FILE *)&kstdin;
extern "C" int ferror(FILE *f) noexcept { return f == (FILE *)&kstdin && kcinBroken && kcin.hit; }
namespace std {
istream cin(&kcin);
ostream cout(&kcout), cerr(&kcerr), clog(&kcerr);
void __kio_open(streambuf *b, const char *name, unsigned mode) {
  bool full = strcmp(name, "/dev/full") == 0;
  b->data.clear(); b->pos = 0; b->failWrites = b->failReads = b->hit = false; b->file = -1;
  if (mode & ios_base::out_) {
    if (full) { b->failWrites = true; b->open = true; return; }
    if (!*name || strchr(name, '/')) { b->open = false; return; }
    if ((mode & ios_base::in_) && !(mode & (ios_base::app_ | ios_base::trunc_)) && kfind(name) < 0) { b->open = false; return; }
    int f = kmake(name);
    bool keep = mode & (ios_base::app_ | ios_base::in_);
    if (mode & ios_base::trunc_) keep = false;
    if (!keep) (*kfiles)[f].content.clear();
    b->file = f; b->open = true;
    if (keep) b->data = (*kfiles)[f].content;
    if (keep && !(mode & ios_base::app_) && !b->data.empty()) ksym_unsupported("writing over parts of a file");
    return;
  }
  int f = kfind(name);
  if (f < 0) { b->open = false; return; }
  b->data = (*kfiles)[f].content;
  b->failReads = (*kfiles)[f].broken;
  if (mode & ios_base::ate_) b->pos = b->data.size();
  b->open = true;
}
bool __kio_write(streambuf *b, const char *s, size_t n) {
  if (!b->open) return false;
  b->data.append(s, n);
  return true;
}
bool __kio_flush(streambuf *b) {
  if (!b->open) return false;
  if (b->failWrites) { bool bad = !b->data.empty(); return !bad; }
  if (b->file >= 0) (*kfiles)[b->file].content = b->data;
  return true;
}
bool __kio_close(streambuf *b) {
  bool r = __kio_flush(b);
  b->open = false;
  return r;
}
}
void kfs_put(const char *name, const std::string &c) { int i = kmake(name); (*kfiles)[i].content = c; }
bool kfs_has(const char *name) { return kfind(name) >= 0; }
std::string kfs_get(const char *name) { int i = kfind(name); return i < 0 ? std::string() : (*kfiles)[i].content; }
void kfs_break(const char *name) { (*kfiles)[kmake(name)].broken = true; }
void kfs_stdin(const std::string &c) { kcin.data = c; kcin.pos = 0; kcin.hit = kcinBroken = false; std::cin.clear(); }
void kfs_stdin_break() { kcinBroken = true; }
void kfs_stdout_full(bool on) { kcout.failWrites = on; }
extern "C" void krt_reset_out(void) { kcout.data.clear(); kcerr.data.clear(); std::cout.clear(); std::cerr.clear(); std::clog.clear(); }
std::string kout() { return kcout.data; }
std::string kerr() { return kcerr.data; }
std::string kio_num(uint64_t v) { std::ostringstream o; o << v; return o.str(); }
std::string kio_f32(float v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }

// ---------------------------------------------------------------- randomness
namespace { struct Draw { uint64_t seed, pos, lo, hi, val; }; std::vector<Draw> *draws; }
extern "C" { int64_t k_draw_free = -1; }
extern "C" uint64_t krandom_draw(uint64_t seed, uint64_t pos, uint64_t lo, uint64_t hi) {
  seed = ksym_concretize(seed);
  if (lo < hi && krandom_fixed(pos)) return krandom_hash(seed, pos, lo, hi);
  if (!draws) draws = new std::vector<Draw>();
  for (size_t i = 0; i < draws->size(); ++i) { Draw &d = (*draws)[i]; if (d.seed == seed && d.pos == pos && d.lo == lo && d.hi == hi) return d.val; }
  uint64_t v = lo;
  if (lo < hi) {
    std::string n = "draw_" + std::to_string(seed) + "_" + std::to_string(pos) + "_" + std::to_string(lo) + "_" + std::to_string(hi);
    v = ksym_sym(n.c_str(), 64, lo, hi, 0);
    if (hi - lo <= 64 || k_draw_free != -1) v = ksym_concretize(v);
  }
  draws->push_back(Draw{seed, pos, lo, hi, v});
  return v;
}
extern "C" double krandom_real(uint64_t seed, uint64_t pos) { return (double)krandom_draw(seed, pos, 0, 1023) / 1024.0; }

// ---------------------------------------------------------------- type names of the built-in types
struct krtTypeInfo { const void *v; const char *n; };
#define BUILTIN_TI(c) extern "C" const krtTypeInfo kti_##c asm("_ZTI" #c); const krtTypeInfo kti_##c = {nullptr, #c};
BUILTIN_TI(d) BUILTIN_TI(f) BUILTIN_TI(i) BUILTIN_TI(j) BUILTIN_TI(l) BUILTIN_TI(m) BUILTIN_TI(c) BUILTIN_TI(a) BUILTIN_TI(h) BUILTIN_TI(s) BUILTIN_TI(t) BUILTIN_TI(b) BUILTIN_TI(x) BUILTIN_TI(y)
