// Model of the iostream library for symbolic execution.  It follows libstdc++'s
// observable behaviour (state bits, skipws, getline, numeric extraction in the
// "C" locale) on in-memory buffers; see DESIGN.md "Environment models".
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <system_error>
#include <cstdint>
#include <cstring>

extern "C" {
int ksym_is_symbolic(uint64_t v);
uint64_t ksym_tok_put(uint64_t v, char *buf);
uint64_t ksym_tok_get(const char *buf);
uint64_t ksym_fmt_double(uint64_t bits, int flags, int prec, char *buf);  // concrete only
uint64_t ksym_strtod(const char *s, int is_float);                        // concrete only
void ksym_unsupported(const char *what);
uint64_t ksym_concretize(uint64_t v);
}

namespace std {

typedef ptrdiff_t streamsize_k;

class ios_base {
 public:
  enum fmtflags : unsigned { __ff0 = 0, boolalpha_ = 1, dec_ = 2, fixed_ = 4, hex_ = 8, internal_ = 16, left_ = 32, oct_ = 64, right_ = 128, scientific_ = 256, showbase_ = 512, showpoint_ = 1024, showpos_ = 2048, skipws_ = 4096, unitbuf_ = 8192, uppercase_ = 16384, __ffmax = 0xffffffffu };
  static constexpr fmtflags boolalpha = boolalpha_, dec = dec_, fixed = fixed_, hex = hex_, internal = internal_, left = left_, oct = oct_, right = right_, scientific = scientific_, showbase = showbase_, showpoint = showpoint_, showpos = showpos_, skipws = skipws_, unitbuf = unitbuf_, uppercase = uppercase_;
  static constexpr fmtflags adjustfield = (fmtflags)(16 | 32 | 128), basefield = (fmtflags)(2 | 8 | 64), floatfield = (fmtflags)(4 | 256);
  typedef unsigned iostate_t;
  enum iostate : unsigned { goodbit_ = 0, badbit_ = 1, eofbit_ = 2, failbit_ = 4, __iomax = 0xffffffffu };
  static constexpr iostate goodbit = goodbit_, badbit = badbit_, eofbit = eofbit_, failbit = failbit_;
  enum openmode : unsigned { __om0 = 0, app_ = 1, ate_ = 2, binary_ = 4, in_ = 8, out_ = 16, trunc_ = 32, __ommax = 0xffffffffu };
  static constexpr openmode app = app_, ate = ate_, binary = binary_, in = in_, out = out_, trunc = trunc_;
  enum seekdir : unsigned { beg = 0, cur = 1, end = 2 };
  class failure : public system_error {
   public:
    explicit failure(const string &s, const error_code &e = error_code(1, generic_category())) : system_error(e, s) {}
    explicit failure(const char *s, const error_code &e = error_code(1, generic_category())) : system_error(e, s) {}
  };
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ = (fmtflags)((unsigned)f_ | (unsigned)f); return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = f_; f_ = (fmtflags)(((unsigned)f_ & ~(unsigned)m) | ((unsigned)f & (unsigned)m)); return o; }
  void unsetf(fmtflags f) { f_ = (fmtflags)((unsigned)f_ & ~(unsigned)f); }
  long precision() const { return prec_; }
  long precision(long p) { long o = prec_; prec_ = p; return o; }
  long width() const { return w_; }
  long width(long p) { long o = w_; w_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
 protected:
  fmtflags f_ = (fmtflags)(2 | 4096);
  long prec_ = 6, w_ = 0;
};
constexpr ios_base::fmtflags operator|(ios_base::fmtflags a, ios_base::fmtflags b) { return (ios_base::fmtflags)((unsigned)a | (unsigned)b); }
constexpr ios_base::fmtflags operator&(ios_base::fmtflags a, ios_base::fmtflags b) { return (ios_base::fmtflags)((unsigned)a & (unsigned)b); }
constexpr ios_base::fmtflags operator~(ios_base::fmtflags a) { return (ios_base::fmtflags)(~(unsigned)a); }
constexpr ios_base::iostate operator|(ios_base::iostate a, ios_base::iostate b) { return (ios_base::iostate)((unsigned)a | (unsigned)b); }
constexpr ios_base::iostate operator&(ios_base::iostate a, ios_base::iostate b) { return (ios_base::iostate)((unsigned)a & (unsigned)b); }
constexpr ios_base::iostate operator~(ios_base::iostate a) { return (ios_base::iostate)(~(unsigned)a); }
inline ios_base::iostate &operator|=(ios_base::iostate &a, ios_base::iostate b) { return a = a | b; }
constexpr ios_base::openmode operator|(ios_base::openmode a, ios_base::openmode b) { return (ios_base::openmode)((unsigned)a | (unsigned)b); }
constexpr ios_base::openmode operator&(ios_base::openmode a, ios_base::openmode b) { return (ios_base::openmode)((unsigned)a & (unsigned)b); }

inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }

// The only kind of buffer: a byte string with a read position.  A file buffer
// additionally writes through to the model file system.
template <typename C, typename T>
class basic_streambuf {
 public:
  string data;
  size_t pos = 0;
  bool open = true;          // false: file not open
  bool writable = true;
  bool failWrites = false;   // e.g. a full device
  bool failReads = false;    // reading past the data is an error instead of the end
  bool hit = false;          // the end was seen
  int file = -1;
  virtual ~basic_streambuf() {}
  int sgetc() { if (pos < data.size()) return (int)(unsigned char)data[pos]; hit = true; return -1; }
  int sbumpc() { if (pos < data.size()) return (int)(unsigned char)data[pos++]; hit = true; return -1; }
  int snextc() { ++pos; return sgetc(); }
  ptrdiff_t in_avail() { return pos < data.size() ? data.size() - pos : -1; }
  string str() const { return data; }
  void str(const string &s) { data = s; pos = 0; }
};
inline namespace __cxx11 {
template <typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T> {};
}
template <typename C, typename T>
class basic_filebuf : public basic_streambuf<C, T> {};

void __kio_open(streambuf *b, const char *name, unsigned mode);   // rt
bool __kio_write(streambuf *b, const char *s, size_t n);           // rt
bool __kio_flush(streambuf *b);                                    // rt
bool __kio_close(streambuf *b);                                    // rt

template <typename C, typename T>
class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
  explicit basic_ios(basic_streambuf<C, T> *b) { init(b); }
  basic_ios() {}
  void __take(basic_ios &o, basic_streambuf<C, T> *b) { f_ = o.f_; prec_ = o.prec_; w_ = o.w_; st_ = o.st_; exc_ = o.exc_; fill_ = o.fill_; sb_ = b; o.clear(); }
  void swap(basic_ios &o) { ksym_unsupported("stream swap"); }
  void init(basic_streambuf<C, T> *b) { sb_ = b; st_ = b ? goodbit : badbit; }
  basic_streambuf<C, T> *rdbuf() const { return sb_; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto *o = sb_; sb_ = b; clear(); return o; }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) {
    st_ = sb_ ? s : (iostate)(s | badbit);
    if ((unsigned)st_ & (unsigned)exc_) throw failure("basic_ios::clear: iostream error");
  }
  void setstate(iostate s) {
    if (((unsigned)s & 2u) && sb_ && sb_->failReads && sb_->hit) s = (iostate)(((unsigned)s & ~2u) | 1u);   // the buffer threw
    clear(st_ | s);
  }
  bool good() const { return st_ == 0; }
  bool eof() const { return ((unsigned)st_ & 2u) != 0; }
  bool fail() const { return ((unsigned)st_ & 5u) != 0; }
  bool bad() const { return ((unsigned)st_ & 1u) != 0; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  iostate exceptions() const { return exc_; }
  void exceptions(iostate e) { exc_ = e; clear(st_); }
  char widen(char c) const { return c; }
  char narrow(char c, char) const { return c; }
  char fill() const { return fill_; }
  char fill(char c) { char o = fill_; fill_ = c; return o; }
  basic_ostream<C, T> *tie() const { return nullptr; }
  basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
 protected:
  basic_streambuf<C, T> *sb_ = nullptr;
  iostate st_ = goodbit, exc_ = goodbit;
  char fill_ = ' ';
};

inline bool __kspace(int c) { return (c == ' ') | ((unsigned)(c - 9) <= 4u); }
inline bool __kdigit(int c) { return (unsigned)(c - '0') <= 9u; }

template <typename C, typename T>
class basic_istream : virtual public basic_ios<C, T> {
 public:
  typedef basic_ios<C, T> B;
  typedef typename ios_base::iostate iostate;
  explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
  basic_istream() {}
  virtual ~basic_istream() {}
  class sentry {
    bool ok_;
   public:
    explicit sentry(basic_istream &is, bool noskip = false) : ok_(false) {
      iostate err = ios_base::goodbit;
      if (is.good()) {
        if (!noskip && (is.flags() & ios_base::skipws)) {
          auto *b = is.rdbuf();
          for (;;) {
            int c = b->sgetc();
            if (c == -1) { err = ios_base::eofbit; break; }
            if (!__kspace(c)) break;
            b->pos++;
          }
        }
      }
      if (is.good() && err == ios_base::goodbit) ok_ = true;
      else is.setstate(err | ios_base::failbit);
    }
    explicit operator bool() const { return ok_; }
  };
  long gcount() const { return gc_; }
  int peek() {
    gc_ = 0;
    int c = -1;
    sentry s(*this, true);
    if (s) { c = this->rdbuf()->sgetc(); if (c == -1) this->setstate(ios_base::eofbit); }
    return c;
  }
  int get() {
    gc_ = 0; int c = -1;
    sentry s(*this, true);
    if (s) { c = this->rdbuf()->sbumpc(); if (c != -1) gc_ = 1; else this->setstate(ios_base::eofbit | ios_base::failbit); }
    return c;
  }
  basic_istream &get(char &o) { int c = get(); if (c != -1) o = (char)c; return *this; }
  basic_istream &unget() {
    gc_ = 0;
    this->clear((iostate)((unsigned)this->rdstate() & ~2u));
    sentry s(*this, true);
    if (s) { if (this->rdbuf()->pos > 0) this->rdbuf()->pos--; else this->setstate(ios_base::badbit); }
    return *this;
  }
  basic_istream &putback(char) { return unget(); }
  basic_istream &ignore(long n = 1, int delim = -1) {
    gc_ = 0;
    sentry s(*this, true);
    if (s) {
      while (gc_ < n) {
        int c = this->rdbuf()->sbumpc();
        if (c == -1) { this->setstate(ios_base::eofbit); break; }
        ++gc_;
        if (c == delim) break;
      }
    }
    return *this;
  }
  basic_istream &read(char *p, long n) {
    gc_ = 0;
    sentry s(*this, true);
    if (s) {
      while (gc_ < n) { int c = this->rdbuf()->sbumpc(); if (c == -1) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } p[gc_++] = (char)c; }
    }
    return *this;
  }
  basic_istream &getline(char *p, long n, char delim = '\n') {
    string t; std::getline(*this, t, delim);
    long k = (long)t.size() < n - 1 ? (long)t.size() : n - 1;
    for (long i = 0; i < k; ++i) p[i] = t[i];
    if (n > 0) p[k] = 0;
    return *this;
  }
  long tellg() { return this->fail() ? -1 : (long)this->rdbuf()->pos; }
  basic_istream &seekg(long p) { this->clear((iostate)((unsigned)this->rdstate() & ~2u)); if (!this->fail()) { if (p >= 0 && (size_t)p <= this->rdbuf()->data.size()) this->rdbuf()->pos = p; else this->setstate(ios_base::failbit); } return *this; }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(bool &v) { unsigned long u; iostate e = ios_base::goodbit; if (num(u, false, 1, 0, e)) { v = u & 1; if (e & ios_base::failbit) v = u != 0; this->st(e); } return *this; }
  basic_istream &operator>>(short &v) { sgn(v, 32767, 32768); return *this; }
  basic_istream &operator>>(int &v) { sgn(v, 2147483647UL, 2147483648UL); return *this; }
  basic_istream &operator>>(long &v) { sgn(v, 9223372036854775807UL, 9223372036854775808UL); return *this; }
  basic_istream &operator>>(long long &v) { sgn(v, 9223372036854775807UL, 9223372036854775808UL); return *this; }
  basic_istream &operator>>(unsigned short &v) { uns(v, 65535); return *this; }
  basic_istream &operator>>(unsigned &v) { uns(v, 4294967295UL); return *this; }
  basic_istream &operator>>(unsigned long &v) { uns(v, 18446744073709551615UL); return *this; }
  basic_istream &operator>>(unsigned long long &v) { uns(v, 18446744073709551615UL); return *this; }
  basic_istream &operator>>(float &v) { return fl(v, true); }
  basic_istream &operator>>(double &v) { return fl(v, false); }
  void st(iostate e) { if (e) this->setstate(e); }
 private:
  // Integer extraction following num_get<char>::_M_extract_int with base 10.
  bool num(unsigned long &out, bool sgnd, unsigned long maxPos, unsigned long maxNeg, iostate &err, bool *negp = nullptr) {
    sentry s(*this);
    if (!s) return false;
    auto *b = this->rdbuf();
    int c = b->sgetc();
    if (c == 1) {  // typed number written by the model of operator<<
      if (b->data.size() - b->pos < 18 || b->data[b->pos + 1] != 'I') { out = 0; err = ios_base::failbit; return true; }
      out = ksym_tok_get(b->data.data() + b->pos + 2);
      b->pos += 18;
      if (b->sgetc() == -1) err |= ios_base::eofbit;
      return true;
    }
    bool neg = false, ovf = false, any = false;
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    unsigned long r = 0, lim = neg && sgnd ? maxNeg : maxPos;
    const unsigned bf = (unsigned)(this->flags() & ios_base::basefield);
    if (bf != (unsigned)ios_base::dec) {   // leading zeros tell the base, or not
      unsigned base = bf == (unsigned)ios_base::oct ? 8 : bf == (unsigned)ios_base::hex ? 16 : 10;
      while (c != -1) {
        if (c == '0' && (!any || base == 10)) { any = true; if (bf == 0) base = 8; }
        else if (any && (c == 'x' || c == 'X')) { if (bf == 0) base = 16; if (base != 16) break; any = false; }
        else break;
        c = b->snextc();
        if (!any) break;
      }
      for (; c != -1; c = b->snextc()) {
        unsigned long dg;
        if (__kdigit(c)) dg = c - '0';
        else if (c >= 'a' && c <= 'f') dg = c - 'a' + 10;
        else if (c >= 'A' && c <= 'F') dg = c - 'A' + 10;
        else break;
        if (dg >= base) break;
        any = true;
        if (!ovf) {
          if (r > lim / base) ovf = true;
          else { r *= base; if (r > lim - dg) ovf = true; r += dg; }
        }
      }
    } else
    while (c != -1 && __kdigit(c)) {
      any = true;
      if (!ovf) {
        if (r > lim / 10) ovf = true;
        else { r *= 10; unsigned long dg = c - '0'; if (r > lim - dg) ovf = true; r += dg; }
      }
      c = b->snextc();
    }
    if (c == -1) err |= ios_base::eofbit;
    if (!any) { out = 0; err |= ios_base::failbit; }
    else if (ovf) { out = neg && sgnd ? 0UL - maxNeg : maxPos; err |= ios_base::failbit; }
    else out = neg ? 0UL - r : r;
    return true;
  }
  template <typename V> void sgn(V &v, unsigned long mp, unsigned long mn) {
    unsigned long u; iostate e = ios_base::goodbit;
    if (num(u, true, mp, mn, e)) { v = (V)u; st(e); }
  }
  template <typename V> void uns(V &v, unsigned long mp) {
    unsigned long u; iostate e = ios_base::goodbit;
    if (num(u, false, mp, 0, e)) { v = (V)u; st(e); }
  }
  // Floating point extraction following num_get<char>::_M_extract_float.
  template <typename V> basic_istream &fl(V &v, bool isFloat) {
    sentry s(*this);
    if (!s) return *this;
    auto *b = this->rdbuf();
    iostate err = ios_base::goodbit;
    int c = b->sgetc();
    if (c == 1) {
      if (b->data.size() - b->pos < 18) { v = 0; st(ios_base::failbit); return *this; }
      char kind = b->data[b->pos + 1];
      if (kind == 'D') { unsigned long u = ksym_tok_get(b->data.data() + b->pos + 2); double d; memcpy(&d, &u, 8); v = (V)d; }
      else { unsigned long u = ksym_tok_get(b->data.data() + b->pos + 2); v = (V)(long)u; }
      b->pos += 18;
      if (b->sgetc() == -1) st(ios_base::eofbit);
      return *this;
    }
    string x;
    bool decp = false, sci = false, mant = false;
    bool neg = false, negE = false, expDig = false;
    unsigned long m = 0; unsigned frac = 0, e10 = 0, nd = 0;
    if (c == '-' || c == '+') { neg = c == '-'; x += (char)c; c = b->snextc(); }
    while (c != -1) {
      if (__kdigit(c)) {
        x += (char)c;
        if (sci) { expDig = true; e10 = e10 * 10 + (c - '0'); }
        else { mant = true; m = m * 10 + (c - '0'); ++nd; if (decp) ++frac; }
      } else if (c == '.' && !decp && !sci) { x += '.'; decp = true; }
      else if ((c == 'e' || c == 'E') && !sci && mant) {
        x += 'e'; sci = true;
        c = b->snextc();
        if (c == -1) break;
        if (c == '+' || c == '-') { negE = c == '-'; x += (char)c; c = b->snextc(); }
        continue;
      } else break;
      c = b->snextc();
    }
    if (c == -1) err |= ios_base::eofbit;
    bool symb = false;
    for (size_t i = 0; i < x.size(); ++i) symb |= ksym_is_symbolic((unsigned char)x[i]) != 0;
    if (!symb) {
      uint64_t r[2];
      bool ok = mant && (!sci || expDig);
      if (!ok) { v = 0; err |= ios_base::failbit; }
      else {
        uint64_t bits = ksym_strtod(x.c_str(), isFloat);
        double d; memcpy(&d, &bits, 8);
        if (d == __builtin_inf() || d == -__builtin_inf()) { d = isFloat ? (double)__FLT_MAX__ : __DBL_MAX__; if (x[0] == '-') d = -d; err |= ios_base::failbit; }
        v = (V)d;
      }
      (void)r;
    } else if (!mant || (sci && !expDig)) { v = 0; err |= ios_base::failbit; }
    else {
      // mantissa / power of ten, both exact: one correctly rounded operation
      if (nd > (isFloat ? 7u : 15u)) ksym_unsupported("symbolic number with many digits");
      e10 = (unsigned)ksym_concretize(e10);
      negE = ksym_concretize(negE) != 0;
      long ex = (long)(negE ? -(long)e10 : (long)e10) - (long)frac;
      if (ex > 22 || ex < -22) {   // out of range, or one mantissa at a time
        V r = 0;
        if (m == 0) r = 0;
        else if (ex > (isFloat ? 38 : 308)) { r = isFloat ? (V)__FLT_MAX__ : (V)__DBL_MAX__; err |= ios_base::failbit; }
        else if (ex < (isFloat ? -60 : -345)) r = 0;
        else {
          if (nd > 2) ksym_unsupported("symbolic number with large exponent");
          unsigned long k = ksym_concretize(m);
          string t = to_string(k) + "e" + to_string(ex);
          uint64_t bits = ksym_strtod(t.c_str(), isFloat);
          double d; memcpy(&d, &bits, 8);
          if (d == __builtin_inf()) { d = isFloat ? (double)__FLT_MAX__ : __DBL_MAX__; err |= ios_base::failbit; }
          r = (V)d;
        }
        v = neg ? -r : r;
        st(err);
        return *this;
      }
      if (isFloat && (ex > 10 || ex < -10)) {   // via double, whose powers of ten are exact up to 10^22
        double dp = 1;
        for (long i = 0; i < (ex < 0 ? -ex : ex); ++i) dp *= 10.0;
        double dq = ex < 0 ? (double)m / dp : (double)m * dp;
        v = (V)(neg ? -dq : dq);
        st(err);
        return *this;
      }
      V p = 1;
      for (long i = 0; i < (ex < 0 ? -ex : ex); ++i) p *= (V)10;
      V q = (V)m;
      q = ex < 0 ? q / p : ex > 0 ? q * p : q;
      v = neg ? -q : q;
    }
    st(err);
    return *this;
  }
  long gc_ = 0;
};

template <typename C, typename T>
basic_istream<C, T> &operator>>(basic_istream<C, T> &is, C &ch) {
  typename basic_istream<C, T>::sentry s(is);
  if (s) { int c = is.rdbuf()->sbumpc(); if (c != -1) ch = (C)c; else is.setstate(ios_base::eofbit | ios_base::failbit); }
  return is;
}
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &is, unsigned char &ch) { char c; if (is >> c) ch = (unsigned char)c; return is; }
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &is, signed char &ch) { char c; if (is >> c) ch = (signed char)c; return is; }
template <typename C, typename T>
basic_istream<C, T> &ws(basic_istream<C, T> &is) {
  typename basic_istream<C, T>::sentry s(is, true);
  if (s) {
    auto *b = is.rdbuf();
    for (;;) {
      int c = b->sgetc();
      if (c == -1) { is.setstate(ios_base::eofbit); break; }
      if (!__kspace(c)) break;
      b->pos++;
    }
  }
  return is;
}
template <> inline basic_istream<char> &operator>>(basic_istream<char> &is, basic_string<char> &str) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  basic_istream<char>::sentry s(is, false);
  if (s) {
    str.erase();
    long w = is.width();
    size_t lim = w > 0 ? (size_t)w : (size_t)-1;
    auto *b = is.rdbuf();
    int c = b->sgetc();
    while (n < lim && c != -1 && !__kspace(c)) { str += (char)c; ++n; c = b->snextc(); }
    if (n < lim && c == -1) err |= ios_base::eofbit;
    is.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) is.setstate(err);
  return is;
}
template <> inline basic_istream<char> &getline(basic_istream<char> &is, basic_string<char> &str, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  basic_istream<char>::sentry s(is, true);
  if (s) {
    str.erase();
    auto *b = is.rdbuf();
    int c = b->sgetc();
    int d = (unsigned char)delim;
    while (c != -1 && c != d) { str += (char)c; ++n; c = b->snextc(); }
    if (c == -1) err |= ios_base::eofbit;
    else { ++n; b->pos++; }
  }
  if (!n) err |= ios_base::failbit;
  if (err) is.setstate(err);
  return is;
}

template <typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T> {
 public:
  typedef typename ios_base::iostate iostate;
  explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
  basic_ostream() {}
  virtual ~basic_ostream() {}
  class sentry { bool ok_; public: explicit sentry(basic_ostream &os) : ok_(os.good()) { if (!ok_) os.setstate(ios_base::failbit); } explicit operator bool() const { return ok_; } };
  basic_ostream &write(const char *s, long n) {
    sentry se(*this);
    if (se && !__kio_write(this->rdbuf(), s, (size_t)n)) this->setstate(ios_base::badbit);
    return *this;
  }
  basic_ostream &put(char c) { return write(&c, 1); }
  basic_ostream &flush() { if (this->rdbuf() && this->good() && !__kio_flush(this->rdbuf())) this->setstate(ios_base::badbit); return *this; }
  long tellp() { return this->fail() ? -1 : (long)this->rdbuf()->data.size(); }
  // formatted insertion of raw characters: width and fill apply
  basic_ostream &__fmt(const char *s, size_t n) {
    long w = this->width();
    this->width(0);
    if (w > (long)n) {
      string pad((size_t)w - n, this->fill());
      if ((this->flags() & ios_base::adjustfield) == ios_base::left) { write(s, n); write(pad.data(), pad.size()); }
      else { write(pad.data(), pad.size()); write(s, n); }
    } else write(s, n);
    return *this;
  }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(bool v) { if (this->flags() & ios_base::boolalpha) return v ? __fmt("true", 4) : __fmt("false", 5); return v ? __fmt("1", 1) : __fmt("0", 1); }
  basic_ostream &operator<<(short v) { return dec10() ? in(v) : un((unsigned short)v); }
  basic_ostream &operator<<(unsigned short v) { return in(v); }
  basic_ostream &operator<<(int v) { return dec10() ? in(v) : un((unsigned)v); }
  basic_ostream &operator<<(unsigned v) { return in(v); }
  basic_ostream &operator<<(long v) { return in(v); }
  basic_ostream &operator<<(unsigned long v) { return un(v); }
  basic_ostream &operator<<(long long v) { return in(v); }
  basic_ostream &operator<<(unsigned long long v) { return un(v); }
  basic_ostream &operator<<(float v) { return fo((double)v); }
  basic_ostream &operator<<(double v) { return fo(v); }
  basic_ostream &operator<<(const void *) { return __fmt("0xptr", 5); }
  basic_ostream &operator<<(nullptr_t) { return __fmt("nullptr", 7); }
  basic_ostream &operator<<(basic_streambuf<C, T> *b) { if (!b) { this->setstate(ios_base::badbit); return *this; } size_t n = b->data.size() - b->pos; if (!n) this->setstate(ios_base::failbit); else write(b->data.data() + b->pos, n); b->pos = b->data.size(); if (b->failReads) this->setstate(ios_base::failbit); return *this; }
 private:
  bool dec10() const { return !(unsigned)(this->flags() & (ios_base::hex | ios_base::oct)); }
  basic_ostream &tok(char k, const void *v) { char t[18]; unsigned long u; memcpy(&u, v, 8); t[0] = 1; t[1] = k; ksym_tok_put(u, t + 2); return __fmt(t, 18); }
  basic_ostream &in(long v) {
    if ((this->flags() & ios_base::basefield) & (ios_base::hex | ios_base::oct)) return un((unsigned long)v);
    if (ksym_is_symbolic((uint64_t)v)) return tok('I', &v);
    char b[24]; int i = 24; bool neg = v < 0; unsigned long u = neg ? 0UL - (unsigned long)v : (unsigned long)v;
    do { b[--i] = '0' + u % 10; u /= 10; } while (u);
    if (neg) b[--i] = '-'; else if (this->flags() & ios_base::showpos) b[--i] = '+';
    return __fmt(b + i, 24 - i);
  }
  basic_ostream &un(unsigned long u) {
    if (ksym_is_symbolic(u)) { if ((this->flags() & ios_base::basefield) & (ios_base::hex | ios_base::oct)) ksym_unsupported("non-decimal output of a symbolic number"); return tok('I', &u); }
    unsigned base = (this->flags() & ios_base::basefield) == ios_base::hex ? 16 : (this->flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
    char b[32]; int i = 32;
    do { b[--i] = ((this->flags() & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef")[u % base]; u /= base; } while (u);
    if (this->flags() & ios_base::showbase) { if (base == 16) { b[--i] = 'x'; b[--i] = '0'; } if (base == 8) b[--i] = '0'; }
    return __fmt(b + i, 32 - i);
  }
  basic_ostream &fo(double v) {
    uint64_t bits; memcpy(&bits, &v, 8);
    if (ksym_is_symbolic(bits)) return tok('D', &v);
    char b[400];
    uint64_t n = ksym_fmt_double(bits, (int)(unsigned)this->flags(), (int)this->precision(), b);
    return __fmt(b, n);
  }
};
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, char c) { return os.__fmt(&c, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, signed char c) { return os.__fmt((const char *)&c, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, unsigned char c) { return os.__fmt((const char *)&c, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, const char *s) {
  if (!s) os.setstate(ios_base::badbit); else os.__fmt(s, strlen(s));
  return os;
}
template <typename C, typename T> basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &os, const C *s, ptrdiff_t n) { return os.__fmt(s, (size_t)n); }
template <typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &os) { os.put('\n'); return os.flush(); }
template <typename C, typename T> basic_ostream<C, T> &ends(basic_ostream<C, T> &os) { return os.put('\0'); }
template <typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &os) { return os.flush(); }
template <typename V> inline basic_ostream<char> &operator<<(basic_ostream<char> &&os, const V &v) { os << v; return os; }
template <typename V> inline basic_istream<char> &operator>>(basic_istream<char> &&is, V &&v) { is >> v; return is; }

template <typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
 public:
  explicit basic_iostream(basic_streambuf<C, T> *b) : basic_istream<C, T>(), basic_ostream<C, T>() { this->init(b); }
  basic_iostream() {}
};

// manipulators with arguments
struct _Setbase { int n; }; struct _Setflags { ios_base::fmtflags f; bool on; };
inline _Setbase setbase(int n) { return {n}; }
inline _Setflags setiosflags(ios_base::fmtflags f) { return {f, true}; }
inline _Setflags resetiosflags(ios_base::fmtflags f) { return {f, false}; }
inline void __apply(ios_base &b, _Setbase s) { b.setf(s.n == 8 ? ios_base::oct : s.n == 10 ? ios_base::dec : s.n == 16 ? ios_base::hex : (ios_base::fmtflags)0, ios_base::basefield); }
inline void __apply(ios_base &b, _Setflags s) { if (s.on) b.setf(s.f); else b.unsetf(s.f); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, _Setbase s) { __apply(os, s); return os; }
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &is, _Setbase s) { __apply(is, s); return is; }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, _Setflags s) { __apply(os, s); return os; }
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &is, _Setflags s) { __apply(is, s); return is; }
struct _Setw { int n; }; struct _Setprecision { int n; }; struct _Setfill { char c; };
inline _Setw setw(int n) { return {n}; }
inline _Setprecision setprecision(int n) { return {n}; }
inline _Setfill setfill(char c) { return {c}; }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, _Setw s) { os.width(s.n); return os; }
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &is, _Setw s) { is.width(s.n); return is; }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, _Setprecision s) { os.precision(s.n); return os; }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, _Setfill s) { os.fill(s.c); return os; }

inline namespace __cxx11 {
template <typename C, typename T, typename A>
class basic_istringstream : public basic_istream<C, T> {
  basic_stringbuf<C, T, A> b_;
 public:
  explicit basic_istringstream(ios_base::openmode = ios_base::in) { this->init(&b_); }
  basic_istringstream(basic_istringstream &&o) { b_ = o.b_; o.b_.str(""); this->__take(o, &b_); }
  basic_istringstream &operator=(basic_istringstream &&o) { if (this != &o) { b_ = o.b_; o.b_.str(""); this->__take(o, &b_); } return *this; }
  explicit basic_istringstream(const string &s, ios_base::openmode = ios_base::in) { b_.data = s; this->init(&b_); }
  string str() const { return b_.data; }
  void str(const string &s) { b_.str(s); }
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); }
};
template <typename C, typename T, typename A>
class basic_ostringstream : public basic_ostream<C, T> {
  basic_stringbuf<C, T, A> b_;
 public:
  explicit basic_ostringstream(ios_base::openmode = ios_base::out) { this->init(&b_); }
  basic_ostringstream(basic_ostringstream &&o) { b_ = o.b_; o.b_.str(""); this->__take(o, &b_); }
  basic_ostringstream &operator=(basic_ostringstream &&o) { if (this != &o) { b_ = o.b_; o.b_.str(""); this->__take(o, &b_); } return *this; }
  explicit basic_ostringstream(const string &s, ios_base::openmode = ios_base::out) { b_.data = s; this->init(&b_); }
  string str() const { return b_.data; }
  void str(const string &s) { b_.str(s); }
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); }
};
template <typename C, typename T, typename A>
class basic_stringstream : public basic_iostream<C, T> {
  basic_stringbuf<C, T, A> b_;
 public:
  explicit basic_stringstream(ios_base::openmode = ios_base::out | ios_base::in) { this->init(&b_); }
  basic_stringstream(basic_stringstream &&o) { b_ = o.b_; o.b_.str(""); this->__take(o, &b_); }
  basic_stringstream &operator=(basic_stringstream &&o) { if (this != &o) { b_ = o.b_; o.b_.str(""); this->__take(o, &b_); } return *this; }
  explicit basic_stringstream(const string &s, ios_base::openmode = ios_base::out | ios_base::in) { b_.data = s; this->init(&b_); }
  string str() const { return b_.data; }
  void str(const string &s) { b_.str(s); }
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); }
};
}  // namespace __cxx11
#define KSYM_FSTREAM(cls, base, defmode, always)                                                              \
  template <typename C, typename T>                                                                   \
  class cls : public base<C, T> {                                                                     \
    basic_filebuf<C, T> b_;                                                                           \
   public:                                                                                            \
    cls() { b_.open = false; this->init(&b_); }                                                       \
    explicit cls(const char *n, ios_base::openmode m = defmode) { b_.open = false; this->init(&b_); open(n, m); } \
    explicit cls(const string &n, ios_base::openmode m = defmode) { b_.open = false; this->init(&b_); open(n.c_str(), m); } \
    ~cls() { if (b_.open) __kio_close(&b_); }                                                          \
    cls(cls &&o) { b_ = o.b_; o.b_.open = false; o.b_.str(""); this->__take(o, &b_); }                  \
    cls &operator=(cls &&o) { if (this != &o) { if (b_.open) __kio_close(&b_); b_ = o.b_; o.b_.open = false; o.b_.str(""); this->__take(o, &b_); } return *this; } \
    bool is_open() const { return b_.open; }                                                          \
    void open(const string &n, ios_base::openmode m = defmode) { open(n.c_str(), m); }                \
    void open(const char *n, ios_base::openmode m = defmode) {                                        \
      if (b_.open) { this->setstate(ios_base::failbit); return; }                                     \
      __kio_open(&b_, n, (unsigned)(m | always));                                                     \
      if (b_.open) this->clear(); else this->setstate(ios_base::failbit);                             \
    }                                                                                                 \
    void close() { if (!b_.open || !__kio_close(&b_)) this->setstate(ios_base::failbit); }            \
    basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&b_); }             \
  };
KSYM_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
KSYM_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
KSYM_FSTREAM(basic_fstream, basic_iostream, ios_base::in | ios_base::out, (ios_base::openmode)0)
#undef KSYM_FSTREAM

template <typename C, typename T>
class istreambuf_iterator {
  basic_streambuf<C, T> *b_ = nullptr;
 public:
  typedef input_iterator_tag iterator_category; typedef C value_type; typedef ptrdiff_t difference_type; typedef C *pointer; typedef C reference;
  istreambuf_iterator() {}
  istreambuf_iterator(basic_istream<C, T> &is) : b_(is.rdbuf()) {}
  istreambuf_iterator(basic_streambuf<C, T> *b) : b_(b) {}
  C operator*() const { return (C)b_->sgetc(); }
  istreambuf_iterator &operator++() { b_->pos++; return *this; }
  istreambuf_iterator operator++(int) { istreambuf_iterator t = *this; b_->pos++; return t; }
  bool atEnd() const { if (!b_) return true; if (b_->sgetc() != -1) return false; if (b_->failReads) throw ios_base::failure("basic_filebuf::underflow error reading the file"); return true; }
  bool operator==(const istreambuf_iterator &o) const { return atEnd() == o.atEnd(); }
  bool operator!=(const istreambuf_iterator &o) const { return !(*this == o); }
};

extern istream cin;
extern ostream cout, cerr, clog;

}  // namespace std
