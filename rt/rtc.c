// C library functions used by the code under test and libstdc++'s headers.
typedef unsigned long size_t; typedef unsigned long uint64_t;
extern int ksym_is_symbolic(uint64_t); extern void ksym_unsupported(const char *); extern uint64_t ksym_strtod(const char *, int);
extern uint64_t krandom_draw(uint64_t, uint64_t, uint64_t, uint64_t);
int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) <= 4u); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (; n; --n, ++s) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
int isdigit(int c) { return (unsigned)(c - '0') <= 9; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int isprint(int c) { return (unsigned)(c - 32) < 95; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
int isxdigit(int c) { return isdigit(c) || (unsigned)((c | 32) - 'a') < 6; }
int isgraph(int c) { return (unsigned)(c - 33) < 94; }
int iscntrl(int c) { return (unsigned)c < 32 || c == 127; }
double round(double); float roundf(float);
long lround(double x) { return (long)round(x); }
long lroundf(float x) { return (long)roundf(x); }
long llround(double x) { return (long)round(x); }
double rint(double);
long lrint(double x) { return (long)rint(x); }
// printf family: decimal integers, floating point, text.  The text of symbolic
// numbers is a token, as in the stream model.
typedef __builtin_va_list va_list;
extern uint64_t ksym_tok_put(uint64_t, char *); extern uint64_t ksym_fmt_double(uint64_t, int, int, char *);
static void k_put(char *d, size_t n, size_t *k, const char *s, size_t len, int width, int left, char fill) {
  size_t pad = width > 0 && (size_t)width > len ? (size_t)width - len : 0, i;
  if (!left) { if (fill == '0' && len && (*s == '-' || *s == '+')) { if (*k < n) d[*k] = *s; ++*k; ++s; --len; } for (i = 0; i < pad; ++i, ++*k) if (*k < n) d[*k] = fill; }
  for (i = 0; i < len; ++i, ++*k) if (*k < n) d[*k] = s[i];
  if (left) for (i = 0; i < pad; ++i, ++*k) if (*k < n) d[*k] = ' ';
}
int vsnprintf(char *d, size_t n, const char *f, va_list ap) {
  size_t k = 0, room = n ? n - 1 : 0;
  for (; *f; ++f) {
    if (*f != '%') { k_put(d, room, &k, f, 1, 0, 0, ' '); continue; }
    int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    for (++f;; ++f) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else break; }
    if (*f == '*') { width = __builtin_va_arg(ap, int); ++f; } else for (; isdigit(*f); ++f) width = width * 10 + *f - '0';
    if (*f == '.') { prec = 0; ++f; if (*f == '*') { prec = __builtin_va_arg(ap, int); ++f; } else for (; isdigit(*f); ++f) prec = prec * 10 + *f - '0'; }
    for (; *f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't'; ++f) if (*f != 'h') lng = 1;
    char b[420]; char t[18];
    if (*f == '%') k_put(d, room, &k, "%", 1, 0, 0, ' ');
    else if (*f == 'c') { b[0] = (char)__builtin_va_arg(ap, int); k_put(d, room, &k, b, 1, width, left, ' '); }
    else if (*f == 's') { const char *s = __builtin_va_arg(ap, const char *); size_t l = 0; while ((prec < 0 || l < (size_t)prec) && s[l]) ++l; k_put(d, room, &k, s, l, width, left, ' '); }
    else if (*f == 'd' || *f == 'i' || *f == 'u') {
      unsigned long u; int neg = 0;
      if (*f == 'u') u = lng ? __builtin_va_arg(ap, unsigned long) : __builtin_va_arg(ap, unsigned);
      else u = (unsigned long)(lng ? __builtin_va_arg(ap, long) : (long)__builtin_va_arg(ap, int));
      if (ksym_is_symbolic(u)) { t[0] = 1; t[1] = 'I'; ksym_tok_put(u, t + 2); k_put(d, room, &k, t, 18, width, left, ' '); continue; }
      if (*f != 'u' && (long)u < 0) { neg = 1; u = 0 - u; }
      int i = 40; do { b[--i] = (char)('0' + u % 10); u /= 10; } while (u);
      if (neg) b[--i] = '-'; else if (plus && *f != 'u') b[--i] = '+';
      k_put(d, room, &k, b + i, (size_t)(40 - i), width, left, zero ? '0' : ' ');
    } else if (*f == 'f' || *f == 'e' || *f == 'g') {
      union { double v; uint64_t u; } x; x.v = __builtin_va_arg(ap, double);
      if (ksym_is_symbolic(x.u)) { t[0] = 1; t[1] = 'D'; ksym_tok_put(x.u, t + 2); k_put(d, room, &k, t, 18, width, left, ' '); continue; }
      size_t l = ksym_fmt_double(x.u, *f == 'f' ? 4 : *f == 'e' ? 256 : 0, prec < 0 ? 6 : prec, b);
      k_put(d, room, &k, b, l, width, left, zero ? '0' : ' ');
    } else ksym_unsupported("printf format");
  }
  if (n) d[k < room ? k : room] = 0;
  return (int)k;
}
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(d, n, f, ap); __builtin_va_end(ap); return r; }
int vsprintf(char *d, const char *f, va_list ap) { return vsnprintf(d, 1 << 20, f, ap); }
int sprintf(char *d, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(d, 1 << 20, f, ap); __builtin_va_end(ap); return r; }
static int k_errno;
int *__errno_location(void) { return &k_errno; }
unsigned long strtoull(const char *s, char **end, int base) {
  const char *p = s; int neg = 0, any = 0, ovf = 0; unsigned long r = 0;
  if (base != 10 && base != 0) ksym_unsupported("strtol base");
  while (isspace((unsigned char)*p)) ++p;
  if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
  while (isdigit((unsigned char)*p)) { unsigned long dg = *p - '0'; any = 1; if (r > (~0ul - dg) / 10) ovf = 1; r = r * 10 + dg; ++p; }
  if (end) *end = (char *)(any ? p : s);
  if (ovf) { k_errno = 34; return ~0ul; }
  return neg ? 0 - r : r;
}
unsigned long strtoul(const char *s, char **end, int base) { return strtoull(s, end, base); }
long strtol(const char *s, char **end, int base) {
  const char *p = s; int neg = 0, any = 0, ovf = 0; unsigned long r = 0;
  if (base != 10 && base != 0) ksym_unsupported("strtol base");
  while (isspace((unsigned char)*p)) ++p;
  if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
  unsigned long lim = neg ? 9223372036854775808ul : 9223372036854775807ul;
  while (isdigit((unsigned char)*p)) { unsigned long dg = *p - '0'; any = 1; if (r > (lim - dg) / 10) { ovf = 1; r = lim; } else r = r * 10 + dg; ++p; }
  if (end) *end = (char *)(any ? p : s);
  if (ovf) { k_errno = 34; return neg ? (long)(1ul << 63) : (long)lim; }
  return neg ? (long)(0 - r) : (long)r;
}
long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
static double kstrtod(const char *s, char **end, int isf) {
  size_t n = strlen(s);
  for (size_t i = 0; i < n; ++i) if (ksym_is_symbolic((unsigned char)s[i])) ksym_unsupported("strtod on symbolic text");
  const char *p = s;
  while (isspace((unsigned char)*p)) ++p;
  const char *q = p;
  if (*q == '-' || *q == '+') ++q;
  int any = 0;
  while (isdigit((unsigned char)*q)) { any = 1; ++q; }
  if (*q == '.') { ++q; while (isdigit((unsigned char)*q)) { any = 1; ++q; } }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (*q == 'e' || *q == 'E') { const char *t = q + 1; if (*t == '-' || *t == '+') ++t; if (isdigit((unsigned char)*t)) { while (isdigit((unsigned char)*t)) ++t; q = t; } }
  if (end) *end = (char *)q;
    char x[128]; size_t k = 0;
  for (; p < q && k < 127; ++p) x[k++] = *p;
  x[k] = 0;
  union { uint64_t b; double d; } u;
  u.b = ksym_strtod(x, isf);
  return u.d;
}
double strtod(const char *s, char **end) { return kstrtod(s, end, 0); }
float strtof(const char *s, char **end) { return (float)kstrtod(s, end, 1); }
double atof(const char *s) { return strtod(s, 0); }
static uint64_t k_rand_seed = 1, k_rand_pos;
void srand(unsigned s) { k_rand_seed = 0x73000000u + s; k_rand_pos = 0; }
int rand(void) { return (int)krandom_draw(k_rand_seed, k_rand_pos++, 0, 0x7fffffff); }
long time(long *) { static uint64_t n; return (long)krandom_draw(0x74696d65, n++, 1, 0x7fffffff); }
int clock_gettime(int, long *ts) { static uint64_t n; ts[0] = (long)krandom_draw(0x636c6f63, n++, 1, 0x7fffffff); ts[1] = 0; return 0; }
char *getenv(const char *) { return 0; }
