// Native replay runtime: the same harness, compiled with the real iostream
// library and sanitizers, run on the values the solver chose.
//   usage: prog ENTRY INPUTS [name=val ...]    (cwd = a scratch directory)
// INPUTS: lines "name value".  report.txt receives notes, covers and failures.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <vector>
#include "ksym.h"

static std::map<std::string, uint64_t> *inputs;
static std::map<std::string, int> *counts;
static std::map<std::string, int64_t> *params;
static int rep = -1;
static bool failed;
static long live;
static void emit(const std::string &s) { std::string t = s + "\n"; if (write(rep, t.data(), t.size()) < 0) _exit(13); }

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) --live; free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = malloc(n ? n : 1); if (p) ++live; return p; }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

struct NoCount { long l = live; ~NoCount() { live = l; } };
static jmp_buf jb;
static bool inRun;
static int64_t runStatus;
static void finish() { fflush(0); _exit(failed ? 10 : 0); }
extern "C" void exit(int st) {
  if (inRun) { runStatus = st; longjmp(jb, 1); }
  fflush(0);
  _exit(st);
}
// Reading errors: a registered file gives an error instead of its end.
static std::vector<std::pair<dev_t, ino_t>> broken;
static bool stdinBroken, stdinError, stdoutFull;
extern "C" ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*real)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  ssize_t r = real(fd, b, n);
  struct stat st;
  if (r == 0 && n > 0 && inRun && !broken.empty() && fstat(fd, &st) == 0)
    for (auto &x : broken) if (x.first == st.st_dev && x.second == st.st_ino) { errno = EIO; return -1; }
  return r;
}
extern "C" int getc(FILE *f) {
  static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "getc");
  int c = real(f);
  if (c == EOF && f == stdin && stdinBroken) stdinError = true;
  return c;
}
extern "C" int ferror(FILE *f) noexcept {
  static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "ferror");
  return f == stdin && stdinError ? 1 : real(f);
}
static std::string slurp(const char *n) { std::string r; int f = open(n, O_RDONLY); if (f < 0) return r; char b[4096]; ssize_t k; while ((k = read(f, b, sizeof b)) > 0) r.append(b, k); close(f); return r; }
static void spew(const char *n, const std::string &c) { int f = open(n, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f < 0 || write(f, c.data(), c.size()) != (ssize_t)c.size()) _exit(13); close(f); }
void kfs_put(const char *n, const std::string &c) { spew(n, c); }
bool kfs_has(const char *n) { struct stat st; return stat(n, &st) == 0; }
std::string kfs_get(const char *n) { return slurp(n); }
void kfs_stdin(const std::string &c) { spew(".stdin", c); stdinBroken = stdinError = false; }
void kfs_break(const char *n) { NoCount nc; struct stat st; if (stat(n, &st)) spew(n, ""); if (stat(n, &st)) _exit(13); broken.push_back({st.st_dev, st.st_ino}); }
void kfs_stdin_break() { stdinBroken = true; }
void kfs_stdout_full(bool on) { stdoutFull = on; }
std::string kout() { return slurp(".stdout"); }
std::string kerr() { return slurp(".stderr"); }
std::string kio_num(uint64_t v) { return std::to_string((long)v); }
std::string kio_f32(float v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }

extern "C" {
void krt_reset_out(void) {}
uint64_t ksym_sym(const char *name, int, uint64_t lo, uint64_t, int isf) {
  NoCount nc;
  std::string k = name;
  int c = (*counts)[k]++;
  if (c) k += "#" + std::to_string(c);
  auto it = inputs->find(k);
  return it == inputs->end() ? (isf ? 0 : lo) : it->second;
}
void ksym_assume(int c) { if (!c) { emit("ASSUME-FAILED"); _exit(12); } }
void ksym_check(int c, const char *m) { if (!c) { failed = true; emit(std::string("CHECK-FAILED ") + m); } }
void ksym_cover(const char *t) { emit(std::string("COVER ") + t); }
void ksym_note(const char *t, uint64_t v) { emit(std::string("NOTE ") + t + " " + std::to_string(v)); }
void ksym_note_f(const char *t, uint64_t v) { emit(std::string("NOTEF ") + t + " " + std::to_string(v)); }
uint64_t ksym_concretize(uint64_t v) { return v; }
int64_t ksym_heap_live(void) { return live; }
void ksym_discard(void) { emit("ASSUME-FAILED"); _exit(12); }
int64_t ksym_param(const char *n, int64_t d) { NoCount nc; auto it = params->find(n); return it == params->end() ? d : it->second; }
int ksym_symbolic_mode(void) { return 0; }
uint64_t ksym_opaque(uint64_t v) { return v; }
int ksym_is_symbolic(uint64_t) { return 0; }
void ksym_unsupported(const char *w) { emit(std::string("UNSUPPORTED ") + w); _exit(13); }
int64_t ksym_run(int64_t (*fn)(void *), void *arg) {
  std::cout.flush(); std::cerr.flush(); fflush(0);
  int s0 = dup(0), s1 = dup(1), s2 = dup(2);
  if (access(".stdin", F_OK)) spew(".stdin", "");
  int a = open(".stdin", O_RDONLY), b = open(".stdout", O_RDWR | O_CREAT | O_TRUNC, 0644), c = open(".stderr", O_RDWR | O_CREAT | O_TRUNC, 0644);
  dup2(a, 0);
  if (!freopen(".stdin", "r", stdin)) _exit(13);
  if (stdoutFull) { close(b); b = open("/dev/full", O_WRONLY); }
  dup2(b, 1); dup2(c, 2); close(a); close(b); close(c);
  std::cin.clear();
  int64_t r;
  inRun = true;
  if (setjmp(jb) == 0) r = fn(arg); else r = runStatus;
  inRun = false;
  std::cout.flush(); std::cerr.flush(); std::cout.clear(); std::cerr.clear(); fflush(0);
  if (stdoutFull) __fpurge(stdout);
  dup2(s0, 0); dup2(s1, 1); dup2(s2, 2); close(s0); close(s1); close(s2);
  return r;
}
int64_t k_draw_free = -1;
uint64_t krandom_draw(uint64_t seed, uint64_t pos, uint64_t lo, uint64_t hi) {
  if (lo >= hi) return lo;
  if (krandom_fixed(pos)) return krandom_hash(seed, pos, lo, hi);
  std::string n = "draw_" + std::to_string(seed) + "_" + std::to_string(pos) + "_" + std::to_string(lo) + "_" + std::to_string(hi);
  auto it = inputs->find(n);
  return it == inputs->end() ? lo : it->second;
}
double krandom_real(uint64_t seed, uint64_t pos) { return (double)krandom_draw(seed, pos, 0, 1023) / 1024.0; }
}

int main(int argc, char **argv) {
  if (argc < 3) return 13;
  inputs = new std::map<std::string, uint64_t>();
  counts = new std::map<std::string, int>();
  params = new std::map<std::string, int64_t>();
  { std::ifstream f(argv[2]); std::string n; uint64_t v; while (f >> n >> v) (*inputs)[n] = v; }
  for (int i = 3; i < argc; ++i) { std::string s = argv[i]; auto p = s.find('='); if (p != std::string::npos) (*params)[s.substr(0, p)] = atoll(s.c_str() + p + 1); }
  rep = open("report.txt", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn || rep < 0) return 13;
  emit("START");
  fn();
  emit("END");
  finish();
}
