// Interface between harnesses and (a) the symbolic executor, (b) the native
// replay runtime.  See DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>

extern "C" {
uint64_t ksym_sym(const char *name, int width, uint64_t lo, uint64_t hi, int isfloat);
void ksym_assume(int c);
void ksym_check(int c, const char *msg);
void ksym_cover(const char *tag);
void ksym_note(const char *tag, uint64_t v);
void ksym_note_f(const char *tag, uint64_t bits);
uint64_t ksym_concretize(uint64_t v);
int64_t ksym_heap_live(void);
void ksym_discard(void);
int64_t ksym_param(const char *name, int64_t def);
int ksym_symbolic_mode(void);
uint64_t ksym_opaque(uint64_t v);
void ksym_unsupported(const char *what);
int64_t ksym_run(int64_t (*fn)(void *), void *arg);
void krt_reset_out(void);
}
// run fn, capturing its standard streams; result, or the status given to exit()
inline int64_t run_captured(int64_t (*fn)(void *), void *arg) { krt_reset_out(); return ksym_run(fn, arg); }

// ---- files, as seen by the code under test (native: the scratch directory)
void kfs_put(const char *name, const std::string &content);
bool kfs_has(const char *name);
std::string kfs_get(const char *name);
void kfs_stdin(const std::string &content);
void kfs_break(const char *name);      // reading past the content is an error
void kfs_stdin_break();                // the same for the standard input
void kfs_stdout_full(bool on);         // the standard output is a full device in the following runs
std::string kout();   // standard output of the last ksym_run
std::string kerr();   // standard error of the last ksym_run

// ---- randomness: every draw is free (the default), or only the one at this position of each engine (-2: none)
extern "C" { extern int64_t k_draw_free; }
inline bool krandom_fixed(uint64_t pos) { return k_draw_free != -1 && pos != (uint64_t)k_draw_free; }
inline uint64_t krandom_hash(uint64_t seed, uint64_t pos, uint64_t lo, uint64_t hi) {
  uint64_t x = (seed + 1) * 0x9e3779b97f4a7c15u + pos * 0xbf58476d1ce4e5b9u;
  x ^= x >> 31; x *= 0x94d049bb133111ebu; x ^= x >> 29;
  return hi - lo == ~(uint64_t)0 ? x : lo + x % (hi - lo + 1);
}

// ---- symbolic inputs
inline uint32_t sym_u32(const char *n, uint32_t lo, uint32_t hi) { return (uint32_t)ksym_sym(n, 32, lo, hi, 0); }
inline uint64_t sym_u64(const char *n, uint64_t lo, uint64_t hi) { return ksym_sym(n, 64, lo, hi, 0); }
inline int32_t sym_i32(const char *n, int32_t lo, int32_t hi) { return (int32_t)((uint32_t)lo + (uint32_t)ksym_sym(n, 32, 0, (uint32_t)hi - (uint32_t)lo, 0)); }
inline bool sym_bool(const char *n) { return ksym_sym(n, 8, 0, 1, 0) != 0; }
inline char sym_char(const char *n) { return (char)ksym_sym(n, 8, 0, 255, 0); }
inline float sym_f32(const char *n) { uint32_t b = (uint32_t)ksym_sym(n, 32, 0, 0xffffffffu, 1); float f; memcpy(&f, &b, 4); return f; }
inline double sym_f64(const char *n) { uint64_t b = ksym_sym(n, 64, 0, ~0ull, 1); double f; memcpy(&f, &b, 8); return f; }
// a value in lo..hi, one path per value
inline uint64_t pick(const char *n, uint64_t lo, uint64_t hi) { return lo == hi ? lo : ksym_concretize(ksym_sym(n, 32, lo, hi, 0)); }
inline void note(const char *t, uint64_t v) { ksym_note(t, v); }
inline void note_f(const char *t, double d) { uint64_t b; memcpy(&b, &d, 8); ksym_note_f(t, b); }
// keeps the optimiser from mixing the expression with its surroundings
inline uint32_t OPQ(uint32_t v) { return (uint32_t)ksym_opaque(v); }
inline int32_t OPQ(int32_t v) { return (int32_t)ksym_opaque((uint32_t)v); }
inline uint64_t OPQ(uint64_t v) { return ksym_opaque(v); }
inline bool OPQ(bool v) { return ksym_opaque(v) != 0; }
inline float OPQ(float v) { uint32_t b; memcpy(&b, &v, 4); b = (uint32_t)ksym_opaque(b); memcpy(&v, &b, 4); return v; }
inline double OPQ(double v) { uint64_t b; memcpy(&b, &v, 8); b = ksym_opaque(b); memcpy(&v, &b, 8); return v; }
#define PARAM(name, def) ((size_t)ksym_param(name, def))
#define CHECK(c, msg) ksym_check((c) ? 1 : 0, msg)
#define ASSUME(c) ksym_assume((c) ? 1 : 0)
#define COVER(t) ksym_cover(t)

// string builder whose numbers stay symbolic inside the executor
std::string kio_num(uint64_t v);
std::string kio_f32(float v);
