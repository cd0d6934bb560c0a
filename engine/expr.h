// Hash-consed bit-vector / floating-point expression DAG used by ksym.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  // floating point; operands and results are bit patterns of width 32/64
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT, O_FFLOOR, O_FCEIL, O_FTRUNC,O_FRNE,
  O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
  O_UF  // uninterpreted unary fp function, aux = function index
};

struct VarSet { std::vector<uint64_t> w; };

struct Expr {
  Op op;
  bool fp;          // contains a floating point operation somewhere
  bool hard;        // contains fp arithmetic (not only comparisons)
  bool nl;          // contains a product/quotient of two non-constant terms
  uint16_t width;
  uint32_t id;
  uint32_t aux;     // var index, extract low bit, UF index
  Expr *k[3];
  u128 c;           // constant value
  uint32_t lv;      // number of leaves if a tree of ITEs over constants, else 0
  uint64_t lo, hi;  // unsigned range when width<=64
  const VarSet *vs;
  // evaluation memo
  uint32_t egen = 0;
  u128 ev = 0;
};

struct VarInfo {
  std::string name;
  int width;
  bool isFloat;     // declared as a floating-point input
  bool undef;       // stands for an uninitialised byte / undef value
};

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, int w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  return (i128)((v ^ m) - m);
}
inline float bits2f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
inline uint32_t f2bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
inline double bits2d(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
inline uint64_t d2bits(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }

// UFs over doubles
extern const char *const UF_NAMES[];
double uf_eval(unsigned idx, double x);
enum { UF_EXP2, UF_LOG2, UF_EXP, UF_LOG, UF_LOG10, UF_N };

u128 fold(Op op, int width, uint32_t aux, int kw, const u128 *a, bool *ok);

struct ExprPool {
  std::vector<Expr *> table;
  size_t count = 0;
  std::vector<VarInfo> vars;
  std::vector<Expr *> varExprs;
  std::vector<Expr *> chunks;
  size_t chunkUsed = 0;
  uint32_t evalGen = 0;
  std::unordered_map<std::string, const VarSet *> vsIntern;
  const VarSet *vsEmpty;

  ExprPool() {
    table.assign(1 << 16, nullptr);
    vsEmpty = new VarSet();
    chunkUsed = 4096;
  }
  Expr *alloc() {
    if (chunkUsed == 4096) {
      chunks.push_back((Expr *)calloc(4096, sizeof(Expr)));
      chunkUsed = 0;
    }
    return chunks.back() + chunkUsed++;
  }
  const VarSet *internVS(const std::vector<uint64_t> &w) {
    std::string key((const char *)w.data(), w.size() * 8);
    auto it = vsIntern.find(key);
    if (it != vsIntern.end()) return it->second;
    auto *v = new VarSet{w};
    vsIntern[key] = v;
    return v;
  }
  const VarSet *unionVS(const VarSet *a, const VarSet *b) {
    if (a == b || b->w.empty()) return a;
    if (a->w.empty()) return b;
    std::vector<uint64_t> w = a->w;
    if (w.size() < b->w.size()) w.resize(b->w.size());
    for (size_t i = 0; i < b->w.size(); ++i) w[i] |= b->w[i];
    return internVS(w);
  }
  static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdULL;
  }
  static uint64_t hashOf(Op op, int w, uint32_t aux, Expr *a, Expr *b, Expr *c, u128 cv) {
    uint64_t h = mix(op * 131 + w, aux);
    h = mix(h, (uint64_t)a); h = mix(h, (uint64_t)b); h = mix(h, (uint64_t)c);
    h = mix(h, (uint64_t)cv); h = mix(h, (uint64_t)(cv >> 64));
    return h ^ (h >> 29);
  }
  void grow() {
    std::vector<Expr *> old;
    old.swap(table);
    table.assign(old.size() * 2, nullptr);
    for (auto *e : old)
      if (e) {
        size_t i = hashOf(e->op, e->width, e->aux, e->k[0], e->k[1], e->k[2], e->c) & (table.size() - 1);
        while (table[i]) i = (i + 1) & (table.size() - 1);
        table[i] = e;
      }
  }
  Expr *raw(Op op, int w, uint32_t aux, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u128 cv = 0);

  Expr *cst(u128 v, int w) { return raw(O_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
  Expr *var(const std::string &name, int w, bool isFloat, bool undef) {
    vars.push_back(VarInfo{name, w, isFloat, undef});
    Expr *e = raw(O_VAR, w, vars.size() - 1);
    varExprs.push_back(e);
    return e;
  }
  Expr *T() { return cst(1, 1); }
  Expr *F() { return cst(0, 1); }

  Expr *bin(Op op, Expr *a, Expr *b);
  Expr *notE(Expr *a) { return bin(O_XOR, a, cst(1, 1)); }
  Expr *ite(Expr *c, Expr *a, Expr *b);
  Expr *zext(Expr *a, int w);
  Expr *sext(Expr *a, int w);
  Expr *trunc(Expr *a, int w) { return extract(a, 0, w); }
  Expr *extract(Expr *a, int lo, int w);
  Expr *concat(Expr *hi, Expr *lo);  // hi:lo
  Expr *un(Op op, Expr *a, int w, uint32_t aux = 0);

  // evaluation under a model (value per var index)
  u128 eval(Expr *e, const std::vector<uint64_t> &model);
  void newEval() { ++evalGen; }
};

extern ExprPool P;
extern bool realMode;  // fp terms stand for reals: never infinite
extern int fpTab;  // fp arithmetic over small integer domains becomes case distinction
std::string exprStr(Expr *e, int depth = 4);
