#include "expr.h"
#include <algorithm>

ExprPool P;
const char *const UF_NAMES[] = {"exp2", "log2", "exp", "log", "log10"};
double uf_eval(unsigned i, double x) {
  switch (i) {
    case UF_EXP2: return exp2(x);
    case UF_LOG2: return log2(x);
    case UF_EXP: return exp(x);
    case UF_LOG: return log(x);
    case UF_LOG10: return log10(x);
  }
  abort();
}

static double asD(u128 v, int w) { return w == 32 ? (double)bits2f((uint32_t)v) : bits2d((uint64_t)v); }

u128 fold(Op op, int width, uint32_t aux, int kw, const u128 *a, bool *ok) {
  *ok = true;
  u128 m = maskw(width);
  switch (op) {
    case O_ADD: return (a[0] + a[1]) & m;
    case O_SUB: return (a[0] - a[1]) & m;
    case O_MUL: return (a[0] * a[1]) & m;
    // SMT-LIB semantics for division by zero (the executor reports it first)
    case O_UDIV: return a[1] == 0 ? m : a[0] / a[1];
    case O_UREM: return a[1] == 0 ? a[0] : a[0] % a[1];
    case O_SDIV: {
      i128 x = sextw(a[0], width), y = sextw(a[1], width);
      if (y == 0) return (x < 0 ? (u128)1 : ~(u128)0) & m;
      if (y == -1) return (u128)(-x) & m;
      return (u128)(x / y) & m;
    }
    case O_SREM: {
      i128 x = sextw(a[0], width), y = sextw(a[1], width);
      if (y == 0) return a[0];
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case O_AND: return a[0] & a[1];
    case O_OR: return a[0] | a[1];
    case O_XOR: return a[0] ^ a[1];
    case O_SHL: return a[1] >= (u128)width ? 0 : (a[0] << (int)a[1]) & m;
    case O_LSHR: return a[1] >= (u128)width ? 0 : a[0] >> (int)a[1];
    case O_ASHR: {
      i128 x = sextw(a[0], width);
      int s = a[1] >= (u128)width ? width - 1 : (int)a[1];
      return (u128)(x >> s) & m;
    }
    case O_EQ: return a[0] == a[1];
    case O_ULT: return a[0] < a[1];
    case O_ULE: return a[0] <= a[1];
    case O_SLT: return sextw(a[0], kw) < sextw(a[1], kw);
    case O_SLE: return sextw(a[0], kw) <= sextw(a[1], kw);
    case O_ITE: return a[0] ? a[1] : a[2];
    case O_ZEXT: return a[0];
    case O_SEXT: return (u128)sextw(a[0], kw) & m;
    case O_EXTRACT: return (a[0] >> aux) & m;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV:
      if (width == 32) {
        float x = bits2f((uint32_t)a[0]), y = bits2f((uint32_t)a[1]);
        volatile float r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y;
        return f2bits(r);
      } else {
        double x = bits2d((uint64_t)a[0]), y = bits2d((uint64_t)a[1]);
        volatile double r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y;
        return d2bits(r);
      }
    case O_FNEG: return (a[0] ^ ((u128)1 << (width - 1))) & m;
    case O_FABS: return a[0] & (m >> 1);
    case O_FSQRT: return width == 32 ? (u128)f2bits(sqrtf(bits2f((uint32_t)a[0]))) : (u128)d2bits(sqrt(bits2d((uint64_t)a[0])));
    case O_FFLOOR: return width == 32 ? (u128)f2bits(floorf(bits2f((uint32_t)a[0]))) : (u128)d2bits(floor(bits2d((uint64_t)a[0])));
    case O_FCEIL: return width == 32 ? (u128)f2bits(ceilf(bits2f((uint32_t)a[0]))) : (u128)d2bits(ceil(bits2d((uint64_t)a[0])));
    case O_FTRUNC: return width == 32 ? (u128)f2bits(truncf(bits2f((uint32_t)a[0]))) : (u128)d2bits(trunc(bits2d((uint64_t)a[0])));
    case O_FRNE: return width == 32 ? (u128)f2bits(rintf(bits2f((uint32_t)a[0]))) : (u128)d2bits(rint(bits2d((uint64_t)a[0])));
    case O_FEQ: return asD(a[0], kw) == asD(a[1], kw);
    case O_FLT: return asD(a[0], kw) < asD(a[1], kw);
    case O_FLE: return asD(a[0], kw) <= asD(a[1], kw);
    case O_FUNO: { double x = asD(a[0], kw), y = asD(a[1], kw); return x != x || y != y; }
    case O_FPEXT: return d2bits((double)bits2f((uint32_t)a[0]));
    case O_FPTRUNC: return f2bits((float)bits2d((uint64_t)a[0]));
    case O_SITOFP: { i128 v = sextw(a[0], kw); return width == 32 ? (u128)f2bits((float)v) : (u128)d2bits((double)v); }
    case O_UITOFP: return width == 32 ? (u128)f2bits((float)a[0]) : (u128)d2bits((double)a[0]);
    case O_FPTOSI: {
      double d = asD(a[0], kw);
      if (!(d > -1.8e19 && d < 1.8e19)) { return (u128)1 << (width - 1); }
      return (u128)(i128)d & m;
    }
    case O_FPTOUI: {
      double d = asD(a[0], kw);
      if (!(d > -1.0 && d < 3.7e19)) { return (u128)1 << (width - 1); }
      return (u128)(i128)d & m;
    }
    case O_UF: return d2bits(uf_eval(aux, bits2d((uint64_t)a[0])));
    default: break;
  }
  *ok = false;
  return 0;
}

static bool isFpOp(Op o) { return o >= O_FADD; }
int fpTab = 0;
bool realMode = false;
static bool infLeaf(Expr *e) {
  if (e->op == O_CONST) { double d = e->width == 32 ? bits2f((uint32_t)e->c) : bits2d((uint64_t)e->c); return !std::isfinite(d); }
  return e->op == O_ITE && (infLeaf(e->k[1]) || infLeaf(e->k[2]));
}

Expr *ExprPool::raw(Op op, int w, uint32_t aux, Expr *a, Expr *b, Expr *c, u128 cv) {
  uint64_t h = hashOf(op, w, aux, a, b, c, cv);
  size_t i = h & (table.size() - 1);
  while (Expr *e = table[i]) {
    if (e->op == op && e->width == w && e->aux == aux && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->c == cv)
      return e;
    i = (i + 1) & (table.size() - 1);
  }
  Expr *e = alloc();
  e->op = op; e->width = w; e->aux = aux;
  e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = cv;
  e->id = count;
  e->fp = isFpOp(op);
  e->nl = op >= O_MUL && op <= O_SREM && a->op != O_CONST && b->op != O_CONST && w >= 12;
  e->hard = op == O_FADD || op == O_FSUB || op == O_FMUL || op == O_FDIV || op == O_FSQRT || op == O_UF ||
            (op >= O_FPEXT && op <= O_FPTOUI) || (op >= O_FFLOOR && op <= O_FRNE);
  const VarSet *vs = vsEmpty;
  for (int j = 0; j < 3; ++j)
    if (e->k[j]) { vs = unionVS(vs, e->k[j]->vs); e->fp |= e->k[j]->fp; e->hard |= e->k[j]->hard; e->nl |= e->k[j]->nl; }
  if (op == O_VAR) {
    std::vector<uint64_t> wv(aux / 64 + 1);
    wv[aux / 64] |= 1ULL << (aux % 64);
    vs = internVS(wv);
    e->fp = vars[aux].isFloat;
  }
  e->vs = vs;
  e->lv = op == O_CONST ? 1 : op == O_ITE && b->lv && c->lv && b->lv + c->lv <= 4096 ? b->lv + c->lv : 0;
  // ranges
  uint64_t m = (uint64_t)maskw(w > 64 ? 64 : w);
  e->lo = 0; e->hi = m;
  if (w <= 64) {
    if (op == O_CONST) e->lo = e->hi = (uint64_t)cv;
    else if (op == O_ZEXT && a->width <= 64) { e->lo = a->lo; e->hi = a->hi; }
    else if (op == O_ITE && b->width <= 64) { e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); }
    else if (op == O_ADD) {
      uint64_t s1, s2;
      if (!__builtin_add_overflow(a->hi, b->hi, &s1) && s1 <= m) { s2 = a->lo + b->lo; e->lo = s2; e->hi = s1; }
    } else if (op == O_MUL) {
      uint64_t s1;
      if (!__builtin_mul_overflow(a->hi, b->hi, &s1) && s1 <= m) { e->lo = a->lo * b->lo; e->hi = s1; }
    } else if (op == O_AND) { e->hi = std::min(a->hi, b->hi); }
    else if (op == O_OR) {
      uint64_t x = a->hi | b->hi; int bits = x ? 64 - __builtin_clzll(x) : 0;
      e->hi = bits >= 64 ? m : std::min<uint64_t>(m, (1ULL << bits) - 1);
      e->lo = std::max(a->lo, b->lo);
    } else if (op == O_LSHR && b->op == O_CONST && b->c < 64) { e->lo = a->lo >> (int)b->c; e->hi = a->hi >> (int)b->c; }
    else if (op == O_SHL && b->op == O_CONST && b->c < 64 && (a->hi <= (m >> (int)b->c))) { e->lo = a->lo << (int)b->c; e->hi = a->hi << (int)b->c; }
    else if (op == O_UREM && b->op == O_CONST && b->c) { e->hi = std::min<uint64_t>(a->hi, (uint64_t)b->c - 1); }
    else if (op == O_UDIV && b->op == O_CONST && b->c) { e->lo = a->lo / (uint64_t)b->c; e->hi = a->hi / (uint64_t)b->c; }
    else if (op == O_EXTRACT && aux == 0 && a->width <= 64 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
    else if (op == O_CONCAT) { e->lo = (a->lo << b->width) | b->lo; e->hi = (a->hi << b->width) | b->hi; }
    else if (op == O_SUB && a->width <= 64 && a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
    else if (op == O_CONCAT && a->op == O_CONST && b->width < 64) { uint64_t base = (uint64_t)a->c << b->width; e->lo = base + b->lo; e->hi = base + b->hi; }
  }
  table[i] = e;
  if (++count * 2 > table.size()) grow();
  return e;
}

Expr *ExprPool::un(Op op, Expr *a, int w, uint32_t aux) {
  if (a->op == O_CONST) {
    bool ok; u128 v = fold(op, w, aux, a->width, &a->c, &ok);
    if (ok) return cst(v, w);
  }
  if (op == O_FNEG && a->op == O_FNEG) return a->k[0];
  if (op == O_FPTRUNC && a->op == O_FPEXT) return a->k[0];
  if ((op == O_FNEG || op == O_FABS) && a->op == O_ITE &&
      (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST))
    return ite(a->k[0], un(op, a->k[1], w, aux), un(op, a->k[2], w, aux));
  if (fpTab && isFpOp(op) && a->op == O_ITE && a->lv)
    return ite(a->k[0], un(op, a->k[1], w, aux), un(op, a->k[2], w, aux));
  // push conversions / rounding through ITEs of constants so that they fold
  if (a->op == O_ITE && a->k[1]->op == O_CONST && a->k[2]->op == O_CONST)
    return ite(a->k[0], un(op, a->k[1], w, aux), un(op, a->k[2], w, aux));
  return raw(op, w, aux, a);
}

Expr *ExprPool::zext(Expr *a, int w) {
  if (a->width == w) return a;
  if (a->op == O_CONST) return cst(a->c, w);
  if (a->op == O_ZEXT) return zext(a->k[0], w);
  return raw(O_ZEXT, w, 0, a);
}
Expr *ExprPool::sext(Expr *a, int w) {
  if (a->width == w) return a;
  if (a->op == O_CONST) return cst((u128)sextw(a->c, a->width), w);
  if (a->op == O_SEXT) return sext(a->k[0], w);
  if (a->op == O_ZEXT) return zext(a->k[0], w);
  if (a->width <= 64 && a->hi < (1ULL << (a->width - 1))) return zext(a, w);
  return raw(O_SEXT, w, 0, a);
}
Expr *ExprPool::extract(Expr *a, int lo, int w) {
  if (lo == 0 && a->width == w) return a;
  if (a->op == O_CONST) return cst(a->c >> lo, w);
  if (a->op == O_EXTRACT) return extract(a->k[0], a->aux + lo, w);
  if (a->op == O_ZEXT) {
    int kw = a->k[0]->width;
    if (lo >= kw) return cst(0, w);
    if (lo + w <= kw) return extract(a->k[0], lo, w);
    return zext(extract(a->k[0], lo, kw - lo), w);
  }
  if (a->op == O_SEXT) {
    int kw = a->k[0]->width;
    if (lo + w <= kw) return extract(a->k[0], lo, w);
    if (lo == 0 && w > kw) return sext(a->k[0], w);
  }
  if (a->op == O_CONCAT) {
    int lw = a->k[1]->width;
    if (lo + w <= lw) return extract(a->k[1], lo, w);
    if (lo >= lw) return extract(a->k[0], lo - lw, w);
    return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
  }
  if (a->op == O_ITE && !(a->fp) &&
      (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST || a->k[1]->op == O_ITE || a->k[2]->op == O_ITE || a->k[1]->op==O_ZEXT || a->k[2]->op==O_ZEXT))
    return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
    return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
  if ((a->op == O_AND || a->op == O_OR || a->op == O_XOR))
    return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
  if (a->op == O_LSHR && a->k[1]->op == O_CONST && a->k[1]->c + lo + w <= (unsigned)a->width)
    return extract(a->k[0], lo + (int)a->k[1]->c, w);
  return raw(O_EXTRACT, w, lo, a);
}
Expr *ExprPool::concat(Expr *hi, Expr *lo) {
  int w = hi->width + lo->width;
  if (hi->op == O_CONST && lo->op == O_CONST) return cst((hi->c << lo->width) | lo->c, w);
  if (hi->op == O_CONST && hi->c == 0) return zext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
    return extract(hi->k[0], lo->aux, w);
  if (hi->op == O_CONCAT) return concat(hi->k[0], concat(hi->k[1], lo));
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] &&
      hi->aux == lo->k[0]->aux + lo->k[0]->width)
    return concat(extract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width), lo->k[1]);
  return raw(O_CONCAT, w, 0, hi, lo);
}

Expr *ExprPool::ite(Expr *c, Expr *a, Expr *b) {
  if (c->op == O_CONST) return c->c ? a : b;
  if (a == b) return a;
  if (a->width == 1) {
    if (a->op == O_CONST && b->op == O_CONST) return a->c ? c : notE(c);
    if (a->op == O_CONST) return a->c ? bin(O_OR, c, b) : bin(O_AND, notE(c), b);
    if (b->op == O_CONST) return b->c ? bin(O_OR, notE(c), a) : bin(O_AND, c, a);
  }
  // normalise negated condition
  if (c->op == O_XOR && c->k[1]->op == O_CONST) return ite(c->k[0], b, a);
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  // ite(x==k, k, x) == x
  if (c->op == O_EQ && ((c->k[0] == a && c->k[1] == b) || (c->k[0] == b && c->k[1] == a))) return b;
  return raw(O_ITE, a->width, 0, c, a, b);
}

static bool isExactInt(Expr *e) {  // int->fp conversion without rounding
  if (e->op != O_UITOFP && e->op != O_SITOFP) return false;
  int kw = e->k[0]->width;
  if (e->width == 64 && kw <= 52) return true;
  if (e->width == 32 && kw <= 23) return true;
  if (kw <= 64) {
    uint64_t lim = e->width == 32 ? (1ULL << 24) : (1ULL << 53);
    if (e->k[0]->hi <= lim && (e->op == O_UITOFP || e->k[0]->hi < (1ULL << (kw - 1)))) return true;
  }
  return false;
}
static Expr *exactIntVal(Expr *e) {  // signed value widened to 64
  Expr *k = e->k[0];
  if (k->width > 64) return nullptr;
  return e->op == O_UITOFP ? P.zext(k, 64) : P.sext(k, 64);
}

Expr *ExprPool::bin(Op op, Expr *a, Expr *b) {
  int w = a->width;
  bool cmp = (op >= O_EQ && op <= O_SLE) || (op >= O_FEQ && op <= O_FUNO);
  int rw = cmp ? 1 : w;
  if (a->width != b->width) { fprintf(stderr, "internal: width mismatch op %d %d/%d\n", op, a->width, b->width); abort(); }
  if (a->op == O_CONST && b->op == O_CONST) {
    u128 v[2] = {a->c, b->c};
    bool ok; u128 r = fold(op, rw, 0, w, v, &ok);
    if (ok) return cst(r, rw);
  }
  if (fpTab && isFpOp(op) && a->lv && b->lv && a->lv * b->lv <= 4096) {
    if (a->op == O_ITE && b->op == O_ITE && a->k[0] == b->k[0]) return ite(a->k[0], bin(op, a->k[1], b->k[1]), bin(op, a->k[2], b->k[2]));
    if (a->op == O_ITE) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
    return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
  }
  if (realMode && a == b && (op == O_FEQ || op == O_FLE)) return T();
  if (realMode && a == b && (op == O_FLT || op == O_FUNO)) return F();
  if (realMode && op >= O_FEQ && op <= O_FUNO && (infLeaf(a) || infLeaf(b))) {
    if (a->op == O_ITE && infLeaf(a)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
    if (b->op == O_ITE && infLeaf(b)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
    bool ac = a->op == O_CONST;   // exactly one side is a constant, and it is infinite or NaN
    Expr *k = ac ? a : b;
    double d = k->width == 32 ? bits2f((uint32_t)k->c) : bits2d((uint64_t)k->c);
    if (d != d) return op == O_FUNO ? T() : F();
    if (op == O_FEQ || op == O_FUNO) return F();
    return (d > 0) != ac ? T() : F();
  }
  // commutative: constant to the right, otherwise order by id
  if (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FEQ || op == O_FADD || op == O_FMUL || op == O_FUNO) {
    if (a->op == O_CONST || (b->op != O_CONST && a->id > b->id)) std::swap(a, b);
  }
  bool bc = b->op == O_CONST;
  u128 ones = maskw(w);
  switch (op) {
    case O_ADD:
      if (bc && b->c == 0) return a;
      if (bc && a->op == O_ADD && a->k[1]->op == O_CONST) return bin(O_ADD, a->k[0], cst(a->k[1]->c + b->c, w));
      if (bc && a->op == O_ITE && a->k[1]->op == O_CONST && a->k[2]->op == O_CONST) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      break;
    case O_SUB:
      if (bc) return bin(O_ADD, a, cst(-b->c, w));
      if (a == b) return cst(0, w);
      if (a->op == O_ADD && a->k[0] == b) return a->k[1];
      if (a->op == O_ADD && a->k[1] == b) return a->k[0];
      if (a->op == O_ADD && b->op == O_ADD && a->k[0] == b->k[0]) return bin(O_SUB, a->k[1], b->k[1]);
      break;
    case O_MUL:
      if (bc && b->c == 0) return b;
      if (bc && b->c == 1) return a;
      break;
    case O_UDIV: case O_SDIV:
      if (bc && b->c == 1) return a;
      break;
    case O_AND:
      if (bc && b->c == 0) return b;
      if (bc && b->c == ones) return a;
      if (a == b) return a;
      if (w == 1) {
        if (a->op == O_XOR && a->k[1]->op == O_CONST && a->k[0] == b) return F();
        if (b->op == O_XOR && b->k[1]->op == O_CONST && b->k[0] == a) return F();
      }
      if (bc && a->op == O_AND && a->k[1]->op == O_CONST) return bin(O_AND, a->k[0], cst(a->k[1]->c & b->c, w));
      // mask of low bits
      if (bc && w <= 64) {
        uint64_t m = (uint64_t)b->c;
        if ((m & (m + 1)) == 0 && a->hi <= m) return a;
        if ((m & (m + 1)) == 0) { int nb = 64 - __builtin_clzll(m); if (nb < w) return zext(extract(a, 0, nb), w); }
      }
      break;
    case O_OR:
      if (bc && b->c == 0) return a;
      if (bc && b->c == ones) return b;
      if (a == b) return a;
      if (w == 1) {
        if (a->op == O_XOR && a->k[1]->op == O_CONST && a->k[0] == b) return T();
        if (b->op == O_XOR && b->k[1]->op == O_CONST && b->k[0] == a) return T();
      }
      // (zext lo) | (zext hi << lw)  => concat
      {
        Expr *x = a, *y = b;
        for (int t = 0; t < 2; ++t, std::swap(x, y))
          if (x->op == O_ZEXT && y->op == O_SHL && y->k[1]->op == O_CONST && (int)y->k[1]->c == x->k[0]->width) {
            int sh = (int)y->k[1]->c;
            return concat(extract(y->k[0], 0, w - sh), x->k[0]);
          }
      }
      break;
    case O_XOR:
      if (bc && b->c == 0) return a;
      if (a == b) return cst(0, w);
      if (bc && a->op == O_XOR && a->k[1]->op == O_CONST) return bin(O_XOR, a->k[0], cst(a->k[1]->c ^ b->c, w));
      if (w == 1 && bc) {  // not
        if (a->op == O_ULT) return bin(O_ULE, a->k[1], a->k[0]);
        if (a->op == O_ULE) return bin(O_ULT, a->k[1], a->k[0]);
        if (a->op == O_SLT) return bin(O_SLE, a->k[1], a->k[0]);
        if (a->op == O_SLE) return bin(O_SLT, a->k[1], a->k[0]);
      }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (bc && b->c == 0) return a;
      if (op == O_LSHR && bc && b->c < (u128)w) return zext(extract(a, (int)b->c, w - (int)b->c), w);
      if (op == O_SHL && bc && b->c >= (u128)w) return cst(0, w);
      break;
    case O_EQ:
      if (a == b) return T();
      if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F();
      if (w == 1 && bc) return b->c ? a : notE(a);
      if (bc) {
        if (a->op == O_ZEXT) {
          if (b->c > maskw(a->k[0]->width)) return F();
          return bin(O_EQ, a->k[0], cst(b->c, a->k[0]->width));
        }
        if (a->op == O_SEXT) {
          u128 t = b->c & maskw(a->k[0]->width);
          if (((u128)sextw(t, a->k[0]->width) & ones) != b->c) return F();
          return bin(O_EQ, a->k[0], cst(t, a->k[0]->width));
        }
        if (a->op == O_ITE && (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST))
          return ite(a->k[0], bin(O_EQ, a->k[1], b), bin(O_EQ, a->k[2], b));
        if (a->op == O_ADD && a->k[1]->op == O_CONST) return bin(O_EQ, a->k[0], cst(b->c - a->k[1]->c, w));
        if (a->op == O_XOR && a->k[1]->op == O_CONST) return bin(O_EQ, a->k[0], cst(b->c ^ a->k[1]->c, w));
        if (a->op == O_SUB && b->c == 0) return bin(O_EQ, a->k[0], a->k[1]);
        if (a->op == O_CONCAT) {
          int lw = a->k[1]->width;
          return bin(O_AND, bin(O_EQ, a->k[0], cst(b->c >> lw, w - lw)), bin(O_EQ, a->k[1], cst(b->c, lw)));
        }
        if (a->op == O_OR && b->c == 0)
          return bin(O_AND, bin(O_EQ, a->k[0], b), bin(O_EQ, a->k[1], b));
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_EQ, a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return bin(O_EQ, a->k[0], b->k[0]);
      break;
    case O_ULT:
      if (a == b) return F();
      if (w <= 64) { if (a->hi < b->lo) return T(); if (a->lo >= b->hi) return F(); }
      if (bc && b->c == 0) return F();
      if (bc && b->c == 1) return bin(O_EQ, a, cst(0, w));
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_ULT, a->k[0], b->k[0]);
      if (a->op == O_ZEXT && bc && b->c <= maskw(a->k[0]->width)) return bin(O_ULT, a->k[0], cst(b->c, a->k[0]->width));
      if (b->op == O_ZEXT && a->op == O_CONST && a->c <= maskw(b->k[0]->width)) return bin(O_ULT, cst(a->c, b->k[0]->width), b->k[0]);
      if (bc && a->op == O_ITE && (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      break;
    case O_ULE:
      if (a == b) return T();
      if (w <= 64) { if (a->hi <= b->lo) return T(); if (a->lo > b->hi) return F(); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_ULE, a->k[0], b->k[0]);
      if (a->op == O_ZEXT && bc && b->c <= maskw(a->k[0]->width)) return bin(O_ULE, a->k[0], cst(b->c, a->k[0]->width));
      if (b->op == O_ZEXT && a->op == O_CONST && a->c <= maskw(b->k[0]->width)) return bin(O_ULE, cst(a->c, b->k[0]->width), b->k[0]);
      if (bc && a->op == O_ITE && (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      break;
    case O_SLT: case O_SLE:
      if (a == b) return cst(op == O_SLE, 1);
      if (w <= 64) {
        uint64_t half = 1ULL << (w - 1);
        if (a->hi < half && b->hi < half) return bin(op == O_SLT ? O_ULT : O_ULE, a, b);
        if (a->lo >= half && b->hi < half) return T();   // negative vs non-negative
        if (a->hi < half && b->lo >= half) return F();
      }
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return bin(op, a->k[0], b->k[0]);
      if (bc && a->op == O_ITE && (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      break;
    case O_FEQ: case O_FLT: case O_FLE: {
      Expr *x = nullptr, *y = nullptr;
      if (isExactInt(a)) x = exactIntVal(a);
      if (isExactInt(b)) y = exactIntVal(b);
      if (x && bc) {  // compare with integral constant
        double d = asD(b->c, w);
        if (d == floor(d) && fabs(d) < 9e15) y = cst((u128)(i128)(int64_t)d, 64);
      }
      if (y && a->op == O_CONST) {
        double d = asD(a->c, w);
        if (d == floor(d) && fabs(d) < 9e15) x = cst((u128)(i128)(int64_t)d, 64);
      }
      if (x && y) return bin(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, x, y);
      // float widened to double compared with float widened to double
      if (a->op == O_FPEXT && b->op == O_FPEXT) return bin(op, a->k[0], b->k[0]);
      if (a->op == O_FPEXT && bc) {
        double d = asD(b->c, 64); float f = (float)d;
        if ((double)f == d) return bin(op, a->k[0], cst(f2bits(f), 32));
      }
      if (b->op == O_FPEXT && a->op == O_CONST) {
        double d = asD(a->c, 64); float f = (float)d;
        if ((double)f == d) return bin(op, cst(f2bits(f), 32), b->k[0]);
      }
      if (a->op == O_ITE && bc && (a->k[1]->op == O_CONST || a->k[2]->op == O_CONST)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      if (b->op == O_ITE && a->op == O_CONST && (b->k[1]->op == O_CONST || b->k[2]->op == O_CONST)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
      break;
    }
    case O_FUNO:
      if (isExactInt(a) && isExactInt(b)) return F();
      if (isExactInt(a) && bc) { double d = asD(b->c, w); return cst(d != d, 1); }
      if (a->op == O_FPEXT && b->op == O_FPEXT) return bin(op, a->k[0], b->k[0]);
      break;
    default: break;
  }
  return raw(op, rw, 0, a, b);
}

u128 ExprPool::eval(Expr *e, const std::vector<uint64_t> &model) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) return e->aux < model.size() ? (model[e->aux] & maskw(e->width)) : 0;
  if (e->egen == evalGen) return e->ev;
  u128 r;
  if (e->op == O_ITE) {
    r = eval(e->k[0], model) ? eval(e->k[1], model) : eval(e->k[2], model);
  } else if (e->op == O_CONCAT) {
    r = (eval(e->k[0], model) << e->k[1]->width) | eval(e->k[1], model);
  } else {
    u128 v[3] = {0, 0, 0};
    for (int i = 0; i < 3; ++i) if (e->k[i]) v[i] = eval(e->k[i], model);
    bool ok;
    r = fold(e->op, e->width, e->aux, e->k[0]->width, v, &ok);
    if (!ok) { fprintf(stderr, "internal: eval op %d\n", e->op); abort(); }
  }
  e->egen = evalGen;
  e->ev = r;
  return r;
}

std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","ffloor","fceil","ftrunc","frne","feq","flt","fle","funo","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","uf"};
  if (e->op == O_CONST) return std::to_string((uint64_t)e->c) + ":" + std::to_string(e->width);
  if (e->op == O_VAR) return P.vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == O_EXTRACT) s += "@" + std::to_string(e->aux) + "w" + std::to_string(e->width);
  for (int i = 0; i < 3; ++i) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
