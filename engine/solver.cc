#include "solver.h"
#include <algorithm>
#include <chrono>
#include <unistd.h>

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

void Solver::init() {
  reset();
  if (mode == FP_IEEE && !abstractArith) {
    abs = new Solver();
    abs->abstractArith = true;
    abs->useCvc5 = false;
    abs->timeoutMs = 10000;
    abs->init();
  }
}

Z3_ast Solver::absApp(Expr *e) {
  Z3_ast a[3]; Z3_sort so[3];
  unsigned n = 0;
  std::string nm = "U" + std::to_string((int)e->op) + "_" + std::to_string(e->width) + "_" + std::to_string(e->aux);
  Expr *k[3] = {e->k[0], e->k[1], e->k[2]};
  bool comm = e->op == O_MUL || e->op == O_FADD || e->op == O_FMUL;
  if (comm && k[0]->id > k[1]->id) std::swap(k[0], k[1]);
  for (; n < 3 && k[n]; ++n) { a[n] = bv(k[n]); so[n] = bvSort(k[n]->width); nm += "_" + std::to_string(k[n]->width); }
  auto it = absFn.find(nm);
  Z3_func_decl f = it != absFn.end() ? it->second : (absFn[nm] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), n, so, bvSort(e->width)));
  Z3_ast r = Z3_mk_app(ctx, f, n, a);
  if (comm) { Z3_ast b[2] = {a[1], a[0]}; Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, r, Z3_mk_app(ctx, f, 2, b))); }
  if (e->op == O_MUL) {
    Z3_ast z = Z3_mk_unsigned_int64(ctx, 0, bvSort(e->width));
    Z3_ast d[2] = {Z3_mk_eq(ctx, a[0], z), Z3_mk_eq(ctx, a[1], z)};
    Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, Z3_mk_or(ctx, 2, d), Z3_mk_eq(ctx, r, z)));
    Z3_ast nr = Z3_mk_bvneg(ctx, r);
    for (int i = 0; i < 2; ++i) {  // (-a) * b == -(a * b)
      Z3_ast b[2] = {i ? a[0] : Z3_mk_bvneg(ctx, a[0]), i ? Z3_mk_bvneg(ctx, a[1]) : a[1]};
      Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, nr, Z3_mk_app(ctx, f, 2, b)));
    }
  }
  return r;
}

void Solver::reset() {
  if (ctx) { Z3_del_context(ctx); bvMemo.clear(); fpMemo.clear(); litMemo.clear(); sideDone.clear(); ufApps.clear(); absFn.clear(); }
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
  sF32 = Z3_mk_fpa_sort_single(ctx);
  sF64 = Z3_mk_fpa_sort_double(ctx);
  sReal = Z3_mk_real_sort(ctx);
  sBool = Z3_mk_bool_sort(ctx);
  rne = Z3_mk_fpa_rne(ctx);
  for (int i = 0; i < UF_N; ++i) {
    Z3_sort d = mode == FP_REAL ? sReal : sF64;
    ufd[i] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, UF_NAMES[i]), 1, &d, d);
  }
  s = nullptr;
  lits = 0;
  mkSolver();
}
void Solver::mkSolver() {
  s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
}

Z3_ast Solver::boolv(Expr *e) {
  assert(e->width == 1);
  switch (e->op) {
    case O_CONST: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case O_EQ:
      if (e->k[0]->width == 1) return Z3_mk_eq(ctx, boolv(e->k[0]), boolv(e->k[1]));
      return Z3_mk_eq(ctx, bv(e->k[0]), bv(e->k[1]));
    default: break;
  }
  auto it = fpMemo.find(e);  // reuse: memo for Bool views
  if (it != fpMemo.end()) return it->second;
  Z3_ast r;
  Z3_ast x[2];
  switch (e->op) {
    case O_ULT: r = Z3_mk_bvult(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case O_ULE: r = Z3_mk_bvule(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case O_SLT: r = Z3_mk_bvslt(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case O_SLE: r = Z3_mk_bvsle(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case O_AND: x[0] = boolv(e->k[0]); x[1] = boolv(e->k[1]); r = Z3_mk_and(ctx, 2, x); break;
    case O_OR: x[0] = boolv(e->k[0]); x[1] = boolv(e->k[1]); r = Z3_mk_or(ctx, 2, x); break;
    case O_XOR:
      if (e->k[1]->op == O_CONST) r = Z3_mk_not(ctx, boolv(e->k[0]));
      else r = Z3_mk_xor(ctx, boolv(e->k[0]), boolv(e->k[1]));
      break;
    case O_ITE: r = Z3_mk_ite(ctx, boolv(e->k[0]), boolv(e->k[1]), boolv(e->k[2])); break;
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: {
      Expr *a = e->k[0], *b = e->k[1];
      if (mode == FP_REAL) {
        if (e->op == O_FUNO) {
          auto isnanC = [](Expr *k) { if (k->op != O_CONST) return false; double d = k->width == 32 ? bits2f((uint32_t)k->c) : bits2d((uint64_t)k->c); return d != d; };
          r = (isnanC(a) || isnanC(b)) ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
          break;
        }
        for (int sw = 0; sw < 2; ++sw) {
          Expr *c = sw ? b : a;
          if (c->op == O_CONST) {
            double d = c->width == 32 ? bits2f((uint32_t)c->c) : bits2d((uint64_t)c->c);
            if (d != d) { r = Z3_mk_false(ctx); goto done; }
            if (std::isinf(d)) {
              bool t = e->op == O_FEQ ? false : (sw ? d > 0 : d < 0);
              r = t ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
              goto done;
            }
          }
        }
        Z3_ast u = fp(a), v = fp(b);
        r = e->op == O_FEQ ? Z3_mk_eq(ctx, u, v) : e->op == O_FLT ? Z3_mk_lt(ctx, u, v) : Z3_mk_le(ctx, u, v);
      } else {
        Z3_ast u = fp(a), v = fp(b);
        if (e->op == O_FEQ) r = Z3_mk_fpa_eq(ctx, u, v);
        else if (e->op == O_FLT) r = Z3_mk_fpa_lt(ctx, u, v);
        else if (e->op == O_FLE) r = Z3_mk_fpa_leq(ctx, u, v);
        else { x[0] = Z3_mk_fpa_is_nan(ctx, u); x[1] = Z3_mk_fpa_is_nan(ctx, v); r = Z3_mk_or(ctx, 2, x); }
      }
      break;
    }
    default:
      r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int(ctx, 1, bvSort(1)));
  }
done:
  fpMemo[e] = r;
  return r;
}

Z3_ast Solver::bv(Expr *e) {
  auto it = bvMemo.find(e);
  if (it != bvMemo.end()) return it->second;
  Z3_ast r;
  if (e->width == 1 && e->op != O_VAR && e->op != O_CONST && e->op != O_EXTRACT) {
    r = Z3_mk_ite(ctx, boolv(e), Z3_mk_unsigned_int(ctx, 1, bvSort(1)), Z3_mk_unsigned_int(ctx, 0, bvSort(1)));
    bvMemo[e] = r;
    return r;
  }
  auto K = [&](int i) { return bv(e->k[i]); };
  if (abstractArith) {
    bool ar = e->op >= O_MUL && e->op <= O_SREM && e->k[0]->op != O_CONST && e->k[1]->op != O_CONST;
    bool fpop = (e->op >= O_FADD && e->op <= O_FRNE) || e->op >= O_FPEXT;
    if (ar || fpop) return bvMemo[e] = absApp(e);
  }
  switch (e->op) {
    case O_CONST: {
      if (e->width <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, bvSort(e->width));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->c >> 64), bvSort(e->width - 64)),
                            Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, bvSort(64)));
      break;
    }
    case O_VAR: {
      if (mode == FP_REAL && P.vars[e->aux].isFloat)
        throw Unsupported{"bit view of a real-valued float input " + P.vars[e->aux].name};
      std::string n = P.vars[e->aux].name + "!" + std::to_string(e->aux);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvSort(e->width));
      break;
    }
    case O_ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break;
    case O_SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
    case O_AND: r = Z3_mk_bvand(ctx, K(0), K(1)); break;
    case O_OR: r = Z3_mk_bvor(ctx, K(0), K(1)); break;
    case O_XOR: r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
    case O_ITE: r = Z3_mk_ite(ctx, boolv(e->k[0]), bv(e->k[1]), bv(e->k[2])); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, K(0)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, K(0)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, K(0)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, K(0), K(1)); break;
    case O_FPTOSI: case O_FPTOUI:
      if (mode == FP_REAL) {
        // truncation toward zero of a real, as an integer, into a bit-vector
        Z3_ast x = fp(e->k[0]);
        Z3_ast zero = Z3_mk_real(ctx, 0, 1);
        Z3_ast nx = Z3_mk_unary_minus(ctx, x);
        Z3_ast i = Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, zero), Z3_mk_real2int(ctx, x), Z3_mk_unary_minus(ctx, Z3_mk_real2int(ctx, nx)));
        r = Z3_mk_int2bv(ctx, e->width, i);
      } else if (e->op == O_FPTOSI) r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0]), e->width);
      else r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0]), e->width);
      break;
    default:
      if (e->op >= O_FADD) {
        if (mode == FP_REAL) throw Unsupported{"bit view of a real-valued fp operation"};
        r = Z3_mk_fpa_to_ieee_bv(ctx, fp(e));
        break;
      }
      throw Unsupported{"bv translation of op " + std::to_string(e->op)};
  }
  bvMemo[e] = r;
  return r;
}

static Z3_ast realConst(Z3_context ctx, double d, Z3_sort sReal) {
  if (std::isnan(d) || std::isinf(d)) throw Unsupported{"non-finite constant in real mode"};
  int ex;
  double m = frexp(d, &ex);
  int64_t mi = (int64_t)ldexp(m, 53);
  ex -= 53;
  while (mi != 0 && (mi & 1) == 0) { mi /= 2; ex++; }
  char buf[64];
  snprintf(buf, sizeof buf, "%lld", (long long)mi);
  Z3_ast n = Z3_mk_numeral(ctx, buf, sReal);
  if (ex == 0 || mi == 0) return n;
  Z3_ast two = Z3_mk_numeral(ctx, "2", sReal);
  (void)two;
  // 2^|ex| as decimal string
  std::vector<int> dig{1};
  for (int i = 0; i < std::abs(ex); ++i) {
    int c = 0;
    for (auto &x : dig) { x = x * 2 + c; c = x / 10; x %= 10; }
    if (c) dig.push_back(c);
  }
  std::string sd;
  for (auto itr = dig.rbegin(); itr != dig.rend(); ++itr) sd += char('0' + *itr);
  if (ex < 0) return Z3_mk_numeral(ctx, (std::string(buf) + "/" + sd).c_str(), sReal);
  Z3_ast a[2] = {n, Z3_mk_numeral(ctx, sd.c_str(), sReal)};
  return Z3_mk_mul(ctx, 2, a);
}

Z3_ast Solver::fp(Expr *e) {
  auto it = fpMemo.find(e);
  if (it != fpMemo.end()) return it->second;
  Z3_ast r;
  auto K = [&](int i) { return fp(e->k[i]); };
  Z3_sort so = e->width == 32 ? sF32 : sF64;
  if (e->width != 32 && e->width != 64) throw Unsupported{"fp width"};
  if (abstractArith && e->op != O_ITE) return fpMemo[e] = Z3_mk_fpa_to_fp_bv(ctx, bv(e), so);
  if (mode == FP_REAL) {
    Z3_ast x[2];
    switch (e->op) {
      case O_CONST: r = realConst(ctx, e->width == 32 ? bits2f((uint32_t)e->c) : bits2d((uint64_t)e->c), sReal); break;
      case O_VAR: {
        if (!P.vars[e->aux].isFloat && !P.vars[e->aux].undef) throw Unsupported{"integer input used as a real " + P.vars[e->aux].name};
        std::string n = P.vars[e->aux].name + "!" + std::to_string(e->aux);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), sReal);
        break;
      }
      case O_FADD: x[0] = K(0); x[1] = K(1); r = Z3_mk_add(ctx, 2, x); break;
      case O_FSUB: x[0] = K(0); x[1] = K(1); r = Z3_mk_sub(ctx, 2, x); break;
      case O_FMUL: x[0] = K(0); x[1] = K(1); r = Z3_mk_mul(ctx, 2, x); break;
      case O_FDIV: r = Z3_mk_div(ctx, K(0), K(1)); break;
      case O_FNEG: r = Z3_mk_unary_minus(ctx, K(0)); break;
      case O_FABS: x[0] = K(0); r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x[0], Z3_mk_real(ctx, 0, 1)), Z3_mk_unary_minus(ctx, x[0]), x[0]); break;
      case O_FPEXT: case O_FPTRUNC: r = K(0); break;
      case O_FFLOOR: r = Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, K(0))); break;
      case O_ITE: r = Z3_mk_ite(ctx, boolv(e->k[0]), K(1), K(2)); break;
      case O_UITOFP: r = Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, bv(e->k[0]), false)); break;
      case O_SITOFP: r = Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, bv(e->k[0]), true)); break;
      case O_UF: {
        Z3_ast a = K(0);
        r = Z3_mk_app(ctx, ufd[e->aux], 1, &a);
        break;
      }
      default: throw Unsupported{"real view of op " + exprStr(e, 3)};
    }
  } else {
    switch (e->op) {
      case O_FADD: r = Z3_mk_fpa_add(ctx, rne, K(0), K(1)); break;
      case O_FSUB: r = Z3_mk_fpa_sub(ctx, rne, K(0), K(1)); break;
      case O_FMUL: r = Z3_mk_fpa_mul(ctx, rne, K(0), K(1)); break;
      case O_FDIV: r = Z3_mk_fpa_div(ctx, rne, K(0), K(1)); break;
      case O_FNEG: r = Z3_mk_fpa_neg(ctx, K(0)); break;
      case O_FABS: r = Z3_mk_fpa_abs(ctx, K(0)); break;
      case O_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, K(0)); break;
      case O_FFLOOR: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), K(0)); break;
      case O_FCEIL: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), K(0)); break;
      case O_FTRUNC: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), K(0)); break;
      case O_FRNE: r = Z3_mk_fpa_round_to_integral(ctx, rne, K(0)); break;
      case O_FPEXT: r = Z3_mk_fpa_to_fp_float(ctx, rne, K(0), sF64); break;
      case O_FPTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, K(0), sF32); break;
      case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, bv(e->k[0]), so); break;
      case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(e->k[0]), so); break;
      case O_UF: { Z3_ast a = K(0); r = Z3_mk_app(ctx, ufd[e->aux], 1, &a); break; }
      case O_ITE: r = Z3_mk_ite(ctx, boolv(e->k[0]), K(1), K(2)); break;
      default: r = Z3_mk_fpa_to_fp_bv(ctx, bv(e), so);
    }
  }
  fpMemo[e] = r;
  return r;
}

// Facts about the modelled mathematical functions, instantiated for every
// application that occurs (mode REAL): exp2 is increasing, exp2(0)=1, exp2(1)=2, convex.
void Solver::collectSides(Expr *e) {
  if (!e->fp || sideDone.count(e)) return;
  sideDone[e] = true;
  for (int i = 0; i < 3; ++i) if (e->k[i]) collectSides(e->k[i]);
  if (e->op == O_UF && mode == FP_REAL && e->aux == UF_EXP2) {
    Z3_ast x = fp(e->k[0]), y = fp(e);
    Z3_ast zero = Z3_mk_real(ctx, 0, 1), one = Z3_mk_real(ctx, 1, 1), two = Z3_mk_real(ctx, 2, 1);
    Z3_ast add[2] = {one, x};
    Z3_ast onex = Z3_mk_add(ctx, 2, add);
    Z3_ast rng[2] = {Z3_mk_ge(ctx, x, zero), Z3_mk_le(ctx, x, one)};
    Z3_ast in01 = Z3_mk_and(ctx, 2, rng);
    auto A = [&](Z3_ast a) { Z3_solver_assert(ctx, s, a); };
    A(Z3_mk_gt(ctx, y, zero));
    A(Z3_mk_implies(ctx, in01, Z3_mk_le(ctx, y, onex)));
    A(Z3_mk_eq(ctx, Z3_mk_eq(ctx, x, zero), Z3_mk_eq(ctx, y, one)));
    A(Z3_mk_eq(ctx, Z3_mk_eq(ctx, x, one), Z3_mk_eq(ctx, y, two)));
    A(Z3_mk_eq(ctx, Z3_mk_gt(ctx, x, zero), Z3_mk_gt(ctx, y, one)));
    A(Z3_mk_eq(ctx, Z3_mk_gt(ctx, x, one), Z3_mk_gt(ctx, y, two)));
    for (auto &p : ufApps) {
      A(Z3_mk_eq(ctx, Z3_mk_lt(ctx, x, fp(p.first->k[0])), Z3_mk_lt(ctx, y, p.second)));
    }
    ufApps.push_back({e, y});
  }
}

Z3_ast Solver::lit(Expr *e) {
  auto it = litMemo.find(e);
  if (it != litMemo.end()) return it->second;
  Z3_ast b = boolv(e);
  collectSides(e);
  Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("L!" + std::to_string(e->id)).c_str()), sBool);
  Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, l, b));
  litMemo[e] = l;
  ++lits;
  return l;
}

double Solver::realVal(Z3_model m, Z3_ast a) {
  Z3_ast out = nullptr;
  if (!Z3_model_eval(ctx, m, a, true, &out)) return 0;
  if (Z3_is_algebraic_number(ctx, out)) out = Z3_get_algebraic_number_lower(ctx, out, 30);
  std::string sv = Z3_get_numeral_string(ctx, out);
  auto p = sv.find('/');
  if (p == std::string::npos) return strtod(sv.c_str(), nullptr);
  // long rationals: keep a common scale
  std::string n = sv.substr(0, p), d = sv.substr(p + 1);
  long double nd = strtold(n.c_str(), nullptr), dd = strtold(d.c_str(), nullptr);
  return (double)(nd / dd);
}

void Solver::extract(Z3_model m, const std::vector<Expr *> &q, Model *out, std::vector<std::pair<uint32_t, uint64_t>> *vals) {
  std::vector<uint64_t> vs;
  for (auto *e : q) {
    if (vs.size() < e->vs->w.size()) vs.resize(e->vs->w.size());
    for (size_t i = 0; i < e->vs->w.size(); ++i) vs[i] |= e->vs->w[i];
  }
  for (size_t i = 0; i < vs.size(); ++i)
    for (uint64_t b = vs[i]; b; b &= b - 1) {
      uint32_t v = i * 64 + __builtin_ctzll(b);
      Expr *ve = P.varExprs[v];
      uint64_t val = 0;
      if (mode == FP_REAL && P.vars[v].isFloat) {
        double d = realVal(m, fp(ve));
        val = ve->width == 32 ? f2bits((float)d) : d2bits(d);
      } else {
        Z3_ast o = nullptr;
        if (Z3_model_eval(ctx, m, bv(ve), true, &o)) {
          if (!Z3_get_numeral_uint64(ctx, o, &val)) val = 0;
        }
      }
      vals->push_back({v, val});
    }
}

Sat Solver::cvc5Check(const std::vector<Expr *> &q) {
  // Serialise through z3's printer and ask cvc5; only UNSAT answers are used.
  std::vector<Z3_ast> as;
  for (auto *e : q) as.push_back(boolv(e));
  if (as.empty()) return UNKNOWN;
  Z3_ast all = as.size() == 1 ? as[0] : Z3_mk_and(ctx, as.size(), as.data());
  std::string txt = Z3_benchmark_to_smtlib_string(ctx, "q", mode == FP_REAL ? "ALL" : "ALL", "unknown", "", 0, nullptr, all);
  char fn[] = "/tmp/ksymqXXXXXX";
  int fd = mkstemp(fn);
  if (fd < 0) return UNKNOWN;
  FILE *f = fdopen(fd, "w");
  fputs(txt.c_str(), f);
  fclose(f);
  std::string cmd = "timeout " + std::to_string(timeoutMs / 1000 + 1) + " cvc5 " + fn + " 2>&1";
  FILE *pp = popen(cmd.c_str(), "r");
  std::string o;
  char buf[256];
  while (fgets(buf, sizeof buf, pp)) o += buf;
  pclose(pp);
  unlink(fn);
  st.cvc5++;
  if (o.find("(error") != std::string::npos) return UNKNOWN;
  if (o.substr(0, 5) == "unsat") return UNSAT;
  return UNKNOWN;
}

Sat Solver::run(const std::vector<Expr *> &q, Model *m) {
  std::vector<uint32_t> key;
  for (auto *e : q) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  st.queries++;
  if (it != cache.end()) {
    st.cacheHits++;
    if (it->second.r == SAT && m)
      for (auto &p : it->second.vals) { if (m->size() <= p.first) m->resize(p.first + 1); (*m)[p.first] = p.second; }
    return it->second.r;
  }
  double t0 = now();
  bool hard = false, nl = false;
  for (auto *e : q) { hard |= e->hard; nl |= e->nl; }
  Sat r = UNKNOWN;
  CacheEnt ce;
  if (abs && (hard || nl)) {
    Model dummy;
    if (abs->run(q, &dummy) == UNSAT) { r = UNSAT; st.absUnsat++; }
  }
  if (abstractArith) hard = false;
  if (r == UNSAT) {}
  else if (hard) {
    // fresh solver: lets z3 pick its tactics for fp / non-linear arithmetic
    Z3_solver save = s;
    if (mode == FP_IEEE) s = Z3_mk_solver(ctx);
    else s = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    sideDone.clear(); ufApps.clear();
    for (auto *e : q) { Z3_solver_assert(ctx, s, boolv(e)); collectSides(e); }
    Z3_lbool lb = Z3_solver_check(ctx, s);
    r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (r == SAT) {
      Z3_model mm = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, mm);
      extract(mm, q, m, &ce.vals);
      Z3_model_dec_ref(ctx, mm);
    } else if (r == UNKNOWN) {
      lastReason = Z3_solver_get_reason_unknown(ctx, s);
    }
    Z3_solver_dec_ref(ctx, s);
    s = save;
    sideDone.clear(); ufApps.clear();
    if (r == UNKNOWN && useCvc5 && cvc5Check(q) == UNSAT) r = UNSAT;
  } else {
    if (lits > 20000) { reset(); }
    std::vector<Z3_ast> as;
    for (auto *e : q) as.push_back(lit(e));
    Z3_lbool lb = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
    r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (r == SAT && !abstractArith) {
      Z3_model mm = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, mm);
      extract(mm, q, m, &ce.vals);
      Z3_model_dec_ref(ctx, mm);
    } else if (r == UNKNOWN) {
      lastReason = Z3_solver_get_reason_unknown(ctx, s);
      if (useCvc5 && cvc5Check(q) == UNSAT) r = UNSAT;
    }
  }
  double dt = now() - t0;
  st.time += dt;
  if (dt > st.maxTime) st.maxTime = dt;
  st.solverCalls++;
  if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
  if (dumpMax && dumpN < dumpMax && !dumpDir.empty() && r != UNKNOWN && !q.empty()) {
    std::vector<Z3_ast> as;
    for (auto *e : q) as.push_back(boolv(e));
    Z3_ast all = as.size() == 1 ? as[0] : Z3_mk_and(ctx, as.size(), as.data());
    std::string txt = Z3_benchmark_to_smtlib_string(ctx, "q", "ALL", r == SAT ? "sat" : "unsat", "", 0, nullptr, all);
    std::string fn = dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumpN++) + (r == SAT ? ".sat" : ".unsat") + ".smt2";
    FILE *f = fopen(fn.c_str(), "w");
    if (f) { fputs(txt.c_str(), f); fclose(f); }
  }
  ce.r = r;
  if (r == SAT && m)
    for (auto &p : ce.vals) { if (m->size() <= p.first) m->resize(p.first + 1); (*m)[p.first] = p.second; }
  if (cache.size() > 2000000) cache.clear();
  if (r != UNKNOWN) cache[key] = ce;
  return r;
}

static bool overlap(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true;
  return false;
}

Sat Solver::check(const std::vector<Expr *> &cs, Expr *extra, Model *m) {
  if (extra->op == O_CONST) return extra->c ? SAT : UNSAT;
  std::vector<Expr *> q{extra};
  std::vector<uint64_t> vs = extra->vs->w;
  std::vector<char> used(cs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); ++i)
      if (!used[i] && overlap(cs[i]->vs->w, vs)) {
        used[i] = 1;
        q.push_back(cs[i]);
        const auto &w = cs[i]->vs->w;
        bool grew = false;
        if (vs.size() < w.size()) vs.resize(w.size());
        for (size_t j = 0; j < w.size(); ++j) if (w[j] & ~vs[j]) { vs[j] |= w[j]; grew = true; }
        ch |= grew;
      }
  }
  return run(q, m);
}
Sat Solver::full(const std::vector<Expr *> &cs, Model *m) {
  if (cs.empty()) return SAT;
  return run(cs, m);
}
