// Matches and error lists for the measure harnesses.
#pragma once
#include "common.h"
#include <cfloat>
#include <random>
#include <unordered_map>
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "core/Match.h"
#include "core/MatchErrorCounts.h"
#include "core/Assessment.h"
#include "core/Statistic.h"
using namespace kws::core;
typedef Event<int32_t, int32_t> IE;
typedef ScoredEvent<IE> IH;
typedef Match<IE, IH> MT;
typedef MatchErrorCounts MC;
inline bool near(double a, double b) { double d = a - b; return (a == b) | ((d <= 1e-5) & (d >= -1e-5)); }
inline double sym_real(const std::string &n, double lo, double hi) { double d = sym_f64(n.c_str()); ASSUME(d >= lo && d <= hi); return d; }
inline float sym_share(const std::string &n, float hi) { float d = sym_f32(n.c_str()); ASSUME(d >= 0.0f && d <= hi); return d; }
// any finite score with anyscore=1 (for runs with the arithmetic of the machine), otherwise within a million
inline float sym_score(const std::string &n) { float d = sym_f32(n.c_str()), top = PARAM("anyscore", 0) ? FLT_MAX : 1e6f; ASSUME(d >= -top && d <= top); return d; }
enum { HIT, FALSEPOS, FALSENEG };
// one match of the given kind; soft hits have arbitrary shares
struct M1 { int kind; float score, fp, fn; int id; };
inline M1 sym_match(const std::string &n, int id, int kinds, bool soft, bool scored = true) {
  M1 m{(int)pick((n + "kind").c_str(), 0, kinds - 1), 0, 0, 0, id};
  if (m.kind != FALSENEG && scored) m.score = sym_score(n + "score");
  if (m.kind == FALSEPOS) m.fp = 1;
  if (m.kind == FALSENEG) m.fn = 1;
  if (m.kind == HIT && soft) {
    m.fp = sym_share(n + "fp", 1); m.fn = sym_share(n + "fn", 1);
    ASSUME(m.fp < 1 && m.fn < 1);
  }
  return m;
}
inline MT make(const M1 &m, int32_t query) {
  if (m.kind == FALSEPOS) return MT::MakeFalsePositive(IH(IE(query, m.id), m.score));
  if (m.kind == FALSENEG) return MT::MakeFalseNegative(IE(query, m.id));
  return MT(IE(query, m.id), IH(IE(query, m.id), m.score), MatchError(m.fp, m.fn));
}
inline int id_of(const MT &m) { return m.HasRef() ? m.GetRef().Location() : m.GetHyp().Location(); }
// a point of the curve
struct Pt { double fp, fn; size_t nh, nr; };
inline Pt point(const M1 &m) { return Pt{m.fp, m.fn, m.kind == FALSENEG ? 0u : 1u, m.kind == FALSEPOS ? 0u : 1u}; }
inline std::vector<Pt> points(const std::vector<M1> &v, bool collapse) {
  std::vector<Pt> r;
  for (size_t i = 0; i < v.size(); ++i) {
    bool join = collapse && i > 0 && (v[i].kind == FALSENEG) == (v[i - 1].kind == FALSENEG) && (v[i].kind == FALSENEG || v[i].score == v[i - 1].score);
    Pt p = point(v[i]);
    if (join) { r.back().fp += p.fp; r.back().fn += p.fn; r.back().nh += p.nh; r.back().nr += p.nr; }
    else r.push_back(p);
  }
  return r;
}
// definitions
inline void def_curve(const std::vector<Pt> &v, bool interp, std::vector<double> *pr, std::vector<double> *rc) {
  size_t tr = 0, nh = 0, nr = 0;
  double fp = 0, fn = 0;
  for (const Pt &p : v) tr += p.nr;
  for (const Pt &p : v) {
    nh += p.nh; nr += p.nr; fp += p.fp; fn += p.fn;
    pr->push_back(nh ? 1.0 - fp / (double)nh : 1.0);
    rc->push_back(tr ? ((double)nr - fn) / (double)tr : 1.0);
  }
  if (interp)
    for (size_t i = pr->size(); i-- > 1;)
      if ((*pr)[i] > (*pr)[i - 1]) (*pr)[i - 1] = (*pr)[i];
}
inline double def_ap(const std::vector<double> &pr, const std::vector<double> &rc, bool trap) {
  double s = 0;
  for (size_t i = 0; i < pr.size(); ++i) s += (i ? rc[i] - rc[i - 1] : rc[i]) * (trap && i ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]);
  return s;
}
inline double def_ndcg(const std::vector<Pt> &v) {
  size_t tr = 0, rank = 0;
  double g = 0, z = 0;
  for (const Pt &p : v) {
    tr += p.nr;
    if (!p.nh) continue;
    double gain = exp2(1.0 - p.fp / (double)p.nh) - 1.0;
    for (size_t j = 0; j < p.nh; ++j) { ++rank; g += gain / log2((double)rank + 1.0); }
  }
  for (size_t j = 1; j <= tr; ++j) z += 1.0 / log2((double)j + 1.0);
  return tr ? g / z : 0.0;
}
