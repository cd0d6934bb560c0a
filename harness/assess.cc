#include "assess.h"
static std::vector<M1> sym_matches(size_t n, bool soft) {
  std::vector<M1> v;
  for (size_t i = 0; i < n; ++i) v.push_back(sym_match(nm("m", i), (int)i, 3, soft));
  return v;
}
static std::vector<MT> make_all(const std::vector<M1> &v) {
  std::vector<MT> r;
  for (const M1 &m : v) r.push_back(make(m, 7));
  return r;
}
// Every function is also called on other inputs in between, held by the same
// containers: its answer must depend on nothing but its present arguments.
static std::vector<M1> other_matches(size_t n) {
  std::vector<M1> v;
  for (size_t i = 0; i < n; ++i) v.push_back(i % 4 == 2 ? M1{FALSENEG, 0, 0, 1, (int)i} : i % 4 == 1 ? M1{FALSEPOS, 50.0f - (int)(i / 2), 1, 0, (int)i} : M1{HIT, 50.0f - (int)(i / 2), 0, 0, (int)i});
  return v;
}
static std::vector<Pt> other_points(size_t n) {
  std::vector<Pt> v;
  for (size_t i = 0; i < n; ++i) v.push_back(i % 4 == 2 ? Pt{0, 1, 0, 1} : i % 4 == 1 ? Pt{2, 0, 3, 1} : Pt{0, 0, 1, 1});
  return v;
}
static void fill(std::vector<MC> *e, const std::vector<Pt> &v) {
  e->clear();
  for (const Pt &p : v) e->push_back(MC(p.fp, p.fn, p.nh, p.nr));
}
static bool same(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
  return true;
}
// ------------------------------------------------------------- C09
extern "C" void h_collapse() {
  size_t n = pick("n", 0, PARAM("n", 4));
  std::vector<M1> v = sym_matches(n, PARAM("soft", 1));
  auto out = CollapseMatches(make_all(v));
  auto want = points(v, true);
  CHECK(out.size() == want.size(), "one point per run of equal scores");
  size_t nh = 0, nr = 0;
  for (size_t i = 0; i < out.size(); ++i) {
    CHECK(out[i].NH() == want[i].nh && out[i].NR() == want[i].nr, "a point counts its hypotheses and references");
    CHECK(near(out[i].FP(), want[i].fp) && near(out[i].FN(), want[i].fn), "a point adds up its errors");
    nh += out[i].NH(); nr += out[i].NR();
  }
  size_t wh = 0, wr = 0;
  for (const M1 &m : v) { wh += m.kind != FALSENEG; wr += m.kind != FALSEPOS; }
  CHECK(nh == wh && nr == wr, "totals are conserved");
  if (want.size() < n) COVER("merged");
  if (n > 1 && want.size() == n) COVER("all-different");
  for (size_t i = 1; i < n; ++i) if (v[i].kind == FALSENEG && v[i - 1].kind == FALSENEG) COVER("false-negatives-merged");
  auto errs = GetMatchErrors(make_all(v));
  CHECK(errs.size() == n, "without collapsing there is one error per match");
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_matches(n + d);
    auto oo = CollapseMatches(make_all(ov));
    auto ow = points(ov, true);
    CHECK(oo.size() == ow.size(), "another list is collapsed by its own scores");
    for (size_t i = 0; i < oo.size(); ++i) CHECK(oo[i].NH() == ow[i].nh && oo[i].NR() == ow[i].nr && near(oo[i].FP(), ow[i].fp) && near(oo[i].FN(), ow[i].fn), "another list has points of its own");
  }
  CHECK(CollapseMatches(make_all(v)) == out, "the same list gives the same points");
  for (size_t i = 0; i < n; ++i) { Pt p = point(v[i]); CHECK(errs[i].NH() == p.nh && errs[i].NR() == p.nr && near(errs[i].FP(), p.fp) && near(errs[i].FN(), p.fn), "without collapsing errors keep their order"); }
}
// a long run, to see that sums do not depend on position
extern "C" void h_collapse_long() {
  size_t n = PARAM("n", 20);
  std::vector<M1> v;
  for (size_t i = 0; i < n; ++i) v.push_back(M1{i % 5 == 3 ? FALSEPOS : HIT, (float)(40 - (int)(i / 3)), i % 5 == 3 ? 1.0f : 0.0f, 0.0f, (int)i});
  size_t at = pick("at", 0, n - 1);
  v[at].score = sym_score("score");
  auto out = CollapseMatches(make_all(v));
  auto want = points(v, true);
  CHECK(out.size() == want.size(), "one point per run of equal scores (long)");
  for (size_t i = 0; i < out.size(); ++i) CHECK(out[i].NH() == want[i].nh && out[i].NR() == want[i].nr && near(out[i].FP(), want[i].fp) && near(out[i].FN(), want[i].fn), "a point adds up its matches (long)");
  if (want.size() == n / 3 + 1) COVER("joined"); else COVER("split");
}
// hundreds of matches in one point
extern "C" void h_collapse_big() {
  size_t n = PARAM("n", 300), at = pick("at", 0, 2) * (n / 2 - 1);
  std::vector<M1> v;
  for (size_t i = 0; i < n; ++i) v.push_back(i % 5 == 3 ? M1{FALSEPOS, 1.0f, 1.0f, 0.0f, (int)i} : M1{HIT, 1.0f, 0.0f, 0.0f, (int)i});
  v[at].score = sym_score("score");
  auto out = CollapseMatches(make_all(v));
  auto want = points(v, true);
  CHECK(out.size() == want.size(), "one point per run of equal scores (many)");
  for (size_t i = 0; i < out.size(); ++i) CHECK(out[i].NH() == want[i].nh && out[i].NR() == want[i].nr && near(out[i].FP(), want[i].fp) && near(out[i].FN(), want[i].fn), "a point adds up its matches (many)");
  if (want.size() == 1) COVER("joined"); else COVER("split");
}
extern "C" void h_counts_add() {
  float a = sym_share("a", 100), b = sym_share("b", 100), c = sym_share("c", 100), d = sym_share("d", 100);
  size_t h1 = sym_u64("h1", 0, 1000), h2 = sym_u64("h2", 0, 1000), r1 = sym_u64("r1", 0, 1000), r2 = sym_u64("r2", 0, 1000);
  MC x(a, b, h1, r1), y(c, d, h2, r2), z = x + y;
  CHECK(near(z.FP(), (double)(a + c)) && near(z.FN(), (double)(b + d)) && z.NH() == h1 + h2 && z.NR() == r1 + r2, "adding points adds their fields");
  CHECK(x.FP() == a && x.NH() == h1, "adding points leaves the operands alone");
  x += y;
  CHECK(x == z && !(x != z), "both additions agree");
  CHECK((y == z) == (c == z.FP() && d == z.FN() && h1 == 0 && r1 == 0), "points are equal when all fields are");
  COVER("added");
}
// ------------------------------------------------------------- C10
static std::vector<Pt> sym_points(size_t n, size_t top, std::vector<MC> *e) {
  std::vector<Pt> v;
  for (size_t i = 0; i < n; ++i) {
    size_t nh = pick(nm("nh", i).c_str(), 0, top), nr = pick(nm("nr", i).c_str(), 0, top);
    float fp = nh ? sym_share(nm("fp", i), nh) : 0.0f, fn = nr ? sym_share(nm("fn", i), nr) : 0.0f;
    v.push_back(Pt{fp, fn, nh, nr});
    e->push_back(MC(fp, fn, nh, nr));
  }
  return v;
}
static void check_curve(const std::vector<double> &pr, const std::vector<double> &rc, const std::vector<Pt> &v, bool interp) {
  std::vector<double> wp, wr;
  def_curve(v, interp, &wp, &wr);
  CHECK(pr.size() == v.size() && rc.size() == v.size(), "one precision and one recall per point");
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(near(rc[i], wr[i]), "recall is the share of references found so far");
    CHECK(near(pr[i], wp[i]), interp ? "interpolated precision is the best at this or a later point" : "precision is the share of correct hypotheses so far");
  }
}
extern "C" void h_pr() {
  size_t n = pick("n", 0, PARAM("n", 3));
  std::vector<MC> e;
  auto v = sym_points(n, PARAM("top", 2), &e);
  bool interp = pick("interp", 0, 1);
  std::vector<double> pr(2, 9.0), rc(1, 9.0);
  ComputePrecisionAndRecall(e, interp, &pr, &rc);
  check_curve(pr, rc, v, interp);
  size_t tr = 0;
  const std::vector<double> pr1 = pr, rc1 = rc;
  const std::vector<MC> e1 = e;
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_points(n + d);
    fill(&e, ov);
    ComputePrecisionAndRecall(e, interp, &pr, &rc);
    check_curve(pr, rc, ov, interp);
    CHECK(NumTotalReferences(e) == [&] { size_t k = 0; for (const Pt &p : ov) k += p.nr; return k; }(), "another list has references of its own");
  }
  e = e1;
  ComputePrecisionAndRecall(e, interp, &pr, &rc);
  CHECK(same(pr, pr1) && same(rc, rc1), "the same list gives the same curve");
  for (const Pt &p : v) tr += p.nr;
  CHECK(NumTotalReferences(e) == tr, "the number of references is the sum over the points");
  if (n && !tr) COVER("no-references");
  if (n && !v[0].nh) COVER("no-hypotheses-yet");
  if (interp && n == 2 && v[0].nh && pr[0] > 1.0 - v[0].fp / v[0].nh) COVER("interpolated");
}
extern "C" void h_pr_range() {   // ratios stay in 0..1, recall grows, interpolated precision falls
  size_t n = PARAM("n", 3);
  std::vector<MC> e;
  sym_points(n, 1, &e);
  bool interp = pick("interp", 0, 1);
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(e, interp, &pr, &rc);
  for (size_t i = 0; i < pr.size(); ++i) {
    CHECK(pr[i] >= -1e-6 && pr[i] <= 1 + 1e-6 && rc[i] >= -1e-6 && rc[i] <= 1 + 1e-6, "precision and recall lie in 0..1");
    if (i) { CHECK(rc[i] >= rc[i - 1] - 1e-6, "recall never falls"); if (interp) CHECK(pr[i] <= pr[i - 1] + 1e-6, "interpolated precision never rises"); }
  }
  COVER("ranged");
}
extern "C" void h_pr_matches() {
  size_t n = pick("n", 0, PARAM("n", 3));
  auto v = sym_matches(n, true);
  bool col = pick("collapse", 0, 1), interp = pick("interp", 0, 1);
  std::vector<double> pr(1, 9.0), rc(1, 9.0);
  ComputePrecisionAndRecall(make_all(v), col, interp, &pr, &rc);
  auto p = points(v, col);
  check_curve(pr, rc, p, interp);
  const std::vector<double> pr1 = pr, rc1 = rc;
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_matches(n + d);
    ComputePrecisionAndRecall(make_all(ov), col, interp, &pr, &rc);
    check_curve(pr, rc, points(ov, col), interp);
  }
  ComputePrecisionAndRecall(make_all(v), col, interp, &pr, &rc);
  CHECK(same(pr, pr1) && same(rc, rc1), "the same matches give the same curve");
  if (p.size() < n) COVER("collapsed");
}
// long concrete lists with one unknown error each
extern "C" void h_pr_long() {
  size_t n = PARAM("n", 40), at = pick("at", 0, n - 1);
  std::vector<Pt> v;
  std::vector<MC> e;
  for (size_t i = 0; i < n; ++i) {
    Pt p{i % 3 == 1 ? 1.0 : 0.0, i % 7 == 6 ? 1.0 : 0.0, 1, i % 3 == 1 ? 0u : 1u};
    if (i % 7 == 6) p = Pt{0.0, 1.0, 0, 1};
    if (i == at) p = Pt{sym_share("fp", 1), sym_share("fn", 1), 1, 1};
    v.push_back(p);
    e.push_back(MC(p.fp, p.fn, p.nh, p.nr));
  }
  bool interp = pick("interp", 0, 1);
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(e, interp, &pr, &rc);
  check_curve(pr, rc, v, interp);
  COVER("long");
}
// hundreds of points, and points of hundreds of hypotheses
static std::vector<Pt> many_points(size_t n, size_t at) {
  std::vector<Pt> v;
  for (size_t i = 0; i < n; ++i) v.push_back(i % 3 == 1 ? Pt{1, 0, 1, 0} : i % 7 == 6 ? Pt{0, 1, 0, 1} : Pt{0, 0, 1, 1});
  v[at] = Pt{sym_share("fp", 300), sym_share("fn", 1), 300, 290};
  return v;
}
extern "C" void h_pr_big() {
  size_t n = PARAM("n", 300), at = n - 1 - 4 * pick("at", 0, 2);
  bool interp = pick("interp", 0, 1);
  auto v = many_points(n, at);
  if (interp) v[at].fp = 150.0 * (double)pick("share", 0, 2);
  std::vector<MC> e;
  fill(&e, v);
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(e, interp, &pr, &rc);
  check_curve(pr, rc, v, interp);
  COVER("big");
}
// ------------------------------------------------------------- C11
extern "C" void h_ap_big() {
  size_t n = PARAM("n", 300), at = pick("at", 0, 2) * (n / 2 - 1);
  auto v = many_points(n, at);
  std::vector<MC> e;
  fill(&e, v);
  std::vector<double> pr(n, 0.5);
  pr[at] = sym_real("p", 0, 1);
  bool trap = pick("trapezoid", 0, 1);
  double s = 0;
  size_t tr = 0;
  for (size_t i = 0; i < n; ++i) { s += ((double)v[i].nh - v[i].fp) * (trap && i ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]); tr += v[i].nr; }
  CHECK(near(ComputeAP(e, pr, trap), s / (double)tr), "average precision adds the precision at each hit, per reference (many)");
  std::vector<double> rc;
  for (size_t i = 0; i < n; ++i) rc.push_back((double)(i + 1) / (double)n);
  CHECK(near(ComputeAP(pr, rc, trap), def_ap(pr, rc, trap)), "average precision is the area under the curve (many)");
  COVER("big");
}
extern "C" void h_ap_curve() {
  size_t n = pick("n", 0, PARAM("n", 4));
  std::vector<double> pr, rc;
  for (size_t i = 0; i < n; ++i) { pr.push_back(sym_real(nm("p", i), 0, 1)); rc.push_back(sym_real(nm("r", i), 0, 1)); }
  bool trap = pick("trapezoid", 0, 1);
  double ap = ComputeAP(pr, rc, trap);
  CHECK(near(ap, def_ap(pr, rc, trap)), "average precision is the area under the curve");
  const std::vector<double> pr1 = pr, rc1 = rc;
  for (size_t d = 0; d < 4; d += 3) {
    pr.clear(); rc.clear();
    for (size_t i = 0; i < n + d; ++i) { pr.push_back(1.0 / (i + 2)); rc.push_back(i / 8.0); }
    CHECK(near(ComputeAP(pr, rc, trap), def_ap(pr, rc, trap)), "another curve has an area of its own");
  }
  pr = pr1; rc = rc1;
  CHECK(ComputeAP(pr, rc, trap) == ap, "the same curve has the same area");
  if (n > 1) COVER("curve");
}
extern "C" void h_ap_errors() {
  size_t n = pick("n", 0, PARAM("n", 3));
  std::vector<MC> e;
  auto v = sym_points(n, PARAM("top", 2), &e);
  std::vector<double> pr;
  for (size_t i = 0; i < n; ++i) pr.push_back(sym_real(nm("p", i), 0, 1));
  bool trap = pick("trapezoid", 0, 1);
  double ap = ComputeAP(e, pr, trap);
  auto def = [trap](const std::vector<Pt> &v, const std::vector<double> &pr) {
    double s = 0;
    size_t tr = 0;
    for (size_t i = 0; i < v.size(); ++i) { s += ((double)v[i].nh - v[i].fp) * (trap && i ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]); tr += v[i].nr; }
    return tr ? s / (double)tr : 0.0;
  };
  size_t tr = 0;
  for (const Pt &p : v) tr += p.nr;
  CHECK(near(ap, def(v, pr)), "average precision adds the precision at each hit, per reference");
  const std::vector<double> pr1 = pr;
  const std::vector<MC> e1 = e;
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_points(n + d);
    fill(&e, ov);
    pr.clear();
    for (size_t i = 0; i < n + d; ++i) pr.push_back(1.0 / (i + 2));
    CHECK(near(ComputeAP(e, pr, trap), def(ov, pr)), "another list has an average precision of its own");
  }
  pr = pr1; e = e1;
  CHECK(ComputeAP(e, pr, trap) == ap, "the same list has the same average precision");
  if (n && !tr) COVER("no-references");
  if (n > 1 && tr) COVER("references");
}
extern "C" void h_ap_agree() {   // both formulas, when credit for precision is credit for recall
  size_t n = PARAM("n", 3);
  std::vector<MC> e;
  size_t tr = 0;
  for (size_t i = 0; i < n; ++i) {
    size_t k = pick(nm("kind", i).c_str(), 0, 2);   // hit with equal shares, false positive, false negative
    float f = k == 0 ? sym_share(nm("f", i), 1) : 0.0f;
    e.push_back(k == 0 ? MC(f, f, 1, 1) : k == 1 ? MC(1, 0, 1, 0) : MC(0, 1, 0, 1));
    tr += k != 1;
  }
  if (!tr) return;
  bool trap = pick("trapezoid", 0, 1), interp = pick("interp", 0, 1);
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(e, interp, &pr, &rc);
  CHECK(near(ComputeAP(e, pr, trap), ComputeAP(pr, rc, trap)), "both formulas of average precision agree");
  COVER("agree");
}
extern "C" void h_gap() {
  size_t n = pick("n", 0, PARAM("n", 3));
  auto v = sym_matches(n, PARAM("soft", 1));
  bool col = pick("collapse", 0, 1), interp = pick("interp", 0, 1), trap = pick("trapezoid", 0, 1);
  double ap = ComputeGlobalAP(make_all(v), col, interp, trap);
  std::vector<double> pr, rc;
  def_curve(points(v, col), interp, &pr, &rc);
  CHECK(near(ap, def_ap(pr, rc, trap)), "average precision of matches is the area under their curve");
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_matches(n + d);
    std::vector<double> op, orc;
    def_curve(points(ov, col), interp, &op, &orc);
    CHECK(near(ComputeGlobalAP(make_all(ov), col, interp, trap), def_ap(op, orc, trap)), "other matches have an average precision of their own");
  }
  CHECK(ComputeGlobalAP(make_all(v), col, interp, trap) == ap, "the same matches have the same average precision");
  if (!PARAM("soft", 1)) { CHECK(ap >= -1e-6 && ap <= 1 + 1e-6, "average precision lies in 0..1"); note_f("ap", ap); }
  size_t refs = 0, hits = 0;
  for (const M1 &m : v) { refs += m.kind != FALSEPOS; hits += m.kind == HIT; }
  if (!hits) { CHECK(near(ap, 0.0), "without hits average precision is zero"); COVER("no-hits"); }
  if (!PARAM("soft", 1) && hits == n && n) { CHECK(near(ap, 1.0), "a perfect ranking has average precision one"); COVER("perfect"); }
}
// ------------------------------------------------------------- C12
extern "C" void h_ndcg() {
  size_t n = pick("n", 0, PARAM("n", 3));
  std::vector<MC> e;
  auto v = sym_points(n, PARAM("top", 2), &e);
  double g = ComputeNDCG<double>(e);
  CHECK(near(g, def_ndcg(v)), "NDCG is the discounted gain over the ideal one");
  const std::vector<MC> e1 = e;
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_points(n + d);
    fill(&e, ov);
    CHECK(near(ComputeNDCG<double>(e), def_ndcg(ov)), "another list has an NDCG of its own");
  }
  e = e1;
  CHECK(ComputeNDCG<double>(e) == g, "the same list has the same NDCG");
  size_t tr = 0;
  for (const Pt &p : v) tr += p.nr;
  if (n && !tr) { CHECK(near(g, 0.0), "without references NDCG is zero"); COVER("no-references"); }
  if (tr) COVER("references");
}
extern "C" void h_gndcg() {
  size_t n = pick("n", 0, PARAM("n", 3));
  auto v = sym_matches(n, PARAM("soft", 1));
  bool col = pick("collapse", 0, 1);
  double g = ComputeGlobalNDCG(make_all(v), col);
  CHECK(near(g, def_ndcg(points(v, col))), "NDCG of matches is the discounted gain over the ideal one");
  for (size_t d = 0; d < 4; d += 3) {
    auto ov = other_matches(n + d);
    CHECK(near(ComputeGlobalNDCG(make_all(ov), col), def_ndcg(points(ov, col))), "other matches have an NDCG of their own");
  }
  CHECK(ComputeGlobalNDCG(make_all(v), col) == g, "the same matches have the same NDCG");
  size_t hits = 0, refs = 0;
  for (const M1 &m : v) { hits += m.kind == HIT; refs += m.kind != FALSEPOS; }
  if (!PARAM("soft", 1)) { CHECK(g >= -1e-6 && g <= 1 + 1e-6, "NDCG lies in 0..1"); note_f("ndcg", g); }
  if (n && hits == n && !PARAM("soft", 1)) { CHECK(near(g, 1.0), "a perfect ranking has NDCG one"); COVER("perfect"); }
  if (!hits) { CHECK(near(g, 0.0), "without hits NDCG is zero"); COVER("no-hits"); }
}
extern "C" void h_ndcg_long() {
  size_t n = PARAM("n", 40), at = pick("at", 0, n - 1);
  std::vector<Pt> v;
  std::vector<MC> e;
  for (size_t i = 0; i < n; ++i) {
    Pt p = i % 7 == 6 ? Pt{0.0, 1.0, 0, 1} : i % 3 == 1 ? Pt{1.0, 0.0, 1, 0} : Pt{0.0, 0.0, 1, 1};
    if (i % 11 == 5) p = Pt{1.0, 0.0, 3, 2};
    if (i == at) p = Pt{sym_share("fp", 2), sym_share("fn", 1), 2, 1};
    v.push_back(p);
    e.push_back(MC(p.fp, p.fn, p.nh, p.nr));
  }
  CHECK(near(ComputeNDCG<double>(e), def_ndcg(v)), "NDCG is the discounted gain over the ideal one (long)");
  COVER("long");
}
extern "C" void h_ndcg_big() {
  size_t n = PARAM("n", 300), at = pick("at", 0, 2) * (n / 2 - 1);
  auto v = many_points(n, at);
  std::vector<MC> e;
  fill(&e, v);
  CHECK(near(ComputeNDCG<double>(e), def_ndcg(v)), "NDCG is the discounted gain over the ideal one (many)");
  COVER("big");
}
