#include <sstream>
#include <map>
#include "assess.h"
// matches with queries; scores distinct unless said otherwise
struct Q1 { M1 m; int q; };
static std::vector<Q1> sym_q(size_t n, int nq, int kinds, bool soft) {
  std::vector<Q1> v;
  for (size_t i = 0; i < n; ++i) { M1 m = sym_match(nm("m", i), (int)i, kinds, soft); v.push_back(Q1{m, (int)pick(nm("q", i).c_str(), 0, nq - 1)}); }
  return v;
}
static std::vector<MT> make_all(const std::vector<Q1> &v) {
  std::vector<MT> r;
  for (const Q1 &m : v) r.push_back(make(m.m, m.q));
  return r;
}
// ------------------------------------------------------------- C13
template <class Map> static void check_groups(const std::vector<MT> &ms, const std::vector<int> &group, const Map &map, std::vector<std::vector<MT>> *gp) {
  std::vector<std::vector<MT>> &g = *gp;
  GroupMatchesByQueryGroup(ms, map, &g);
  std::vector<int> seen(ms.size(), 0);
  std::vector<int> of;
  for (const auto &part : g) {
    CHECK(!part.empty(), "no part is empty");
    int last = -1, pg = -1;
    for (const MT &m : part) {
      int id = id_of(m);
      CHECK(id > last, "matches keep their order within their part");
      last = id;
      ++seen[id];
      if (pg < 0) pg = group[id];
      CHECK(group[id] == pg, "a part holds matches of one group only");
    }
    for (int o : of) CHECK(o != pg, "a group is one part");
    of.push_back(pg);
  }
  for (size_t i = 0; i < ms.size(); ++i) CHECK(seen[i] == 1, "every match is in exactly one part");
  if (g.size() > 1) COVER("several-groups");
  if (g.size() < ms.size()) COVER("shared-group");
}
extern "C" void h_group() {
  size_t n = pick("n", 0, PARAM("n", 4));
  int nq = PARAM("queries", 3);
  std::vector<MT> ms;
  std::vector<int> group;
  std::map<int32_t, int32_t> map;
  std::vector<int> to(nq);
  for (int q = 0; q < nq; ++q) {
    int t = (int)pick(nm("to", q).c_str(), 0, 3);   // 3: not mapped; groups are named 100+t, or like query 0
    if (t == 3) to[q] = q; else { to[q] = t == 2 ? 0 : 100 + t; map[q] = to[q]; }
  }
  for (size_t i = 0; i < n; ++i) {
    M1 m{(int)pick(nm("kind", i).c_str(), 0, 2), (float)(10 - (int)i), 0, 0, (int)i};
    int q = (int)pick(nm("q", i).c_str(), 0, nq - 1);
    ms.push_back(make(m, q));
    group.push_back(to[q]);
  }
  std::vector<std::vector<MT>> g(2);   // earlier contents must go
  g[0].push_back(MT());
  check_groups(ms, group, map, &g);
  // other matches and groups, in the same containers, then these again
  const std::vector<MT> ms1 = ms;
  const std::vector<int> group1 = group;
  const std::map<int32_t, int32_t> map1 = map;
  for (size_t d = 0; d < 3; d += 2) {
    ms.clear(); group.clear(); map.clear();
    map[1] = 100;
    for (size_t i = 0; i < n + d; ++i) { int q = (int)((i + 1) % 3); ms.push_back(make(M1{(int)(i % 3), 1.0f, 0, 0, (int)i}, q)); group.push_back(q == 1 ? 100 : q); }
    check_groups(ms, group, map, &g);
  }
  ms = ms1; group = group1; map = map1;
  check_groups(ms, group, map, &g);
}
// hundreds of groups
extern "C" void h_group_big() {
  size_t n = PARAM("n", 300), at = pick("at", 0, 2) * (n / 2 - 1);
  std::vector<MT> ms;
  std::vector<int> group;
  std::map<int32_t, int32_t> map;
  for (size_t i = 0; i < n + 20; ++i) { group.push_back((int)(i % n)); }
  group[at] = (int)sym_i32("q", 0, 2) * 140;
  for (size_t i = 0; i < n + 20; ++i) ms.push_back(make(M1{(int)(i % 3), 1.0f, 0, 0, (int)i}, group[i]));
  map[5] = 270; map[6] = 7;
  if (pick("many", 0, 1)) for (int q = 1000; q < 1300; ++q) map[q] = q % 7;   // queries without matches
  for (int &q : group) q = q == 5 ? 270 : q == 6 ? 7 : q;
  std::vector<std::vector<MT>> g;
  check_groups(ms, group, map, &g);
  CHECK(g.size() >= n - 3 && g.size() <= n - 2, "hundreds of groups stay apart");
}
typedef Event<std::string, int32_t> XE;
typedef ScoredEvent<XE> XH;
typedef Match<XE, XH> XT;
extern "C" void h_group_names() {   // names, compared whole
  std::string a = sym_str("a", 2), b = sym_str("b", 2), c = sym_str("c", 1);
  std::map<std::string, std::string> map;
  bool mapped = pick("mapped", 0, 1);
  if (mapped) map[a] = c;
  std::vector<XT> ms{XT::MakeFalsePositive(XH(XE(a, 0), 1.0f)), XT::MakeFalseNegative(XE(b, 1)), XT(XE(a, 2), XH(XE(a, 2), 0.5f), MatchError(0, 0))};
  std::vector<std::vector<XT>> g;
  GroupMatchesByQueryGroup(ms, map, &g);
  const std::string &ga = mapped ? c : a, &gb = mapped && a == b ? c : b;
  bool one = ga == gb;
  CHECK(g.size() == (one ? 1u : 2u), "one part per distinct group name");
  size_t n = 0;
  for (auto &p : g) n += p.size();
  CHECK(n == 3 && g[0].size() == (one ? 3u : 2u), "matches of one name stay together");
  if (one) COVER("one"); else COVER("two");
}
// group values: mean of the parts
static std::vector<MT> sorted_copy(std::vector<Q1> v, std::vector<M1> *o) {   // by decreasing score, unscored last, stable
  std::vector<Q1> r;
  for (const Q1 &x : v) {
    size_t at = r.size();
    while (at > 0 && (r[at - 1].m.kind == FALSENEG ? x.m.kind != FALSENEG : x.m.kind != FALSENEG && r[at - 1].m.score < x.m.score)) --at;
    r.insert(r.begin() + at, x);
  }
  for (const Q1 &x : r) o->push_back(x.m);
  return make_all(r);
}
static void distinct(const std::vector<Q1> &v) {
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (v[i].m.kind != FALSENEG && v[j].m.kind != FALSENEG) ASSUME(v[i].m.score != v[j].m.score);
}
static double def_value(const std::vector<M1> &v, bool ap, bool col, bool interp, bool trap) {
  auto p = points(v, col);
  if (!ap) return def_ndcg(p);
  std::vector<double> pr, rc;
  def_curve(p, interp, &pr, &rc);
  return def_ap(pr, rc, trap);
}
static std::vector<M1> plain(const std::vector<Q1> &v) {
  std::vector<M1> r;
  for (const Q1 &x : v) r.push_back(x.m);
  return r;
}
// both the functions and the statistic objects, on the same matches
static void check_measures(bool ap, const std::vector<std::vector<Q1>> &g, const std::vector<Q1> &all, bool col, bool sort, bool interp, bool trap) {
  static std::vector<std::vector<MT>> ms;
  ms.clear();
  for (const auto &p : g) ms.push_back(make_all(p));
  double mean = 0;
  for (const auto &p : g) {
    std::vector<M1> o;
    if (sort) sorted_copy(p, &o); else o = plain(p);
    mean += def_value(o, ap, col, interp, trap);
  }
  if (g.size()) mean /= (double)g.size();
  std::vector<M1> o;
  if (sort) sorted_copy(all, &o); else o = plain(all);
  double pooled = def_value(o, ap, col, interp, trap), flat = def_value(plain(all), ap, col, interp, trap);
  const std::vector<MT> am = make_all(all);
  if (ap) {
    CHECK(near(ComputeMeanAP(ms, col, interp, trap, sort), mean), "mean AP is the mean of the AP of each group");
    CHECK(near(ComputeGlobalAP(ms, col, interp, trap, sort), pooled), "global AP pools the groups");
    CHECK(near(MeanAP<MT>(col, interp, trap)(ms, sort), mean), "mean AP statistic");
    CHECK(near(GlobalAP<MT>(col, interp, trap)(ms, sort), pooled), "global AP statistic on groups");
    CHECK(near(GlobalAP<MT>(col, interp, trap)(am), flat), "global AP statistic on matches");
  } else {
    CHECK(near(ComputeMeanNDCG(ms, col, sort), mean), "mean NDCG is the mean of the NDCG of each group");
    CHECK(near(ComputeGlobalNDCG(ms, col, sort), pooled), "global NDCG pools the groups");
    CHECK(near(MeanNDCG<MT>(col)(ms, sort), mean), "mean NDCG statistic");
    CHECK(near(GlobalNDCG<MT>(col)(ms, sort), pooled), "global NDCG statistic on groups");
    CHECK(near(GlobalNDCG<MT>(col)(am), flat), "global NDCG statistic on matches");
  }
  size_t k = 0;
  for (const auto &p : ms) for (const MT &m : p) { CHECK(id_of(m) == all[k].m.id, "measures leave their input in order"); ++k; }
}
static void measures(bool ap) {
  size_t groups = PARAM("groups", 2), per = PARAM("per", 2);
  bool soft = PARAM("soft", 0), col = pick("collapse", 0, 1), sort = pick("sort", 0, 1);
  bool interp = ap ? pick("interp", 0, 1) : false, trap = ap ? pick("trapezoid", 0, 1) : false;
  std::vector<std::vector<Q1>> g;
  std::vector<Q1> all;
  size_t ng = pick("groups", 0, groups);
  int id = 0;
  for (size_t i = 0; i < ng; ++i) {
    std::vector<Q1> part;
    size_t n = pick(nm("size", i).c_str(), 1, per);
    for (size_t j = 0; j < n; ++j) {
      M1 m = sym_match("g" + std::to_string(i) + nm("m", j), id++, 3, soft);
      part.push_back(Q1{m, (int)i});
      all.push_back(part.back());
    }
    g.push_back(part);
  }
  if (sort && !col) distinct(all);   // otherwise the order among equal scores would matter
  check_measures(ap, g, all, col, sort, interp, trap);
  // other groups, held by the same containers, then these again
  for (size_t d = 0; d < 3; d += 2) {
    std::vector<std::vector<Q1>> g2;
    std::vector<Q1> all2;
    int id2 = 0;
    for (size_t i = 0; i < ng + d; ++i) {
      std::vector<Q1> part;
      for (size_t j = 0; j < (i < g.size() ? g[i].size() : i == ng ? 3 : 0); ++j) { part.push_back(Q1{M1{(int)((i + 2 * j) % 3), (float)((7 * id2) % 5 * 10 + id2), (i + 2 * j) % 3 == FALSEPOS ? 1.0f : 0.0f, (i + 2 * j) % 3 == FALSENEG ? 1.0f : 0.0f, id2}, (int)i}); ++id2; all2.push_back(part.back()); }
      g2.push_back(part);
    }
    check_measures(ap, g2, all2, col, sort, interp, trap);
  }
  check_measures(ap, g, all, col, sort, interp, trap);
  if (!ng) COVER("no-groups");
  if (ng > 1) COVER("groups");
  if (sort && ng > 1) COVER("sorted");
}
// many groups, one with any scores
static void measures_big(bool ap) {
  size_t n = PARAM("n", 40), at = pick("at", 0, 2) * (n / 2 - 1);
  std::vector<std::vector<Q1>> g;
  std::vector<Q1> all;
  int id = 0;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Q1> part;
    for (size_t j = 0; j < 1 + i % 3; ++j) {
      int k = (int)((i + j) % 3);
      M1 m{k, k == FALSENEG ? 0.0f : (float)((37 * id) % 101), k == FALSEPOS ? 1.0f : 0.0f, k == FALSENEG ? 1.0f : 0.0f, id};
      if (i == at && j == 0 && k != FALSENEG) { m.score = sym_score("score"); for (int s = 0; s <= 100; ++s) ASSUME(m.score != (float)s); }
      part.push_back(Q1{m, (int)i}); all.push_back(part.back()); ++id;
    }
    g.push_back(part);
  }
  bool sort = pick("sort", 0, 1);
  check_measures(ap, g, all, false, sort, ap, false);
  COVER("big");
}
extern "C" void h_mean_ap_big() { measures_big(true); }
extern "C" void h_mean_ndcg_big() { measures_big(false); }
extern "C" void h_mean_ap() { measures(true); }
extern "C" void h_mean_ndcg() { measures(false); }
// ------------------------------------------------------------- C22
static void check_sorted(const std::vector<MT> &r, const std::vector<Q1> &v) {
  CHECK(r.size() == v.size(), "sorting keeps the number of matches");
  std::vector<int> seen(v.size(), 0);
  bool neg = false;
  for (size_t i = 0; i < r.size(); ++i) {
    int id = id_of(r[i]);
    ++seen[id];
    const M1 &m = v[id].m;
    CHECK(r[i].HasHyp() == (m.kind != FALSENEG) && r[i].HasRef() == (m.kind != FALSEPOS), "sorting keeps every match as it is");
    if (r[i].HasHyp()) CHECK(r[i].GetHyp().Score() == m.score, "sorting keeps scores");
    if (!r[i].HasHyp()) neg = true; else CHECK(!neg, "scored matches come before the false negatives");
    if (i && r[i].HasHyp()) CHECK(r[i - 1].GetHyp().Score() >= r[i].GetHyp().Score(), "scores fall along the list");
  }
  for (int s : seen) CHECK(s == 1, "sorting neither loses nor repeats a match");
}
extern "C" void h_sort() {
  size_t n = pick("n", 0, PARAM("n", 4));
  auto v = sym_q(n, 1, 3, false);
  auto r = make_all(v);
  SortMatchesDecreasingScore(&r);
  check_sorted(r, v);
  for (size_t d = 0; d < 3; d += 2) {   // another list in the same container
    std::vector<Q1> o;
    for (size_t i = 0; i < n + d; ++i) o.push_back(Q1{M1{(int)(i * 2 % 3), (float)(i * 5 % 4) - 1.5f, 0, 0, (int)i}, 0});
    r = make_all(o);
    SortMatchesDecreasingScore(&r);
    check_sorted(r, o);
  }
  r = make_all(v);
  SortMatchesDecreasingScore(&r);
  check_sorted(r, v);
  for (size_t i = 1; i < n; ++i) {
    if (v[i].m.kind != FALSENEG && v[i - 1].m.kind == FALSENEG) COVER("negative-first");
    if (v[i].m.kind != FALSENEG && v[i - 1].m.kind != FALSENEG && v[i].m.score == v[i - 1].m.score) COVER("tie");
  }
}
extern "C" void h_sort_long() {
  size_t n = PARAM("n", 24), at = pick("at", 0, n - 1);
  std::vector<Q1> v;
  for (size_t i = 0; i < n; ++i) v.push_back(Q1{M1{i % 6 == 4 ? FALSENEG : i % 4 == 1 ? FALSEPOS : HIT, (float)((int)(i * 7 % 13) - 5), 0, 0, (int)i}, 0});
  v[at].m.kind = HIT;
  v[at].m.score = sym_score("score");
  auto r = make_all(v);
  SortMatchesDecreasingScore(&r);
  check_sorted(r, v);
  COVER("sorted");
}
extern "C" void h_sort_big() {
  size_t n = PARAM("n", 300), at = pick("at", 0, 2) * (n / 2 - 1);
  std::vector<Q1> v;
  for (size_t i = 0; i < n; ++i) v.push_back(Q1{M1{i % 6 == 4 ? FALSENEG : i % 4 == 1 ? FALSEPOS : HIT, (float)((int)(i * 37 % 211) - 100), 0, 0, (int)i}, 0});
  v[at].m.kind = HIT;
  v[at].m.score = sym_score("score");
  auto r = make_all(v);
  SortMatchesDecreasingScore(&r);
  check_sorted(r, v);
  COVER("sorted");
}
template <class C> static void hyps(C less, bool desc) {
  size_t n = PARAM("n", 4);
  std::vector<IH> v;
  std::vector<float> s;
  for (size_t i = 0; i < n; ++i) { s.push_back(sym_score(nm("s", i))); v.push_back(IH(IE(pick(nm("q", i).c_str(), 0, 1), (int)i), s[i])); }
  std::sort(v.begin(), v.end(), less);
  std::vector<int> seen(n, 0);
  for (size_t i = 0; i < n; ++i) {
    ++seen[v[i].Location()];
    CHECK(v[i].Score() == s[v[i].Location()], "sorting keeps each hypothesis as it is");
    if (i) CHECK(desc ? v[i - 1].Score() >= v[i].Score() : v[i - 1].Score() <= v[i].Score(), "hypotheses are ordered by score");
    if (i && v[i - 1].Score() == v[i].Score()) {
      bool up = v[i - 1].Query() < v[i].Query() || (v[i - 1].Query() == v[i].Query() && v[i - 1].Location() < v[i].Location());
      CHECK(up != desc, "equal scores are ordered by the events");
      COVER("tie");
    }
  }
  for (int k : seen) CHECK(k == 1, "sorting neither loses nor repeats a hypothesis");
}
extern "C" void h_sort_desc() { hyps(std::greater<IH>(), true); }
extern "C" void h_sort_asc() { hyps(std::less<IH>(), false); }
// ------------------------------------------------------------- C19
static void check_sample(const std::vector<double> &x, const std::vector<double> &y, const std::vector<double> &d, bool lin, std::vector<double> *outp, bool cover) {
  std::vector<double> &out = *outp;
  size_t n = x.size(), k = d.size();
  SampleCurveAtGivenPoints(x, y, d, &out, lin);
  CHECK(out.size() == k, "one sample per requested position");
  for (size_t i = 0; i < k; ++i) {
    size_t j = 0;
    while (j < n && x[j] < d[i]) ++j;
    if (j == n) { CHECK(near(out[i], 0.0), "beyond the curve the sample is zero"); if (cover) COVER("beyond"); continue; }
    if (!lin || j == 0) { CHECK(near(out[i], y[j]), "a sample is the value at the first point not before it"); if (!lin && cover) COVER("step"); continue; }
    double w = x[j] - x[j - 1], t = (x[j] - d[i]) / w;
    CHECK(near(out[i], t * y[j - 1] + (1 - t) * y[j]), "a sample lies on the segment around it");
    if (cover) COVER("segment");
  }
}
extern "C" void h_sample() {
  size_t n = pick("n", 0, PARAM("n", 3)), k = pick("k", 0, PARAM("k", 3));
  bool lin = pick("linear", 0, 1);
  std::vector<double> x, y, d, out(2, 9.0);
  for (size_t i = 0; i < n; ++i) {
    x.push_back(sym_real(nm("x", i), 0, 1)); y.push_back(sym_real(nm("y", i), -10, 10));
    if (i) ASSUME(x[i] >= x[i - 1]);
  }
  for (size_t i = 0; i < k; ++i) { d.push_back(sym_real(nm("d", i), 0, 1)); if (i) ASSUME(d[i] >= d[i - 1]); }
  check_sample(x, y, d, lin, &out, true);
  const std::vector<double> out1 = out, x1 = x, y1 = y, d1 = d;
  for (size_t o = 0; o < 3; o += 2) {   // another curve in the same containers
    x.clear(); y.clear(); d.clear();
    for (size_t i = 0; i < n + o; ++i) { x.push_back(0.25 + 0.125 * i); y.push_back(1.0 - 0.0625 * i * i); }
    for (size_t i = 0; i < k + o; ++i) d.push_back(0.2 * i);
    check_sample(x, y, d, !lin, &out, false);
    check_sample(x, y, d, lin, &out, false);
  }
  x = x1; y = y1; d = d1;
  SampleCurveAtGivenPoints(x, y, d, &out, lin);
  CHECK(out == out1, "the same curve has the same samples");
}
// long curves at many positions
extern "C" void h_sample_big() {
  size_t n = PARAM("n", 300), at = pick("at", 0, 3) * ((n - 1) / 3);
  std::vector<double> x, y, d, out;
  for (size_t i = 0; i < n; ++i) { x.push_back((double)(i / 2) / (double)(n / 2)); y.push_back(i % 2 ? 1.0 - (double)i / (double)n : 1.0); }
  y[at] = sym_real("y", 0, 1);
  bool lin = pick("linear", 0, 1);
  for (size_t i = 0; i < 11; ++i) d.push_back(0.1 * (double)i);
  d[5] = sym_real("d", 0.45, 0.455);
  check_sample(x, y, d, lin, &out, false);
  COVER("big");
}
static void check_even(size_t n, std::vector<double> *xp) {
  std::vector<double> &x = *xp;
  GetEvenlyDistributedPoints01Interval(n, &x);
  CHECK(x.size() == (n > 1 ? n : 0), "as many positions as asked for");
  for (size_t i = 0; i < x.size(); ++i) CHECK(near(x[i], (double)i / (double)(n - 1)), "positions are evenly spaced");
  if (n > 1) { CHECK(x.front() == 0.0 && x.back() == 1.0, "positions cover the whole interval"); COVER("positions"); } else COVER("none");
}
extern "C" void h_even() {
  static const size_t N[] = {50, 99, 101, 1001};
  size_t n = pick("n", 0, PARAM("n", 12) + 4);
  if (n > (size_t)PARAM("n", 12)) n = N[n - PARAM("n", 12) - 1];
  std::vector<double> x(3, 7.0);
  check_even(n, &x);
  check_even(7, &x);
  check_even(n, &x);
}
// ------------------------------------------------------------- C25
struct CurveJob { std::string name; std::vector<double> x, y; int thrown; };
static int64_t write_curve(void *p) {
  CurveJob *j = (CurveJob *)p;
  j->thrown = 0;
  try { WriteCurveToFile(j->name, j->x, j->y); }
  catch (const std::ios_base::failure &) { j->thrown = 2; }
  catch (const std::exception &) { j->thrown = 1; }
  return 0;
}
static bool number(const std::string &t, double *v) { std::istringstream i(t); i >> *v; return !i.fail() && i.eof(); }
extern "C" void h_write_curve() {
  CurveJob j{"curve", {}, {}, 0};
  size_t n = pick("n", 0, PARAM("n", 3)), old = pick("earlier", 0, 2);
  for (size_t i = 0; i < n; ++i) { j.x.push_back(sym_real(nm("x", i), 0, 1)); j.y.push_back(sym_real(nm("y", i), 0, 1)); }
  if (old) kfs_put("curve", old == 1 ? "1 2\n" : "an earlier file with much longer contents\nthan those of the curve that is written now, and more\nand more and more and more and more and more and more\n");
  run_captured(write_curve, &j);
  CHECK(!j.thrown, "writing a curve succeeds");
  std::istringstream in(kfs_get("curve"));
  std::string line;
  for (size_t i = 0; i < n; ++i) {
    CHECK((bool)std::getline(in, line) && !in.eof(), "there is one line for each point");
    size_t b = line.find(' ');
    double x = -1, y = -1;
    CHECK(b != std::string::npos && number(line.substr(0, b), &x) && number(line.substr(b + 1), &y), "a line has both coordinates");
    CHECK(near(x, j.x[i]) && near(y, j.y[i]), "the points are written in order as they are");
  }
  CHECK(!std::getline(in, line), "the file holds nothing else");
  // a second curve, to the same file or another
  bool same = pick("same", 0, 1);
  const std::string first = kfs_get("curve");
  CurveJob k{same ? "curve" : "other", {0.5}, {0.125}, 0};
  run_captured(write_curve, &k);
  std::istringstream in2(kfs_get(k.name.c_str()));
  double x2 = 0, y2 = 0;
  bool got = (bool)(in2 >> x2 >> y2), more = (bool)(in2 >> line);
  CHECK(!k.thrown && got && !more && x2 == 0.5 && y2 == 0.125, "a second curve is written by itself");
  if (!same) CHECK(kfs_get("curve") == first, "a second curve leaves the first alone");
  COVER(n ? "points" : "no-points");
}
extern "C" void h_write_curve_bad() {
  size_t nx = pick("nx", 0, 3), ny = pick("ny", 0, 3), where = pick("where", 0, 4);
  static const char *W[] = {"curve", "", "no/such/curve", "/dev/full", "there"};
  CurveJob j{W[where], std::vector<double>(nx, 0.25), std::vector<double>(ny, 0.5), 0};
  kfs_put("there", "earlier\n");
  run_captured(write_curve, &j);
  bool full = where == 3 && nx > 0;
  if (nx != ny || where == 1 || where == 2 || full) {
    CHECK(j.thrown, "a curve that cannot be written is an error");
    COVER("failed");
  } else { CHECK(!j.thrown, "a curve that can be written is written"); COVER("written"); }
}
