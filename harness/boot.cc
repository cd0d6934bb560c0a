// C16 resampling, C17 bootstrap confidence bounds.
#include "assess.h"
#include "core/Bootstrapping.h"
typedef MatchesSampler<IE, IH> MS;
typedef MatchesByQuerySampler<IE, IH> QS;
static std::vector<MT> originals(size_t n, int base, const std::string &p) {
  std::vector<MT> v;
  for (size_t i = 0; i < n; ++i) {
    int kind = (int)((base + i) % 3);   // every kind of match occurs
    v.push_back(make(M1{kind, sym_score(p + nm("s", i)), kind == FALSEPOS ? 1.0f : 0.0f, kind == FALSENEG ? 1.0f : 0.0f, base + (int)i}, base));
  }
  return v;
}
static size_t draw(std::default_random_engine *e, size_t n) { std::uniform_int_distribution<size_t> d(0, n - 1); return d(*e); }
extern "C" void h_resample() {
  size_t n = pick("n", 0, PARAM("n", 3)), times = 2;
  size_t seed = pick("seed", 0, 1) * 4242;
  const std::vector<MT> orig = originals(n, 0, "");
  std::vector<MT> keep = orig, out(pick("earlier", 0, 1) ? n + 2 : 0, MT::MakeFalsePositive(IH(IE(77, 77), 1.0f)));
  MS s(seed);
  std::default_random_engine e(seed);
  for (size_t t = 0; t < times; ++t) {
    s(orig, &out);
    CHECK(out.size() == n, "a resample has as many matches as the original");
    for (size_t i = 0; i < n && i < out.size(); ++i) {
      size_t d = draw(&e, n);
      CHECK(out[i] == orig[d], "the resample holds the matches at the drawn positions");
      if (d == 0) COVER("first");
      if (d == n - 1 && n > 1) COVER("last");
    }
    CHECK(orig == keep, "the original is left untouched");
  }
  MS s2(seed);
  std::vector<MT> again;
  s2(orig, &again);
  MS s3(seed);
  s3(orig, &out);
  CHECK(again == out, "equal seeds give equal samples");
  // the same sampler on another list, longer or shorter
  std::default_random_engine e3(seed);
  for (size_t i = 0; i < n; ++i) draw(&e3, n);
  for (size_t k : {n < 2 ? n + 2 : (size_t)1}) {
    std::vector<MT> other;
    for (size_t i = 0; i < k; ++i) other.push_back(make(M1{(int)(i % 3), 1.5f, 0, 0, 50 + (int)i}, 9));
    s3(other, &out);
    CHECK(out.size() == k, "a resample has as many matches as the original (another list)");
    for (size_t i = 0; i < k && i < out.size(); ++i) CHECK(out[i] == other[draw(&e3, k)], "the resample holds the matches at the drawn positions (another list)");
  }
  if (!n) COVER("empty");
}
extern "C" void h_resample_query() {
  size_t nq = pick("queries", 0, PARAM("queries", 2)), times = PARAM("times", 1);
  size_t seed = pick("seed", 0, 1) * 4242;
  std::vector<std::vector<MT>> orig;
  for (size_t q = 0; q < nq; ++q) orig.push_back(originals(pick(nm("size", q).c_str(), 0, PARAM("per", 2)), 10 * (int)q, nm("q", q)));
  const std::vector<std::vector<MT>> keep = orig;
  std::vector<std::vector<MT>> out;
  if (pick("earlier", 0, 1)) { out.resize(nq + 2); for (auto &o : out) o.push_back(MT::MakeFalsePositive(IH(IE(77, 77), 1.0f))); }
  QS s(seed);
  std::default_random_engine e(seed);
  for (size_t t = 0; t < times; ++t) {
    s(orig, &out);
    CHECK(out.size() == nq, "a resample has as many queries as the original");
    for (size_t i = 0; i < nq && i < out.size(); ++i) {
      size_t q = draw(&e, nq);
      CHECK(out[i].size() == orig[q].size(), "a redrawn query keeps its number of matches");
      for (size_t j = 0; j < orig[q].size() && j < out[i].size(); ++j) {
        size_t d = draw(&e, orig[q].size());
        CHECK(out[i][j] == orig[q][d], "a redrawn query holds the matches at the drawn positions");
        if (d && q) COVER("last");
      }
      if (q != i) COVER("other-query");
    }
    CHECK(orig == keep, "the original is left untouched");
  }
  // the same sampler on other queries
  std::vector<std::vector<MT>> other;
  for (size_t i = 0; i < (nq < 2 ? 2u : 1u); ++i) { other.push_back({}); for (size_t j = 0; j < (nq < 2 ? 1u : 3u); ++j) other[i].push_back(make(M1{(int)(j % 3), 1.5f, 0, 0, 50 + 10 * (int)i + (int)j}, 9)); }
  s(other, &out);
  CHECK(out.size() == other.size(), "a resample has as many queries as the original (other queries)");
  for (size_t i = 0; i < other.size() && i < out.size(); ++i) {
    size_t q = draw(&e, other.size());
    CHECK(out[i].size() == other[q].size(), "a redrawn query keeps its number of matches (other queries)");
    for (size_t j = 0; j < other[q].size() && j < out[i].size(); ++j) CHECK(out[i][j] == other[q][draw(&e, other[q].size())], "a redrawn query holds the matches at the drawn positions (other queries)");
  }
  if (!nq) COVER("empty");
}
// hundreds of matches and queries; the draw at one position is free, the others are fixed
static std::vector<MT> many(size_t n, int base) {
  std::vector<MT> v;
  for (size_t i = 0; i < n; ++i) v.push_back(make(M1{(int)(i * 5 % 7 % 3), (float)(i % 50), i % 3 == 1 ? 1.0f : 0.0f, i % 3 == 2 ? 1.0f : 0.0f, base + (int)i}, base));
  return v;
}
extern "C" void h_resample_big() {
  size_t n = PARAM("n", 150), seed = 9;
  size_t at[] = {0, 63, 64, n - 1};
  k_draw_free = (int64_t)at[pick("at", 0, 3)];
  const std::vector<MT> orig = many(n, 0), keep = orig;
  std::vector<MT> out(3, MT::MakeFalsePositive(IH(IE(77, 77), 1.0f)));
  MS s(seed);
  std::default_random_engine e(seed);
  for (size_t t = 0; t < 2; ++t) {
    s(orig, &out);
    CHECK(out.size() == n, "a resample has as many matches as the original (many)");
    for (size_t i = 0; i < n && i < out.size(); ++i) CHECK(out[i] == orig[draw(&e, n)], "the resample holds the matches at the drawn positions (many)");
    CHECK(orig == keep, "the original is left untouched (many)");
  }
  COVER("big");
}
extern "C" void h_resample_query_big() {
  size_t nq = PARAM("queries", 140), seed = 9;
  std::vector<std::vector<MT>> orig;
  for (size_t q = 0; q < nq; ++q) orig.push_back(many(q % 13 == 5 ? 70 : q == 18 || q == 90 ? 270 : q * 5 % 11, 100 * (int)q));
  const std::vector<std::vector<MT>> keep = orig;
  std::vector<std::vector<MT>> out(2);
  out[0].push_back(MT::MakeFalsePositive(IH(IE(77, 77), 1.0f)));
  QS s(seed);
  std::default_random_engine e(seed);
  size_t at[] = {0, 1, 33, 150};
  k_draw_free = (int64_t)at[pick("at", 0, 3)];
  for (size_t t = 0; t < 2; ++t) {
    s(orig, &out);
    CHECK(out.size() == nq, "a resample has as many queries as the original (many)");
    for (size_t i = 0; i < nq && i < out.size(); ++i) {
      size_t q = draw(&e, nq);
      CHECK(out[i].size() == orig[q].size(), "a redrawn query keeps its number of matches (many)");
      for (size_t j = 0; j < orig[q].size() && j < out[i].size(); ++j) CHECK(out[i][j] == orig[q][draw(&e, orig[q].size())], "a redrawn query holds the matches at the drawn positions (many)");
    }
    CHECK(orig == keep, "the original is left untouched (many)");
  }
  COVER("big");
}
// ------------------------------------------------------------- C17
// a sample, told by its first element; longer than one, as the real ones are
struct Sample : std::vector<int> { Sample() {} explicit Sample(int i) : std::vector<int>{i, i + 1} {} int id() const { return empty() ? 0 : front(); } };
struct Calls { std::vector<int> ids; std::vector<double> value; double observed; int made = 0; };
static Calls *calls;
struct Sampler {
  void operator()(const Sample &o, Sample *out) {
    CHECK(o.id() == 1000000, "samples are drawn from the original data");
    *out = Sample(++calls->made);
  }
};
static double stat(const Sample &s) {
  calls->ids.push_back(s.id());
  if (s.id() == 1000000) return calls->observed;
  if (s.id() < 1 || (size_t)s.id() > calls->value.size()) { CHECK(false, "the measure is evaluated on a sample"); return 0; }
  return calls->value[s.id() - 1];
}
static void check_calls(size_t reps) {
  size_t orig = 0;
  std::vector<int> seen(reps + 1, 0);
  for (int i : calls->ids) if (i == 1000000) ++orig; else ++seen[i];
  CHECK(orig >= 1, "the measure is evaluated on the original data");
  CHECK((size_t)calls->made == reps, "one sample is drawn per repetition");
  for (size_t i = 1; i <= reps; ++i) CHECK(seen[i] == 1, "the measure is evaluated once per repetition, on its own sample");
}
extern "C" void h_bounds() {
  size_t reps = pick("reps", 0, PARAM("reps", 3));
  double alpha = sym_real("alpha", 0, 1);
  Calls c;
  calls = &c;
  c.observed = sym_real("observed", -10, 10);
  for (size_t i = 0; i < reps; ++i) c.value.push_back(sym_real(nm("v", i), -10, 10));
  Sample o(1000000);
  Sampler s;
  double lo = -77, hi = -77;
  double v = ComputePercentileBootstrapCI(o, reps, alpha, stat, &s, &lo, &hi);
  CHECK(v == c.observed, "the reported value is the measure of the original data");
  check_calls(reps);
  if (!reps) { CHECK(lo == v && hi == v, "without repetitions the bounds are the value"); COVER("none"); return; }
  // the quantiles of the differences, by the definition
  std::vector<double> d;
  for (size_t i = 0; i < reps; ++i) {
    double x = c.value[i] - c.observed;
    size_t at = d.size();
    while (at > 0 && d[at - 1] > x) --at;
    d.insert(d.begin() + at, x);
  }
  size_t ui = reps - 1, li = reps - 1;
  for (size_t k = 0; k < reps; ++k) {
    double a = (1.0 - alpha * 0.5) * (double)reps, b = alpha * 0.5 * (double)reps;
    if ((a >= (double)k) & (a < (double)(k + 1))) ui = k;
    if ((b >= (double)k) & (b < (double)(k + 1))) li = k;
  }
  CHECK(near(lo, v - d[ui]), "the lower bound is the value minus the upper quantile of the differences");
  CHECK(near(hi, v - d[li]), "the upper bound is the value minus the lower quantile of the differences");
  CHECK(lo <= hi + 1e-6, "the bounds are in order");
  // other data with the same sampler, then the same again
  Calls c2;
  c2.observed = 1;
  for (size_t i = 0; i < reps + 2; ++i) c2.value.push_back(i % 2 ? 3.0 + i : 2.0 - i);
  calls = &c2;
  double lo2 = 0, hi2 = 0;
  ComputePercentileBootstrapCI(o, reps + 2, 0.0, stat, &s, &lo2, &hi2);
  check_calls(reps + 2);
  double top = c2.value[0], bottom = top;
  for (double w : c2.value) { top = std::max(top, w); bottom = std::min(bottom, w); }
  CHECK(near(lo2, 2 - top) && near(hi2, 2 - bottom), "at level 0 the bounds come from the extreme differences (other data)");
  Calls c3;
  c3.observed = c.observed; c3.value = c.value;
  calls = &c3;
  CHECK(ComputePercentileBootstrapCI(o, reps, alpha, stat, &s, &lo2, &hi2) == v && lo2 == lo && hi2 == hi, "the same data give the same bounds");
  if (reps > 1 && li != 0) COVER("inner");
  if (reps > 1 && ui == reps - 1 && li == 0) COVER("extremes");
}
// many repetitions at the usual levels
extern "C" void h_bounds_many() {
  static const int R[] = {10, 7, 40, 100};
  static const double A[] = {0.05, 0.5, 1.0, 0.0, 0.1};
  size_t reps = R[pick("reps", 0, PARAM("sizes", 2))];
  double alpha = A[pick("alpha", 0, 4)];
  Calls c;
  calls = &c;
  c.observed = sym_real("observed", -10, 10);
  size_t at = pick("at", 0, 1) ? reps - 1 : reps / 2;
  for (size_t i = 0; i < reps; ++i) c.value.push_back(i == at ? sym_real("v", -10, 10) : (double)((i * 7) % reps) / (double)reps);
  Sample o(1000000);
  Sampler s;
  double lo = -77, hi = -77;
  double v = ComputePercentileBootstrapCI(o, reps, alpha, stat, &s, &lo, &hi);
  check_calls(reps);
  // a quantile q of n values: at least q*n - 1 of them on one side, and as many on the other
  double x = v - lo, y = v - hi;   // upper and lower quantile
  size_t le_x = 0, ge_x = 0, le_y = 0, ge_y = 0, eq_x = 0, eq_y = 0;
  for (double w : c.value) { double q = w - c.observed; le_x += (q <= x + 1e-6); ge_x += (q >= x - 1e-6); le_y += (q <= y + 1e-6); ge_y += (q >= y - 1e-6); eq_x += near(q, x); eq_y += near(q, y); }
  size_t ui = (size_t)((1.0 - alpha / 2) * (double)reps + 1e-9), li = (size_t)(alpha / 2 * (double)reps + 1e-9);
  if (ui > reps - 1) ui = reps - 1;
  if (li > reps - 1) li = reps - 1;
  CHECK(eq_x >= 1 && eq_y >= 1, "the bounds come from the resampled measures");
  CHECK(le_x >= ui + 1 && ge_x >= reps - ui, "the lower bound takes the upper quantile");
  CHECK(le_y >= li + 1 && ge_y >= reps - li, "the upper bound takes the lower quantile");
  COVER("many");
}
// every level, with as many repetitions as usual: the measures are the numbers from 0, shuffled
extern "C" void h_bounds_level() {
  static const int R[] = {97, 1000, 10000};
  static const size_t LO[] = {0, 20, 248}, HI[] = {48, 29, 251};
  size_t k = pick("reps", 0, PARAM("sizes", 2)), reps = R[k], at = pick("at", LO[k], HI[k]);
  double alpha = sym_real("alpha", 0, 1);
  { double w = alpha * 0.5 * (double)reps; ASSUME((w > (double)at + 1e-6) & (w < (double)(at + 1) - 1e-6)); }
  Calls c;
  calls = &c;
  c.observed = 0;
  for (size_t i = 0; i < reps; ++i) c.value.push_back((double)(i * 37 % reps));
  Sample o(1000000);
  Sampler s;
  double lo = -77, hi = -77;
  double v = ComputePercentileBootstrapCI(o, reps, alpha, stat, &s, &lo, &hi);
  check_calls(reps);
  CHECK(v == 0, "the observed value is returned (any level)");
  double x = v - lo, y = v - hi, n = (double)reps, a = (1.0 - alpha * 0.5) * n, b = alpha * 0.5 * n;
  CHECK((x <= a) & ((a < x + 1) | (x == n - 1)), "the lower bound takes the upper quantile (any level)");
  CHECK((y <= b) & ((b < y + 1) | (y == n - 1)), "the upper bound takes the lower quantile (any level)");
  COVER("level");
}
// with the sampler by query: seeds, and the real containers
extern "C" void h_bounds_sampler() {
  size_t reps = pick("reps", 0, PARAM("reps", 2)), seed = 5;
  std::vector<std::vector<MT>> orig{originals(2, 0, "a"), originals(1, 10, "b")};
  for (size_t k = pick("fewer", 0, 2); k > 0; --k) orig.pop_back();
  auto measure = [](const std::vector<std::vector<MT>> &g) { double s = 0; int k = 1; for (auto &q : g) for (auto &m : q) s += k++ * (double)(1 + id_of(m)); return s; };
  double lo = 0, hi = 0, lo2 = 1, hi2 = 1;
  double v = ComputePercentileBootstrapCI(orig, reps, 0.5, seed, measure, &lo, &hi);
  CHECK(v == measure(orig), "the reported value is the measure of the original data");
  std::vector<double> d;
  QS s(seed);
  for (size_t r = 0; r < reps; ++r) { std::vector<std::vector<MT>> o; s(orig, &o); d.push_back(measure(o) - v); }
  std::sort(d.begin(), d.end());
  if (reps == 1) CHECK(lo == v - d[0] && hi == v - d[0], "one repetition gives both bounds");
  if (reps == 2) CHECK(lo == v - d[1] && hi == v - d[0], "the bounds come from the samples drawn by the seed");
  double w = ComputePercentileBootstrapCI(orig, reps, 0.5, seed, measure, &lo2, &hi2);
  CHECK(w == v && lo2 == lo && hi2 == hi, "equal seeds give equal bounds");
  COVER("seeded");
}
