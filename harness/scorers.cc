#include "common.h"
#include "core/DocumentBoundingBox.h"
#include "core/ShapedEvent.h"
#include "core/ScoredEvent.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
using namespace kws::core;
using namespace kws::scorer;
typedef DocumentBoundingBox<uint32_t> D;
typedef ShapedEvent<std::string, D> SE;
typedef ScoredEvent<SE> HE;
static HE hyp(const std::string &q, const D &d) { return HE(SE(q, d), 0.5f); }
static bool hit(const MatchError &e) { return e.FP() == 0.0f && e.FN() == 0.0f; }
static bool miss(const MatchError &e) { return e.FP() == 1.0f && e.FN() == 1.0f; }

// The answer depends on the present pair alone: another pair in between, held
// by the same objects, changes nothing.
template <class S, class R, class H> static void again(S &s, const R &r, const H &h, const MatchError &e, const R &r2, const H &h2, float fp, float fn) {
  R x = r;
  H y = h;
  s(x, y);
  x = r2; y = h2;
  MatchError o = s(x, y);
  CHECK(o.FP() == fp && o.FN() == fn, "another pair is scored by itself");
  x = r; y = h;
  MatchError f = s(x, y);
  CHECK((f.FP() == e.FP()) & (f.FN() == e.FN()), "the same pair is scored the same again");
}
// Two boxes in general position, described by the overlap they have.  The
// hypothesis is [hx,hx+hw]x[..] and the reference is placed so that every
// combination of areas below 2^bits with every overlap can arise.
struct Two { D r, h; uint32_t i, ra, ha; };
static Two two(uint32_t M) {
  Two t;
  t.r = D("doc", sym_u32("rx", 0, M), sym_u32("ry", 0, M), sym_u32("rw", 0, M), sym_u32("rh", 0, M));
  t.h = D(sym_bool("samedoc") ? "doc" : "dod", sym_u32("hx", 0, M), sym_u32("hy", 0, M), sym_u32("hw", 0, M), sym_u32("hh", 0, M));
  uint32_t x1 = std::max(t.r.x, t.h.x), x2 = std::min(t.r.x + t.r.w, t.h.x + t.h.w), y1 = std::max(t.r.y, t.h.y), y2 = std::min(t.r.y + t.r.h, t.h.y + t.h.h);
  t.i = t.r.document == t.h.document && x1 < x2 && y1 < y2 ? OPQ((x2 - x1) * (y2 - y1)) : 0;
  t.ra = OPQ(t.r.w * t.r.h);
  t.ha = OPQ(t.h.w * t.h.h);
  return t;
}
static std::string q(const char *n) { return std::string(1, (char)sym_u32(n, 'a', 'b')); }
// the tool's threshold, 1/2, decided exactly
extern "C" void h_ioh_half() {
  Two t = two((1u << PARAM("bits", 4)) - 1);
  std::string rq = q("rq"), hq = q("hq");
  IntersectionOverHypothesisAreaScorer<SE, HE> s(0.5f);
  MatchError e = s(SE(rq, t.r), hyp(hq, t.h));
  bool want = rq == hq && t.ha > 0 && 2 * t.i >= t.ha;
  CHECK(hit(e) || miss(e), "overlap decision is all or nothing");
  CHECK(hit(e) == want, "matches when at least half of the hypothesis lies inside the reference");
  if (want) COVER("hit"); else COVER("miss");
  again(s, SE(rq, t.r), hyp(hq, t.h), e, SE("q", D("doc", 2, 3, 4, 2)), hyp("q", D("doc", 4, 3, 3, 2)), 0, 0);
  if (want && 2 * t.i == t.ha) COVER("exactly-half");
  if (!t.ha) COVER("empty-hypothesis");
  CHECK(s.Threshold() == 0.5f, "threshold is reported");
}
extern "C" void h_iou_half() {
  Two t = two((1u << PARAM("bits", 4)) - 1);
  std::string rq = q("rq"), hq = q("hq");
  IntersectionOverUnionAreaScorer<SE, HE> s(0.5f);
  MatchError e = s(SE(rq, t.r), hyp(hq, t.h));
  uint32_t u = t.ra + t.ha - t.i;
  bool want = rq == hq && t.ha > 0 && 2 * t.i >= u;
  CHECK(hit(e) || miss(e), "overlap decision is all or nothing");
  CHECK(hit(e) == want, "matches when the intersection is at least half of the union");
  if (want) COVER("hit"); else COVER("miss");
  again(s, SE(rq, t.r), hyp(hq, t.h), e, SE("q", D("doc", 2, 3, 4, 2)), hyp("q", D("doc", 3, 3, 3, 2)), 0, 0);
  if (want && 2 * t.i == u) COVER("exactly-half");
  CHECK(s.Threshold() == 0.5f, "threshold is reported");
}

// Events whose areas are arbitrary numbers: what the scorers do with them.
struct AEv {
  typedef uint32_t Type;
  std::string q_; uint32_t a_, i_, u_;
  const std::string &Query() const { return q_; }
  uint32_t Area() const { return a_; }
};
static uint32_t IntersectionArea(const AEv &a, const AEv &b) { return a.i_; }
static uint32_t UnionArea(const AEv &a, const AEv &b) { return a.a_ + b.a_ - a.i_; }
static void other_pair(AEv *r, AEv *h);
static bool areas(AEv &r, AEv &h, uint32_t M, bool sameq) {
  r.a_ = sym_u32("rarea", 0, M); h.a_ = sym_u32("harea", 0, M); r.i_ = h.i_ = sym_u32("inter", 0, M);
  ASSUME(r.i_ <= r.a_ && r.i_ <= h.a_);
  r.q_ = "query"; h.q_ = sameq ? "query" : "querz";
  return sameq;
}
// every threshold: the exact quotient decides, up to rounding to single precision just below the threshold
template <class S> static void threshold(bool iou) {
  uint32_t M = (1u << PARAM("bits", 24)) - 1;
  AEv r, h;
  bool sq = areas(r, h, M, sym_bool("sameq"));
  uint32_t num = PARAM("tn", 1), den = PARAM("td", 2);   // threshold num/den, den a power of two
  S s((float)num / (float)den);
  MatchError e = s(r, h);
  uint64_t base = iou ? (uint64_t)r.a_ + h.a_ - r.i_ : h.a_;
  bool reach = (uint64_t)r.i_ * den >= base * num;
  bool want = sq && h.a_ > 0 && reach;
  CHECK(hit(e) || miss(e), "overlap decision is all or nothing");
  CHECK(hit(e) == want, "the threshold is compared with the exact overlap ratio");
  AEv r2 = r, h2 = h;
  other_pair(&r2, &h2);
  r2.i_ = h2.i_ = 0;
  again(s, r, h, e, r2, h2, 1, 1);
  if (want) COVER("hit"); else COVER("miss");
  if (sq && h.a_ > 0 && (uint64_t)r.i_ * den == base * num) COVER("exactly-at-threshold");
}
extern "C" void h_ioh_thr() { threshold<IntersectionOverHypothesisAreaScorer<AEv, AEv>>(false); }
extern "C" void h_iou_thr() { threshold<IntersectionOverUnionAreaScorer<AEv, AEv>>(true); }
// an arbitrary threshold; ratios within rounding of it may fall either way
template <class S> static void anythr(bool iou) {
  uint32_t M = (1u << PARAM("bits", 24)) - 1;
  AEv r, h;
  areas(r, h, M, true);
  float t = sym_f32("t");
  ASSUME(t > 0.0f && t <= 1.0f);
  S s(t);
  MatchError e = s(r, h);
  uint32_t base = iou ? r.a_ + h.a_ - r.i_ : h.a_;
  if (h.a_ == 0) { CHECK(miss(e), "an empty hypothesis never matches"); return; }
  float ratio = OPQ((float)r.i_) / OPQ((float)base);
  double d = (double)r.i_ - (double)base * t;
  CHECK(hit(e) || miss(e), "overlap decision is all or nothing");
  CHECK(hit(e) == (ratio >= t) || (d <= 1e-5 * base && d >= -1e-5 * base), "the threshold is compared with the overlap ratio");
  if (hit(e)) COVER("hit"); else COVER("miss");
}
extern "C" void h_ioh_any() { anythr<IntersectionOverHypothesisAreaScorer<AEv, AEv>>(false); }
extern "C" void h_iou_any() { anythr<IntersectionOverUnionAreaScorer<AEv, AEv>>(true); }

// ------------------------------------------------------------- C05
static bool near(float a, float b) { float d = a - b; return (a == b) | ((d <= 1e-5f) & (d >= -1e-5f)); }
static void other_pair(AEv *r, AEv *h) { r->q_ = h->q_ = "q"; r->a_ = 8; h->a_ = 4; r->i_ = h->i_ = 2; }
static void other_pair(SE *r, HE *h) { *r = SE("q", D("doc", 0, 0, 4, 2)); *h = hyp("q", D("doc", 2, 1, 2, 2)); }
template <class E1, class E2> static void formula(const E1 &r, const E2 &h, uint32_t i, uint32_t ra, uint32_t ha, bool sq) {
  SoftIntersectionOverHypothesisAreaScorer<E1, E2> s;
  MatchError e = s(r, h);
  E1 r2 = r; E2 h2 = h;
  other_pair(&r2, &h2);
  again(s, r, h, e, r2, h2, 0.5f, 0.75f);
  if (!sq) { CHECK(miss(e), "different queries never match"); COVER("other-query"); return; }
  if (ha) { CHECK(near(e.FP(), 1.0f - OPQ((float)i) / OPQ((float)ha)), "false positive share is the part of the hypothesis outside the reference"); COVER("fp"); }
  else { CHECK(e.FP() == 1.0f, "an empty hypothesis is entirely false"); COVER("empty-hyp"); }
  if (ra) { CHECK(near(e.FN(), 1.0f - OPQ((float)i) / OPQ((float)ra)), "false negative share is the part of the reference not covered"); COVER("fn"); }
  else { CHECK(e.FN() == 1.0f, "an empty reference is never found"); COVER("empty-ref"); }
}
extern "C" void h_soft_formula() {
  uint32_t M = (1u << PARAM("bits", 24)) - 1;
  AEv r, h;
  bool sq = areas(r, h, M, sym_bool("sameq"));
  formula(r, h, r.i_, r.a_, h.a_, sq);
}
// range, in the machine's own arithmetic
extern "C" void h_soft_range() {
  uint32_t M = (1u << PARAM("bits", 24)) - 1;
  AEv r, h;
  areas(r, h, M, true);
  SoftIntersectionOverHypothesisAreaScorer<AEv, AEv> s;
  MatchError e = s(r, h);
  CHECK(e.FP() >= 0.0f && e.FP() <= 1.0f, "false positive share lies in 0..1");
  CHECK(e.FN() >= 0.0f && e.FN() <= 1.0f, "false negative share lies in 0..1");
  CHECK(r.i_ != h.a_ || !h.a_ || e.FP() == 0.0f, "a hypothesis inside the reference has no false part");
  CHECK(r.i_ != r.a_ || !r.a_ || e.FN() == 0.0f, "a covered reference has no missed part");
  CHECK(r.i_ > 0 || (e.FP() == 1.0f && e.FN() == 1.0f), "disjoint boxes do not match at all");
  CHECK(r.i_ == 0 || (e.FP() < 1.0f && e.FN() < 1.0f), "overlapping boxes match at least a little");
  if (r.i_ && r.i_ < h.a_) COVER("partial");
}
extern "C" void h_soft_box() {
  Two t = two((1u << PARAM("bits", 3)) - 1);
  std::string rq = q("rq"), hq = q("hq");
  formula(SE(rq, t.r), hyp(hq, t.h), t.i, t.ra, t.ha, rq == hq);
}
typedef Event<int32_t, int32_t> IE;
typedef ScoredEvent<IE> IH;
extern "C" void h_trivial() {
  int32_t m = -2147483647;
  IE r(sym_i32("rq", m, 2147483647), sym_i32("rl", m, 2147483647));
  IH h(IE(sym_i32("hq", m, 2147483647), sym_i32("hl", m, 2147483647)), 1.0f);
  TrivialScorer<IE, IH> s;
  MatchError e = s(r, h);
  bool want = r.Query() == h.Query() && r.Location() == h.Location();
  CHECK(want ? hit(e) : miss(e), "matches exactly the same query at the same location");
  again(s, r, h, e, IE(3, 4), IH(IE(3, 5), 1.0f), 1, 1);
  if (want) COVER("hit"); else COVER("miss");
}
typedef Event<std::string, std::string> XE;
typedef ScoredEvent<XE> XH;
extern "C" void h_trivial_str() {
  XE r(sym_str("rq", 2), sym_str("rl", 2));
  XH h(XE(sym_str("hq", 2), sym_str("hl", 2)), 1.0f);
  TrivialScorer<XE, XH> s;
  MatchError e = s(r, h);
  auto eq = [](const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; };
  bool want = eq(r.Query(), h.Query()) && eq(r.Location(), h.Location());
  CHECK(want ? hit(e) : miss(e), "matches exactly the same query at the same location");
  again(s, r, h, e, XE("a", "bb"), XH(XE("a", "bb"), 1.0f), 0, 0);
  if (want) COVER("hit"); else COVER("miss");
}
// how one error counts: one hypothesis unless pure miss, one reference unless pure false alarm
extern "C" void h_error_counts() {
  float p = sym_f32("fp"), n = sym_f32("fn");
  ASSUME(p >= 0 && p <= 1 && n >= 0 && n <= 1);
  MatchError e(p, n);
  CHECK(e.NH() == ((p > 0 || n < 1) ? 1u : 0u), "an error involves a hypothesis unless it is a pure miss");
  CHECK(e.NR() == ((p < 1 || n > 0) ? 1u : 0u), "an error involves a reference unless it is a pure false alarm");
  CHECK(e.FP() == p && e.FN() == n, "an error keeps its shares");
  COVER("counted");
}
