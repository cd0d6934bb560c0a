#include "common.h"
#include "core/BoundingBox.h"
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/ShapedEvent.h"
#include "core/ScoredEvent.h"
#include "core/Match.h"
#include "core/MatchErrorCounts.h"
using namespace kws::core;
typedef BoundingBox<uint32_t> B;
typedef DocumentBoundingBox<uint32_t> D;
typedef ShapedEvent<std::string, D> SE;
typedef ScoredEvent<SE> HE;
typedef Event<int32_t, int32_t> IE;
typedef ScoredEvent<IE> IH;

// ------------------------------------------------------------- C02 geometry
// Every box whose right and lower edges and area fit the coordinate type.
static B box(const std::string &n) {
  B b(sym_u32((n + "x").c_str(), 0, ~0u), sym_u32((n + "y").c_str(), 0, ~0u), sym_u32((n + "w").c_str(), 0, ~0u), sym_u32((n + "h").c_str(), 0, ~0u));
  ASSUME((uint32_t)(b.x + b.w) >= b.x);
  ASSUME((uint32_t)(b.y + b.h) >= b.y);
  ASSUME((uint64_t)b.w * b.h < (1ull << 32));
  return b;
}
template <typename W, typename T>
static T inter(W ax, W ay, W aw, W ah, W bx, W by, W bw, W bh) {
  W x1 = ax > bx ? ax : bx, y1 = ay > by ? ay : by;
  W x2 = ax + aw < bx + bw ? ax + aw : bx + bw, y2 = ay + ah < by + bh ? ay + ah : by + bh;
  T ow = (T)(x2 - x1), oh = (T)(y2 - y1);
  return (x1 < x2 && y1 < y2) ? (T)(ow * oh) : 0;
}
extern "C" void h_box() {
  B a = box("a"), b = box("b");
  uint32_t e = inter<uint64_t, uint32_t>(a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h);
  CHECK(OPQ(a.Area()) == a.w * a.h, "area is width times height");
  uint32_t i = OPQ(a.IntersectionArea(b));
  CHECK(i == e, "intersection is the area of the common rectangle");
  CHECK(OPQ(b.IntersectionArea(a)) == e, "intersection is symmetric");
  CHECK(OPQ(IntersectionArea(a, b)) == e, "free intersection function");
  uint32_t u = OPQ(a.w * a.h + b.w * b.h - e);
  CHECK(OPQ(a.UnionArea(b)) == u, "union is the sum of the areas minus the intersection");
  CHECK(OPQ(b.UnionArea(a)) == u, "union is symmetric");
  CHECK(OPQ(UnionArea(a, b)) == u, "free union function");
  if (e) COVER("overlap"); else COVER("disjoint");
  note("inter", i);
}
extern "C" void h_box_bounds() {
  B a = box("a"), b = box("b");
  uint32_t e = inter<uint64_t, uint32_t>(a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h);
  // the common rectangle lies inside both boxes: its sides are no longer
  uint64_t x1 = std::max(a.x, b.x), x2 = std::min((uint64_t)a.x + a.w, (uint64_t)b.x + b.w);
  uint64_t y1 = std::max(a.y, b.y), y2 = std::min((uint64_t)a.y + a.h, (uint64_t)b.y + b.h);
  if (x1 < x2 && y1 < y2) { CHECK(x2 - x1 <= a.w && x2 - x1 <= b.w && y2 - y1 <= a.h && y2 - y1 <= b.h, "sides of the intersection"); COVER("overlap"); }
  CHECK(OPQ(a.IntersectionArea(a)) == OPQ(a.Area()), "a box intersects itself in its own area");
  CHECK(OPQ(a.UnionArea(a)) == OPQ(a.Area()), "a box united with itself is itself");
  CHECK((a.w && a.h) || OPQ(a.IntersectionArea(b)) == 0, "an empty box intersects nothing");
  CHECK(OPQ(a.IntersectionArea(b)) == e, "intersection is the area of the common rectangle");
}
typedef BoundingBox<int32_t> BI;
extern "C" void h_box_int() {
  auto mk = [](const std::string &n) {
    BI b(sym_i32((n + "x").c_str(), -(1 << 28), 1 << 28), sym_i32((n + "y").c_str(), -(1 << 28), 1 << 28), sym_i32((n + "w").c_str(), 0, 32767), sym_i32((n + "h").c_str(), 0, 32767));
    return b;
  };
  BI a = mk("a"), b = mk("b");
  int32_t e = inter<int64_t, int32_t>(a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h);
  CHECK(OPQ(a.IntersectionArea(b)) == e, "intersection is the area of the common rectangle (signed coordinates)");
  CHECK(OPQ(b.IntersectionArea(a)) == e, "intersection is symmetric (signed coordinates)");
  CHECK(OPQ(a.Area()) == a.w * a.h, "area (signed coordinates)");
  CHECK(OPQ(a.UnionArea(b)) == (int32_t)((uint32_t)a.w * a.h + (uint32_t)b.w * b.h - (uint32_t)e), "union (signed coordinates)");
  if (e && a.x < 0) COVER("negative-overlap");
}
static std::string longstr(const std::string &n, size_t max);
static D dbox(const std::string &n, size_t maxlen) {
  B b = box(n);
  return D(longstr(n + "d", maxlen), b.x, b.y, b.w, b.h);
}
extern "C" void h_docbox() {
  D a = dbox("a", PARAM("len", 2)), b = dbox("b", PARAM("len", 2));
  bool same = a.document.size() == b.document.size();
  for (size_t i = 0; same && i < a.document.size(); ++i) same = a.document[i] == b.document[i];
  uint32_t e = same ? inter<uint64_t, uint32_t>(a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h) : 0;
  CHECK(OPQ(a.IntersectionArea(b)) == e, "boxes of different documents never intersect, of the same document as boxes");
  CHECK(OPQ(IntersectionArea(a, b)) == e, "free intersection function, document boxes");
  CHECK(OPQ(a.UnionArea(b)) == a.w * a.h + b.w * b.h - e, "union, document boxes");
  CHECK(OPQ(UnionArea(a, b)) == a.w * a.h + b.w * b.h - e, "free union function, document boxes");
  SE ea("q", a); HE eb(SE("r", b), 1.0f);
  CHECK(OPQ(ea.Area()) == a.w * a.h && OPQ(eb.Area()) == b.w * b.h, "area of an event is the area of its box");
  CHECK(OPQ(IntersectionArea(ea, eb)) == e && OPQ(IntersectionArea(eb, ea)) == e, "intersection of events is the intersection of their boxes");
  CHECK(OPQ(UnionArea(ea, eb)) == a.w * a.h + b.w * b.h - e, "union of events is the union of their boxes");
  if (!same) COVER("other-document");
  if (same && e) COVER("same-document-overlap");
}

// ------------------------------------------------------------- C03 ordering
static int scmp(const std::string &a, const std::string &b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template <class T> static int ncmp(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }
static int bcmp3(const B &a, const B &b) {
  int c = ncmp(a.x, b.x);
  c = c ? c : ncmp(a.y, b.y);
  c = c ? c : ncmp(a.w, b.w);
  return c ? c : ncmp(a.h, b.h);
}
static int dcmp(const D &a, const D &b) { int c = scmp(a.document, b.document); return c ? c : bcmp3(a, b); }
static int ecmp(const SE &a, const SE &b) { int c = scmp(a.Query(), b.Query()); return c ? c : dcmp(a.Location(), b.Location()); }
static int hcmp(const HE &a, const HE &b) { int c = ncmp(a.Score(), b.Score()); return c ? c : ecmp(a, b); }
template <class T> static void ops(const T &a, const T &b, int c, const char *what) {
  std::string w(what);
  CHECK((a == b) == (c == 0), (w + ": == agrees with the order").c_str());
  CHECK((a != b) == (c != 0), (w + ": != is the negation of ==").c_str());
  CHECK((a < b) == (c < 0), (w + ": <").c_str());
  CHECK((a > b) == (c > 0), (w + ": >").c_str());
  CHECK((a <= b) == (c <= 0), (w + ": <=").c_str());
  CHECK((a >= b) == (c >= 0), (w + ": >=").c_str());
  if (c == 0) COVER("equal"); else if (c < 0) COVER("less"); else COVER("greater");
}
static B anybox(const std::string &n) {
  return B(sym_u32((n + "x").c_str(), 0, ~0u), sym_u32((n + "y").c_str(), 0, ~0u), sym_u32((n + "w").c_str(), 0, ~0u), sym_u32((n + "h").c_str(), 0, ~0u));
}
extern "C" void h_ord_box() { B a = anybox("a"), b = anybox("b"); ops(a, b, bcmp3(a, b), "box"); }
static std::string longstr(const std::string &n, size_t max) {
  // optionally long enough for a heap-allocated string, or much longer
  static const size_t L[] = {0, 20, 300};
  std::string s;
  for (size_t i = 0, k = L[pick((n + ".long").c_str(), 0, 2)]; i < k; ++i) s += (char)('a' + i % 26);
  return s + sym_str(n, max);
}
static D anyd(const std::string &n, size_t max) { B b = anybox(n); return D(longstr(n + "d", max), b.x, b.y, b.w, b.h); }
extern "C" void h_ord_doc() { D a = anyd("a", PARAM("len", 2)), b = anyd("b", PARAM("len", 2)); ops(a, b, dcmp(a, b), "document box"); }
extern "C" void h_ord_event() {
  size_t L = PARAM("len", 1);
  SE a(longstr("aq", L), anyd("a", 1)), b(longstr("bq", L), anyd("b", 1));
  ops(a, b, ecmp(a, b), "event");
}
static float finite(const char *n) { float f = sym_f32(n); ASSUME(f == f); return f; }
extern "C" void h_ord_scored() {
  HE a(SE(sym_str("aq", 1), D(sym_str("ad", 1), sym_u32("ax", 0, ~0u), sym_u32("ay", 0, ~0u), 3, 4)), finite("as"));
  HE b(SE(sym_str("bq", 1), D(sym_str("bd", 1), sym_u32("bx", 0, ~0u), sym_u32("by", 0, ~0u), 3, 4)), finite("bs"));
  ops(a, b, hcmp(a, b), "scored event");
  if (a.Score() < b.Score() && ecmp(a, b) > 0) COVER("score-first");
}
extern "C" void h_ord_int() {
  IE a(sym_i32("aq", -2147483647, 2147483647), sym_i32("al", -2147483647, 2147483647)), b(sym_i32("bq", -2147483647, 2147483647), sym_i32("bl", -2147483647, 2147483647));
  int c = ncmp(a.Query(), b.Query()); c = c ? c : ncmp(a.Location(), b.Location());
  ops(a, b, c, "integer event");
  IH x(a, finite("as")), y(b, finite("bs"));
  int d = ncmp(x.Score(), y.Score()); d = d ? d : c;
  ops(x, y, d, "scored integer event");
}
// A sort by the library's comparison yields the specified order (three events).
extern "C" void h_ord_sort() {
  std::vector<HE> v;
  for (int i = 0; i < 3; ++i) {
    float s = finite(nm("s", i).c_str());
    v.push_back(HE(SE(std::string(1, (char)sym_u32(nm("q", i).c_str(), 'a', 'b')), D("d", sym_u32(nm("x", i).c_str(), 0, 9), 1, 2, 3)), s));
  }
  bool asc = sym_bool("asc");
  if (asc) std::sort(v.begin(), v.end(), std::less<HE>()); else std::sort(v.begin(), v.end(), std::greater<HE>());
  for (int i = 0; i + 1 < 3; ++i) { int c = hcmp(v[i], v[i + 1]); CHECK(asc ? c <= 0 : c >= 0, "sorting hypotheses orders them by score, then query, then location"); }
  COVER("sorted");
}

// ------------------------------------------------------------- C21 matches
typedef Match<SE, HE> M;
static SE mkref(const std::string &n) { return SE(std::string(1, sym_char((n + "q").c_str())), D(std::string("docdocdocdocdocdoc") + sym_char((n + "d").c_str()), sym_u32((n + "x").c_str(), 0, ~0u), 1, 2, 3)); }
struct MV { bool r, h; SE ref; HE hyp; float fp, fn; M *m; };
static MV mkmatch(const std::string &n) {
  MV v;
  v.r = pick((n + "r").c_str(), 0, 1); v.h = pick((n + "h").c_str(), 0, 1);
  v.ref = mkref(n + "R"); v.hyp = HE(mkref(n + "H"), finite((n + "s").c_str()));
  v.fp = finite((n + "fp").c_str()); v.fn = finite((n + "fn").c_str());
  v.m = new M(v.fp, v.fn);
  if (v.r) v.m->SetRef(v.ref);
  if (v.h) v.m->SetHyp(v.hyp);
  return v;
}
static bool same(const M &m, const MV &v) {
  if (m.HasRef() != v.r || m.HasHyp() != v.h) return false;
  if (m.GetError().FP() != v.fp || m.GetError().FN() != v.fn) return false;
  if (v.r && ecmp(m.GetRef(), v.ref) != 0) return false;
  return !v.h || hcmp(m.GetHyp(), v.hyp) == 0;
}
extern "C" void h_match_copy() {
  int64_t live0 = ksym_heap_live();
  {
    MV a = mkmatch("a"), b = mkmatch("b");
    CHECK(same(*a.m, a) && same(*b.m, b), "a match holds what it was given");
    M c(*a.m);
    CHECK(same(c, a), "copy construction preserves the match");
    c = *b.m;
    CHECK(same(c, b), "copy assignment preserves the match");
    CHECK(same(*b.m, b), "copy assignment leaves its source alone");
    const M &cr = c;
    c = cr;
    CHECK(same(c, b), "self-assignment preserves the match");
    M d;
    d = std::move(c);
    CHECK(same(d, b), "move assignment transfers the match");
    M e(*a.m), f(*b.m);
    e = std::move(f);
    CHECK(same(e, b), "move assignment replaces both sides");
    e.SetHyp(a.hyp); e.SetRef(a.ref); e.SetError(MatchError(a.fp, b.fn));
    CHECK(e.HasHyp() && e.HasRef() && hcmp(e.GetHyp(), a.hyp) == 0 && ecmp(e.GetRef(), a.ref) == 0 && e.GetError().FP() == a.fp && e.GetError().FN() == b.fn, "setting a side or the error replaces it");
    CHECK(same(*a.m, a) && same(*b.m, b), "changing a match leaves the others alone");
    {
      M x(*a.m), y(*b.m);
      std::swap(x, y);
      CHECK(same(x, b) && same(y, a), "swapping matches exchanges them");
    }
    std::vector<M> v;
    v.push_back(*a.m); v.push_back(*b.m); v.push_back(*a.m);
    CHECK(same(v[0], a) && same(v[1], b) && same(v[2], a), "a sequence of matches keeps its elements");
    v.erase(v.begin());
    CHECK(v.size() == 2 && same(v[0], b) && same(v[1], a), "erasing from a sequence of matches keeps the others");
    v.insert(v.begin(), *a.m);
    // a copy is independent of its source
    delete a.m; a.m = nullptr;
    CHECK(same(v[0], a) && same(v[2], a), "a copy outlives its source");
    delete b.m;
    if (a.r && b.h && !b.r) COVER("mixed");
  }
  CHECK(ksym_heap_live() == live0, "copying, assigning and destroying matches leaks nothing");
}
static bool sameMV(const MV &a, const MV &b) {
  return a.r == b.r && a.h == b.h && a.fp == b.fp && a.fn == b.fn && (!a.r || ecmp(a.ref, b.ref) == 0) && (!a.h || hcmp(a.hyp, b.hyp) == 0);
}
extern "C" void h_match_eq() {
  MV a = mkmatch("a"), b = mkmatch("b");
  bool e = sameMV(a, b);
  CHECK((*a.m == *b.m) == e, "matches are equal exactly when their references, hypotheses and errors are");
  CHECK((*a.m != *b.m) == !e, "!= is the negation of ==");
  if (e) COVER("equal"); else COVER("different");
  M c(*a.m);
  CHECK(c == *a.m && !(c != *a.m), "a copy equals its source");
  delete a.m; delete b.m;
}
extern "C" void h_match_make() {
  SE r = mkref("r"); HE h(mkref("h"), finite("s"));
  M fp = M::MakeFalsePositive(h), fn = M::MakeFalseNegative(r);
  CHECK(fp.HasHyp() && !fp.HasRef() && hcmp(fp.GetHyp(), h) == 0 && fp.GetError().FP() == 1.0f && fp.GetError().FN() == 0.0f, "false positive");
  CHECK(fp.GetError().NH() == 1 && fp.GetError().NR() == 0, "a false positive counts one hypothesis and no reference");
  CHECK(fn.HasRef() && !fn.HasHyp() && ecmp(fn.GetRef(), r) == 0 && fn.GetError().FP() == 0.0f && fn.GetError().FN() == 1.0f, "false negative");
  CHECK(fn.GetError().NH() == 0 && fn.GetError().NR() == 1, "a false negative counts one reference and no hypothesis");
  float p = finite("fp"), n = finite("fn");
  ASSUME(p >= 0 && p < 1 && n >= 0 && n < 1);
  M m(r, h, MatchError(p, n));
  CHECK(m.HasRef() && m.HasHyp() && hcmp(m.GetHyp(), h) == 0 && ecmp(m.GetRef(), r) == 0 && m.GetError() == MatchError(p, n) && !(m.GetError() != MatchError(p, n)), "match of a reference and a hypothesis");
  CHECK(m.GetError().NH() == 1 && m.GetError().NR() == 1, "a true match counts one hypothesis and one reference");
  COVER("made");
}
// counts of aggregated errors: sums, value semantics
extern "C" void h_counts() {
  auto mk = [](const std::string &n, uint64_t &nh, uint64_t &nr, float &fp, float &fn) {
    nh = sym_u64((n + "nh").c_str(), 0, 1ull << 40); nr = sym_u64((n + "nr").c_str(), 0, 1ull << 40);
    fp = finite((n + "fp").c_str()); fn = finite((n + "fn").c_str());
    return MatchErrorCounts(fp, fn, nh, nr);
  };
  uint64_t h1, r1, h2, r2; float p1, n1, p2, n2;
  MatchErrorCounts a = mk("a", h1, r1, p1, n1), b = mk("b", h2, r2, p2, n2);
  CHECK((a == b) == (h1 == h2 && r1 == r2 && p1 == p2 && n1 == n2), "equality of aggregated errors");
  CHECK((a != b) == !(h1 == h2 && r1 == r2 && p1 == p2 && n1 == n2), "inequality of aggregated errors");
  ASSUME(p1 > -1e30f && p1 < 1e30f && p2 > -1e30f && p2 < 1e30f && n1 > -1e30f && n1 < 1e30f && n2 > -1e30f && n2 < 1e30f);
  MatchErrorCounts c = a + b;
  CHECK(c.NH() == h1 + h2 && c.NR() == r1 + r2 && c.FP() == p1 + p2 && c.FN() == n1 + n2, "sum of aggregated errors");
  MatchErrorCounts d = a; d += b;
  CHECK(d.NH() == h1 + h2 && d.NR() == r1 + r2 && d.FP() == p1 + p2 && d.FN() == n1 + n2, "accumulated errors");
  CHECK(a.NH() == h1 && b.NR() == r2, "operands are unchanged");
  const MatchError &base = d;
  CHECK(base.NH() == h1 + h2, "aggregated counts are seen through the base type");
}
