#include "common.h"
#include <functional>
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/Event.h"
#include "core/EventSet.h"
#include "core/ShapedEvent.h"
#include "core/ScoredEvent.h"
using namespace kws::core;
typedef DocumentBoundingBox<uint32_t> D;
typedef ShapedEvent<std::string, D> SE;
typedef ScoredEvent<SE> HE;
typedef EventSet<SE> Set;

// ------------------------------------------------------------- C06
// reference comparison: query, document, x, y, w, h
static int cmp(const SE &a, const SE &b) {
  int c = a.Query().compare(b.Query());
  if (c) return c < 0 ? -1 : 1;
  const D &p = a.Location(), &q = b.Location();
  c = p.document.compare(q.document);
  if (c) return c < 0 ? -1 : 1;
  if (p.x != q.x) return p.x < q.x ? -1 : 1;
  if (p.y != q.y) return p.y < q.y ? -1 : 1;
  if (p.w != q.w) return p.w < q.w ? -1 : 1;
  if (p.h != q.h) return p.h < q.h ? -1 : 1;
  return 0;
}
static uint32_t inter(const SE &a, const SE &b) {
  if (a.Query() != b.Query() || a.Location().document != b.Location().document) return 0;
  const D &p = a.Location(), &q = b.Location();
  uint32_t x1 = p.x > q.x ? p.x : q.x, x2 = p.x + p.w < q.x + q.w ? p.x + p.w : q.x + q.w;
  uint32_t y1 = p.y > q.y ? p.y : q.y, y2 = p.y + p.h < q.y + q.h ? p.y + p.h : q.y + q.h;
  return x1 < x2 && y1 < y2 ? (x2 - x1) * (y2 - y1) : 0;
}
// one row of the page: overlaps of every size without multiplications
static SE row(const std::string &n, uint32_t M, bool vary) {
  std::string q(1, vary ? (char)sym_u32((n + "q").c_str(), 'a', 'b') : 'a'), d(1, vary ? (char)sym_u32((n + "d").c_str(), 'd', 'e') : 'd');
  return SE(q, D(d, sym_u32((n + "x").c_str(), 0, M), 3, sym_u32((n + "w").c_str(), 0, M), 1));
}
static HE hyp(const SE &e) { return HE(e, 0.5f); }
// what a lookup must give for the stored events v (distinct)
static void check_lookup(const Set &s, const std::vector<SE> &v, const SE &h) {
  size_t n = 0;
  for (const SE &e : v) if (inter(e, h)) ++n;
  const auto r = s.FindOverlapping(hyp(h));
  CHECK(r.size() == n, "lookup returns as many references as overlap");
  const SE *prev = nullptr;
  for (const SE &e : r) {
    uint32_t a = inter(e, h);
    CHECK(a > 0, "every returned reference overlaps the hypothesis");
    bool stored = false;
    for (const SE &w : v) if (cmp(w, e) == 0) stored = true;
    CHECK(stored, "every returned reference is stored");
    if (prev) {
      uint32_t pa = inter(*prev, h);
      CHECK(pa > a || (pa == a && cmp(*prev, e) > 0), "references come by decreasing shared area, then decreasing event");
      if (pa == a) COVER("tie"); else COVER("ordered");
    }
    prev = &e;
  }
  if (!n) COVER("nothing-overlaps"); else COVER("overlaps");
}
extern "C" void h_set_hist() {
  size_t k = PARAM("ops", 3);
  uint32_t M = 15;
  Set s;
  std::vector<SE> v;
  for (size_t i = 0; i < k; ++i) {
    size_t op = i == 0 ? 0 : pick(nm("op", i).c_str(), 0, 2);
    if (op == 2) { s.Clear(); v.clear(); COVER("clear"); continue; }
    SE e = row(nm("e", i), M, true);
    size_t at = v.size();
    for (size_t j = 0; j < v.size(); ++j) if (cmp(v[j], e) == 0) at = j;
    if (op == 0) {
      s.Insert(e);
      if (at == v.size()) v.push_back(e); else COVER("duplicate");
    } else {
      s.Remove(e);
      if (at < v.size()) { v.erase(v.begin() + at); COVER("removed"); } else COVER("absent");
    }
    CHECK(s.Size() == v.size(), "size is the number of distinct stored events");
  }
  check_lookup(s, v, row("h", M, true));
  CHECK(s.Size() == v.size(), "looking up changes nothing");
}
extern "C" void h_set_area() {   // n references of the same query and document, in one row
  size_t n = PARAM("refs", 3);
  Set s;
  std::vector<SE> v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(row(nm("e", i), 31, false));
    for (size_t j = 0; j < i; ++j) ASSUME(cmp(v[j], v[i]) != 0);
    s.Insert(v[i]);
  }
  check_lookup(s, v, row("h", 31, false));
}
extern "C" void h_set_2d() {
  uint32_t M = (1u << PARAM("bits", 3)) - 1;
  auto any = [&](const std::string &n) { return SE("a", D("d", sym_u32((n + "x").c_str(), 0, M), sym_u32((n + "y").c_str(), 0, M), sym_u32((n + "w").c_str(), 0, M), sym_u32((n + "h").c_str(), 0, M))); };
  std::vector<SE> v{any("e0"), any("e1")};
  ASSUME(cmp(v[0], v[1]) != 0);
  Set s;
  s.Insert(v[0]); s.Insert(v[1]);
  check_lookup(s, v, any("h"));
}
extern "C" void h_set_ctor() {
  size_t n = pick("n", 0, 3);
  std::vector<SE> in, v;
  for (size_t i = 0; i < n; ++i) {
    in.push_back(row(nm("e", i), 7, false));
    bool seen = false;
    for (const SE &e : v) if (cmp(e, in[i]) == 0) seen = true;
    if (seen) COVER("duplicate"); else v.push_back(in[i]);
  }
  Set s(in.begin(), in.end());
  CHECK(s.Size() == v.size(), "a set built from a range holds its distinct events");
  check_lookup(s, v, row("h", 7, false));
}
// more references than one insertion-sort partition, one of them anywhere
extern "C" void h_set_many() {
  size_t n = PARAM("refs", 18);
  Set s;
  std::vector<SE> v;
  for (size_t i = 0; i < n; ++i) v.push_back(SE("a", D("d", (uint32_t)(i * 7 % 19), 3, (uint32_t)(1 + i * 5 % 11), 1)));
  SE e = row("e", 63, false);
  bool seen = false;
  for (const SE &w : v) if (cmp(w, e) == 0) seen = true;
  if (!seen) v.push_back(e);
  for (const SE &w : v) s.Insert(w);
  if (seen) s.Insert(e);
  CHECK(s.Size() == v.size(), "size is the number of distinct stored events");
  check_lookup(s, v, SE("a", D("d", 4, 3, 12, 1)));
}
// lookups before, between and after changes
extern "C" void h_set_again() {
  Set s;
  SE a = row("a", 7, false), b = row("b", 7, true);
  const SE h = row("h", 7, false), o("zz", D("e", 1, 1, 1, 1));
  ASSUME(cmp(a, b) != 0);
  std::vector<SE> v;
  check_lookup(s, v, h);
  s.Insert(a); v.push_back(a);
  check_lookup(s, v, h);
  s.Insert(b); v.push_back(b);
  check_lookup(s, v, h);
  if (pick("other", 0, 1)) { s.Insert(o); check_lookup(s, {a, b, o}, o); s.Remove(o); check_lookup(s, v, o); }
  size_t op = pick("op", 0, 3);
  if (op < 2) { s.Remove(op ? b : a); v.erase(v.begin() + op); COVER("removed"); }
  else if (op == 2) { s.Clear(); v.clear(); COVER("clear"); }
  else { s.Insert(a); COVER("duplicate"); }
  CHECK(s.Size() == v.size(), "size is the number of distinct stored events");
  check_lookup(s, v, h);
  // another set does not share anything with the first
  Set t;
  t.Insert(b);
  check_lookup(t, {b}, h);
  check_lookup(s, v, h);
}
// hundreds of references, in one document or in many
extern "C" void h_set_big() {
  size_t n = PARAM("refs", 300), spread = pick("spread", 0, 2);
  Set s;
  std::vector<SE> v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(SE(spread == 1 ? "q" + std::to_string(i) : "a", D(spread == 2 ? "d" + std::to_string(i) : "d", (uint32_t)i, 3, 2 + (uint32_t)(i % 3), 1)));
    s.Insert(v[i]);
  }
  CHECK(s.Size() == n, "size is the number of distinct stored events (many)");
  size_t at = pick("at", 0, 2) * (n / 2 - 1);
  uint32_t w = (uint32_t)sym_u32("w", 1, 3);
  SE h(v[at].Query(), D(v[at].Location().document, (uint32_t)at, 3, w, 1));
  check_lookup(s, v, h);
  if (!spread) { check_lookup(s, v, SE("a", D("d", 0, 3, (uint32_t)n + 10, 1))); CHECK(s.FindOverlapping(hyp(SE("a", D("d", 0, 3, (uint32_t)n + 10, 1)))).size() == n, "every reference of a page can be found"); }
  s.Remove(v[at]);
  CHECK(s.Size() == n - 1, "size is the number of distinct stored events (many)");
  v.erase(v.begin() + at);
  check_lookup(s, v, h);
  COVER("big");
}
// every query and document is kept apart, names of any length
extern "C" void h_set_names() {
  size_t L = PARAM("len", 2);
  SE e(sym_str("eq", L), D(sym_str("ed", L), 2, 3, 4, 5)), h(sym_str("hq", L), D(sym_str("hd", L), 3, 3, 4, 5));
  SE other("zzzzzzzzzzzzzzzzzzzzq", D("yyyyyyyyyyyyyyyyyyyyyd", 2, 3, 4, 5));
  Set s;
  s.Insert(other); s.Insert(e);
  const auto r = s.FindOverlapping(hyp(h));
  bool want = e.Query() == h.Query() && e.Location().document == h.Location().document;
  CHECK(r.size() == (want ? 1u : 0u), "a lookup sees its own query and document only");
  if (want) { CHECK(cmp(r.front(), e) == 0, "the stored reference comes back unchanged"); COVER("found"); } else COVER("other");
  CHECK(s.FindOverlapping(hyp(other)).size() == 1, "long names are looked up whole");
  SE other2("zzzzzzzzzzzzzzzzzzzzr", other.Location()), other3("zzzzzzzzzzzzzzzzzzzzq", D("yyyyyyyyyyyyyyyyyyyyye", 2, 3, 4, 5));
  CHECK(s.FindOverlapping(hyp(other2)).size() == 0 && s.FindOverlapping(hyp(other3)).size() == 0, "long names are compared whole");
}
// signed coordinates, integer queries
typedef ShapedEvent<int32_t, DocumentBoundingBox<int32_t>> IS;
extern "C" void h_set_int() {
  auto any = [](const std::string &n) { return IS(sym_i32((n + "q").c_str(), -2, 2), DocumentBoundingBox<int32_t>("d", sym_i32((n + "x").c_str(), -20, 20), -1, sym_i32((n + "w").c_str(), 0, 20), 1)); };
  auto in = [](const IS &a, const IS &b) { int32_t x1 = std::max(a.Location().x, b.Location().x), x2 = std::min(a.Location().x + a.Location().w, b.Location().x + b.Location().w); return a.Query() == b.Query() && x1 < x2 ? x2 - x1 : 0; };
  IS a = any("a"), b = any("b"), h = any("h");
  ASSUME(a.Query() != b.Query() || a.Location().x != b.Location().x || a.Location().w != b.Location().w);
  EventSet<IS> s;
  s.Insert(a); s.Insert(b);
  CHECK(s.Size() == 2, "size is the number of distinct stored events (integer queries)");
  const auto r = s.FindOverlapping(h);
  CHECK(r.size() == (size_t)(in(a, h) > 0) + (size_t)(in(b, h) > 0), "lookup returns as many references as overlap (integer queries)");
  if (r.size() == 2) { CHECK(in(r.front(), h) >= in(r.back(), h), "references come by decreasing shared area (integer queries)"); CHECK(!(r.front() == r.back()), "each once"); COVER("two"); }
  if (r.size() == 1) { CHECK(in(r.front(), h) > 0, "every returned reference overlaps the hypothesis (integer queries)"); COVER("one"); }
}
// events without shape: overlap is identity
typedef Event<int32_t, int32_t> IE;
extern "C" void h_set_base() {
  size_t k = PARAM("ops", 3);
  EventSet<IE> s;
  std::vector<IE> v;
  for (size_t i = 0; i < k; ++i) {
    size_t op = i == 0 ? 0 : pick(nm("op", i).c_str(), 0, 2);
    if (op == 2) { s.Clear(); v.clear(); continue; }
    IE e(sym_i32(nm("q", i).c_str(), -3, 3), sym_i32(nm("l", i).c_str(), -3, 3));
    size_t at = v.size();
    for (size_t j = 0; j < v.size(); ++j) if (v[j].Query() == e.Query() && v[j].Location() == e.Location()) at = j;
    if (op == 0) { s.Insert(e); if (at == v.size()) v.push_back(e); else COVER("duplicate"); }
    else { s.Remove(e); if (at < v.size()) { v.erase(v.begin() + at); COVER("removed"); } }
    CHECK(s.Size() == v.size(), "size is the number of distinct stored events (no shape)");
  }
  ScoredEvent<IE> h(IE(sym_i32("hq", -3, 3), sym_i32("hl", -3, 3)), 1.0f);
  const auto r = s.FindOverlapping(h);
  bool want = false;
  for (const IE &e : v) if (e.Query() == h.Query() && e.Location() == h.Location()) want = true;
  CHECK(r.size() == (want ? 1u : 0u), "lookup finds exactly the identical event");
  if (want) { CHECK(r.front().Query() == h.Query() && r.front().Location() == h.Location(), "the identical event is returned"); COVER("found"); } else COVER("missing");
  std::vector<IE> two{IE(1, 2), IE(1, 2), IE(2, 1)};
  EventSet<IE> c(two.begin(), two.end());
  CHECK(c.Size() == 2, "a set built from a range holds its distinct events (no shape)");
}
