#include "common.h"
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/Event.h"
#include "core/EventSet.h"
#include "core/ShapedEvent.h"
#include "core/ScoredEvent.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
using namespace kws::core;
using namespace kws::scorer;
using namespace kws::matcher;
typedef Event<int32_t, int32_t> IE;
typedef ScoredEvent<IE> IH;

// different scores of any sign
static std::vector<float> scores(const std::string &n, size_t k) {
  std::vector<float> v;
  for (size_t i = 0; i < k; ++i) {
    float f = sym_f32((n + std::to_string(i)).c_str());
    ASSUME(f >= -1e30f && f <= 1e30f);
    for (float o : v) ASSUME(f != o);
    v.push_back(f);
  }
  return v;
}
// What the matching must be: computed over indices, refs distinct, cand[h] the
// overlapping references of hypothesis h, best first, with their errors.
struct Cand { size_t ref; float fp, fn; };
struct Want {
  std::vector<int> of;            // per hypothesis: index into cand[h], -1 false positive, -2 none (repeated)
  std::vector<char> taken;
};
static Want greedy(size_t nr, const std::vector<std::vector<Cand>> &cand) {
  Want w;
  w.taken.assign(nr, 0);
  for (const auto &c : cand) {
    int got = -1;
    for (size_t k = 0; k < c.size(); ++k) {
      if (!(c[k].fp < 1.0f)) continue;
      if (!w.taken[c[k].ref]) { got = (int)k; w.taken[c[k].ref] = 1; break; }
      got = -2;
    }
    w.of.push_back(got);
  }
  return w;
}

// the overlapping references are whatever the solver says, in either order
struct World {
  size_t nh;
  std::vector<std::vector<char>> ov;      // [hyp][ref location]
  std::vector<std::vector<float>> fp, fn;
  std::vector<char> rev;
};
static World *world;
struct StubSet : public EventSet<IE> {
  std::vector<IE> kept;   // by location
  size_t at(const IE &e) const { size_t i = 0; while (i < kept.size() && kept[i].Location() < e.Location()) ++i; return i; }
  bool holds(const IE &e) const { size_t i = at(e); return i < kept.size() && kept[i].Location() == e.Location(); }
  void Insert(const IE &e) override { if (!holds(e)) kept.insert(kept.begin() + at(e), e); }
  void Remove(const IE &e) override { if (holds(e)) kept.erase(kept.begin() + at(e)); }
  void Clear() override { kept.clear(); }
  size_t Size() const override { return kept.size(); }
  EventList FindOverlapping(const Event<int32_t, int32_t> &e) const override {
    EventList l;
    size_t h = (size_t)e.Query();
    for (const IE &r : kept)
      if (world->ov[h][r.Location()]) { if (world->rev[h]) l.push_front(r); else l.push_back(r); }
    return l;
  }
};
struct StubScorer : public Scorer<IE, IH> {
  MatchError operator()(const IE &r, const IH &h) override { return MatchError(world->fp[h.Query()][r.Location()], world->fn[h.Query()][r.Location()]); }
};
static World make_world(const std::string &p, size_t nh, size_t nl) {
  World w;
  w.nh = nh;
  for (size_t h = 0; h < nh; ++h) {
    w.ov.push_back({}); w.fp.push_back({}); w.fn.push_back({});
    w.rev.push_back(nl > 1 ? (char)pick((p + nm("rev", h)).c_str(), 0, 1) : 0);
    for (size_t r = 0; r < nl; ++r) {
      std::string s = p + nm("", h) + "." + std::to_string(r);
      w.ov[h].push_back((char)pick(("ov" + s).c_str(), 0, 1));
      float a = sym_f32(("fp" + s).c_str()), b = sym_f32(("fn" + s).c_str());
      ASSUME(a >= 0.0f && a <= 1.0f && b >= 0.0f && b <= 1.0f);
      w.fp[h].push_back(a); w.fn[h].push_back(b);
    }
  }
  return w;
}
typedef SimpleMatcher<IE, IH> SM;
typedef Match<IE, IH> MT;
// candidate lists of a world whose stored reference locations are `locs`, ascending
static std::vector<std::vector<Cand>> cands(const World &w, const std::vector<size_t> &locs) {
  std::vector<std::vector<Cand>> c;
  for (size_t h = 0; h < w.nh; ++h) {
    std::vector<Cand> l;
    for (size_t k = 0; k < locs.size(); ++k) {
      size_t i = w.rev[h] ? locs.size() - 1 - k : k;
      if (w.ov[h][locs[i]]) l.push_back(Cand{i, w.fp[h][locs[i]], w.fn[h][locs[i]]});
    }
    c.push_back(l);
  }
  return c;
}
static std::vector<float> given;
static std::vector<IH> hyps(size_t nh) {
  std::vector<IH> v;
  if (given.empty()) for (size_t h = 0; h < nh; ++h) { given.push_back(sym_f32(nm("score", h).c_str())); ASSUME(given[h] >= -1e30f && given[h] <= 1e30f); }
  for (size_t h = 0; h < nh; ++h) v.push_back(IH(IE((int32_t)h, 100 + (int32_t)h), given[h]));
  return v;
}
static std::vector<IE> refs_of(const std::vector<size_t> &order) {
  std::vector<IE> v;
  for (size_t l : order) v.push_back(IE(7, (int32_t)l));
  return v;
}
// C07: conservation, from the outputs alone
static void accounting(const SM &m, const SM::Result &r, const World &w, const std::vector<size_t> &locs) {
  std::vector<size_t> nref(8, 0), nhyp(w.nh, 0), nrep(w.nh, 0);
  for (const MT &x : r) {
    CHECK(x.HasRef() || x.HasHyp(), "every match stands for something");
    if (x.HasRef()) { CHECK(x.GetRef().Query() == 7, "references are reported unchanged"); ++nref[x.GetRef().Location()]; }
    if (x.HasHyp()) { CHECK(x.GetHyp().Location() == 100 + x.GetHyp().Query() && x.GetHyp().Score() == given[x.GetHyp().Query()], "hypotheses are reported unchanged"); ++nhyp[x.GetHyp().Query()]; }
    if (x.HasRef() && x.HasHyp()) {
      CHECK(w.ov[x.GetHyp().Query()][x.GetRef().Location()] && w.fp[x.GetHyp().Query()][x.GetRef().Location()] < 1.0f, "only acceptable overlapping pairs are matched");
      COVER("match");
    } else if (x.HasHyp()) { CHECK(x.GetError().FP() == 1.0f && x.GetError().FN() == 0.0f && x.GetError().NH() == 1 && x.GetError().NR() == 0, "a false positive is one hypothesis and no reference"); COVER("false-positive"); }
    else { CHECK(x.GetError().FP() == 0.0f && x.GetError().FN() == 1.0f && x.GetError().NH() == 0 && x.GetError().NR() == 1, "a false negative is one reference and no hypothesis"); COVER("false-negative"); }
  }
  for (size_t l = 0; l < 8; ++l) {
    bool in = false;
    for (size_t k : locs) if (k == l) in = true;
    CHECK(nref[l] == (in ? 1u : 0u), "every distinct reference is accounted for exactly once");
  }
  for (const MT &x : m.GetRepeatedMatches()) {
    CHECK(x.HasRef() && x.HasHyp(), "a repeated match has both sides");
    CHECK(w.ov[x.GetHyp().Query()][x.GetRef().Location()] && w.fp[x.GetHyp().Query()][x.GetRef().Location()] < 1.0f, "repeated matches are acceptable overlapping pairs");
    CHECK(x.GetError().FP() == w.fp[x.GetHyp().Query()][x.GetRef().Location()] && x.GetError().FN() == w.fn[x.GetHyp().Query()][x.GetRef().Location()], "repeated matches keep their error");
    ++nrep[x.GetHyp().Query()];
  }
  for (size_t h = 0; h < w.nh; ++h) {
    CHECK(nhyp[h] <= 1, "a hypothesis is reported at most once");
    CHECK(nhyp[h] == 1 || nrep[h] >= 1, "a hypothesis that is not reported is kept as a repeated match");
    bool acc = false;
    for (size_t l : locs) acc |= w.ov[h][l] && w.fp[h][l] < 1.0f;
    if (nhyp[h] == 0) { CHECK(acc, "only hypotheses that hit some reference are left out"); COVER("repeated"); }
  }
}
// C08: the exact greedy outcome
static void exact(const SM::Result &r, const World &w, const std::vector<size_t> &locs) {
  auto c = cands(w, locs);
  Want g = greedy(locs.size(), c);
  size_t k = 0;
  for (size_t h = 0; h < w.nh; ++h) {
    if (g.of[h] == -2) { COVER("repeated"); continue; }
    CHECK(k < r.size() && r[k].HasHyp() && r[k].GetHyp().Query() == (int32_t)h, "hypotheses are reported in the order given");
    const MT &x = r[k++];
    if (g.of[h] == -1) { CHECK(!x.HasRef() && x.GetError().FP() == 1.0f && x.GetError().FN() == 0.0f, "a hypothesis that hits nothing is a false positive"); COVER("false-positive"); continue; }
    const Cand &b = c[h][g.of[h]];
    CHECK(x.HasRef() && x.GetRef().Location() == (int32_t)locs[b.ref], "a hypothesis takes its first free acceptable reference");
    CHECK(x.GetError().FP() == b.fp && x.GetError().FN() == b.fn, "a match carries the error of its pair");
    if (g.of[h] > 0) COVER("second-choice"); else COVER("first-choice");
  }
  size_t left = 0;
  for (char t : g.taken) left += !t;
  CHECK(r.size() == k + left, "one false negative per free reference, after the hypotheses");
  for (; k < r.size(); ++k) CHECK(r[k].HasRef() && !r[k].HasHyp(), "false negatives come last");
}
static void stub(bool ex) {
  size_t nr = PARAM("refs", 2), nh = PARAM("hyps", 3);
  world = new World(make_world("", nh, nr));
  // the references, in some order, possibly one twice
  std::vector<size_t> order, locs;
  size_t first = pick("first", 0, nr - 1);
  for (size_t i = 0; i < nr; ++i) { order.push_back((first + i) % nr); locs.push_back(i); }
  if (nr && pick("dup", 0, 1)) { order.push_back(first); COVER("duplicate-reference"); }
  StubScorer sc;
  SM m(&sc, new StubSet());
  auto r = m.Match(refs_of(order), hyps(nh));
  if (ex) exact(r, *world, locs); else accounting(m, r, *world, locs);
  delete world;
}
extern "C" void h_account() { stub(false); }
extern "C" void h_greedy() { stub(true); }
static bool same(const MT &a, const MT &b) {
  return a.HasRef() == b.HasRef() && a.HasHyp() == b.HasHyp() && a.GetError().FP() == b.GetError().FP() && a.GetError().FN() == b.GetError().FN() &&
         (!a.HasRef() || a.GetRef().Location() == b.GetRef().Location()) && (!a.HasHyp() || a.GetHyp().Query() == b.GetHyp().Query());
}
// evaluating again with the same matcher
extern "C" void h_reuse() {
  World w1 = make_world("x", 2, 2), w2 = make_world("y", 2, 2);
  StubScorer sc;
  SM m(&sc, new StubSet()), f(&sc, new StubSet());
  size_t r1 = pick("refs1", 0, 2), r2 = pick("refs2", 0, 2);
  std::vector<size_t> l1, l2;
  for (size_t i = 0; i < r1; ++i) l1.push_back(i);
  for (size_t i = 0; i < r2; ++i) l2.push_back(1 - i);
  world = &w1;
  m.Match(refs_of(l1), hyps(2));
  world = &w2;
  auto a = m.Match(refs_of(l2), hyps(2)), b = f.Match(refs_of(l2), hyps(2));
  CHECK(a.size() == b.size(), "a second evaluation gives as many matches as a fresh matcher");
  for (size_t i = 0; i < a.size(); ++i) CHECK(same(a[i], b[i]), "a second evaluation gives the matches of a fresh matcher");
  CHECK(m.GetRepeatedMatches().size() == f.GetRepeatedMatches().size(), "a second evaluation starts without repeated matches");
  if (!m.GetRepeatedMatches().empty()) COVER("repeated-again");
}
// ---- the real set and scorers
typedef DocumentBoundingBox<uint32_t> D;
typedef ShapedEvent<std::string, D> SE;
typedef ScoredEvent<SE> SH;
typedef SimpleMatcher<SE, SH> RM;
static SE row(const std::string &n, uint32_t M, bool vary) {
  std::string q(1, vary ? (char)sym_u32((n + "q").c_str(), 'a', 'b') : 'a'), d(1, vary ? (char)sym_u32((n + "d").c_str(), 'd', 'e') : 'd');
  return SE(q, D(d, sym_u32((n + "x").c_str(), 0, M), 3, sym_u32((n + "w").c_str(), 0, M), 1));
}
static uint32_t inter(const SE &a, const SE &b) {
  if (a.Query() != b.Query() || a.Location().document != b.Location().document) return 0;
  const D &p = a.Location(), &q = b.Location();
  uint32_t x1 = p.x > q.x ? p.x : q.x, x2 = p.x + p.w < q.x + q.w ? p.x + p.w : q.x + q.w;
  return x1 < x2 ? x2 - x1 : 0;
}
static int cmp(const SE &a, const SE &b) {
  int c = a.Query().compare(b.Query());
  if (c) return c < 0 ? -1 : 1;
  const D &p = a.Location(), &q = b.Location();
  c = p.document.compare(q.document);
  if (c) return c < 0 ? -1 : 1;
  if (p.x != q.x) return p.x < q.x ? -1 : 1;
  if (p.w != q.w) return p.w < q.w ? -1 : 1;
  return 0;
}
static void judge(bool iou, const std::vector<SE> &refs, const std::vector<SE> &dist, const std::vector<SH> &hy) {
  size_t nh = hy.size();
  IntersectionOverHypothesisAreaScorer<SE, SH> s1(0.5f);
  IntersectionOverUnionAreaScorer<SE, SH> s2(0.5f);
  RM m(iou ? (Scorer<SE, SH> *)&s2 : (Scorer<SE, SH> *)&s1);
  auto r = m.Match(refs, hy);
  // candidates by decreasing overlap, then decreasing event
  std::vector<std::vector<Cand>> c;
  for (const SH &h : hy) {
    std::vector<size_t> l;
    for (size_t i = 0; i < dist.size(); ++i)
      if (inter(dist[i], h)) {
        size_t at = l.size();
        while (at > 0 && (inter(dist[l[at - 1]], h) < inter(dist[i], h) || (inter(dist[l[at - 1]], h) == inter(dist[i], h) && cmp(dist[l[at - 1]], dist[i]) < 0))) --at;
        l.insert(l.begin() + at, i);
      }
    std::vector<Cand> cl;
    for (size_t i : l) {
      uint32_t in = inter(dist[i], h), base = iou ? dist[i].Location().w + h.Location().w - in : h.Location().w;
      float e = h.Location().w && 2 * in >= base ? 0.0f : 1.0f;
      cl.push_back(Cand{i, e, e});
    }
    c.push_back(cl);
  }
  Want g = greedy(dist.size(), c);
  size_t k = 0;
  for (size_t h = 0; h < nh; ++h) {
    if (g.of[h] == -2) { COVER("repeated"); continue; }
    CHECK(k < r.size() && r[k].HasHyp() && r[k].GetHyp().Score() == hy[h].Score() && cmp(r[k].GetHyp(), hy[h]) == 0, "hypotheses are reported in the order given (boxes)");
    const auto &x = r[k++];
    if (g.of[h] == -1) { CHECK(!x.HasRef() && x.GetError().FP() == 1.0f && x.GetError().FN() == 0.0f, "a hypothesis that hits nothing is a false positive (boxes)"); COVER("false-positive"); continue; }
    CHECK(x.HasRef() && cmp(x.GetRef(), dist[c[h][g.of[h]].ref]) == 0, "a hypothesis takes its best free acceptable reference (boxes)");
    CHECK(x.GetError().FP() == 0.0f && x.GetError().FN() == 0.0f, "a match carries the error of its pair (boxes)");
    if (g.of[h] > 0) COVER("second-choice"); else COVER("first-choice");
  }
  size_t left = 0;
  for (size_t i = 0; i < dist.size(); ++i)
    if (!g.taken[i]) {
      ++left;
      size_t n = 0;
      for (size_t j = k; j < r.size(); ++j) if (r[j].HasRef() && !r[j].HasHyp() && cmp(r[j].GetRef(), dist[i]) == 0) ++n;
      CHECK(n == 1, "a free reference is one false negative (boxes)");
      COVER("false-negative");
    }
  CHECK(r.size() == k + left, "nothing else is reported (boxes)");
}
static void real(bool iou) {
  size_t nr = PARAM("refs", 2), nh = PARAM("hyps", 2);
  uint32_t M = (1u << PARAM("bits", 3)) - 1;
  bool vary = PARAM("vary", 0);
  std::vector<SE> refs, dist;
  std::vector<SH> hy;
  for (size_t i = 0; i < nr; ++i) {
    refs.push_back(row(nm("r", i), M, vary));
    bool dup = false;
    for (const SE &e : dist) if (cmp(e, refs[i]) == 0) dup = true;
    if (dup) COVER("duplicate-reference"); else dist.push_back(refs[i]);
  }
  auto sc = scores("s", nh);
  for (size_t i = 0; i < nh; ++i) hy.push_back(SH(row(nm("h", i), M, vary), sc[i]));
  judge(iou, refs, dist, hy);
}
extern "C" void h_real_ioh() { real(false); }
extern "C" void h_real_iou() { real(true); }
// identity events with the exact scorer
typedef SimpleMatcher<IE, IH> TM;
extern "C" void h_real_trivial() {
  size_t nr = PARAM("refs", 2), nh = PARAM("hyps", 3);
  std::vector<IE> refs, dist;
  std::vector<IH> hy;
  for (size_t i = 0; i < nr; ++i) {
    IE e(sym_i32(nm("rq", i).c_str(), -2, 2), sym_i32(nm("rl", i).c_str(), -2, 2));
    refs.push_back(e);
    bool dup = false;
    for (const IE &d : dist) if (d.Query() == e.Query() && d.Location() == e.Location()) dup = true;
    if (!dup) dist.push_back(e);
  }
  auto sc = scores("s", nh);
  for (size_t i = 0; i < nh; ++i) hy.push_back(IH(IE(sym_i32(nm("hq", i).c_str(), -2, 2), sym_i32(nm("hl", i).c_str(), -2, 2)), sc[i]));
  TrivialScorer<IE, IH> s;
  TM m(&s);
  auto r = m.Match(refs, hy);
  std::vector<char> taken(dist.size(), 0);
  size_t k = 0;
  for (size_t h = 0; h < nh; ++h) {
    int at = -1;
    for (size_t i = 0; i < dist.size(); ++i) if (dist[i].Query() == hy[h].Query() && dist[i].Location() == hy[h].Location()) at = (int)i;
    if (at >= 0 && taken[at]) { COVER("repeated"); continue; }
    CHECK(k < r.size() && r[k].HasHyp() && r[k].GetHyp().Score() == sc[h], "hypotheses are reported in the order given (identity)");
    const auto &x = r[k++];
    CHECK(x.HasRef() == (at >= 0), "a hypothesis matches exactly the identical reference");
    if (at >= 0) { CHECK(x.GetRef().Query() == hy[h].Query() && x.GetRef().Location() == hy[h].Location(), "the matched reference is the identical one"); taken[at] = 1; COVER("match"); }
  }
  size_t left = 0;
  for (char t : taken) left += !t;
  CHECK(r.size() == k + left, "free references are the false negatives (identity)");
}
// hundreds of events, one hypothesis anywhere
extern "C" void h_match_big() {
  size_t n = PARAM("n", 300), nh = n * (1 + 2 * pick("more", 0, 1)), at = pick("at", 0, 2) * (n / 2 - 1);
  std::vector<IE> refs;
  std::vector<IH> hy;
  for (size_t i = 0; i < n; ++i) refs.push_back(IE((int32_t)(i % 40), (int32_t)(i / 40)));
  for (size_t i = 0; i < nh; ++i) {
    bool free = i == at;
    size_t k = (i * 7) % (n + 30);
    int32_t q = free ? (int32_t)pick("q", 0, 1) * 300 + 3 : (int32_t)(k % 40), l = free ? (int32_t)pick("l", 0, 2) : (int32_t)(k / 40);
    hy.push_back(IH(IE(q, l), free ? scores("s", 1)[0] : (float)nh - (float)i));
  }
  TrivialScorer<IE, IH> s;
  TM m(&s);
  auto r = m.Match(refs, hy);
  std::vector<char> taken(n, 0);
  size_t k = 0, rep = 0;
  for (size_t h = 0; h < nh; ++h) {
    int32_t q = hy[h].Query(), l = hy[h].Location();
    size_t i = q < 40 ? (size_t)(l * 40 + q) : n;
    if (i < n && taken[i]) { ++rep; continue; }
    CHECK(k < r.size() && r[k].HasHyp() && r[k].GetHyp().Score() == hy[h].Score(), "hypotheses are reported in the order given (many)");
    const auto &x = r[k++];
    CHECK(x.HasRef() == (i < n), "a hypothesis matches exactly the identical reference (many)");
    if (i < n) { CHECK(x.GetRef().Query() == q && x.GetRef().Location() == l, "the matched reference is the identical one (many)"); taken[i] = 1; }
  }
  std::vector<char> missed(n, 0);
  for (; k < r.size(); ++k) {
    CHECK(r[k].HasRef() && !r[k].HasHyp(), "false negatives come last (many)");
    size_t i = (size_t)(r[k].GetRef().Location() * 40 + r[k].GetRef().Query());
    CHECK(i < n && !taken[i] && !missed[i], "each free reference is missed once (many)");
    missed[i] = 1;
  }
  for (size_t i = 0; i < n; ++i) CHECK(taken[i] != missed[i], "every reference is accounted for (many)");
  CHECK(m.GetRepeatedMatches().size() == rep, "repeated matches are kept (many)");
  if (rep) COVER("repeated");
  COVER("big");
}
// dozens of references under every hypothesis, taken one after another
extern "C" void h_match_crowd() {
  size_t nr = PARAM("refs", 48), nh = PARAM("hyps", 54), odd = pick("odd", 0, 1) * (nr - 3);
  std::vector<SE> refs;
  std::vector<SH> hy;
  uint32_t w = sym_u32("w", 24, 24 + PARAM("widths", 4));
  std::string q(1, (char)sym_u32("q", 'a', 'b'));
  for (size_t i = 0; i < nr; ++i) {
    size_t k = (i * 53) % nr;
    refs.push_back(SE(i == odd ? q : "a", D("d", i == odd ? 40 : (uint32_t)(k % 40), 3, i == odd ? w : (uint32_t)(50 + (k * 37) % 50 + k / 40), 1)));
  }
  for (size_t h = 0; h < nh; ++h) hy.push_back(SH(SE("a", D("d", 30 + (uint32_t)(h % 7), 3, 52 + (uint32_t)(h % 3), 1)), (float)(nh - h)));
  judge(pick("iou", 0, 1), refs, refs, hy);
  COVER("crowd");
}
