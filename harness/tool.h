// Whole runs of a tool on files in memory: C14, C17, C19, C20, C22, C24-C27.
// The including file defines TOOL_MAIN (the tool's main) and ICDAR (0 or 1).
#pragma once
#include "assess.h"
#include <sstream>
typedef std::vector<std::string> Words;
static int64_t call_main(void *p) {
  Words *w = (Words *)p;
  std::vector<const char *> argv;
  for (const auto &x : *w) argv.push_back(x.c_str());
  argv.push_back(nullptr);
  return TOOL_MAIN((int)w->size(), argv.data());
}
static int64_t tool(const Words &args) {
  Words w{"tool"};
  w.insert(w.end(), args.begin(), args.end());
  return run_captured(call_main, &w);
}
static bool has(const std::string &s, const char *t) { return s.find(t) != std::string::npos; }
// ---------------------------------------------------------------- rows
struct Row { std::string q, d; uint32_t x, w; float s; };
static std::string text(const Row &r, bool hyp) {
  std::string t = r.q + " " + r.d;
  if (ICDAR) t += " " + kio_num(r.x) + " 3 " + kio_num(r.w) + " 2";
  if (hyp) t += " " + kio_f32(r.s);
  return t + "\n";
}
static std::string text(const std::vector<Row> &v, bool hyp) { std::string s; for (const Row &r : v) s += text(r, hyp); return s; }
static std::string letter(const std::string &n, char lo, size_t k) { return std::string(1, k > 1 ? (char)ksym_sym(n.c_str(), 8, (uint64_t)lo, (uint64_t)lo + k - 1, 0) : lo); }
struct Shape { size_t queries, docs; uint32_t M; int scores; };
// scores: 0 arbitrary, k > 0 one of k values
static Row row(const std::string &n, const Shape &sh, bool hyp) {
  Row r{letter(n + "q", 'a', sh.queries), letter(n + "d", 'k', sh.docs), 1, 2, 0};
  if (ICDAR) { r.x = sym_u32((n + "x").c_str(), 0, sh.M); r.w = sym_u32((n + "w").c_str(), 0, sh.M); }
  if (hyp) r.s = sh.scores ? (float)(int32_t)pick((n + "s").c_str(), 0, sh.scores - 1) * 0.5f - 0.5f : sym_score(n + "s");
  if (hyp && !sh.scores) ASSUME(!(r.s == 0.0f && std::signbit(r.s)));   // events that differ in the sign of zero alone tie
  return r;
}
static std::vector<Row> rows(const std::string &n, size_t k, const Shape &sh, bool hyp) {
  std::vector<Row> v;
  for (size_t i = 0; i < k; ++i) v.push_back(row(n + nm("", i), sh, hyp));
  return v;
}
static int cmp(const Row &a, const Row &b) {
  int c = a.q.compare(b.q);
  if (c) return c;
  if ((c = a.d.compare(b.d))) return c;
  if (!ICDAR) return 0;
  if (a.x != b.x) return a.x < b.x ? -1 : 1;
  if (a.w != b.w) return a.w < b.w ? -1 : 1;
  return 0;
}
static uint32_t inter(const Row &a, const Row &b) {
  if (a.q != b.q || a.d != b.d) return 0;
  if (!ICDAR) return 1;
  uint32_t x1 = a.x > b.x ? a.x : b.x, x2 = a.x + a.w < b.x + b.w ? a.x + a.w : b.x + b.w;
  return x1 < x2 ? x2 - x1 : 0;
}
static bool hits(const Row &ref, const Row &hyp) {
  uint32_t i = inter(ref, hyp);
  return ICDAR ? hyp.w > 0 && 2 * i >= hyp.w : i > 0;
}
// ---------------------------------------------------------------- definitions
struct Options {
  bool collapse = true, interp = true, trap = true;
  std::string sort = "desc";
};
struct MatchRow { M1 m; std::string q; int ref, hyp; };
struct Eval { std::vector<MatchRow> matches; std::vector<std::pair<int, int>> repeated; std::vector<Row> refs, hyps; };
static void sort_rows(std::vector<Row> *v, const std::string &how) {
  if (how != "desc" && how != "asc") return;
  std::vector<Row> r;
  for (const Row &x : *v) {
    size_t at = r.size();
    while (at > 0) {
      const Row &y = r[at - 1];
      bool before = how == "desc" ? x.s > y.s || (x.s == y.s && cmp(x, y) > 0) : x.s < y.s || (x.s == y.s && cmp(x, y) < 0);
      if (!before) break;
      --at;
    }
    r.insert(r.begin() + at, x);
  }
  *v = r;
}
static Eval evaluate(const std::vector<Row> &refs, const std::vector<Row> &hyps, const Options &o) {
  Eval e;
  for (const Row &r : refs) {
    bool dup = false;
    for (const Row &d : e.refs) if (cmp(d, r) == 0) { dup = true; break; }
    if (!dup) e.refs.push_back(r); else COVER("duplicate-reference");
  }
  e.hyps = hyps;
  sort_rows(&e.hyps, o.sort);
  std::vector<char> taken(e.refs.size(), 0);
  for (size_t h = 0; h < e.hyps.size(); ++h) {
    std::vector<size_t> l;   // overlapping references, best first
    for (size_t i = 0; i < e.refs.size(); ++i) {
      uint32_t in = inter(e.refs[i], e.hyps[h]);
      if (!in) continue;
      size_t at = l.size();
      while (at > 0) {
        uint32_t other = inter(e.refs[l[at - 1]], e.hyps[h]);
        if (!(other < in || (other == in && cmp(e.refs[l[at - 1]], e.refs[i]) < 0))) break;
        --at;
      }
      l.insert(l.begin() + at, i);
    }
    bool hit = false;
    for (size_t i : l) {
      if (!hits(e.refs[i], e.hyps[h])) continue;
      hit = true;
      if (!taken[i]) {
        taken[i] = 1;
        e.matches.push_back(MatchRow{M1{HIT, e.hyps[h].s, 0, 0, 0}, e.hyps[h].q, (int)i, (int)h});
        COVER("hit");
        break;
      }
      e.repeated.push_back({(int)i, (int)h});
      COVER("repeated");
    }
    if (!hit) { e.matches.push_back(MatchRow{M1{FALSEPOS, e.hyps[h].s, 1, 0, 0}, e.hyps[h].q, -1, (int)h}); COVER("false-positive"); }
  }
  for (size_t i = 0; i < e.refs.size(); ++i)
    if (!taken[i]) { e.matches.push_back(MatchRow{M1{FALSENEG, 0, 0, 1, 0}, e.refs[i].q, (int)i, -1}); COVER("false-negative"); }
  return e;
}
typedef std::vector<std::vector<M1>> Grouped;
static std::vector<M1> all_of(const Eval &e) { std::vector<M1> v; for (const auto &m : e.matches) v.push_back(m.m); return v; }
// group[q] for the queries of the file of groups
static Grouped grouped(const Eval &e, const std::map<std::string, std::string> &group) {
  Grouped g;
  std::vector<std::string> names;
  for (const auto &m : e.matches) {
    auto it = group.find(m.q);
    const std::string name = it == group.end() ? m.q : it->second;
    size_t i = 0;
    while (i < names.size() && names[i] != name) ++i;
    if (i == names.size()) { names.push_back(name); g.emplace_back(); }
    g[i].push_back(m.m);
  }
  return g;
}
static double ap_of(const std::vector<M1> &v, const Options &o) {
  std::vector<double> pr, rc;
  def_curve(points(v, o.collapse), o.interp, &pr, &rc);
  return def_ap(pr, rc, o.trap);
}
static double ndcg_of(const std::vector<M1> &v, const Options &o) { return def_ndcg(points(v, o.collapse)); }
struct Measures { double v[4]; };
static const char *NAMES[] = {"gAP", "mAP", "gNDCG", "mNDCG"};
static Measures measures(const std::vector<M1> &all, const Grouped &g, const Options &o) {
  Measures m{{ap_of(all, o), 0, ndcg_of(all, o), 0}};
  for (const auto &v : g) { m.v[1] += ap_of(v, o); m.v[3] += ndcg_of(v, o); }
  if (!g.empty()) { m.v[1] /= (double)g.size(); m.v[3] /= (double)g.size(); }
  return m;
}
// ---------------------------------------------------------------- output
struct Printed { bool ok; double v[4], lo[4], hi[4]; bool ci[4]; };
static bool number(const std::string &t, double *v) { std::istringstream i(t); i >> *v; return !i.fail() && i.eof(); }
static Printed printed() {
  Printed p{};
  std::istringstream in(kout());
  std::string line;
  for (int i = 0; i < 4; ++i) {
    if (!std::getline(in, line)) return p;
    std::string head = std::string(NAMES[i]) + " = ";
    if (line.compare(0, head.size(), head) != 0) return p;
    std::string rest = line.substr(head.size());
    size_t b = rest.find(" [");
    if (b != std::string::npos) {
      size_t c = rest.find(", ", b);
      if (c == std::string::npos || rest.back() != ']') return p;
      p.ci[i] = true;
      if (!number(rest.substr(b + 2, c - b - 2), &p.lo[i]) || !number(rest.substr(c + 2, rest.size() - c - 3), &p.hi[i])) return p;
      rest = rest.substr(0, b);
    }
    if (!number(rest, &p.v[i])) return p;
  }
  if (std::getline(in, line)) return p;
  p.ok = true;
  return p;
}
static void same_measures(const Measures &m, const Printed &p, const char *const what[4]) {
  for (int i = 0; i < 4; ++i) if (PARAM("only", 15) >> i & 1) CHECK(near(p.v[i], m.v[i]), what[i]);
}
static const char *const DEFS[4] = {"the global average precision is that of the definition", "the mean average precision is that of the definition",
                                    "the global discounted gain is that of the definition", "the mean discounted gain is that of the definition"};
static void flag(Words *a, const char *name, bool v, size_t how) {
  if (how == 0) { if (!v) { a->push_back(name); a->push_back("false"); } return; }   // true is the default
  a->push_back(name);
  if (how == 1 || !v) a->push_back(v ? "true" : "0");
}
static Options options(Words *a, size_t mask) {
  // mask: bit 0 collapse, 1 interpolation, 2 trapezoid may vary; 3 the sorting may vary
  Options o;
  size_t how = pick("spelling", 0, PARAM("spellings", 0));
  if (mask & 1) o.collapse = pick("collapse", 0, 1);
  if (mask & 2) o.interp = pick("interp", 0, 1);
  if (mask & 4) o.trap = pick("trap", 0, 1);
  flag(a, "--collapse_matches", o.collapse, how);
  flag(a, "--interpolated_precision", o.interp, how);
  flag(a, "--trapezoid_integral", o.trap, how);
  if (mask & 8) {
    static const char *S[] = {"desc", "asc", "none", "Desc"};
    o.sort = S[pick("sort", 0, 3)];
    if (o.sort != "desc" || how) { a->push_back("--sort"); a->push_back(o.sort); }
  }
  return o;
}
static Shape shape() { return Shape{PARAM("queries", 2), PARAM("docs", 1), (uint32_t)PARAM("M", 3), (int)PARAM("scores", 0)}; }
static bool tie_free(const std::vector<Row> &h) {
  for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < i; ++j) if (h[i].s == h[j].s) return false;
  return true;
}
// ---------------------------------------------------------------- C20
extern "C" void h_eval() {
  Shape sh = shape();
  auto refs = rows("r", pick("refs", PARAM("minr", 0), PARAM("refs", 2)), sh, false);
  auto hyps = rows("h", pick("hyps", PARAM("minh", 0), PARAM("hyps", 2)), sh, true);
  Words a;
  Options o = options(&a, PARAM("mask", 7));
  // the order of equal scores among different events shows only when they are kept apart
  if (!ICDAR && !o.collapse && (o.sort == "desc" || o.sort == "asc")) ASSUME(tie_free(hyps));
  kfs_put("refs", text(refs, false));
  bool in = PARAM("stdin", 0) && pick("stdin", 0, 1);
  if (in) kfs_stdin(text(hyps, true)); else kfs_put("hyps", text(hyps, true));
  a.push_back("refs");
  if (!in) a.push_back("hyps");
  Eval e = evaluate(refs, hyps, o);
  int64_t st = tool(a);
  CHECK(st == 0, "a run on good files ends with status zero");
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order");
  if (!p.ok) return;
  same_measures(measures(all_of(e), grouped(e, {}), o), p, DEFS);
  CHECK(has(kerr(), "WARN") == (o.sort == "Desc"), "an unknown sorting is warned about");
  COVER(in ? "stdin" : "files");
}
// hundreds of lines, one hypothesis of any score
extern "C" void h_eval_big() {
  size_t nr = PARAM("refs", 90), nh = PARAM("hyps", 140), at = pick("at", 0, 2) * (nh / 2 - 1);
  std::vector<Row> refs, hyps;
  auto name = [](char c, size_t k) { return std::string(1, c) + std::to_string(k); };
  for (size_t i = 0; i < nr; ++i) refs.push_back(Row{name('q', i % 13), name('d', i % 11), (uint32_t)(i * 5 % 17), (uint32_t)(2 + i % 4), 0});
  for (size_t i = 0; i < nh; ++i) hyps.push_back(Row{name('q', i * 3 % 15), name('d', i * 2 % 11), (uint32_t)(i * 5 % 17), (uint32_t)(2 + i % 3), (float)((i * 37) % 509) - 250.0f});
  float s = sym_score("score");
  hyps[at].s = s;
  for (size_t i = 0; i < nh; ++i) if (i != at) ASSUME(s != hyps[i].s);
  if (PARAM("narrow", 1)) ASSUME((s > -20.0f) & (s < 20.0f));
  Words a;
  Options o = options(&a, PARAM("mask", 1));
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  a.push_back("refs"); a.push_back("hyps");
  Eval e = evaluate(refs, hyps, o);
  CHECK(tool(a) == 0, "a run on good files ends with status zero (many lines)");
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order (many lines)");
  if (!p.ok) return;
  same_measures(measures(all_of(e), grouped(e, {}), o), p, DEFS);
  COVER("big");
}
// hundreds of lines: a hypothesis of any score in a narrow range
struct Big { std::vector<Row> refs, hyps; };
static Big big_rows(size_t nr, size_t nh, size_t queries) {
  Big b;
  auto name = [](char c, size_t k) { return std::string(1 + k % 5 / 4 * 60 + k % 10 / 9 * 240, c) + std::to_string(k); };
  for (size_t i = 0; i < nr; ++i) b.refs.push_back(Row{name('q', i % queries), name('d', i % 11), (uint32_t)(i * 5 % 17), (uint32_t)(2 + i % 4), 0});
  for (size_t i = 0; i < nh; ++i) b.hyps.push_back(Row{name('q', i * 3 % (queries + 2)), name('d', i * 2 % 11), (uint32_t)(i * 5 % 17), (uint32_t)(2 + i % 3), (float)((i * 37) % 1021) - 250.0f});
  size_t at = pick("at", 0, 2) * (nh / 2 - 1);
  float s = sym_score("score");
  b.hyps[at].s = s;
  for (size_t i = 0; i < nh; ++i) if (i != at) ASSUME(s != b.hyps[i].s);
  ASSUME((s > -10.0f) & (s < 10.0f));
  return b;
}
// ---------------------------------------------------------------- C01
extern "C" void h_lineno() {
  std::string good = ICDAR ? "a k 1 2 3 4" : "a k";
  size_t where = pick("file", 0, 2), before = pick("before", 0, 3), bad = 0;   // references, hypotheses, standard input
  std::string s;
  for (size_t i = 0; i < before; ++i) {
    static const char *L[] = {"", " \t", "# c", nullptr};
    const char *l = L[pick(nm("line", i).c_str(), 0, 3)];
    s += l ? std::string(l) + "\n" : good + (where ? " 1\n" : "\n");
  }
  bad = before + 1;
  size_t kind = pick("bad", 0, 2);
  s += kind == 0 ? "a" : kind == 1 ? good + (where ? " x" : " 1 x") : good + (where ? " 1 1" : " k k k");
  if (pick("newline", 0, 1)) s += "\n" + good + (where ? " 2\n" : "\n");
  kfs_put("refs", where == 0 ? s : "\n\n\n\n" + good + "\n");
  if (where == 2) kfs_stdin(s); else kfs_put("hyps", where == 1 ? s : good + " 1\n");
  Words a{"refs"};
  if (where != 2) a.push_back("hyps");
  CHECK(tool(a) != 0, "a malformed line ends the run");
  std::istringstream err(kerr());
  std::string line;
  bool told = false;
  while (std::getline(err, line)) {
    if (!has(line, "ERROR")) continue;
    for (size_t i = 0; i < line.size();) {
      if (line[i] < '0' || line[i] > '9') { ++i; continue; }
      size_t v = 0;
      for (; i < line.size() && line[i] >= '0' && line[i] <= '9'; ++i) v = v * 10 + (size_t)(line[i] - '0');
      CHECK(v == bad, "the error names the line of the file, and no other");
      told = true;
    }
  }
  CHECK(told, "the error names the line of the file");
  COVER(where == 2 ? "stdin" : "file");
}
// ---------------------------------------------------------------- C20, continued
// the order of the lines, and running again
extern "C" void h_order() {
  Shape sh = shape();
  auto refs = rows("r", PARAM("refs", 2), sh, false), hyps = rows("h", PARAM("hyps", 2), sh, true);
  Words a;
  Options o = options(&a, ICDAR ? 1 : 0);
  a.push_back("refs"); a.push_back("hyps");
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  tool(a);
  Printed p = printed();
  size_t i = pick("refs.rot", 0, refs.size() - 1), j = pick("hyps.perm", 0, hyps.size() == 3 ? 5 : hyps.size() - 1);
  std::rotate(refs.begin(), refs.begin() + i, refs.end());
  std::rotate(hyps.begin(), hyps.begin() + j % hyps.size(), hyps.end());
  if (j >= hyps.size()) std::swap(hyps[0], hyps[1]);
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  tool(a);
  Printed q = printed();
  CHECK(p.ok && q.ok, "the four measures are printed once each, in order");
  for (int k = 0; k < 4; ++k) CHECK(near(p.v[k], q.v[k]), "the order of the lines does not change the measures");
  if (i || j) COVER("reordered"); else COVER("again");
}
// ---------------------------------------------------------------- C22
extern "C" void h_sort() {
  Shape sh = shape();
  auto refs = rows("r", PARAM("refs", 2), sh, false), hyps = rows("h", PARAM("hyps", 2), sh, true);
  static const char *S[] = {"desc", "asc", "none", "up"};
  std::string how = S[pick("sort", 0, 3)];
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  Words a{"--sort", how, "--dump_matches", "dump1", "refs", "hyps"};
  if (how == "desc" && pick("default", 0, 1)) a.erase(a.begin(), a.begin() + 2);
  CHECK(tool(a) == 0, "a run on good files ends with status zero");
  CHECK(has(kerr(), "WARN") == (how == "up"), "an unknown sorting is warned about");
  std::string out = kout();
  if (!ICDAR && how != "none" && how != "up") ASSUME(tie_free(hyps));   // ties are ordered by the numbers of the names
  sort_rows(&hyps, how);
  kfs_put("hyps", text(hyps, true));
  Words b{"--sort", "none", "--dump_matches", "dump2", "refs", "hyps"};
  CHECK(tool(b) == 0, "a run on good files ends with status zero");
  CHECK(kout() == out, "sorting evaluates the events in the order asked for");
  if (ICDAR) CHECK(kfs_get("dump1") == kfs_get("dump2"), "sorting matches the events in the order asked for, keeping all of them");
  COVER("sorted");
}
// any word as the criterion
extern "C" void h_sort_word() {
  size_t n = pick("len", 0, PARAM("len", 10));
  std::string w = sym_strn("w", n, 2, (char)255);
  auto is = [&](const char *t) { return w == t; };
  std::string how = is("desc") ? "desc" : is("asc") ? "asc" : is("none") ? "none" : "up";
  Row r{"a", "k", 1, 2, 0};
  std::vector<Row> refs{r, r}, hyps{Row{"b", "k", 1, 2, 0.5f}, Row{"a", "k", 1, 2, 0.75f}, Row{"a", "k", 1, 2, 0.25f}};
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  CHECK(tool({"--sort", w, "--dump_matches", "dump1", "refs", "hyps"}) == 0, "a run on good files ends with status zero");
  CHECK(has(kerr(), "WARN") == (how == "up"), "any unknown sorting is warned about, and no other");
  std::string out = kout();
  sort_rows(&hyps, how);
  kfs_put("hyps", text(hyps, true));
  CHECK(tool({"--sort", "none", "--dump_matches", "dump2", "refs", "hyps"}) == 0, "a run on good files ends with status zero");
  CHECK(kout() == out, "sorting evaluates the events in the order asked for");
  if (ICDAR) CHECK(kfs_get("dump1") == kfs_get("dump2"), "sorting matches the events in the order asked for, keeping all of them");
  if (how == "up") COVER("unknown"); else COVER("known");
}
// ---------------------------------------------------------------- C14
static std::vector<Row> keep(const std::vector<Row> &v, const std::vector<std::string> &qs) {
  std::vector<Row> r;
  for (const Row &x : v) for (const auto &q : qs) if (x.q == q) { r.push_back(x); break; }
  return r;
}
extern "C" void h_queryset() {
  Shape sh = shape();
  auto refs = rows("r", PARAM("refs", 2), sh, false), hyps = rows("h", PARAM("hyps", 2), sh, true);
  std::vector<std::string> qs;
  std::string content;
  static const char *SEP[] = {"\n", " ", "\n\n \t", "\r\n"};
  size_t n = pick("listed", 0, PARAM("listed", 2)), sep = pick("sep", 0, 3);
  for (size_t i = 0; i < n; ++i) {
    qs.push_back(letter(nm("q", i), 'a', sh.queries + 1));
    content += qs.back() + (i + 1 < n || sep == 0 || sep == 3 ? SEP[sep] : "");
  }
  kfs_put("set", content); kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  CHECK(tool({"--query_set", "set", "refs", "hyps"}) == 0, "a run with a query set ends with status zero");
  Printed p = printed();
  auto kr = keep(refs, qs), kh = keep(hyps, qs);
  Eval e = evaluate(kr, kh, Options());
  CHECK(p.ok, "the four measures are printed once each, in order");
  same_measures(measures(all_of(e), grouped(e, {}), Options()), p, DEFS);
  if (kr.size() < refs.size() && kr.size()) COVER("some-references");
  if (kh.size() < hyps.size() && kh.size()) COVER("some-hypotheses");
  if (kr.empty() && kh.empty()) COVER("nothing-left");
}
extern "C" void h_groups() {
  Shape sh = shape();
  auto refs = rows("r", PARAM("refs", 2), sh, false), hyps = rows("h", PARAM("hyps", 2), sh, true);
  static const char *NAME[] = {"G", "a", "H"};   // a group may have the name of a query
  std::map<std::string, std::string> group;
  std::vector<std::string> qs;
  std::string content;
  size_t lines = pick("lines", 0, 2), eol = pick("eol", 0, 2);
  static const char *END[] = {"\n", "", " \r\n"};
  for (size_t i = 0; i < lines; ++i) {
    std::string name = NAME[i == 0 ? pick("name", 0, 1) : pick("same", 0, 1) ? 0 : 2];
    content += (i ? eol == 2 ? " \r\n\t" : "\n" : "") + name;
    size_t members = pick(nm("members", i).c_str(), 1, 2);
    for (size_t k = 0; k < members; ++k) {
      std::string q = letter(nm("q", i) + nm(".", k), 'a', sh.queries + 1);
      for (const auto &o : qs) ASSUME(o != q);   // a query is listed once
      qs.push_back(q);
      content += (k ? "\t " : " ") + q;
    }
    for (size_t k = qs.size() - members; k < qs.size(); ++k) group[qs[k]] = name;
  }
  if (lines) content += END[eol];
  kfs_put("groups", content); kfs_put("set", "zzz"); kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  Words a{"--query_groups", "groups", "refs", "hyps"};
  if (pick("set", 0, 1)) { a.insert(a.begin(), "set"); a.insert(a.begin(), "--query_set"); }
  CHECK(tool(a) == 0, "a run with query groups ends with status zero");
  Printed p = printed();
  auto kr = keep(refs, qs), kh = keep(hyps, qs);
  Eval e = evaluate(kr, kh, Options());
  Grouped g = grouped(e, group);
  CHECK(p.ok, "the four measures are printed once each, in order");
  same_measures(measures(all_of(e), g, Options()), p, DEFS);
  if (kr.size() < refs.size()) COVER("left-out");
  if (g.size() == 1 && group.size() > 1) COVER("joined");
  if (g.size() == 2) COVER("two-groups");
}
// names of any bytes but blanks in a list, at the beginning of a line and after
extern "C" void h_list_names() {
  size_t m = PARAM("n", 2), how = pick("how", 0, 1);
  auto name = [&](const char *n) {
    std::string s;
    for (size_t i = 0, k = pick((std::string(n) + ".len").c_str(), 1, m); i < k; ++i) {
      char c = sym_char((n + std::to_string(i)).c_str());
      ASSUME((c != ' ') & ((unsigned)(unsigned char)c - 9u > 4u) & ((unsigned)(unsigned char)c > 2u));
      s += c;
    }
    return s;
  };
  std::string x = name("x"), g = name("g");
  if (x[0] == '#') { ksym_discard(); return; }   // a comment in a file of events
  for (const char *o : {"b", "c"}) if (x == o) { ksym_discard(); return; }
  std::vector<Row> refs{Row{x, "k", 1, 2, 0}, Row{"b", "k", 1, 2, 0}, Row{"c", "k", 1, 2, 0}};
  std::vector<Row> hyps{Row{"b", "l", 1, 2, 0.75f}, Row{x, "k", 1, 2, 0.5f}, Row{"c", "k", 1, 2, 0.25f}};
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  std::vector<std::string> qs{g, x};
  std::map<std::string, std::string> group;
  std::string list = g + " " + x;
  if (how) { list += "\nH b"; qs = {x, "b"}; group[x] = g; group["b"] = "H"; }
  if (pick("newline", 0, 1)) list += "\n";
  kfs_put("list", list);
  CHECK(tool({how ? "--query_groups" : "--query_set", "list", "refs", "hyps"}) == 0, "a run with a list of names ends with status zero");
  auto kr = keep(refs, qs), kh = keep(hyps, qs);
  Eval e = evaluate(kr, kh, Options());
  Grouped gr = grouped(e, group);
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order");
  if (!p.ok) return;
  same_measures(measures(all_of(e), gr, Options()), p, DEFS);
  if (how) COVER("groups"); else if (kr.size() == 2) COVER("both"); else COVER("one");
}
// ---------------------------------------------------------------- C28
// the number told after some words, -1 if they are not told
static int64_t told(const std::string &s, const std::string &after) {
  size_t at = s.find(after);
  if (at == std::string::npos || s.find(after, at + 1) != std::string::npos) return -1;
  size_t e = at + after.size(), b = e;
  while (e < s.size() && s[e] >= '0' && s[e] <= '9') ++e;
  double v;
  // a count that is a number of the program may also be a marked one
  while (e < s.size() && s[e] != ' ' && s[e] != '\n' && s[e] != '.') ++e;
  return number(s.substr(b, e - b), &v) ? (int64_t)v : -1;
}
static int64_t told_before(const std::string &s, const std::string &words) {
  size_t at = s.find(words);
  if (at == std::string::npos) return -1;
  size_t b = s.rfind(' ', at - 1);
  double v;
  return b != std::string::npos && number(s.substr(b + 1, at - b - 1), &v) ? (int64_t)v : -1;
}
extern "C" void h_info() {
  Shape sh = shape();
  auto refs = rows("r", pick("refs", 0, PARAM("refs", 2)), sh, false), hyps = rows("h", pick("hyps", 0, PARAM("hyps", 2)), sh, true);
  size_t how = pick("restrict", 0, 2), n = how ? pick("listed", how == 2 ? 1 : 0, 2) : 0, groups = 0;
  std::vector<std::string> qs;
  std::string content;
  for (size_t i = 0; i < n; ++i) {
    std::string q = letter(nm("q", i), 'a', sh.queries + 1);
    bool again = false;
    for (const auto &o : qs) if (o == q) again = true;
    if (how == 2) {
      ASSUME(!again);
      size_t join = i ? pick("join", 0, 2) : 0;   // a new group, the same line, the same group in another line
      if (join != 1) content += (i ? "\n" : "") + std::string(i && join == 0 ? "H" : "G");
      if (join == 0) ++groups;
      content += " " + q;
    } else content += q + "\n";
    if (!again) qs.push_back(q);
  }
  kfs_put("list", content); kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  Words a;
  if (how) a = {how == 1 ? "--query_set" : "--query_groups", "list"};
  a.push_back("refs"); a.push_back("hyps");
  CHECK(tool(a) == 0, "a run on good files ends with status zero");
  std::string s = kerr();
  CHECK(told(s, "reference events read = ") == (int64_t)refs.size(), "the number of references read is told");
  CHECK(told(s, "hypothesis events read = ") == (int64_t)hyps.size(), "the number of hypotheses read is told");
  auto kr = how ? keep(refs, qs) : refs, kh = how ? keep(hyps, qs) : hyps;
  int64_t r = kr.size() < refs.size() ? (int64_t)kr.size() : -1, h = kh.size() < hyps.size() ? (int64_t)kh.size() : -1;
  CHECK(told(s, "kept reference events = ") == r, "the number of references left is told when some are left out");
  CHECK(told(s, "kept hypothesis events = ") == h, "the number of hypotheses left is told when some are left out");
  CHECK(told_before(s, " queries were read") == (how ? (int64_t)qs.size() : -1), "the number of queries listed is told");
  CHECK(told_before(s, " groups were read") == (how == 2 ? (int64_t)groups : -1), "the number of groups listed is told");
  Eval e = evaluate(kr, kh, Options());
  int64_t eff = 0;
  for (const auto &m : e.matches) if (m.m.kind != FALSENEG) ++eff;
  CHECK(told(s, "Effective number of hypotheses is ") == (eff < (int64_t)kh.size() ? eff : -1), "the number of hypotheses that count is told when some do not");
  if (r >= 0 || h >= 0) COVER("left-out");
  if (eff < (int64_t)kh.size()) COVER("not-all-count");
}
// hundreds of queries listed
extern "C" void h_list_big() {
  size_t nq = PARAM("queries", 130), how = pick("how", 0, 3);   // a query in each line, all in one line, small groups, a large one
  Big b = big_rows(PARAM("refs", 150), PARAM("hyps", 170), nq);
  std::vector<std::string> qs;
  for (const Row &r : b.refs) {   // two of three names of the references, in another order
    bool known = false;
    for (const auto &q : qs) known |= q == r.q;
    if (!known) qs.push_back(r.q);
  }
  for (size_t i = 0, n = qs.size(); i < n; ++i) if (i % 3 == 1) { qs[i] = qs.back(); qs.pop_back(); --n; }
  for (size_t i = 0; i < 40; ++i) qs.push_back("other" + std::to_string(i));
  std::string content;
  std::map<std::string, std::string> group;
  std::set<std::string> names;
  for (size_t i = 0; i < qs.size(); ++i) {
    if (how == 0) content += qs[i] + "\n";
    if (how == 1) content += qs[i] + (i % 7 ? " " : "  \t") + (i % 10 ? "" : qs[i / 2] + " ");   // some listed twice
    if (how == 2) {   // three in a line; a group may have two lines
      if (i % 3 == 0) content += (i ? "\ngroup" : "group") + std::to_string(i / 3 % 25);
      content += " " + qs[i];
      group[qs[i]] = "group" + std::to_string(i / 3 % 25);
    }
    if (how == 3) {
      bool first = i < qs.size() - 5;
      if (i == 0) content += "large";
      if (i == qs.size() - 5) content += "\nsmall";
      content += (i % 2 ? "\t" : " ") + qs[i];
      group[qs[i]] = first ? "large" : "small";
    }
  }
  for (const auto &kv : group) names.insert(kv.second);
  kfs_put("list", content); kfs_put("refs", text(b.refs, false)); kfs_put("hyps", text(b.hyps, true));
  CHECK(tool({how < 2 ? "--query_set" : "--query_groups", "list", "refs", "hyps"}) == 0, "a run with many queries listed ends with status zero");
  Printed p = printed();
  auto kr = keep(b.refs, qs), kh = keep(b.hyps, qs);
  Eval e = evaluate(kr, kh, Options());
  CHECK(p.ok, "the four measures are printed once each, in order (many listed)");
  same_measures(measures(all_of(e), grouped(e, group), Options()), p, DEFS);
  std::string s = kerr();
  int64_t eff = 0;
  for (const auto &m : e.matches) if (m.m.kind != FALSENEG) ++eff;
  CHECK(told(s, "reference events read = ") == (int64_t)b.refs.size(), "the number of references read is told (many)");
  CHECK(told(s, "hypothesis events read = ") == (int64_t)b.hyps.size(), "the number of hypotheses read is told (many)");
  CHECK(told(s, "kept reference events = ") == (kr.size() < b.refs.size() ? (int64_t)kr.size() : -1), "the number of references left is told (many)");
  CHECK(told(s, "kept hypothesis events = ") == (kh.size() < b.hyps.size() ? (int64_t)kh.size() : -1), "the number of hypotheses left is told (many)");
  CHECK(told_before(s, " queries were read") == (int64_t)qs.size(), "the number of queries listed is told (many)");
  CHECK(told_before(s, " groups were read") == (how >= 2 ? (int64_t)names.size() : -1), "the number of groups listed is told (many)");
  CHECK(told(s, "Effective number of hypotheses is ") == (eff < (int64_t)kh.size() ? eff : -1), "the number of hypotheses that count is told when some do not (many)");
  COVER("big");
}
// ---------------------------------------------------------------- C24
// every combination of one fault, or none
enum { GOOD, MISSING, MALFORMED, BROKEN };   // broken: an error while reading it
extern "C" void h_status() {
  static const char *LINE = ICDAR ? "a k 1 2 3 4" : "a k";
  std::string refs = std::string(LINE) + "\n", hyps = std::string(LINE) + " 0.5\n", junk = ICDAR ? "a k 1 2 x 4 5" : "a";
  size_t r = pick("references", 0, 3), h = pick("hypotheses", 0, 3), s = pick("set", 0, 3), g = pick("groups", 0, 4);
  size_t d = pick("dump", 0, 3), c1 = pick("curve", 0, 3), c2 = pick("mean-curve", 0, 3);
  bool in = pick("stdin", 0, 1), full = pick("full", 0, 1);   // full: the measures cannot be written
  bool one = (r || h) + (s >= 2) + (g >= 2) + (d >= 2) + (c1 >= 2) + (c2 >= 2) + full <= (int)PARAM("faults", 1);
  if (!one || (in && h == MISSING)) { ksym_discard(); return; }
  static const char *OUT[] = {"", "out", "/dev/full", "no/such/out"};
  static const char *BADG[] = {"G\nH a\n", "G a\nH\n", "\nG a\n", "G a\n \t\nH b\n", "G a\nH"};   // some line has no members
  Words a;
  if (s) { a.push_back("--query_set"); a.push_back(s == 2 ? "no-such-set" : "set"); kfs_put("set", s == 3 && pick("at-once", 0, 1) ? "" : "a\n"); if (s == 3) kfs_break("set"); }
  if (g) { a.push_back("--query_groups"); a.push_back(g == 1 || g == 4 ? "groups" : g == 2 ? "no-such-groups" : "bad-groups"); kfs_put("groups", g == 4 && pick("at-once", 0, 1) ? "" : "G a\n"); if (g == 4) kfs_break("groups"); kfs_put("bad-groups", BADG[pick("where", 0, 4)]); }
  if (d) { a.push_back("--dump_matches"); a.push_back(d == 1 ? "dump" : OUT[d]); }
  if (c1) { a.push_back("--output_grp"); a.push_back(c1 == 1 ? "grp" : OUT[c1]); }
  if (c2) { a.push_back("--output_mrp"); a.push_back(c2 == 1 ? "mrp" : OUT[c2]); }
  if (c1 || c2) { a.push_back("--rp_curve_samples"); a.push_back("3"); }
  size_t none = r || h || s >= 2 || g >= 2 || d >= 2 || c1 >= 2 || c2 >= 2 || full ? 0 : pick("empty", 0, 3);   // files without events
  if (none & 1) refs = pick("comment", 0, 1) ? "# nothing\n" : "";
  if (none & 2) hyps = "";
  std::string hc = h == MALFORMED ? hyps + junk + "\n" : hyps;
  std::string rc = r == MALFORMED ? refs + junk + "\n" : refs;
  if (r == BROKEN || h == BROKEN) {   // where the error comes
    size_t cut = pick("cut", 0, 2);
    std::string &c = r == BROKEN ? rc : hc;
    if (cut == 1) c = c.substr(0, c.size() - 1);
    if (cut == 2) c = "";
  }
  kfs_put("refs", rc);
  if (in) kfs_stdin(hc); else kfs_put("hyps", hc);
  if (r == BROKEN) kfs_break("refs");
  if (h == BROKEN) { if (in) kfs_stdin_break(); else kfs_break("hyps"); }
  kfs_stdout_full(full);
  a.push_back(r == MISSING ? "no-such-refs" : "refs");
  if (!in) a.push_back(h == MISSING ? "no-such-hyps" : "hyps");
  int64_t st = tool(a);
  bool input = r || h || (s >= 2 && !g) || g >= 2, output = d >= 2 || c1 >= 2 || c2 >= 2 || full;
  if (input || output) {
    CHECK(st != 0, "a failure is told by the status");
    CHECK(has(kerr(), "ERROR"), "a failure is reported");
    if (input) { CHECK(kout().empty(), "no measures are printed for unusable input"); COVER("input"); } else COVER("output");
    if (input) CHECK(!kfs_has("dump") && !kfs_has("grp") && !kfs_has("mrp"), "no results are written for unusable input");
  } else {
    CHECK(st == 0, "a good run ends with status zero");
    Printed p = printed();
    double v = none ? 0 : 1;
    CHECK(p.ok && near(p.v[0], v) && near(p.v[1], v) && near(p.v[2], v) && near(p.v[3], v), "a good run prints the four measures");
    if (none) COVER("no-events");
    CHECK(kfs_has("dump") == (d == 1) && kfs_has("grp") == (c1 == 1) && kfs_has("mrp") == (c2 == 1), "the files asked for are written, and no other");
    CHECK(!has(kerr(), "ERROR"), "a good run reports no error");
    COVER("good");
  }
}
extern "C" void h_usage() {
  kfs_put("refs", ICDAR ? "a k 1 2 3 4\n" : "a k\n"); kfs_put("hyps", ICDAR ? "a k 1 2 3 4 1\n" : "a k 1\n");
  static const char *OPT[] = {"--collapse_matches", "--interpolated_precision", "--trapezoid_integral", "--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg",
                              "--bootstrap_samples", "--bootstrap_seed", "--bootstrap_alpha", "--rp_curve_samples", "--sort", "--query_set", "--query_groups", "--dump_matches", "--output_grp", "--output_mrp"};
  size_t k = pick("case", 0, 6);
  Words a;
  int want = 1;
  if (k == 0) { a = {"--help"}; want = 0; }
  else if (k == 1) { a = {"--sort", "none", "--help", "refs", "hyps"}; want = 0; }
  else if (k == 2) a = {};
  else if (k == 3) a = {"refs", "hyps", "more"};
  else if (k == 4) { size_t o = pick("option", 7, 16); a = {OPT[o]}; }            // without its value
  else if (k == 5) { size_t o = pick("option", 0, 10); a = {OPT[o], "x", "refs", "hyps"}; }   // with a wrong value
  else { std::string w = "--" + sym_strn("w", pick("len", 1, 2), 'a', 'z'); a = {w, "refs", "hyps"}; }
  int64_t st = tool(a);
  CHECK(kout().empty(), "no measures are printed for a wrong command line or when asking for help");
  if (want) { CHECK(st != 0, "a wrong command line ends with a non-zero status"); CHECK(has(kerr(), "ERROR"), "a wrong command line is reported"); COVER("wrong"); }
  else {
    CHECK(st == 0, "asking for help ends with status zero");
    for (const char *o : OPT) CHECK(has(kerr(), o), "the help lists every option");
    CHECK(has(kerr(), "references") && has(kerr(), "hypotheses"), "the help lists the arguments");
    COVER("help");
  }
}
// ---------------------------------------------------------------- C25, C19
struct Curve { std::vector<double> x, y; bool ok; };
static Curve parse_curve(const std::string &s) {
  Curve c;
  std::istringstream in(s);
  std::string line;
  c.ok = s.empty() || s.back() == '\n';
  while (std::getline(in, line)) {
    size_t b = line.find(' ');
    double x, y;
    if (b == std::string::npos || !number(line.substr(0, b), &x) || !number(line.substr(b + 1), &y)) { c.ok = false; return c; }
    c.x.push_back(x); c.y.push_back(y);
  }
  return c;
}
// asked for increasing positions, from the point found last
static double sampled(const std::vector<double> &rc, const std::vector<double> &pr, double at, bool linear, size_t *from) {
  size_t j = *from;
  while (j < rc.size() && rc[j] < at) ++j;
  *from = j;
  if (j == rc.size()) return 0;
  if (!linear || j == 0) return pr[j];
  return pr[j - 1] + (pr[j] - pr[j - 1]) * (at - rc[j - 1]) / (rc[j] - rc[j - 1]);
}
// the two curve files, by the definition
static void check_curves(const std::vector<M1> &all, const Grouped &gr, const Options &o, size_t num) {
  Curve g = parse_curve(kfs_get("grp")), m = parse_curve(kfs_get("mrp"));
  CHECK(g.ok && m.ok, "a curve has two numbers in each line");
  CHECK(g.x.size() == num && m.x.size() == num, "a curve has the number of points asked for");
  if (!g.ok || !m.ok || g.x.size() != num || m.x.size() != num) return;
  std::vector<double> pr, rc;
  def_curve(points(all, o.collapse), o.interp, &pr, &rc);
  std::vector<std::vector<double>> prs(gr.size()), rcs(gr.size());
  for (size_t i = 0; i < gr.size(); ++i) def_curve(points(gr[i], o.collapse), o.interp, &prs[i], &rcs[i]);
  std::vector<size_t> from(gr.size() + 1, 0);
  for (size_t i = 0; i < num; ++i) {
    double at = (double)i / (double)(num - 1), s = 0;
    CHECK(near(g.x[i], at) && near(m.x[i], at), "the points are evenly spaced from zero to one");
    CHECK(near(g.y[i], sampled(rc, pr, at, o.trap, &from.back())), "the global curve is the curve of all matches");
    for (size_t k = 0; k < gr.size(); ++k) s += sampled(rcs[k], prs[k], at, o.trap, &from[k]);
    CHECK(near(m.y[i], gr.empty() ? 0 : s / (double)gr.size()), "the mean curve is the average over the groups");
  }
}
extern "C" void h_curves() {
  Shape sh = shape();
  auto refs = rows("r", pick("refs", 0, PARAM("refs", 2)), sh, false);
  auto hyps = rows("h", pick("hyps", 0, PARAM("hyps", 2)), sh, true);
  Words a;
  Options o = options(&a, PARAM("mask", 7));
  if (!ICDAR && !o.collapse) ASSUME(tie_free(hyps));
  static const char *N[] = {"2", "4", "5"};
  size_t n = pick("samples", 0, 2), num = (size_t)(N[n][0] - '0');
  a.insert(a.end(), {"--rp_curve_samples", N[n], "--output_grp", "grp", "--output_mrp", "mrp", "refs", "hyps"});
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  kfs_put("grp", "something\nlonger than what\nfollows and follows and follows and follows and follows and follows and follows and follows\n");
  Eval e = evaluate(refs, hyps, o);
  int64_t st = tool(a);
  CHECK(st == 0, "a run that writes curves ends with status zero");
  Grouped gr = grouped(e, {});
  check_curves(all_of(e), gr, o, num);
  if (gr.size() > 1) COVER("two-groups");
  if (gr.empty()) COVER("nothing");
}
extern "C" void h_curves_big() {
  Big b = big_rows(PARAM("refs", 60), PARAM("hyps", 90), 13);
  Words a;
  Options o = options(&a, PARAM("mask", 4));
  static const char *N[] = {"101", "300", "1500"};
  size_t n = pick("samples", 0, PARAM("sizes", 1)), num[] = {101, 300, 1500};
  a.insert(a.end(), {"--rp_curve_samples", N[n], "--output_grp", "grp", "--output_mrp", "mrp", "refs", "hyps"});
  kfs_put("refs", text(b.refs, false)); kfs_put("hyps", text(b.hyps, true));
  Eval e = evaluate(b.refs, b.hyps, o);
  CHECK(tool(a) == 0, "a run that writes curves ends with status zero (many)");
  check_curves(all_of(e), grouped(e, {}), o, num[n]);
  COVER("big");
}
// ---------------------------------------------------------------- C27
// the text of a dump, by the definition
static void check_dump(const Eval &e, const std::string &s) {
  // the simple tool writes names as numbers: a piece of \2 and a name stands for one
  std::vector<std::pair<std::string, std::string>> number_of;
  typedef std::vector<std::string> Pieces;
  auto ev = [&](const Row &r) { return ICDAR ? Pieces{r.q + " " + r.d + " " + kio_num(r.x) + " 3 " + kio_num(r.w) + " 2"} : Pieces{"\2" + r.q, " ", "\2" + r.d}; };
  auto hy = [&](const Row &r) { std::ostringstream t; t << r.s; Pieces p = ev(r); p.push_back(" " + t.str()); return p; };
  auto line = [&](const char *head, const Pieces *h, const Pieces *r, const char *err) {
    Pieces p{head};
    if (h) { p.push_back("Hyp="); p.insert(p.end(), h->begin(), h->end()); p.push_back(", "); }
    if (r) { p.push_back("Ref="); p.insert(p.end(), r->begin(), r->end()); p.push_back(", "); }
    p.push_back(std::string("Error=MatchError[") + err + "]]\n");
    return p;
  };
  std::vector<Pieces> want, rep, fns;
  for (const auto &m : e.matches) {
    Pieces h, r;
    if (m.hyp >= 0) h = hy(e.hyps[m.hyp]);
    if (m.ref >= 0) r = ev(e.refs[m.ref]);
    if (m.m.kind == HIT) want.push_back(line("Match[", &h, &r, "fp=0, fn=0, nh=1, nr=1"));
    if (m.m.kind == FALSEPOS) want.push_back(line("Match[", &h, nullptr, "fp=1, fn=0, nh=1, nr=0"));
    if (m.m.kind == FALSENEG) fns.push_back(line("Match[", nullptr, &r, "fp=0, fn=1, nh=0, nr=1"));
  }
  for (const auto &x : e.repeated) { Pieces h = hy(e.hyps[x.second]), r = ev(e.refs[x.first]); rep.push_back(line("## Match[", &h, &r, "fp=0, fn=0, nh=1, nr=1")); }
  size_t at = 0;
  auto eat = [&](const Pieces &t) {
    size_t p = at;
    auto m = number_of;
    for (const std::string &x : t) {
      if (x[0] != 2) { if (s.compare(p, x.size(), x) != 0) return false; p += x.size(); continue; }
      std::string n;
      while (p < s.size() && s[p] >= '0' && s[p] <= '9') n += s[p++];
      if (n.empty()) return false;
      bool known = false;
      for (const auto &kv : m) {
        bool same = x.compare(1, std::string::npos, kv.first) == 0;
        if (same != (kv.second == n)) return false;
        known |= same;
      }
      if (!known) m.push_back({x.substr(1), n});
    }
    at = p; number_of = m;
    return true;
  };
  for (const auto &w : want) CHECK(eat(w), "the dump lists the matches of the hypotheses in order");
  for (size_t k = 0; k < fns.size(); ++k) {   // in any order
    bool f = false;
    for (auto &w : fns) if (!w.empty() && eat(w)) { w.clear(); f = true; break; }
    CHECK(f, "the dump lists every free reference");
  }
  CHECK(eat(Pieces{"#### REPEATED MATCHES ####\n"}), "the repeated matches follow under their title");
  for (const auto &w : rep) CHECK(eat(w), "the dump lists the repeated matches");
  CHECK(at == s.size(), "the dump holds nothing else");
}
extern "C" void h_dump() {
  Shape sh = shape();
  auto refs = rows("r", pick("refs", 0, PARAM("refs", 2)), sh, false);
  auto hyps = rows("h", pick("hyps", 0, PARAM("hyps", 2)), sh, true);
  Options o;
  o.sort = "none";
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  if (pick("earlier", 0, 1)) kfs_put("dump", "an earlier dump\nof other matches\n");
  CHECK(tool({"--sort", "none", "--dump_matches", "dump", "refs", "hyps"}) == 0, "a run that dumps ends with status zero");
  check_dump(evaluate(refs, hyps, o), kfs_get("dump"));
  COVER("dumped");
}
// hundreds of matches
extern "C" void h_dump_big() {
  size_t nr = PARAM("refs", 90), nh = PARAM("hyps", 140), at = pick("at", 0, 2) * (nh / 2 - 1);
  std::vector<Row> refs, hyps;
  auto name = [](char c, size_t k) { return std::string(1 + k % 3 * 150, c) + std::to_string(k); };
  for (size_t i = 0; i < nr; ++i) refs.push_back(Row{name('q', i % 13), name('d', i % 11), (uint32_t)(i * 5 % 17), (uint32_t)(2 + i % 4), 0});
  for (size_t i = 0; i < nh; ++i) hyps.push_back(Row{name('q', i % 70 % 15), name('d', i % 70 * 2 % 11), (uint32_t)(i % 70 * 5 % 17), (uint32_t)(2 + i % 3), (float)((i * 37) % 509) - 250.0f});
  hyps[at].s = sym_score("score");
  Options o;
  o.sort = "none";
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  CHECK(tool({"--sort", "none", "--dump_matches", "dump", "refs", "hyps"}) == 0, "a run that dumps ends with status zero (many)");
  std::string s = kfs_get("dump");
  CHECK(s.size() > (ICDAR ? 66000 : 5000), "the dump of many matches is long");
  check_dump(evaluate(refs, hyps, o), s);
  COVER("dumped");
}
// ---------------------------------------------------------------- C17
// by decreasing score, the false negatives last
static void insert_match(std::vector<M1> *v, const M1 &x) {
  size_t at = v->size();
  while (at > 0 && ((*v)[at - 1].kind == FALSENEG ? x.kind != FALSENEG : x.kind != FALSENEG && x.score > (*v)[at - 1].score)) --at;
  v->insert(v->begin() + at, x);
}
// the bounds printed by the run, by the definition: the resamples by the seed; the groups may come in any order
static void check_bounds(const Printed &p, const Measures &m, const Grouped &g, const Options &o, size_t reps, double alpha, size_t seed) {
  std::vector<size_t> perm;
  for (size_t i = 0; i < g.size(); ++i) perm.push_back(i);
  bool lower = false, upper = false;
  do {
    std::default_random_engine rng(seed);
    auto draw = [&](size_t n) { std::uniform_int_distribution<size_t> d(0, n - 1); return d(rng); };
    std::vector<Measures> ms;
    for (size_t r = 0; r < reps; ++r) {
      Grouped s;
      for (size_t i = 0; i < g.size(); ++i) {
        const auto &q = g[perm[draw(g.size())]];
        s.emplace_back();
        for (size_t j = 0; j < q.size(); ++j) insert_match(&s.back(), q[draw(q.size())]);
      }
      std::vector<M1> all;
      for (const auto &q : s) for (const M1 &x : q) insert_match(&all, x);
      ms.push_back(measures(all, s, o));
    }
    bool l = true, u = true;
    for (size_t k = 0; k < 4; ++k) {
      if (!p.ci[k]) continue;
      double lo = m.v[k], hi = m.v[k];
      if (reps) {
        std::vector<double> d;
        for (const auto &x : ms) {
          double v = x.v[k] - m.v[k];
          size_t at = d.size();
          while (at > 0 && d[at - 1] > v) --at;
          d.insert(d.begin() + at, v);
        }
        lo = m.v[k] - d[std::min((size_t)((1 - alpha / 2) * (double)reps), reps - 1)];
        hi = m.v[k] - d[std::min((size_t)(alpha / 2 * (double)reps), reps - 1)];
      }
      l &= near(p.lo[k], lo); u &= near(p.hi[k], hi);
    }
    lower |= l; upper |= u;
    if (l && u) break;
  } while (std::next_permutation(perm.begin(), perm.end()));
  CHECK(lower, "the lower bounds are those of the definition");
  CHECK(upper, "the upper bounds are those of the definition");
}
extern "C" void h_boot() {
  Shape sh = shape();
  auto refs = rows("r", pick("refs", 0, PARAM("refs", 1)), sh, false), hyps = rows("h", pick("hyps", 0, PARAM("hyps", 2)), sh, true);
  size_t which = pick("measure", 0, 4), reps = pick("reps", 0, PARAM("reps", 1));
  static const char *B[] = {"--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg"};
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  Words a{"--bootstrap_samples", std::to_string(reps), "--bootstrap_seed", "77", "--bootstrap_alpha", "0.5"};
  for (size_t k = 0; k < 4; ++k) if (k == which || which == 4) a.push_back(B[k]);
  a.insert(a.end(), {"--", "refs", "hyps"});
  Options o;
  Eval e = evaluate(refs, hyps, o);
  Grouped g = grouped(e, {});
  Measures m = measures(all_of(e), g, o);
  CHECK(tool(a) == 0, "a run with bootstrapping ends with status zero");
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order");
  if (!p.ok) return;
  for (size_t k = 0; k < 4; ++k) CHECK(p.ci[k] == (k == which || which == 4), "the bounds are printed for the measures asked for");
  same_measures(m, p, DEFS);
  check_bounds(p, m, g, o, reps, 0.5, 77);
  if (which == 4) COVER("all-bounds");
  COVER("bounds");
}
// many repetitions over more matches; the draw at one position is free, the others are fixed
extern "C" void h_boot_many() {
  size_t nr = PARAM("refs", 6), nh = PARAM("hyps", 9), reps = PARAM("reps", 41);   // no level falls on a whole number of repetitions
  std::vector<Row> refs, hyps;
  for (size_t i = 0; i < nr; ++i) refs.push_back(Row{std::string(1, (char)('a' + i % 3)), "k" + std::to_string(i), (uint32_t)(1 + i), 2, 0});
  for (size_t i = 0; i < nh; ++i) hyps.push_back(Row{std::string(1, (char)('a' + i * 2 % 3)), "k" + std::to_string(i * 5 % 8), (uint32_t)(1 + i * 5 % 8), 2, (float)(i * 7 % 13) * 0.5f});
  hyps[2].s = sym_score("score");
  ASSUME(tie_free(hyps));
  k_draw_free = pick("free", 0, 2) * 7 - 2;   // none, and two in the first resample
  static const char *L[] = {"0.5", "0.05", "0.25", "0", "1"};
  static const double A[] = {0.5, 0.05, 0.25, 0, 1};
  size_t al = pick("alpha", 0, 4), which = al == 1 || PARAM("wide", 0) ? pick("measure", 0, 4) : 4;
  static const char *B[] = {"--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg"};
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  Words a{"--bootstrap_samples", std::to_string(reps)};
  size_t seed = 0x12345;   // the default
  if (pick("seed", 0, 1)) { seed = 5; a.insert(a.end(), {"--bootstrap_seed", "5"}); }
  if (al != 1) a.insert(a.end(), {"--bootstrap_alpha", L[al]});   // 0.05 is the default
  for (size_t k = 0; k < 4; ++k) if (k == which || which == 4) a.push_back(B[k]);
  a.insert(a.end(), {"--", "refs", "hyps"});
  Options o;
  Eval e = evaluate(refs, hyps, o);
  Grouped g = grouped(e, {});
  Measures m = measures(all_of(e), g, o);
  CHECK(tool(a) == 0, "a run with bootstrapping ends with status zero (many)");
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order (many)");
  if (!p.ok) return;
  for (size_t k = 0; k < 4; ++k) CHECK(p.ci[k] == (k == which || which == 4), "the bounds are printed for the measures asked for");
  same_measures(m, p, DEFS);
  check_bounds(p, m, g, o, reps, A[al], seed);
  COVER("many");
}
// the value beside the bounds, for hypotheses ordered otherwise
extern "C" void h_boot_order() {
  Shape sh = shape();
  auto refs = rows("r", pick("refs", 0, PARAM("refs", 1)), sh, false), hyps = rows("h", pick("hyps", 0, PARAM("hyps", 2)), sh, true);
  ASSUME(tie_free(hyps));
  size_t which = pick("measure", 0, 3);
  static const char *B[] = {"--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg"};
  static const char *S[] = {"desc", "asc", "none", "up"};
  Options o, d;
  o.sort = S[pick("sort", 0, 3)];
  kfs_put("refs", text(refs, false)); kfs_put("hyps", text(hyps, true));
  CHECK(tool({"--sort", o.sort, "--bootstrap_samples", "0", B[which], "--", "refs", "hyps"}) == 0, "a run with bootstrapping ends with status zero");
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order");
  if (!p.ok) return;
  Eval e = evaluate(refs, hyps, o);
  Measures m = measures(all_of(e), grouped(e, {}), o);
  // the matches by decreasing score
  Grouped g = grouped(e, {}), gd;
  std::vector<M1> all;
  for (const auto &q : g) { gd.emplace_back(); for (const M1 &x : q) { insert_match(&gd.back(), x); insert_match(&all, x); } }
  Measures resorted = measures(all, gd, o);
  for (size_t k = 0; k < 4; ++k) {
    CHECK(p.ci[k] == (k == which), "the bounds are printed for the measures asked for");
    if (k != which) { CHECK(near(p.v[k], m.v[k]), "the measures without bounds are those of the definition"); continue; }
    CHECK(near(p.lo[k], p.v[k]) && near(p.hi[k], p.v[k]), "without repetitions the bounds are the value");
    bool known = o.sort != "desc" && near(p.v[k], resorted.v[k]) && !near(m.v[k], resorted.v[k]);
    if (known) COVER("resorted"); else COVER("agrees");
    CHECK(!known, "bootstrapping evaluates the hypotheses by decreasing score whatever order is asked for");
    if (!known) CHECK(near(p.v[k], m.v[k]), "the value beside the bounds is that of the definition");
  }
}
// ---------------------------------------------------------------- options together
// every combination of the options that choose, order and show: each keeps its meaning beside the others
extern "C" void h_together() {
  size_t list = pick("list", 0, 3);   // none, set, groups, both
  std::vector<Row> refs{Row{"a", "k", 1, 2, 0}, Row{"b", "k", 1, 2, 0}, Row{"c", "k", 1, 2, 0}};
  std::vector<Row> hyps{Row{"b", "k", 1, 2, 0}, Row{"a", "k", 1, 2, 0}, Row{"d", "k", 2, 1, 0.25f}, Row{"a", "k", 1, 3, 0.75f}, Row{"c", "l", 1, 2, 0.5f}};
  hyps[0].s = sym_score("s0");
  if (PARAM("free", 1) > 1) hyps[1].s = sym_score("s1"); else hyps[1].s = 0.5625f;
  ASSUME(tie_free(hyps));
  Options o;
  static const char *S[] = {"desc", "asc", "none"};
  Words a;
  if (pick("collapse", 0, 1)) { o.collapse = false; a.insert(a.end(), {"--collapse_matches", "false"}); }
  o.sort = S[pick("sort", 0, 2)];
  if (o.sort != "desc") a.insert(a.end(), {"--sort", o.sort});
  size_t show = pick("show", 0, 3), boot = pick("boot", 0, 2);   // nothing, dump, curves, both; none, mean, mean and global
  if (show & 1) a.insert(a.end(), {"--dump_matches", "dump"});
  if (show & 2) a.insert(a.end(), {"--output_grp", "grp", "--rp_curve_samples", "3", "--output_mrp", "mrp"});
  if (list & 1) a.insert(a.end(), {"--query_set", "set"});
  if (list & 2) a.insert(a.end(), {"--query_groups", "groups"});
  if (o.sort != "desc") boot = 0;   // the values are then not those of the order asked for: h_boot_order
  if (boot) a.insert(a.end(), {"--bootstrap_samples", "0", "--bootstrap_ci_map", "true"});
  if (boot > 1) a.insert(a.end(), {"--bootstrap_ci_gap", "1"});
  bool in = pick("stdin", 0, 1);
  kfs_put("refs", text(refs, false)); kfs_put("set", "d\na c\n"); kfs_put("groups", "G a d\nH b\n");
  if (in) kfs_stdin(text(hyps, true)); else kfs_put("hyps", text(hyps, true));
  a.push_back("refs");
  if (!in) a.push_back("hyps");
  std::map<std::string, std::string> group;
  std::vector<std::string> qs{"a", "b", "c", "d"};
  if (list == 1) qs = {"a", "c", "d"};
  if (list & 2) { qs = {"a", "b", "d"}; group = {{"a", "G"}, {"b", "H"}, {"d", "G"}}; }
  CHECK(tool(a) == 0, "a run with several options ends with status zero");
  refs = keep(refs, qs); hyps = keep(hyps, qs);
  Eval e = evaluate(refs, hyps, o);
  Grouped g = grouped(e, group);
  Measures m = measures(all_of(e), g, o);
  Printed p = printed();
  CHECK(p.ok, "the four measures are printed once each, in order (several options)");
  if (!p.ok) return;
  same_measures(m, p, DEFS);
  for (int k = 0; k < 4; ++k) {
    CHECK(p.ci[k] == ((boot >= 1 && k == 1) || (boot == 2 && k == 0)), "the bounds are printed for the measures asked for");
    if (p.ci[k]) CHECK(near(p.lo[k], m.v[k]) && near(p.hi[k], m.v[k]), "without repetitions the bounds are the value (several options)");
  }
  CHECK(kfs_has("dump") == ((show & 1) != 0) && kfs_has("grp") == ((show & 2) != 0) && kfs_has("mrp") == ((show & 2) != 0), "the files asked for are written, and no other");
  if (show & 1) { check_dump(e, kfs_get("dump")); COVER("dumped"); }
  if (show & 2) { check_curves(all_of(e), g, o, 3); COVER("curves"); }
  if (list & 2) COVER("groups");
  if (boot) COVER("bounds");
}
// ---------------------------------------------------------------- C26
static std::string bytes(const std::string &n, size_t max) {
  std::string s;
  size_t k = pick((n + ".size").c_str(), 0, max);
  for (size_t i = 0; i < k; ++i) { char c = sym_char((n + nm(".", i)).c_str()); ASSUME(c != 1); s += c; }
  return s;
}
extern "C" void h_any_file() {
  size_t which = pick("file", 0, 4), n = PARAM("n", 3);
  std::string good = ICDAR ? "a k 1 2 3 4" : "a k";
  static const char *PRE_H[] = {"", ICDAR ? "a k 1 2 3 4 " : "a k ", ICDAR ? "a k 1 2 3 " : "a "};
  static const char *PRE_R[] = {"", ICDAR ? "a k 1 2 3 " : "a ", ICDAR ? "a k 1 2 3 4\n" : "a k\n"};
  static const char *PRE_Q[] = {"", "a ", "G a\n"};
  size_t pre = pick("prefix", 0, 2);
  std::string b = bytes("b", n);
  kfs_put("refs", which == 0 ? PRE_R[pre] + b : good + "\n");
  std::string hy = which == 1 || which == 2 ? PRE_H[pre] + b : good + " 1\n";
  kfs_put("hyps", hy);
  kfs_stdin(hy);
  kfs_put("q", PRE_Q[pre] + b);
  Words a{"--bootstrap_samples", "1", "--bootstrap_ci_gap", "--dump_matches", "dump", "--rp_curve_samples", "2", "--output_grp", "grp"};
  if (which == 3) a.insert(a.end(), {"--query_set", "q"});
  if (which == 4) a.insert(a.end(), {"--query_groups", "q"});
  a.push_back("refs");
  if (which != 2) a.push_back("hyps");
  int64_t st = tool(a);
  CHECK(st == 0 || st == 1, "the tool ends by itself with a status");
  CHECK((st == 0) == printed().ok, "the measures are printed when the run succeeds");
  COVER(st ? "refused" : "evaluated");
}
#if ICDAR
// boxes of any size
extern "C" void h_any_box() {
  std::string t[2];
  for (int i = 0; i < 2; ++i) {
    t[i] = "a k";
    for (int j = 0; j < 4; ++j) t[i] += " " + kio_num(sym_u32((nm("v", i) + nm(".", j)).c_str(), 0, 0xffffffffu));
  }
  kfs_put("refs", t[0] + "\n"); kfs_put("hyps", t[1] + " " + kio_f32(sym_score("s")) + "\n");
  int64_t st = tool({"--dump_matches", "dump", "refs", "hyps"});
  CHECK(st == 0 && printed().ok, "boxes of any size are evaluated");
  if (has(kfs_get("dump"), "fp=1")) COVER("false-positive"); else COVER("hit");
}
#endif
extern "C" void h_any_option() {
  static const char *OPT[] = {"--bootstrap_samples", "--bootstrap_seed", "--bootstrap_alpha", "--rp_curve_samples", "--sort", "--query_set", "--query_groups", "--dump_matches", "--output_grp", "--output_mrp", "--collapse_matches", "--bootstrap_ci_map"};
  size_t k = pick("option", PARAM("from", 0), PARAM("to", 11)), n = PARAM("n", 2);
  kfs_put("refs", ICDAR ? "a k 1 2 3 4\n" : "a k\n");
  if (k == 0) kfs_put("hyps", ICDAR ? "a k 1 2 3 4 1\n" : "a k 1\n");   // nothing to choose in each resample
  else kfs_put("hyps", ICDAR ? "a k 1 2 3 4 1\nb k 1 1 1 1 2\n" : "a k 1\nb k 2\n");
  std::string w;
  // counts are bounded: a large one only takes long
  bool count = k == 0 || k == 3, name = k >= 5 && k <= 9;
  size_t len = pick("len", 0, n);
  for (size_t i = 0; i < len; ++i) {
    char c = (char)ksym_sym(nm("w", i).c_str(), 8, 2, 255, 0);
    if (name) { ASSUME(c >= 'a' && c <= 'z'); }
    if (k == 3) for (char v = '0'; v <= '9'; ++v) if (c == v) { c = v; break; }   // one digit at a time
    w += c;
  }
  if (count && len > 1) ASSUME(w[0] < '1' || w[0] > '9' || w[1] < '0' || w[1] > '9');
  Words a{OPT[k], w};
  if (k != 0) { a.push_back("--bootstrap_samples"); a.push_back("1"); }
  if (k != 3) { a.push_back("--rp_curve_samples"); a.push_back("2"); }
  if (k == 0 || k == 1 || k == 2) a.push_back("--bootstrap_ci_gap");
  if (k == 3) { a.push_back("--output_mrp"); a.push_back("zcurve"); }
  a.insert(a.end(), {"--", "refs", "hyps"});
  int64_t st = tool(a);
  CHECK(st == 0 || st == 1, "the tool ends by itself with a status");
  if (st) CHECK(has(kerr(), "ERROR"), "a failure is reported");
  COVER(st ? "refused" : "accepted");
}
// words and lines longer than any fixed room
extern "C" void h_long_text() {
  static const size_t LEN[] = {100, 1000, 5000};
  std::string w(LEN[pick("len", 0, 2)], 'x');
  w[w.size() / 2] = sym_strn("c", 1, 'a', 'z')[0];
  const std::string box = ICDAR ? " 1 2 3 4" : "";
  std::string name = "a k", refs, hyps;
  size_t k = pick("case", 0, 14);
  int want = 1;
  Words a;
  bool args = true;
  if (k == 0) a = {"--" + w};
  else if (k == 1) { a = {"--sort", w}; want = 0; }
  else if (k == 2) a = {"--bootstrap_samples", "1" + w};
  else if (k == 3) a = {"--query_set", w};
  else if (k == 4) a = {"--dump_matches", "no/" + w};
  else if (k == 5) { a = {w, "hyps"}; args = false; }
  else if (k == 6) { a = {"refs", w}; args = false; }
  else if (k == 7) { a = {"refs", "hyps", w}; args = false; }
  else if (k == 8) refs = w + "\n";
  else if (k == 9) { name = w + " " + w; a = {"--dump_matches", "dump"}; want = 0; }
  else if (k == 10) { kfs_put("q", "a " + w + "\n"); a = {"--query_set", "q"}; want = 0; }
  else if (k == 11) { kfs_put("q", w + "\n"); a = {"--query_groups", "q"}; }
  else if (k == 12) { kfs_put("q", w + " a " + w + "\n"); a = {"--query_groups", "q"}; want = 0; }
  else if (k == 13) { refs = "#" + w + "\n"; hyps = "# " + w + "\n"; want = 0; }
  else hyps = "a k" + box + " 1" + w + "\n";
  refs += name + box + "\n";
  hyps += name + box + " 1\n";
  kfs_put("refs", refs); kfs_put("hyps", hyps);
  if (args) a.insert(a.end(), {"refs", "hyps"});
  int64_t st = tool(a);
  CHECK(st == want, "long words and lines are treated like others");
  if (want) { CHECK(has(kerr(), "ERROR") && kout().empty(), "a failure over a long word is reported"); COVER("refused"); }
  else {
    Printed p = printed();
    CHECK(p.ok && near(p.v[0], 1) && near(p.v[1], 1) && near(p.v[2], 1) && near(p.v[3], 1), "long words and lines are evaluated");
    if (ICDAR && k == 9) CHECK(has(kfs_get("dump"), w.c_str()), "the dump holds long names whole");
    COVER("evaluated");
  }
}
// what a run acquires is released: a second run leaves as much as it found
extern "C" void h_release() {
  kfs_put("refs", ICDAR ? "a k 1 2 3 4\nb k 1 2 3 4\n" : "a k\nb k\n"); kfs_put("hyps", ICDAR ? "a k 1 2 3 4 1\na k 1 2 3 4 0\nb k 1 1 1 1 2\n" : "a k 1\na k 0\nc k 2\n");
  kfs_put("bad", "a\n"); kfs_put("q", "a b\n");
  size_t k = pick("case", 0, 6);
  Words a;
  if (k == 1) a = {"--query_set", "q"};
  if (k == 2) a = {"--query_groups", "q"};
  if (k == 3) a = {"--output_grp", "g", "--rp_curve_samples", "3", "--dump_matches", "d"};
  if (k == 4) a = {"--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_samples", "1"};
  if (k == 5) a = {"--sort"};
  a.push_back("refs");
  a.push_back(k == 6 ? "bad" : "hyps");
  int64_t st = tool(a), live = 0;
  for (int i = 0; i < 2; ++i) {
    live = ksym_heap_live();
    CHECK(tool(a) == st, "running again ends the same");
  }
  CHECK(ksym_heap_live() == live, "a run releases what it acquired");
  COVER("released");
}
