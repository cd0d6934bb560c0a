// C01 reading files, C23 text round trips.
#include "common.h"
#include <sstream>
#include <fstream>
#include "core/BoundingBox.h"
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "reader/PlainTextReader.h"
using namespace kws::core;
using namespace kws::reader;
using namespace kws::mapper;
typedef Event<std::string, std::string> SE;
typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> RE;
typedef ScoredEvent<RE> HE;
typedef ScoredEvent<SE> SH;
// ---- definition of the file format, token by token
static bool sp(char c) { return (c == ' ') | ((unsigned)(unsigned char)c - 9u <= 4u); }
static bool dg(char c) { return (unsigned)((unsigned char)c - '0') <= 9u; }
struct Line { size_t no; std::vector<std::string> tok; };
static std::vector<Line> split(const std::string &s) {
  std::vector<Line> r;
  size_t no = 1;
  Line l{1, {}};
  bool in = false;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i == s.size() || s[i] == '\n') {
      if (!l.tok.empty() && l.tok[0][0] != '#') r.push_back(l);
      l = Line{++no, {}};
      in = false;
    } else if (sp(s[i])) in = false;
    else { if (!in) l.tok.push_back(""); in = true; l.tok.back() += s[i]; }
  }
  return r;
}
static bool tok_uint(const std::string &t, uint32_t *v) {
  size_t i = t[0] == '+' ? 1 : 0;
  if (i == t.size()) return false;
  uint64_t x = 0;
  for (; i < t.size(); ++i) { if (!dg(t[i])) return false; x = x * 10 + (uint64_t)(t[i] - '0'); if (x > 0xffffffffull) return false; }
  *v = (uint32_t)x;
  return true;
}
static bool tok_real(const std::string &t, double *v) {   // short decimals only
  size_t i = t[0] == '+' || t[0] == '-' ? 1 : 0;
  double m = 0, p = 1;
  bool any = false;
  for (; i < t.size() && dg(t[i]); ++i) { any = true; m = m * 10 + (t[i] - '0'); }
  if (i < t.size() && t[i] == '.') for (++i; i < t.size() && dg(t[i]); ++i) { any = true; m = m * 10 + (t[i] - '0'); p *= 10; }
  if (!any) return false;
  int e = 0;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    bool ne = false, ae = false;
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ne = t[i++] == '-';
    for (; i < t.size() && dg(t[i]); ++i) { ae = true; e = e * 10 + (t[i] - '0'); }
    if (!ae) return false;
    if (e > 9) ksym_discard();   // outside the bounds
    if (ne) e = -e;
  }
  if (i < t.size()) return false;
  for (; e > 0; --e) m *= 10;
  for (; e < 0; ++e) p *= 10;
  *v = (t[0] == '-' ? -1.0 : 1.0) * m / p;
  return true;
}
// Some number written in the text is n.
static bool mentions(const std::string &s, size_t n) {
  for (size_t i = 0; i < s.size();) {
    if (!dg(s[i])) { ++i; continue; }
    size_t v = 0;
    for (; i < s.size() && dg(s[i]); ++i) v = v * 10 + (size_t)(s[i] - '0');
    if (v == n) return true;
  }
  return false;
}
struct Fields { std::string q, d; uint32_t b[4]; double score; };
template <class E> struct Kind;
template <> struct Kind<SE> {
  static bool parse(const Line &l, Fields *f) { if (l.tok.size() != 2) return false; f->q = l.tok[0]; f->d = l.tok[1]; return true; }
  static bool same(const SE &e, const Fields &f) { return e.Query() == f.q && e.Location() == f.d; }
};
static bool close(float a, double b) { double d = a - b, m = b < 0 ? -b : b; return d <= 1e-6 * m && d >= -1e-6 * m; }
template <> struct Kind<SH> {
  static bool parse(const Line &l, Fields *f) { if (l.tok.size() != 3) return false; f->q = l.tok[0]; f->d = l.tok[1]; return tok_real(l.tok[2], &f->score); }
  static bool same(const SH &e, const Fields &f) { return e.Query() == f.q && e.Location() == f.d && close(e.Score(), f.score); }
};
template <> struct Kind<RE> {
  static bool parse(const Line &l, Fields *f) {
    if (l.tok.size() != 6) return false;
    f->q = l.tok[0]; f->d = l.tok[1];
    for (int i = 0; i < 4; ++i) if (!tok_uint(l.tok[2 + i], &f->b[i])) return false;
    return true;
  }
  static bool same(const RE &e, const Fields &f) {
    const auto &b = e.Location();
    return e.Query() == f.q && b.document == f.d && (b.x == f.b[0]) & (b.y == f.b[1]) & (b.w == f.b[2]) & (b.h == f.b[3]);
  }
};
template <> struct Kind<HE> {
  static bool parse(const Line &l, Fields *f) {
    if (l.tok.size() != 7) return false;
    Line k = l;
    k.tok.pop_back();
    return Kind<RE>::parse(k, f) && tok_real(l.tok[6], &f->score);
  }
  static bool same(const HE &e, const Fields &f) { return Kind<RE>::same(e, f) && close(e.Score(), f.score); }
};
template <class E> struct Job { std::string name; std::vector<E> *out; const PlainTextReader<E> *reader; int how; };
template <class E> static int64_t do_read(void *p) {
  Job<E> *j = (Job<E> *)p;
  if (j->how == 0) return j->reader->Read(j->name, j->out);
  std::ifstream fs(j->name);
  return j->reader->Read(&fs, j->out);
}
template <class E> static bool check_read(const std::string &content, int how = 0) {
  std::vector<Fields> want;
  size_t bad = 0;
  for (const Line &l : split(content)) {
    Fields f{};
    if (!Kind<E>::parse(l, &f)) { bad = l.no; break; }
    want.push_back(f);
  }
  kfs_put("in.txt", content);
  PlainTextReader<E> reader;
  std::vector<E> got(1);   // earlier contents must go
  got[0].Query() = "old";
  Job<E> j{"in.txt", &got, &reader, how};
  int64_t ok = run_captured(do_read<E>, &j);
  if (bad) {
    CHECK(!ok, "a line that is not one complete event makes the read fail");
    CHECK(mentions(kerr(), bad), "the error names the line");
    COVER("refused");
    return false;
  }
  CHECK(ok, "a well-formed file is read");
  CHECK(got.size() == want.size(), "one event per event line, and no other");
  for (size_t i = 0; i < want.size() && i < got.size(); ++i) CHECK(Kind<E>::same(got[i], want[i]), "every field is read as written");
  if (want.empty()) COVER("no-events");
  if (want.size() > 0) COVER("read");
  if (want.size() > 1) COVER("several");
  return true;
}
static char file_char(const std::string &n) { char c = sym_char(n.c_str()); ASSUME(c != 1); return c; }
// any bytes at all (except 1, which the stream model uses for itself)
extern "C" void h_read_bytes() {
  size_t n = pick("size", 0, PARAM("n", 6));
  std::string s;
  for (size_t i = 0; i < n; ++i) s += file_char(nm("c", i));
  check_read<SE>(s, (int)pick("how", 0, 1));
}
// the same after a prefix that brings the reader further
extern "C" void h_read_tail() {
  static const char *pre[] = {"q", "a b", "a b\n", "a b\r\n", "# x\n", "\n\n", "a b\n#", " \tq"};
  size_t p = pick("prefix", 0, 7), n = pick("size", 0, PARAM("n", 4));
  std::string s = pre[p];
  for (size_t i = 0; i < n; ++i) s += file_char(nm("c", i));
  check_read<SE>(s);
}
// names of any bytes but blanks, short or after a long beginning
static std::string any_name(const std::string &n, size_t max) {
  static const size_t L[] = {0, 200};
  std::string s;
  for (size_t i = 0, k = L[pick((n + ".long").c_str(), 0, 1)]; i < k; ++i) s += (char)('a' + i % 26);
  for (size_t i = 0, k = pick((n + ".len").c_str(), 1, max); i < k; ++i) {
    char c = file_char(n + std::to_string(i));
    ASSUME(!sp(c));
    s += c;
  }
  return s;
}
extern "C" void h_read_names() {
  size_t m = PARAM("n", 3), form = pick("form", 0, 2);
  std::string q = any_name("q", pick("which", 0, 1) ? 1 : m), d = any_name("d", m);
  if (q[0] == '#') { ksym_discard(); return; }
  if (form == 0) check_read<SE>(q + " " + d);
  if (form == 1) check_read<RE>(q + " " + d + " 1 2 3 4\n");
  if (form == 2) check_read<HE>("\n" + q + "\t" + d + " 1 2 3 4 .5\n");
}
// one byte of a file replaced, inserted or deleted
template <class E> static void mutate(const std::string &base) {
  std::string s = base;
  size_t step = PARAM("part", 0), parts = PARAM("parts", 1);
  size_t at = pick("at", 0, base.size()), op = pick("op", 0, 2);
  if (at % parts != step) { ksym_discard(); return; }
  if (op == 0 || at == s.size()) s.insert(at, 1, file_char("byte"));
  else if (op == 1) s[at] = file_char("byte");
  else s.erase(at, 1);
  check_read<E>(s);
}
extern "C" void h_mutate_ref() { mutate<RE>(PARAM("form", 0) == 0 ? "q d 1 2 33 4\n" : "# c\n\tq1  d2 10 0 7 +4 \r\nr e 4294967295 5 6 7"); }
extern "C" void h_mutate_hyp() { mutate<HE>(PARAM("form", 0) == 0 ? "q d 1 2 3 4 0.5\n" : "\nq d 1 2 3 4 -2e1\nr e 5 6 7 8 .25\n"); }
extern "C" void h_mutate_simple() { mutate<SH>("q d 1.5\nr e 1e-1"); }
// lines laid out in every way, with arbitrary blanks and fields
static char blank(const std::string &n) { char c = sym_char(n.c_str()); ASSUME(sp(c) & (c != '\n')); return c; }
static std::string blanks(const std::string &n, size_t lo, size_t hi) { std::string s; size_t k = pick((n + ".n").c_str(), lo, hi); for (size_t i = 0; i < k; ++i) s += blank(n + nm(".", i)); return s; }
static std::string word(const std::string &n, size_t len, bool first) {
  std::string s;
  for (size_t i = 0; i < len; ++i) { char c = file_char(n + nm(".", i)); ASSUME(!sp(c)); if (first && !i) ASSUME(c != '#'); s += c; }
  return s;
}
static std::string number(const std::string &n, size_t len, uint32_t *v) {
  std::string s;
  *v = 0;
  for (size_t i = 0; i < len; ++i) { char c = (char)ksym_sym((n + nm(".", i)).c_str(), 8, '0', '9', 0); s += c; *v = *v * 10 + (uint32_t)(c - '0'); }
  return s;
}
template <class E, bool scored> static void layout() {
  size_t lines = PARAM("lines", 2), free_line = PARAM("free", 0);
  std::string s;
  std::vector<Fields> want;
  for (size_t i = 0; i < lines; ++i) {
    std::string p = nm("l", i);
    bool full = i == free_line;   // one line with every liberty, the others plain
    size_t kind = pick((p + "kind").c_str(), 0, 2);
    if (kind == 1) s += blanks(p + "a", 0, full ? 2 : 1);
    else if (kind == 2) { s += blanks(p + "a", 0, 1) + "#"; size_t k = full ? pick((p + "len").c_str(), 0, 2) : 1; for (size_t j = 0; j < k; ++j) { char c = file_char(p + nm("x", j)); ASSUME(c != '\n'); s += c; } }
    else {
      Fields f{};
      s += blanks(p + "a", 0, full ? 1 : 0);
      f.q = word(p + "q", full ? pick((p + "ql").c_str(), 1, 2) : 1, true);
      s += f.q + blanks(p + "b", 1, full ? 2 : 1);
      f.d = word(p + "d", 1, false);
      s += f.d;
      for (int k = 0; k < 4; ++k) { s += blanks(p + nm("s", k), 1, 1); s += number(p + nm("n", k), full && k == 2 ? 3 : 1, &f.b[k]); }
      if (scored) {
        s += blanks(p + "e", 1, 1);
        uint32_t a, b;
        size_t form = full ? pick((p + "form").c_str(), 0, 3) : 0;
        std::string x = number(p + "sa", 1, &a), y = number(p + "sb", 1, &b);
        if (form == 0) { s += x + "." + y; f.score = a + b / 10.0; }
        else if (form == 1) { s += "-" + x; f.score = -(double)a; }
        else if (form == 2) { s += "." + y; f.score = b / 10.0; }
        else { s += x + y + "e-1"; f.score = (10 * a + b) / 10.0; }
      }
      s += blanks(p + "f", 0, 1);
      want.push_back(f);
    }
    if (i + 1 < lines || pick("newline", 0, 1)) s += "\n";
  }
  kfs_put("in.txt", s);
  PlainTextReader<E> reader;
  std::vector<E> got(2);
  got[0].Query() = "old";
  Job<E> j{"in.txt", &got, &reader, 0};
  int64_t ok = run_captured(do_read<E>, &j);
  CHECK(ok, "a well-formed file is read");
  CHECK(got.size() == want.size(), "one event per event line, and no other");
  for (size_t i = 0; i < want.size() && i < got.size(); ++i) CHECK(Kind<E>::same(got[i], want[i]), "every field is read as written");
  if (want.size() == lines) COVER("all-events");
  if (want.empty()) COVER("no-events");
}
extern "C" void h_layout_ref() { layout<RE, false>(); }
extern "C" void h_layout_hyp() { layout<HE, true>(); }
// coordinates of many digits: the whole range, and nothing beyond it
extern "C" void h_read_big() {
  static const char *lead[] = {"42949671", "42949672", "42949673", "4294967", "429496729", "0042949672", "99999999", "18446744073709551", "1844674407370955161"};
  uint32_t v;
  std::string n = std::string(lead[pick("lead", 0, 8)]) + number("n", 2, &v), s = "q d 1 2 3 " + n;
  uint64_t x = 0;
  for (char c : n) { x = x * 10 + (uint64_t)(c - '0'); if (x > 0xffffffffull) x = 0xffffffffffull; }
  kfs_put("in.txt", s + "\n");
  PlainTextReader<RE> reader;
  std::vector<RE> got;
  Job<RE> j{"in.txt", &got, &reader, 0};
  int64_t ok = run_captured(do_read<RE>, &j);
  if (x <= 0xffffffffull) { CHECK(ok && got.size() == 1 && got[0].Location().h == x, "a number is read as written"); COVER("fits"); }
  else { CHECK(!ok && mentions(kerr(), 1), "a number out of range is refused"); COVER("out-of-range"); }
}
// long lines, and many of them
static const std::string &doc_of(const SE &e) { return e.Location(); }
static const std::string &doc_of(const RE &e) { return e.Location().document; }
static bool rest_ok(const SE &) { return true; }
static bool rest_ok(const SH &e) { return e.Score() == 0.5f; }
static bool rest_ok(const RE &e) { auto &l = e.Location(); return l.x == 1 && l.y == 20 && l.w == 300 && l.h == 4000; }
static bool rest_ok(const HE &e) { return rest_ok(static_cast<const RE &>(e)) && e.Score() == 0.5f; }
template <class E> static void read_long(const std::string &tail, size_t len, size_t where) {
  std::string q(len, 'q'), d = "d";
  char c = file_char("c");
  ASSUME(!sp(c) & (c != '#'));
  if (where == 1) { d = q; q = "q"; d[len - 1] = c; } else q[where == 2 ? len / 2 : len - 1] = c;
  std::string s = q + " " + d + (where == 3 && tail.empty() ? "" : where == 3 ? std::string(len, ' ') : tail.empty() ? "" : " ") + tail + "\nr e " + tail + "\n";
  kfs_put("in.txt", s);
  PlainTextReader<E> reader;
  std::vector<E> got;
  Job<E> j{"in.txt", &got, &reader, 0};
  CHECK(run_captured(do_read<E>, &j), "a file of long lines is read");
  CHECK(got.size() == 2, "one event per event line, and no other (long lines)");
  CHECK(got[0].Query() == q && doc_of(got[0]) == d && rest_ok(got[0]) && got[1].Query() == "r" && doc_of(got[1]) == "e" && rest_ok(got[1]), "every field is read as written (long lines)");
  COVER("long");
}
extern "C" void h_read_long() {
  static const size_t L[] = {20, 60, 130, 260, 1030, 5000, 70000};
  size_t len = L[pick("len", 0, PARAM("top", 6))], where = pick("where", 0, 3);
  switch (pick("kind", 0, 3)) {
    case 0: read_long<SH>("0.5", len, where); break;
    case 1: read_long<SE>("", len, where); break;
    case 2: read_long<RE>("1 20 300 4000", len, where); break;
    default: read_long<HE>("1 20 300 4000 0.5", len, where);
  }
}
extern "C" void h_read_many() {
  size_t lines = PARAM("lines", 300), bad = pick("bad", 0, 3), at = bad == 3 ? lines : bad == 2 ? lines - 1 : bad == 1 ? lines - 20 : 2;
  std::string s;
  for (size_t i = 0; i < lines; ++i) {
    if (i == at) s += "x y\n";
    else if (i % 10 == 4) s += "# comment\n";
    else s += "q" + std::to_string(i) + " d " + std::to_string(i) + "\n";
  }
  char c = file_char("c");
  ASSUME(!sp(c) & (c != '#'));
  s[0] = c;
  PlainTextReader<SH> reader;
  std::vector<SH> got;
  kfs_put("in.txt", s);
  Job<SH> j{"in.txt", &got, &reader, (int)pick("how", 0, 1)};
  int64_t ok = run_captured(do_read<SH>, &j);
  if (at < lines) {
    CHECK(!ok && mentions(kerr(), at + 1), "the error names the line (many lines)");
    COVER("refused");
  } else {
    CHECK(ok && got.size() == lines - lines / 10, "one event per event line, and no other (many lines)");
    size_t k = 0;
    for (size_t i = 0; i < lines && k < got.size(); ++i) if (i % 10 != 4) { CHECK((i == 0 ? got[k].Query()[0] == c : got[k].Query() == "q" + std::to_string(i)) && got[k].Score() == (float)i, "every field is read as written (many lines)"); ++k; }
    COVER("read");
  }
}
// the number in the error message, over several lines and several reads
extern "C" void h_read_lineno() {
  size_t lines = PARAM("lines", 4), bad = pick("bad", 0, lines - 1);
  static const char *ok_line[] = {"a b c", "", "# d", "  "};
  static const char *bad_line[] = {"a", "a b", "a b x", "a b 1 2"};
  std::string s;
  size_t good = 0;
  for (size_t i = 0; i < lines; ++i) {
    if (i == bad) s += bad_line[pick("kind", 0, 3)];
    else { size_t k = pick(nm("line", i).c_str(), 0, 3); s += k == 0 ? "a b 1" : ok_line[k]; good += k == 0 && i < bad; }
    s += "\n";
  }
  PlainTextReader<SH> reader;
  std::vector<SH> got;
  if (pick("before", 0, 1)) {
    kfs_put("first.txt", "x y 1\nx y 2\nx y 3\n");
    Job<SH> j0{"first.txt", &got, &reader, 0};
    int64_t ok = run_captured(do_read<SH>, &j0);
    CHECK(ok && got.size() == 3 && got[2].Score() == 3.0f, "first file read");
    COVER("second-read");
  }
  kfs_put("in.txt", s);
  Job<SH> j{"in.txt", &got, &reader, (int)pick("how", 0, 1)};
  int64_t ok = run_captured(do_read<SH>, &j);
  CHECK(!ok, "a line that is not one complete event makes the read fail");
  CHECK(mentions(kerr(), bad + 1), "the error names the line");
  for (size_t k = 1; k <= lines; ++k) if (k != bad + 1) CHECK(!mentions(kerr(), k), "the error names no other line");
  if (bad + 1 == lines) COVER("last-line");
  // afterwards a good file is read afresh
  kfs_put("in.txt", "x y 2\n");
  ok = run_captured(do_read<SH>, &j);
  CHECK(ok && got.size() == 1 && got[0].Query() == "x" && got[0].Score() == 2.0f, "a read after a failed one starts afresh");
}
extern "C" void h_read_missing() {
  PlainTextReader<RE> reader;
  std::vector<RE> got;
  Job<RE> j{"missing.txt", &got, &reader, (int)pick("how", 0, 1)};
  CHECK(!run_captured(do_read<RE>, &j), "a file that cannot be read is a failure");
  kfs_put("empty.txt", "");
  got.resize(2);
  Job<RE> e{"empty.txt", &got, &reader, (int)pick("how2", 0, 1)};
  CHECK(run_captured(do_read<RE>, &e) && got.empty(), "an empty file holds no events");
  // a stream with nothing left in it
  std::ifstream fs("empty.txt");
  std::string rest;
  std::getline(fs, rest);
  got.resize(2);
  struct L { PlainTextReader<RE> *r; std::ifstream *s; std::vector<RE> *v; } l{&reader, &fs, &got};
  int64_t ok = run_captured([](void *p) -> int64_t { L *l = (L *)p; return l->r->Read(l->s, l->v); }, &l);
  CHECK(ok && got.empty(), "a stream at its end holds no events");
  COVER("done");
}
// the reader that maps names to numbers
static int64_t read_map(void *p);
struct MapJob { PlainTextMapEventReader<StringEventToIntMapper<int32_t>> *reader; std::vector<Event<int32_t, int32_t>> *out; std::string name; };
static int64_t read_map(void *p) { MapJob *j = (MapJob *)p; return j->reader->Read(j->name, j->out); }
extern "C" void h_read_mapped() {
  StringToIntMapper<int32_t> names;
  StringEventToIntMapper<int32_t> m(&names);
  ScoredEventMapper<StringEventToIntMapper<int32_t>> hm(&m);
  PlainTextMapEventReader<StringEventToIntMapper<int32_t>> reader(&m);
  PlainTextMapEventReader<ScoredEventMapper<StringEventToIntMapper<int32_t>>> hreader(hm);
  std::vector<std::string> w;
  std::string s;
  size_t n = PARAM("n", 2);
  for (size_t i = 0; i < 2 * n; ++i) { w.push_back(word(nm("w", i), 1, true)); s += w.back() + (i % 2 ? "\n" : " "); }
  kfs_put("in.txt", s);
  std::vector<Event<int32_t, int32_t>> got(1);
  MapJob j{&reader, &got, "in.txt"};
  CHECK(run_captured(read_map, &j) && got.size() == n, "mapped events are read");
  for (size_t i = 0; i < 2 * n; ++i)
    for (size_t k = 0; k < i; ++k) {
      int32_t a = i % 2 ? got[i / 2].Location() : got[i / 2].Query(), b = k % 2 ? got[k / 2].Location() : got[k / 2].Query();
      CHECK((a == b) == (w[i] == w[k]), "equal names get equal numbers, different names different ones");
    }
  std::istringstream is(s.substr(0, 3) + " -0.5\n" + w[0] + " zz 2");
  std::vector<ScoredEvent<Event<int32_t, int32_t>>> hyps;
  CHECK(hreader.Read(&is, &hyps) && hyps.size() == 2, "mapped hypotheses are read");
  CHECK(hyps[0].Query() == got[0].Query() && hyps[0].Location() == got[0].Location() && hyps[0].Score() == -0.5f, "scores survive the mapping");
  CHECK(hyps[1].Query() == got[0].Query() && hyps[1].Score() == 2.0f, "names keep their number in another file");
  COVER("mapped");
}
// ------------------------------------------------------------- C23
template <class T> static bool back(const std::string &s, T *v) { std::istringstream is(s); is >> *v; return !is.fail() && (is.eof() || is.peek() == -1); }
template <class T> static std::string text(const T &v) { std::ostringstream os; os << v; CHECK(!os.fail(), "writing succeeds"); return os.str(); }
static BoundingBox<uint32_t> box(const std::string &n) { return BoundingBox<uint32_t>(sym_u32((n + "x").c_str(), 0, 0xffffffffu), sym_u32((n + "y").c_str(), 0, 0xffffffffu), sym_u32((n + "w").c_str(), 0, 0xffffffffu), sym_u32((n + "h").c_str(), 0, 0xffffffffu)); }
static float eighth(const std::string &n) { return (float)sym_i32(n.c_str(), -7999, 7999) / 8.0f; }   // six significant digits at most
extern "C" void h_trip_box() {
  BoundingBox<uint32_t> a = box("a"), b = box("b"), c, d;
  CHECK(back(text(a), &c) && c == a, "a box survives being written and read");
  CHECK(c.x == a.x && c.y == a.y && c.w == a.w && c.h == a.h, "every coordinate survives");
  std::istringstream is(text(a) + " " + text(b));
  is >> d >> c;
  CHECK(!is.fail() && d == a && c == b, "boxes are read one after the other");
  BoundingBox<int32_t> s(sym_i32("x", -2147483647 - 1, 2147483647), sym_i32("y", -2147483647 - 1, 2147483647), sym_i32("w", -2147483647 - 1, 2147483647), sym_i32("h", -2147483647 - 1, 2147483647)), t;
  CHECK(back(text(s), &t) && t == s, "a box with signed coordinates survives");
  COVER("trip");
}
extern "C" void h_trip_doc() {
  size_t len = pick("len", 1, PARAM("len", 3) + 2), top = PARAM("len", 3);
  std::string d = word("d", len > top ? 1 : len, false);
  if (len > top) d += std::string(len > top + 1 ? 300 : 40, 'd') + word("t", 1, false);
  DocumentBoundingBox<uint32_t> a, b;
  a.document = d;
  static_cast<BoundingBox<uint32_t> &>(a) = box("a");
  b.document = "previous";
  CHECK(back(text(a), &b) && b == a && b.document == d && b.h == a.h, "a document box survives being written and read");
  std::istringstream is(text(a) + "\n" + text(a));
  DocumentBoundingBox<uint32_t> e, f;
  is >> e >> f;
  CHECK(!is.fail() && e == a && f == a, "document boxes are read one after the other");
  COVER("trip");
}
extern "C" void h_trip_event() {
  std::string q = word("q", pick("len", 1, 2), false), d = word("d", 1, false);
  DocumentBoundingBox<uint32_t> l;
  l.document = d;
  static_cast<BoundingBox<uint32_t> &>(l) = box("l");
  RE r(q, l), r2("old", DocumentBoundingBox<uint32_t>());
  CHECK(back(text(r), &r2) && r2 == r && r2.Query() == q && r2.Location() == l, "an event survives being written and read");
  HE h(r, eighth("score")), h2;
  h2.Score() = 7;
  CHECK(back(text(h), &h2) && h2 == h && h2.Score() == h.Score() && h2.Location() == l && h2.Query() == q, "a scored event survives being written and read");
  SE s(q, d), s2;
  CHECK(back(text(s), &s2) && s2 == s && s2.Location() == d, "an event with a named location survives");
  SH sh(s, h.Score()), sh2;
  CHECK(back(text(sh), &sh2) && sh2 == sh, "a scored event with a named location survives");
  Event<int32_t, int32_t> i(sym_i32("iq", -2147483647 - 1, 2147483647), sym_i32("il", -2147483647 - 1, 2147483647)), i2;
  CHECK(back(text(i), &i2) && i2 == i, "an event of numbers survives");
  // scores in every notation
  static const float S[] = {0.0f, 0.1f, 0.3f, 1e-7f, 2.5e-5f, -2.5e-5f, 1e-5f, 0.0001f, 123456.0f, 999999.0f, 1e6f, 1.5e10f, -1.5e10f, 1e20f, 1e-20f, 3.40282e38f, 1.17549e-38f, -0.333333f, 1234.56f, 0.000123456f};
  for (float f : S) {
    HE k(r, f), k2;
    k2.Score() = 7;
    CHECK(back(text(k), &k2) && k2.Score() == f && k2 == k, "a score of any size survives");
  }
  // an event ends where the next begins
  std::istringstream is(text(h) + " " + text(h));
  HE x, y;
  is >> x >> y;
  CHECK(!is.fail() && x == h && y == h, "events are read one after the other");
  COVER("trip");
}
// written fields come in order, one space apart
extern "C" void h_text_fields() {
  std::string q = word("q", 1, false), d = word("d", 1, false);
  uint32_t v[4];
  for (int i = 0; i < 4; ++i) v[i] = sym_u32(nm("v", i).c_str(), 0, 0xffffffffu);
  float sc = eighth("score");
  DocumentBoundingBox<uint32_t> l;
  l.document = d; l.x = v[0]; l.y = v[1]; l.w = v[2]; l.h = v[3];
  HE h(RE(q, l), sc);
  std::string bt = kio_num(v[0]) + " " + kio_num(v[1]) + " " + kio_num(v[2]) + " " + kio_num(v[3]);
  CHECK(text(static_cast<BoundingBox<uint32_t> &>(l)) == bt, "a box is written as x y w h");
  CHECK(text(l) == d + " " + bt, "a document box is written as document x y w h");
  CHECK(text(static_cast<RE &>(h)) == q + " " + d + " " + bt, "an event is written as query and location");
  CHECK(text(h) == q + " " + d + " " + bt + " " + text(sc), "a scored event ends with its score");
  COVER("fields");
}
// a written match names its events and errors
extern "C" void h_text_match() {
  typedef Match<SE, SH> SM;
  std::string q = word("q", 1, false), d = word("d", 1, false), d2 = word("e", 1, false);
  float sc = eighth("score"), fp = (float)pick("fp", 0, 4) / 4.0f, fn = (float)pick("fn", 0, 4) / 4.0f;
  SE r(q, d2);
  SH h(SE(q, d), sc);
  std::string hyp = "Hyp=" + text(h) + ", ", ref = "Ref=" + text(r) + ", ";
  size_t kind = pick("kind", 0, 2);
  if (kind == 0) {
    if ((fp == 0) & (fn == 1) || (fp == 1) & (fn == 0)) return;   // those say that a side is missing
    std::string err = "fp=" + text(fp) + ", fn=" + text(fn) + ", nh=1, nr=1";
    CHECK(text(SM(r, h, MatchError(fp, fn))) == "Match[" + hyp + ref + "Error=MatchError[" + err + "]]", "a match is written with both its events and its errors");
    COVER("both");
  } else if (kind == 1) {
    CHECK(text(SM::MakeFalsePositive(h)) == "Match[" + hyp + "Error=MatchError[fp=1, fn=0, nh=1, nr=0]]", "a false positive is written without reference");
    COVER("false-positive");
  } else {
    CHECK(text(SM::MakeFalseNegative(r)) == "Match[" + ref + "Error=MatchError[fp=0, fn=1, nh=0, nr=1]]", "a false negative is written without hypothesis");
    COVER("false-negative");
  }
}
// writing one thing does not change how the next is written, or a number after it
extern "C" void h_text_again() {
  typedef Match<SE, SH> SM;
  typedef Match<RE, HE> HM;
  std::string q = word("q", 1, false), d = word("d", 1, false);
  DocumentBoundingBox<uint32_t> l;
  l.document = d; static_cast<BoundingBox<uint32_t> &>(l) = box("l");
  static const float S[] = {0.333333f, 123456.0f, -2.5e-5f, 0.0f};
  float s0 = S[pick("s", 0, 3)];
  RE r(q, l); HE h(r, s0); SE e(q, d); SH eh(e, s0);
  auto one = [&](std::ostream &os, size_t k) {
    switch (k) {
      case 0: os << static_cast<BoundingBox<uint32_t> &>(l); break;
      case 1: os << l; break;
      case 2: os << r; break;
      case 3: os << h; break;
      case 4: os << e; break;
      case 5: os << eh; break;
      case 6: os << SM(e, eh, MatchError(0.25f, 0.5f)); break;
      case 7: os << HM::MakeFalsePositive(h); break;
      case 8: os << HM::MakeFalseNegative(r); break;
      default: os << MatchError(0.333333f, 0.0f); break;
    }
  };
  size_t a = pick("first", 0, 9), b = pick("second", 0, 9);
  std::ostringstream x, y, z;
  one(x, a); one(y, b);
  one(z, a); z << '|'; one(z, b); z << '|'; one(z, a); z << '|' << 0.333333 << ' ' << 255 << ' ' << 7.5f << ' ' << true;
  CHECK(z.str() == x.str() + "|" + y.str() + "|" + x.str() + "|0.333333 255 7.5 1", "each is written as it is written alone");
  COVER("written");
}
