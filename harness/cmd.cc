// C18 the command line.
#include "common.h"
#include "cmd/Parser.h"
using namespace kws::cmd;
typedef std::vector<std::string> Words;
static bool dg(char c) { return (unsigned)((unsigned char)c - '0') <= 9u; }
static bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
static bool near(double a, double b) { double d = a - b, m = b < 0 ? -b : b; return (a == b) | ((d <= 1e-9 * m + 1e-300) & (d >= -1e-9 * m - 1e-300)); }
// word of an arbitrary command line: no byte is zero
static std::string any_word(const std::string &n, size_t len) { return sym_strn(n, len, 2, (char)255); }
// ---- definitions of the texts of the types
static bool is_int(const std::string &t, int64_t *v) {
  size_t i = !t.empty() && ((t[0] == '+') | (t[0] == '-')) ? 1 : 0;
  if (i == t.size()) return false;
  int64_t x = 0;
  for (; i < t.size(); ++i) { if (!dg(t[i])) return false; x = x * 10 + (t[i] - '0'); }
  *v = t[0] == '-' ? -x : x;
  return true;
}
static bool is_real(const std::string &t, double *v) {
  size_t i = !t.empty() && ((t[0] == '+') | (t[0] == '-')) ? 1 : 0;
  double m = 0, p = 1;
  bool any = false;
  for (; i < t.size() && dg(t[i]); ++i) { any = true; m = m * 10 + (t[i] - '0'); }
  if (i < t.size() && t[i] == '.') for (++i; i < t.size() && dg(t[i]); ++i) { any = true; m = m * 10 + (t[i] - '0'); p *= 10; }
  if (!any) return false;
  if (i < t.size() && ((t[i] == 'e') | (t[i] == 'E'))) {
    int e = 0;
    bool ne = false, ae = false;
    ++i;
    if (i < t.size() && ((t[i] == '+') | (t[i] == '-'))) ne = t[i++] == '-';
    for (; i < t.size() && dg(t[i]); ++i) { ae = true; e = e * 10 + (t[i] - '0'); }
    if (!ae) return false;
    if (e > 9) ksym_discard();   // outside the bounds
    for (; e > 0; --e) { if (ne) p *= 10; else m *= 10; }
  }
  if (i < t.size()) return false;
  *v = (t[0] == '-' ? -1.0 : 1.0) * m / p;
  return true;
}
static bool is_bool(const std::string &t, bool *v) {
  if (t == "true" || t == "1") { *v = true; return true; }
  if (t == "false" || t == "0") { *v = false; return true; }
  return false;
}
struct V { bool b; int32_t i; size_t u; double d; std::string s, r, h; int32_t ai; bool ab; };
static V defaults() { return V{false, -7, 3, 0.5, "dflt", "r0", "h0", 11, true}; }
enum { OK, BAD, HELP };
static int expect(const Words &w, V *v) {
  size_t i = 0, n = w.size();
  bool help = false;
  while (i < n && w[i].size() >= 2 && w[i][0] == '-') {
    const std::string o = w[i++];
    if (o == "--") break;
    if (o == "--help") { help = true; continue; }
    if (o == "--bo") {
      v->b = true;
      if (i < n && w[i].empty()) ksym_discard();   // not documented
      if (i < n && w[i][0] != '-' && !is_bool(w[i++], &v->b)) return BAD;
      continue;
    }
    if (o != "--in" && o != "--un" && o != "--sort" && o != "--so") return BAD;
    if (i == n) return BAD;
    const std::string t = w[i++];
    int64_t x = 0;
    if (o == "--in") { if (!is_int(t, &x) || x < INT32_MIN || x > INT32_MAX) return BAD; v->i = (int32_t)x; }
    else if (o == "--un") {
      if (!is_int(t, &x)) return BAD;
      if (t[0] == '-') { if (x == 0) ksym_discard(); return BAD; }   // "-0": either
      v->u = (size_t)x;
    }
    else if (o == "--so") { if (!is_real(t, &v->d)) return BAD; }
    else v->s = t;
  }
  if (help) return HELP;
  if (i == n) return BAD;
  v->r = w[i++];
  if (i < n) v->h = w[i++];
  return i < n ? BAD : OK;
}
struct Job { Words w; V v; };
static int64_t run_parser(void *p) {
  Job *j = (Job *)p;
  Parser ps("prog", "about it");
  ps.RegisterOption("sort", "sorting", &j->v.s);
  ps.RegisterOption("bo", "a flag", &j->v.b);
  ps.RegisterOption("un", "unsigned", &j->v.u);
  ps.RegisterOption("so", "real", &j->v.d);
  ps.RegisterOption("in", "signed", &j->v.i);
  ps.RegisterArgument("ref", "first", &j->v.r);
  ps.RegisterOptArgument("hyp", "second", &j->v.h);
  std::vector<const char *> argv{"prog"};
  for (const auto &w : j->w) argv.push_back(w.c_str());
  argv.push_back(nullptr);
  return 100 + (ps.Parse((int)argv.size() - 1, argv.data()) ? 1 : 0);
}
static int decide(const Words &w) {
  V e = defaults();
  int want = expect(w, &e);
  Job j{w, defaults()};
  int64_t got = run_captured(run_parser, &j);
  if (want == HELP) {
    CHECK(got == 0, "asking for help ends with status zero");
    CHECK(has(kerr(), "--sort") && has(kerr(), "about it"), "asking for help shows the help");
    COVER("help");
    return want;
  }
  if (want == BAD) {
    CHECK(got == 100, "a wrong command line is rejected");
    CHECK(has(kerr(), "ERROR"), "a wrong command line is reported");
    COVER("rejected");
    return want;
  }
  CHECK(got == 101, "a right command line is accepted");
  CHECK(kerr().empty(), "nothing is reported for a right command line");
  CHECK(kout().empty(), "the parser prints nothing");
  CHECK(j.v.b == e.b, "flags are set as given");
  CHECK(j.v.i == e.i, "signed numbers are set as given");
  CHECK(j.v.u == e.u, "unsigned numbers are set as given");
  CHECK(near(j.v.d, e.d), "reals are set as given");
  CHECK(j.v.s == e.s, "strings are set as given");
  CHECK(j.v.r == e.r && j.v.h == e.h, "arguments are set as given");
  COVER("accepted");
  return want;
}
// arbitrary short vectors of option names and arbitrary short words
extern "C" void h_words() {
  static const char *K[] = {"--bo", "--in", "--un", "--so", "--sort", "--", "--help"};
  size_t n = pick("n", 0, PARAM("n", 3));
  size_t len = PARAM("len", 1);
  Words w;
  for (size_t i = 0; i < n; ++i) {
    size_t k = pick(nm("k", i).c_str(), 0, 7 + len);
    w.push_back(k < 7 ? std::string(K[k]) : any_word(nm("w", i), k - 7));
  }
  int r = decide(w);
  if (r == OK && n == 3 && w[0] == "--") COVER("options-ended");
  if (r == OK && n > 1 && w[0] == "--bo" && w[1] != "0" && w[1] != "1") COVER("bare-flag");
}
// arbitrary words where an option name is expected
extern "C" void h_names() {
  Words w{any_word("w", pick("len", 1, PARAM("len", 7)))};
  if (pick("value", 0, 1)) w.push_back("5");
  w.push_back("file");
  decide(w);
}
// arbitrary values
static void value(const char *opt, size_t lo, size_t hi) {
  Words w{opt, any_word("w", pick("len", lo, hi))};
  size_t more = pick("more", 0, 2);
  if (more == 1) w.insert(w.begin(), "--bo");
  if (more == 2) { w.push_back("--sort"); w.push_back("x y"); }
  w.push_back("file");
  decide(w);
}
extern "C" void h_value_in() { value("--in", 1, PARAM("len", 4)); }
extern "C" void h_value_un() { value("--un", 1, PARAM("len", 4)); }
extern "C" void h_value_so() { value("--so", 1, PARAM("len", 3)); }
extern "C" void h_value_sort() { value("--sort", 0, PARAM("len", 4)); }
extern "C" void h_value_bo() { value("--bo", 1, PARAM("len", 5)); }
// numbers around the limits of the types: ten digits, or twenty
extern "C" void h_value_big() {
  bool u = pick("unsigned", 0, 1);
  static const char *H[] = {"2147483", "-2147483", "9223372", "42949", "18446744073709551", "18446744073709552"};
  size_t k = pick("head", 0, 5);
  std::string t = H[k] + sym_strn("w", 3, '0', '9');
  unsigned __int128 x = 0;
  for (char c : t) if (c != '-') x = x * 10 + (unsigned)(c - '0');
  Job j{{u ? "--un" : "--in", t, "file"}, defaults()};
  int64_t got = run_captured(run_parser, &j);
  bool neg = t[0] == '-';
  bool fits = u ? !neg && x <= (unsigned __int128)UINT64_MAX : x <= (unsigned __int128)INT32_MAX + (neg ? 1 : 0);
  CHECK(got == (fits ? 101 : 100), "a number is accepted when its type can hold it");
  if (fits && u) CHECK(j.v.u == (size_t)x, "unsigned numbers are set as given");
  if (fits && !u) CHECK(j.v.i == (int32_t)(neg ? -(int64_t)x : (int64_t)x), "signed numbers are set as given");
  if (fits) COVER("fits"); else COVER("too-big");
}
// every number of mandatory, optional and given arguments
struct Args { size_t m, o; Words w; std::vector<std::string> got; int32_t i; bool b; int typed; };
static int64_t run_args(void *p) {
  Args *a = (Args *)p;
  Parser ps("prog");
  for (size_t k = 0; k < a->m; ++k) {
    if (a->typed == 1 && k == 0) ps.RegisterArgument("int", "i", &a->i);
    else ps.RegisterArgument(nm("m", k), "m", &a->got[k]);
  }
  for (size_t k = 0; k < a->o; ++k) {
    if (a->typed == 2 && k == 0) ps.RegisterOptArgument("bool", "b", &a->b);
    else ps.RegisterOptArgument(nm("o", k), "o", &a->got[a->m + k]);
  }
  std::vector<const char *> argv{"prog"};
  for (const auto &w : a->w) argv.push_back(w.c_str());
  argv.push_back(nullptr);
  return 100 + (ps.Parse((int)argv.size() - 1, argv.data()) ? 1 : 0);
}
extern "C" void h_args() {
  Args a;
  a.m = pick("mandatory", 0, 2);
  a.o = pick("optional", 0, 2);
  a.typed = (int)pick("typed", 0, 2);
  a.i = 11; a.b = true;
  size_t g = pick("given", 0, 5);
  bool ended = pick("ended", 0, 1);
  for (size_t k = 0; k < a.m + a.o; ++k) a.got.push_back("default");
  if (ended) a.w.push_back("--");
  std::vector<std::string> words;
  for (size_t k = 0; k < g; ++k) {
    bool typed = (a.typed == 1 && a.m && k == 0) || (a.typed == 2 && a.o && k == a.m);
    // without the "--" an argument that begins with a dash would be an option
    std::string t = typed ? any_word("t", pick("tlen", 1, 2)) : any_word(nm("w", k), 1) + "-";
    if (k == 0 && !ended && t.size() > 1) ASSUME(t[0] != '-');
    words.push_back(t);
    a.w.push_back(t);
  }
  bool ok = g >= a.m && g <= a.m + a.o;
  int64_t iv = 11;
  bool bv = true, tbad = false;
  if (a.typed == 1 && a.m && g > 0 && !is_int(words[0], &iv)) tbad = true;
  if (a.typed == 2 && a.o && g > a.m && !is_bool(words[a.m], &bv)) tbad = true;
  int64_t r = run_captured(run_args, &a);
  CHECK(r == (ok && !tbad ? 101 : 100), "arguments are accepted when each has its place and its type");
  if (tbad) COVER("wrong-type");
  if (g < a.m) COVER("missing");
  if (g > a.m + a.o) COVER("extra");
  if (r != 101) { CHECK(has(kerr(), "ERROR"), "wrong arguments are reported"); return; }
  COVER("accepted");
  for (size_t k = 0; k < a.m + a.o; ++k) {
    if ((a.typed == 1 && k == 0 && a.m) || (a.typed == 2 && k == a.m && a.o)) continue;
    CHECK(a.got[k] == (k < g ? words[k] : std::string("default")), "each argument is set from its own place");
  }
  if (a.typed == 1) CHECK(a.i == (int32_t)iv, "a number argument is set");
  if (a.typed == 2) CHECK(a.b == bv, "a boolean argument is set");
}
// registering names twice, and the reserved one
extern "C" void h_register() {
  int32_t a = 1, b = 2;
  std::string n1 = sym_strn("a", pick("la", 1, 3), 'a', 'z'), n2 = pick("reserved", 0, 1) ? std::string("help") : sym_strn("b", pick("lb", 1, 3), 'a', 'z');
  int64_t live = ksym_heap_live();
  {
    Parser ps("prog");
    CHECK(ps.RegisterOption(n1, "x", &a), "a new option is accepted");
    bool two = ps.RegisterOption(n2, "y", &b);
    CHECK(two == (n2 != "help" && n2 != n1), "a repeated or reserved option name is refused");
    const std::string w = "--" + n1;
    const char *argv[] = {"prog", w.c_str(), "55", nullptr};
    CHECK(ps.Parse(3, argv), "a registered option is accepted");
    CHECK(a == 55 && b == 2, "an option sets the variable it was first registered with");
    if (two) COVER("two"); else COVER("refused");
  }
}
extern "C" void h_release() {
  // type names and stream buffers are kept for the whole run: touch them first
  std::cerr << "a text that needs a buffer" << std::endl;
  int32_t a = 1; std::string s = "s"; bool b = false; size_t u = 0; double d = 0;
  for (int round = 0; round < 2; ++round) {
    int64_t live = ksym_heap_live();
    {
      Parser ps("prog", "desc");
      ps.RegisterOption("a", "x", &a); ps.RegisterOption("a", "x", &a); ps.RegisterOption("b", "x", &b);
      ps.RegisterArgument("c", "x", &u); ps.RegisterArgument("d", "x", &d); ps.RegisterOptArgument("e", "x", &s);
      size_t n = pick(nm("n", round).c_str(), 1, 6);
      const char *argv[] = {"prog", "--a", "5", "7", "1.5", "z", nullptr};
      ps.Parse((int)n, argv);
      std::string h = ps.Help();
      CHECK(!h.empty(), "there is a help text");
    }
    if (round) CHECK(ksym_heap_live() == live, "the parser releases what it acquired");
  }
  COVER("released");
}
// the help text
extern "C" void h_help() {
  size_t no = pick("options", 0, 2), na = pick("arguments", 0, 2), np = pick("optional", 0, 2);
  std::string names[6], helps[6], vals[6];
  static const char *N[] = {"sort", "x", "first", "y2", "maybe", "z"};
  size_t which = pick("which", 0, 17);   // the text with an arbitrary letter
  for (int k = 0; k < 6; ++k) {
    names[k] = N[k]; helps[k] = nm("about ", k); vals[k] = nm("val", k);
    if (which == (size_t)k) names[k] += sym_strn("l", 1, 'a', 'z');
    if (which == (size_t)k + 6) helps[k] += sym_strn("l", 1, ' ', '~');
    if (which == (size_t)k + 12) vals[k] += sym_strn("l", 1, ' ', '~');
  }
  Parser ps("the_program", "what it is for");
  for (size_t k = 0; k < no; ++k) CHECK(ps.RegisterOption(names[k], helps[k], &vals[k]), "registered");
  for (size_t k = 2; k < 2 + na; ++k) ps.RegisterArgument(names[k], helps[k], &vals[k]);
  for (size_t k = 4; k < 4 + np; ++k) ps.RegisterOptArgument(names[k], helps[k], &vals[k]);
  std::string h = ps.Help();
  CHECK(has(h, "the_program") && has(h, "what it is for"), "the help names the program and what it is for");
  size_t eol = h.find('\n');
  CHECK(eol != std::string::npos, "the help has a usage line");
  std::string usage = h.substr(0, eol), rest = h.substr(eol);
  size_t at = 0;
  for (size_t k = 2; k < 2 + na; ++k) { at = usage.find(" " + names[k], at); CHECK(at != std::string::npos, "the usage lists the arguments in order"); if (at == std::string::npos) return; }
  for (size_t k = 4; k < 4 + np; ++k) { at = usage.find("[ " + names[k], at); CHECK(at != std::string::npos, "the usage lists the optional arguments in order"); if (at == std::string::npos) return; }
  // one line for each, with its help
  size_t lines = 0;
  for (size_t k = 0; k < 6; ++k) {
    bool reg = k < 2 ? k < no : k < 4 ? k - 2 < na : k - 4 < np;
    std::string key = k < 2 ? "--" + names[k] : names[k];
    size_t p = rest.find("\n  " + key);
    CHECK((p != std::string::npos) == reg, "the help has a line for each registered name");
    if (p == std::string::npos) continue;
    std::string line = rest.substr(p + 1, rest.find('\n', p + 1) - p - 1);
    CHECK(has(line, helps[k]) && has(line, "string"), "the line tells what it is, and its type");
    if (k < 2) CHECK(has(line, "\"" + vals[k] + "\""), "the line of an option tells its value");
    ++lines;
  }
  if (lines == 6) COVER("all");
}
// the help of numbers and flags
extern "C" void h_help_values() {
  bool b = sym_bool("b");
  int32_t i = sym_i32("i", -1000, 1000);
  size_t u = sym_u64("u", 0, 1000);
  double d = 0.25;
  Parser ps("p");
  ps.RegisterOption("b", "bh", &b); ps.RegisterOption("i", "ih", &i); ps.RegisterOption("u", "uh", &u); ps.RegisterOption("d", "dh", &d);
  std::string h = ps.Help();
  CHECK(has(h, "bool, value = \"" + std::string(b ? "true" : "false") + "\""), "the help tells the value of a flag");
  { std::ostringstream o; o << i; CHECK(has(h, "\"" + o.str() + "\""), "the help tells a signed value"); }
  CHECK(has(h, "\"" + kio_num(u) + "\""), "the help tells an unsigned value");
  CHECK(has(h, "\"0.25\""), "the help tells a real value");
  CHECK(has(h, "int32_t") && has(h, "uint64_t"), "the help tells the types");
  COVER("values");
}
// options given more than once, in any order
extern "C" void h_twice() {
  static const char *K[] = {"--bo", "--in", "--un", "--so", "--sort"};
  Words w;
  for (size_t i = 0; i < PARAM("n", 3); ++i) {
    size_t k = pick(nm("k", i).c_str(), 0, 4);
    w.push_back(K[k]);
    if (k == 0) w.push_back(pick(nm("b", i).c_str(), 0, 1) ? "true" : "0"); else w.push_back(k == 4 ? any_word(nm("w", i), 1) : sym_strn(nm("w", i), 1, '0', '9'));
  }
  w.push_back("file");
  if (decide(w) == OK) COVER("set");
}
// many options and arguments with long names and long values
struct Many { size_t no, na, np; std::vector<std::string> opt, got; Words w; };
static std::string long_name(size_t k) { return "an_option_with_a_name_that_is_long_enough_for_any_table_" + std::string(k % 7 * 10, 'n') + nm("_", k); }
static int64_t run_many(void *p) {
  Many *m = (Many *)p;
  Parser ps("prog", std::string(3000, 'd'));
  for (size_t k = 0; k < m->no; ++k) CHECK(ps.RegisterOption(long_name(k), std::string(k * 5, 'h'), &m->opt[k]), "a new option is accepted (many)");
  CHECK(!ps.RegisterOption(long_name(3), "x", &m->opt[0]), "a repeated option name is refused (many)");
  for (size_t k = 0; k < m->na; ++k) ps.RegisterArgument(nm("argument_", k), "m", &m->got[k]);
  for (size_t k = 0; k < m->np; ++k) ps.RegisterOptArgument(nm("optional_", k), "o", &m->got[m->na + k]);
  std::vector<const char *> argv{"prog"};
  for (const auto &w : m->w) argv.push_back(w.c_str());
  argv.push_back(nullptr);
  return 100 + (ps.Parse((int)argv.size() - 1, argv.data()) ? 1 : 0);
}
extern "C" void h_big() {
  Many m;
  m.no = PARAM("options", 70); m.na = PARAM("arguments", 20); m.np = PARAM("optional", 20);
  size_t given = m.na + pick("given", 0, 3) * 7;   // none, some, most, one too many
  for (size_t k = 0; k < m.no; ++k) m.opt.push_back(nm("default", k));
  for (size_t k = 0; k < m.na + m.np; ++k) m.got.push_back("unset");
  Words want = m.opt, words;
  // a name with any last letter
  std::string n = long_name(7);
  n.back() = sym_strn("c", 1, '0', 'z')[0];
  size_t which = m.no;
  for (size_t k = 0; k < 10; ++k) if (n == long_name(k)) which = k;
  for (size_t k = 0; k < m.no; k += 3) { std::string v = std::string(k * 4 + (k == 60) * 4000, 'v') + nm("x", k); m.w.push_back("--" + long_name(k)); m.w.push_back(v); want[k] = v; }
  std::string v = std::string(300, 'w') + any_word("v", 1);
  m.w.push_back("--" + n); m.w.push_back(v);
  if (which < m.no) want[which] = v;
  for (size_t k = 0; k < given; ++k) { words.push_back(nm("word", k) + std::string(k * 3, 'z')); m.w.push_back(words[k]); }
  int64_t r = run_captured(run_many, &m);
  bool ok = which < m.no && given <= m.na + m.np;
  CHECK(r == (ok ? 101 : 100), "a long command line is accepted when each word has its place");
  if (!ok) { CHECK(has(kerr(), "ERROR"), "a wrong command line is reported (long)"); COVER("rejected"); return; }
  for (size_t k = 0; k < m.no; ++k) CHECK(m.opt[k] == want[k], "each of many options is set as given");
  for (size_t k = 0; k < m.na + m.np; ++k) CHECK(m.got[k] == (k < given ? words[k] : std::string("unset")), "each of many arguments is set from its own place");
  COVER("accepted");
}
