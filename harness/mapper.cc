// C15 names to numbers.
#include "common.h"
#include <unordered_map>
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "mapper/IdentityMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/ScoredEventMapper.h"
using namespace kws::core;
using namespace kws::mapper;
// first-appearance numbers by the definition
struct Table {
  std::vector<std::string> names;
  size_t of(const std::string &s) {
    for (size_t i = 0; i < names.size(); ++i) if (names[i] == s) return i;
    names.push_back(s);
    return names.size() - 1;
  }
  bool has(const std::string &s) const { for (const auto &n : names) if (n == s) return true; return false; }
};
template <class M> static void names(size_t n, size_t len) {
  M m;
  Table t;
  bool again = false, fresh = false;
  for (size_t i = 0; i < n; ++i) {
    std::string s = sym_str(nm("s", i), len);
    bool known = t.has(s);
    (known ? again : fresh) = true;
    size_t want = t.of(s);
    CHECK((size_t)m(s) == want, "numbers count from zero in order of first appearance");
    for (size_t k = 0; k < t.names.size(); ++k) CHECK((size_t)m(t.names[k]) == k, "known names keep their number");
  }
  if (again && fresh) COVER("known-and-new");
  if (t.names.size() == n) COVER("all-new");
}
extern "C" void h_names() { names<StringToIntMapper<int32_t>>(PARAM("n", 3), PARAM("len", 2)); }
extern "C" void h_names_tree() { names<StringToIntMapper<uint16_t, std::map<std::string, uint16_t>>>(PARAM("n", 3), PARAM("len", 2)); }
extern "C" void h_names_u64() { names<StringToIntMapper<uint64_t>>(PARAM("n", 2), 1); }
extern "C" void h_names_i64() { names<StringToIntMapper<int64_t>>(PARAM("n", 2), 1); }
// the table is full after max+1 names
template <class Int, class M> static void exhaust(size_t cap) {
  M m;
  for (size_t i = 0; i < cap; ++i) {
    size_t got = (size_t)m("n" + std::to_string(i));
    if (i < 3 || i + 3 > cap) CHECK(got == i, "numbers count from zero up to the largest of the type");
  }
  std::string s = "n";
  size_t d = pick("digits", 0, 3);
  size_t v = 0;
  bool number = d > 0;
  for (size_t i = 0; i < d; ++i) {
    char c = (char)ksym_sym(nm("d", i).c_str(), 8, '0', ':', 0);
    s += c;
    if (c == ':') number = false;
    if (i == 0 && c == '0' && d > 1) number = false;
    v = v * 10 + (size_t)(c - '0');
  }
  bool known = number && v < cap, thrown = false;
  int64_t got = -1;
  try { got = (int64_t)m(s); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown == !known, "a new name is refused when the numbers are exhausted");
  if (known) { CHECK((size_t)got == v, "known names keep working"); COVER("known"); } else COVER("refused");
  CHECK((size_t)m("n1") == 1, "known names keep working after a refusal");
  bool again = false;
  try { m(s); } catch (const std::exception &) { again = true; }
  CHECK(again == thrown, "a refused name stays refused");
}
extern "C" void h_exhaust_i8() { exhaust<int8_t, StringToIntMapper<int8_t, std::map<std::string, int8_t>>>(128); }
extern "C" void h_exhaust_u8() { exhaust<uint8_t, StringToIntMapper<uint8_t, std::map<std::string, uint8_t>>>(256); }
extern "C" void h_exhaust_hash() { exhaust<int8_t, StringToIntMapper<int8_t>>(128); }
// hundreds of names
template <class M> static void many(size_t n) {
  M m;
  for (size_t i = 0; i < n; ++i) CHECK((size_t)m("name" + std::to_string(i)) == i, "numbers count from zero in order of first appearance (many)");
  size_t at = pick("at", 0, 2) * (n / 2 - 1);
  std::string s = "name" + std::to_string(at);
  s[s.size() - 1] = (char)ksym_sym("last", 8, '0', '9', 0);
  size_t v = 0;
  for (size_t i = 4; i < s.size(); ++i) v = v * 10 + (size_t)(s[i] - '0');
  size_t got = (size_t)m(s);
  CHECK(v < n ? got == v : got == n, "known names keep their number (many)");
  COVER("many");
}
extern "C" void h_names_many() { many<StringToIntMapper<int32_t>>(PARAM("n", 300)); }
extern "C" void h_names_many_tree() { many<StringToIntMapper<uint64_t, std::map<std::string, uint64_t>>>(PARAM("n", 600)); }
// ownership: every history of a few operations on up to three mappers
template <class M, class Look> static void history(Look look) {
  int64_t before = ksym_heap_live();
  {
    size_t ops = PARAM("ops", 4);
    M *m[3] = {new M(), new M(), nullptr};
    int table[3] = {0, 1, -1};          // the table each refers to
    bool owns[3] = {true, true, false};
    Table t[6];
    bool live[6] = {true, true};
    int nt = 2;
    for (size_t o = 0; o < ops; ++o) {
      size_t op = pick(nm("op", o).c_str(), 0, 3), a = pick(nm("a", o).c_str(), 0, 2), b = op == 1 || op == 2 ? pick(nm("b", o).c_str(), 0, 2) : 0;
      if (op == 0) {           // look up a name
        if (!m[a] || !live[table[a]]) { ksym_discard(); return; }
        for (size_t k = 0; k < 3; ++k) {
          std::string s(1, (char)('a' + ((o + k) & 1)));
          size_t want = t[table[a]].of(s);
          CHECK(look(*m[a], s) == want, "mappers share the table they were copied from");
        }
      } else if (op == 1) {    // assign
        if (!m[a] || !m[b]) { ksym_discard(); return; }
        *m[a] = *m[b];
        if (table[a] != table[b]) {
          if (owns[a]) live[table[a]] = false;
          owns[a] = false;
          table[a] = table[b];
          COVER("assigned");
        }
      } else if (op == 2) {    // copy
        if (m[a] || !m[b]) { ksym_discard(); return; }
        m[a] = new M(*m[b]);
        table[a] = table[b]; owns[a] = false;
        COVER("copied");
      } else {                 // destroy
        if (!m[a]) { ksym_discard(); return; }
        delete m[a];
        m[a] = nullptr;
        if (owns[a]) live[table[a]] = false;
        owns[a] = false; table[a] = -1;
        COVER("destroyed");
      }
      (void)nt;
    }
    for (int i = 0; i < 3; ++i) delete m[i];
  }
  CHECK(ksym_heap_live() == before, "everything is freed exactly once");
}
extern "C" void h_own_names() { history<StringToIntMapper<int32_t>>([](StringToIntMapper<int32_t> &m, const std::string &s) { return (size_t)m(s); }); }
extern "C" void h_own_events() {
  typedef StringEventToIntMapper<int32_t> M;
  history<M>([](M &m, const std::string &s) {
    auto e = m(Event<std::string, std::string>(s, s));
    CHECK(e.Query() == e.Location(), "query and location share one table");
    return (size_t)e.Query();
  });
}
// tables given from outside, owned or not
extern "C" void h_own_given() {
  int64_t before = ksym_heap_live();
  {
    typedef StringToIntMapper<int32_t> S;
    bool own = pick("own", 0, 1), event = pick("event", 0, 1), dflt = !own && pick("default", 0, 1);
    if (!event) {
      S::Impl *impl = new S::Impl();
      (*impl)["x"] = 0;
      {
        S m = dflt ? S(impl) : S(impl, own);
        CHECK(m("x") == 0 && m("y") == 1, "the given table is used and extended");
        S *k = new S(impl, false);
        CHECK((*k)("y") == 1, "two mappers on one table agree");
        delete k;
        CHECK(m("y") == 1, "a mapper that does not own its table leaves it alone");
        if (own) COVER("owned");
      }
      if (!own) { CHECK(impl->size() == 2, "a table that is not owned survives"); delete impl; COVER("borrowed"); }
    } else {
      typedef StringEventToIntMapper<int32_t> E;
      S *s = new S();
      (*s)("x");
      {
        E m = dflt ? E(s) : E(s, own);
        CHECK(m.GetMapper() == s, "the given mapper is used");
        auto e = m(Event<std::string, std::string>("y", "x"));
        CHECK(e.Query() == 1 && e.Location() == 0, "the given mapper is used and extended");
      }
      if (!own) { CHECK((*s)("y") == 1, "a mapper that is not owned survives"); delete s; }
    }
  }
  CHECK(ksym_heap_live() == before, "everything is freed exactly once");
}
// events: query first, then location, fields not swapped, score kept
extern "C" void h_map_event() {
  StringToIntMapper<int32_t> names;
  StringEventToIntMapper<int32_t> m(&names);
  ScoredEventMapper<StringEventToIntMapper<int32_t>> hm(&m);
  size_t n = PARAM("n", 2);
  Table t;
  for (size_t i = 0; i < n; ++i) {
    std::string q = sym_str(nm("q", i), 1), l = sym_str(nm("l", i), 1);
    Event<std::string, std::string> e(q, l);
    bool scored = pick(nm("scored", i).c_str(), 0, 1);
    bool kq = t.has(q), kl = t.has(l);
    int32_t gq, gl;
    if (scored) {
      float sc = sym_f32(nm("sc", i).c_str());
      ASSUME(sc == sc);
      ScoredEvent<Event<int32_t, int32_t>> r = hm(ScoredEvent<Event<std::string, std::string>>(e, sc));
      CHECK(r.Score() == sc, "the score is kept");
      gq = r.Query(); gl = r.Location();
      COVER("scored");
    } else { Event<int32_t, int32_t> r = m(e); gq = r.Query(); gl = r.Location(); }
    // a new query and a new location may be numbered in either order
    size_t base = t.names.size();
    if (!kq && !kl && q != l) {
      CHECK(gq + gl == (int32_t)(2 * base + 1) && gq != gl && gq >= (int32_t)base && gl >= (int32_t)base, "new names get the next numbers");
      if (gq < gl) { t.of(q); t.of(l); } else { t.of(l); t.of(q); }
    } else { t.of(q); t.of(l); }
    CHECK((size_t)gq == t.of(q) && (size_t)gl == t.of(l), "query and location get the numbers of their names");
  }
  for (size_t k = 0; k < t.names.size(); ++k) CHECK((size_t)names(t.names[k]) == k, "the shared mapper knows every name");
  IdentityMapper<std::string> id;
  std::string s = sym_str("same", 2);
  CHECK(id(s) == s, "the identity mapper changes nothing");
}
