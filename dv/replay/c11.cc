#include "h.hh"
#include "cmdr11/cmdr_string.hh"
using namespace cmdr::string;
static bool in(char c, char const *set) { return c && strchr(set, c); }
static std::string cut(std::string const &s, char const *set, bool l, bool r) {
  size_t i = 0, j = s.size();
  if (l) while (i < j && in(s[i], set)) i++;
  if (r) while (j > i && in(s[j - 1], set)) j--;
  return s.substr(i, j - i);
}
static char const BL[] = " \n\r\t\v\f", QU[] = "\"'";
static void one(std::string const &s) {
  h::begin(h::args(s), !s.empty());
  std::string t;
  h::same(strip_quotes(s), cut(s, QU, 1, 1), "strip_quotes");
  h::same(trim(s), cut(s, BL, 1, 1), "trim");
  h::same(trim_left(s), cut(s, BL, 1, 0), "trim_left");
  h::same(trim_right(s), cut(s, BL, 0, 1), "trim_right");
  t = s; trim_left_space(t); h::same(t, cut(s, BL, 1, 0), "trim_left_space");
  t = s; trim_right_space(t); h::same(t, cut(s, BL, 0, 1), "trim_right_space");
  t = s; h::same(trim_left_space(std::move(t)), cut(s, BL, 1, 0), "trim_left_space(rvalue)");
  t = s; h::same(trim_right_space(std::move(t)), cut(s, BL, 0, 1), "trim_right_space(rvalue)");
}
static void affix(std::string const &s, std::string const &a, std::string const &b) {
  h::begin(h::args(s, a, b), !s.empty() && !a.empty());
  bool pre = a.size() <= s.size() && s.substr(0, a.size()) == a, post = b.size() <= s.size() && s.substr(s.size() - b.size()) == b;
  h::same(has_prefix(s, a), pre, "has_prefix"); h::same(has_prefix(s, a.c_str()), pre, "has_prefix(text)");
  h::same(has_suffix(s, b), post, "has_suffix"); h::same(has_suffix(s, b.c_str()), post, "has_suffix(text)");
  if (!(pre && post && s.size() < a.size() + b.size())) {
    size_t i = pre ? a.size() : 0, j = s.size() - (post ? b.size() : 0);
    h::same(strip(s, a.c_str(), b.c_str()), s.substr(i, j - i), "strip");
  }
}
static void all(std::string const &al, size_t n, std::function<void(std::string const &)> f) {
  std::string s;
  std::function<void()> go = [&] { f(s); if (s.size() < n) for (char c: al) { s += c; go(); s.pop_back(); } };
  go();
}
static h::add m1("counter-models", [](h::rng &) {
  for (auto &m: h::models) { one(m["s"]); affix(m["s"], m.count("affix") ? m["affix"] : m["pre"], m.count("affix") ? m["affix"] : m["post"]); }
}, 0.1);
static h::add a1("strip/trim exhaustive", [](h::rng &) { all("a'\" \t", 5, one); all("x \n\r\t\v\f\"", 4, one); });
static h::add a2("strip/trim random", [](h::rng &r) { while (h::time_left()) { one(r.text("ab \n\r\t\v\f'\"", 24)); one(r.text("' \"", 12)); } });
static h::add a3("affix exhaustive", [](h::rng &) {
  all("ab", 5, [](std::string const &s) { all("ab", 3, [&](std::string const &a) { affix(s, a, a); affix(s, a, "b"); affix(s, "a", a); }); });
});
static h::add a4("affix random", [](h::rng &r) {
  while (h::time_left()) {
    std::string s = r.text("abc-", 20), a = r.chance(60) ? s.substr(0, r.below(s.size() + 1)) : r.text("abc-", 6), b = r.chance(60) ? s.substr(r.below(s.size() + 1)) : r.text("abc-", 6);
    affix(s, a, b);
  }
});
