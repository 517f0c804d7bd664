#include "h.hh"
#include "cmdr11/cmdr_string.hh"
#include <iterator>
using namespace cmdr::string;
using V = std::vector<std::string>;
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
template<class F> static V runs(std::string const &s, F delim) {
  V v; std::string t;
  for (char c: s) { if (delim(c)) { if (!t.empty()) v.push_back(t); t.clear(); } else t += c; }
  if (!t.empty()) v.push_back(t);
  return v;
}
static V pieces(std::string const &s, std::string const &d, bool dropLastEmpty) {
  V v; size_t a = 0;
  if (d.empty()) return {s};
  for (;;) {
    size_t b = std::string::npos;
    for (size_t i = a; i + d.size() <= s.size(); i++) if (s.compare(i, d.size(), d) == 0) { b = i; break; }
    if (b == std::string::npos) break;
    v.push_back(s.substr(a, b - a)); a = b + d.size();
  }
  if (!dropLastEmpty || a < s.size()) v.push_back(s.substr(a));
  return v;
}
static void text1(std::string const &s, char c) {
  h::begin(h::args(s, c), s.size() > 1);
  h::same(tokenize(s), runs(s, sp), "tokenize");
  h::same(tokenize(s, c), runs(s, [c](char x) { return x == c; }), "tokenize(char)");
  h::same(split(s, c), pieces(s, std::string(1, c), true), "split(char)");
}
static void text2(std::string const &s, std::string const &d, std::string const &r) {
  h::begin(h::args(s, d, r), s.size() > 1 && !d.empty());
  V out; split(s, d, std::back_inserter(out));
  h::same(out, pieces(s, d, false), "split(text)");
  if (!d.empty()) h::same(join(out, d.c_str()), s, "join(split)");
  std::string t = s, want = s; size_t p = s.find(d); bool f = p != std::string::npos;
  if (f) want = s.substr(0, p) + r + s.substr(p + d.size());
  bool got = replace(t, d, r); h::same(got, f, "replace result"); h::same(t, want, "replace");
  t = s; replace_all(t, d, r);
  if (d.empty()) want = s; else { V q = pieces(s, d, false); want.clear(); for (size_t i = 0; i < q.size(); i++) want += (i ? r : "") + q[i]; }
  h::same(t, want, "replace_all");
}
static void joins(V const &v, std::string const &d, std::string const &b, std::string const &a, char dc, char bc, char ac) {
  h::begin(h::args(v, d, b, a), v.size() > 1);
  std::string w = b, x = bc ? std::string(1, bc) : "";
  for (size_t i = 0; i < v.size(); i++) { w += (i ? d : "") + v[i]; x += (i ? std::string(1, dc) : "") + v[i]; }
  w += a; if (ac) x += ac;
  std::vector<char const *> cv; for (auto &s: v) cv.push_back(s.c_str());
  h::same(join(v, d.c_str(), b.c_str(), a.c_str()), w, "join"); h::same(join(cv, d.c_str(), b.c_str(), a.c_str()), w, "join(texts)");
  h::same(join(v, dc, bc, ac), x, "join(char)"); h::same(join(cv, dc, bc, ac), x, "join(texts,char)");
}
static void all(std::string const &al, size_t n, std::function<void(std::string const &)> f) {
  std::string s;
  std::function<void()> go = [&] { f(s); if (s.size() < n) for (char c: al) { s += c; go(); s.pop_back(); } };
  go();
}
static h::add m1("counter-models", [](h::rng &) {
  for (auto &m: h::models) {
    auto dl = m.count("delim") ? m["delim"] : m["from"];
    text1(m["s"], (char) atoi(dl.c_str())); text2(m["s"], dl, m["to"]);
  }
}, 0.05);
static h::add a1("tokenize/split exhaustive", [](h::rng &) { all("ab,\t ", 5, [](std::string const &s) { text1(s, ','); text1(s, 'a'); }); });
static h::add a2("split/replace exhaustive", [](h::rng &) { all("ab", 6, [](std::string const &s) { all("ab", 2, [&](std::string const &d) { for (char const *r: {"", "a", "ab", "aab", "xyz"}) text2(s, d, r); }); }); });
static h::add a3("split/replace random", [](h::rng &r) {
  while (h::time_left()) {
    std::string d = r.text("xy,", 3), s;
    for (size_t i = r.below(7); i > 0; i--) s += r.chance(50) ? d : r.text("xyab,", 4);
    text2(s, d, r.chance(40) ? d + r.text("xy", 2) : r.text("xy,ab", 5)); text1(r.text(" ab,;\n\r\t\v\f", 30), r.pick(std::vector<char>{',', ' ', '\n', 'a', ';'}));
  }
});
static h::add a4("join", [](h::rng &r) {
  std::vector<std::string> ds{"", ",", ", ", "--"}; std::vector<char> cs{0, ',', '[', ']', ' '};
  for (auto &d: ds) for (auto &b: ds) for (auto &a: ds) for (V v: std::vector<V>{{}, {""}, {"a"}, {"", ""}, {"a", "b"}, {"a", "", "c"}, {"a", "b", "c", "d"}}) for (char c: cs) for (char bc: cs) joins(v, d, b, a, c, bc, bc == '[' ? ']' : bc);
  while (h::time_left()) {
    V v; for (size_t i = r.below(9); i > 0; i--) v.push_back(r.text("ab,", 5));
    joins(v, r.text(",;", 2), r.text("[(", 2), r.text("])", 2), r.pick(cs), r.pick(cs), r.pick(cs));
  }
});
