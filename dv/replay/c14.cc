#include "h.hh"
#include "cmdr11/cmdr_string.hh"
using jw = cmdr::text::jaro_winkler_distance;
static std::string low(std::string s) { for (auto &c: s) c = (char) std::tolower((unsigned char) c); return s; }
static void one(std::string const &a, std::string const &b, double th, bool cs, int rep) {
  h::begin(h::args(a, b, th, cs, rep), !a.empty() && !b.empty() && a != b);
  // exactly sized heap copies: a read past the end is seen by the address sanitizer
  std::unique_ptr<char[]> pa(new char[a.size() + 1]), pb(new char[b.size() + 1]);
  memcpy(pa.get(), a.c_str(), a.size() + 1); memcpy(pb.get(), b.c_str(), b.size() + 1);
  jw j(th, cs);
  double prev = 0;
  for (int k = 0; k < rep; k++) {
    double d = j.calc(pa.get(), pb.get(), false);
    std::string x = cs ? a : low(a), y = cs ? b : low(b);
    if (!(d >= 0 && d <= 1)) h::fail("score " + h::show(d) + " is not between 0 and 1");
    if (!a.empty() && x == y && d != 1) h::fail("identical names score " + h::show(d));
    if ((a.empty() || b.empty()) && d != 0) h::fail("an empty name scores " + h::show(d));
    if (x.find_first_of(y) == std::string::npos && d != 0) h::fail("names without a common character score " + h::show(d));
    if (j.get_distance() != d) h::fail("recorded distance " + h::show(j.get_distance()) + ", returned " + h::show(d));
    if (k && d != prev) h::fail("calculating again gives " + h::show(d) + " instead of " + h::show(prev));
    if (d >= th && !j.matched()) h::fail("score " + h::show(d) + " at threshold " + h::show(th) + " does not match");
    if (d < th - 1e-6 && j.matched()) h::fail("score " + h::show(d) + " below threshold " + h::show(th) + " matches");
    prev = d;
  }
}
static const std::vector<std::string> names{"", "a", "b", "ab", "ba", "dump", "bump", "debug", "deubg", "server", "servre", "verbose", "version", "help", "hlep", "kv", "ms", "tags", "ls", "list", "MARTHA", "marhta", "DIXON", "dicksonx", "aaaa", "aa", "abab", "baba", "xyzzy", "list-all", "\xff\xfe", "\x80"};
static h::add m0("counter-models", [](h::rng &) { for (auto &m: h::models) for (bool cs: {true, false}) one(m["a"], m["b"], 0.7, cs, 2); }, 0.05);
static h::add a0("names", [](h::rng &) { for (auto &a: names) for (auto &b: names) for (bool cs: {true, false}) for (double t: {0.0, 0.7, 1.0}) one(a, b, t, cs, 2); }, 0.2);
static h::add a1("all short names", [](h::rng &) {
  std::vector<std::string> v{""}; for (size_t i = 0; i < v.size(); i++) if (v[i].size() < 5) for (char c: {'a', 'b', 'C'}) v.push_back(v[i] + c);
  for (auto &a: v) for (auto &b: v) { if (!h::time_left()) return; one(a, b, 0.5, true, 1); }
}, 1);
static h::add a2("random names", [](h::rng &r) {
  while (h::time_left()) { std::string al = r.pick(std::vector<std::string>{"ab", "abcdeABC", "abcdefghijklmnopqrstuvwxyz-_", "\x80\xff\xc3\xa9z"}); auto a = r.text(al, r.chance(20) ? 60 : 10), b = a;
    if (r.chance(50)) b = r.text(al, r.chance(20) ? 60 : 10); else for (int k = (int) r.below(4); k-- > 0 && !b.empty();) { size_t i = r.below(b.size()); switch (r.below(4)) { case 0: b.erase(i, 1); break; case 1: b.insert(i, 1, al[0]); break; case 2: std::swap(b[i], b[b.size() / 2]); break; default: b[i] = (char) std::toupper((unsigned char) b[i]); } }
    one(a, b, (double) r.below(101) / 100, r.chance(50), 2); }
}, 1);
