#include "h.hh"
#include "cmdr11/cmdr_chrono.hh"
namespace ch = cmdr::chrono; namespace sc = std::chrono;
using iom = ch::iom; using ff = iom::fmtflags;
typedef sc::duration<int, std::ratio<86400>> days;
using tp = sc::time_point<sc::system_clock, sc::nanoseconds>;
using i128 = __int128;
static void parts(std::vector<std::pair<long, i128>> v, i128 total, char const *what) {
  i128 sum = 0; for (auto &p: v) sum += (i128) p.first * p.second;
  i128 rest = total - sum, last = v.back().second;
  if (total >= 0 ? rest < 0 || rest >= last : rest > 0 || -rest >= last) h::fail(std::string(what) + ": the parts do not add up to the duration");
  for (size_t i = 0; i < v.size(); i++) {
    if (total >= 0 ? v[i].first < 0 : v[i].first > 0) h::fail(std::string(what) + ": part with the wrong sign");
    if (i) { i128 a = v[i].first < 0 ? -(i128) v[i].first : (i128) v[i].first; if (a * v[i].second >= v[i - 1].second) h::fail(std::string(what) + ": a part reaches the next larger unit"); }
  }
}
static void bd(long n) {
  h::begin(h::args("duration", n));
  { auto r = ch::detail::break_down_durations<days, sc::hours, sc::minutes, sc::seconds, sc::milliseconds, sc::nanoseconds>(sc::nanoseconds(n));
    parts({{std::get<0>(r).count(), 86400000000000ll}, {std::get<1>(r).count(), 3600000000000ll}, {std::get<2>(r).count(), 60000000000ll}, {std::get<3>(r).count(), 1000000000}, {std::get<4>(r).count(), 1000000}, {std::get<5>(r).count(), 1}}, n, "six parts"); }
  { auto r = ch::detail::break_down_durations<sc::seconds, sc::milliseconds, sc::microseconds>(sc::nanoseconds(n)); parts({{std::get<0>(r).count(), 1000000000}, {std::get<1>(r).count(), 1000000}, {std::get<2>(r).count(), 1000}}, n, "three parts"); }
  { auto r = ch::detail::break_down_durations<sc::minutes, sc::seconds>(sc::milliseconds(n)); parts({{std::get<0>(r).count(), 60000}, {std::get<1>(r).count(), 1000}}, n, "two parts"); }
  { auto r = ch::detail::break_down_durations<sc::hours>(sc::seconds(n)); parts({{std::get<0>(r).count(), 3600}}, n, "one part"); }
  { auto r = ch::detail::break_down_durations<sc::seconds, sc::nanoseconds>(sc::nanoseconds(n)); parts({{std::get<0>(r).count(), 1000000000}, {std::get<1>(r).count(), 1}}, n, "seconds, nanoseconds"); }
}
static void frac(long n) {
  if (n < 0) return;
  h::begin(h::args("time point", n)); tp t{sc::nanoseconds(n)};
  unsigned long ms = n / 1000000 % 1000, us = n / 1000 % 1000, ns = n % 1000;
  h::same((unsigned long) ch::time_point_get_ms(t), ms, "milliseconds"); h::same((unsigned long) ch::time_point_get_us(t), us, "microseconds"); h::same((unsigned long) ch::time_point_get_ns(t), ns, "nanoseconds");
  sc::time_point<sc::system_clock, sc::microseconds> tu{sc::microseconds(n / 1000)};
  h::same((unsigned long) ch::time_point_get_ms(tu), ms, "milliseconds of a time in us"); h::same((unsigned long) ch::time_point_get_us(tu), us, "microseconds of a time in us");
  ch::clock c; c._now = t; h::same((unsigned long) c.in_nsec(), (unsigned long) (n % 1000000000), "clock::in_nsec"); h::same((unsigned long) c.nsec(), ns, "clock::nsec");
}
static void print(long n, int prec) {
  h::begin(h::args("print", n, prec)); tp t{sc::nanoseconds(n)}; iom::_flags = (ff) (0x4000 | prec);
  char b[64], w[128]; time_t tt = n / 1000000000; tm g; gmtime_r(&tt, &g); strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &g);
  int ms = n / 1000000 % 1000, us = n / 1000 % 1000, ns = n % 1000;
  if (prec == 1) snprintf(w, sizeof w, "%s.%03d", b, ms); else if (prec == 2) snprintf(w, sizeof w, "%s.%03d%03d", b, ms, us); else snprintf(w, sizeof w, "%s,%03d%03d%03d", b, ms, us, ns);
  std::string got = ch::format_time_point(t); auto sep = [](std::string s) { for (auto &c: s) if (c == ',') c = '.'; return s; };
  h::same(sep(got), sep(w), "printed time");
}
struct model { int prec = 2; bool utc = true; };
struct op { char const *name; unsigned v; bool on; };
static const std::vector<op> ops{{"ms", 1, true}, {"us", 2, true}, {"ns", 3, true}, {"gmt", 0x1000, true}, {"local", 0x2000, true}, {"choice on", 0x4000, true}, {"choice off", 0x4000, false}, {"clear", 0, true}, {"<<ms", 1, true}, {"<<us", 2, true}, {"<<ns", 3, true}, {"<<gmt", 0x1000, true}, {"<<local", 0x2000, true}, {"<<clear", 0, true}, {"reset", 0, true}};
static void apply(model &m, op const &o, std::ostream &os) {
  std::string n = o.name;
  if (n == "reset") iom::reset(); else if (n[0] == '<') os << (ff) o.v; else iom::set_flags((ff) o.v, o.on);
  if (o.v == 0) m = model(); else if (o.v < 15) m.prec = (int) o.v; else if (o.v == 0x1000) m.utc = true; else if (o.v == 0x2000) m.utc = false; else m.utc = o.on;
}
static void check(model const &m) {
  for (int p = 1; p <= 3; p++) if (iom::has((ff) p) != (m.prec == p)) h::fail("precision " + h::show(p) + (m.prec == p ? " is selected but not reported" : " is reported but not selected"));
  if (iom::has(ff::gmt_or_local) != m.utc) h::fail(m.utc ? "UTC is selected but not reported" : "local time is selected but UTC reported");
  if (iom::has(ff::clear)) h::fail("'clear' reported");
}
static void seq(std::vector<int> const &s, size_t from, size_t to) { // operations [from, to) inside a saver scope
  std::string d; for (size_t i = 0; i < s.size(); i++) { if (i == from) d += "{ "; d += std::string(ops[s[i]].name) + " "; if (i + 1 == to) d += "} "; }
  h::begin("(flags " + d + ")"); iom::reset(); model m; std::stringstream os;
  for (size_t i = 0; i < s.size(); i++) {
    if (i == from && to > from) { model keep = m; auto f = iom::flags(); { iom::saver sv; for (; i < to; i++) { apply(m, ops[s[i]], os); check(m); } } m = keep; i--; check(m); if (iom::flags() != f) h::fail("the flags are not restored on scope exit"); continue; }
    apply(m, ops[s[i]], os); check(m);
  }
}
static std::vector<long> edges() {
  std::vector<long> v; for (long b: {0l, 1l, 10l, 999l, 1000l, 1000000l, 1000000000l, 60000000000l, 3600000000000l, 86400000000000l, 1700000000123456789l, 100000000000000000l}) for (long d = -3; d <= 3; d++) { v.push_back(b + d); v.push_back(-b + d); for (long k: {7l, 59l, 999l}) if (b < 100000000000000l) v.push_back(b * k + d); }
  return v;
}
static h::add m0("counter-models", [](h::rng &) { for (auto &m: h::models) if (m.count("n")) { long n = atoll(m["n"].c_str()); bd(n); frac(n); } }, 0.05);
static h::add a0("durations", [](h::rng &r) { for (long n: edges()) bd(n); while (h::time_left()) bd((long) r.next() >> r.below(60)); });
static h::add a1("fractions", [](h::rng &r) { for (long n: edges()) frac(n); while (h::time_left()) frac((long) (r.next() >> (1 + r.below(60)))); });
static h::add a2("printed times", [](h::rng &r) { for (long n: edges()) if (n >= 0) for (int p = 1; p < 4; p++) print(n, p); while (h::time_left()) print((long) (r.next() >> (1 + r.below(40))), 1 + (int) r.below(3)); });
static h::add a3("flags, all short sequences", [](h::rng &) { int n = (int) ops.size();
  for (int a = 0; a < n; a++) { seq({a}, 0, 0); seq({a}, 0, 1); for (int b = 0; b < n; b++) { seq({a, b}, 0, 0); seq({a, b}, 1, 2); seq({a, b}, 0, 2); for (int c = 0; c < n; c++) { seq({a, b, c}, 0, 0); seq({a, b, c}, 1, 2); seq({a, b, c}, 1, 3); } } } });
static h::add a4("flags, random sequences", [](h::rng &r) { while (h::time_left()) { std::vector<int> s; for (int k = 1 + (int) r.below(12); k-- > 0;) s.push_back((int) r.below(ops.size())); size_t f = r.below(s.size()), t = f + r.below(s.size() - f + 1); seq(s, f, t); } });
