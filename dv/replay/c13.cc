#include "h.hh"
#include "cmdr11/cmdr_string.hh"
static void one_i(int n) {
  std::string s = "garbage before", w; char b[32]; snprintf(b, sizeof b, "%d", n); w = b;
  cmdr::string::conv::itoa(n, s);
  if (s != w) { h::begin(h::args(n)); h::same(s, w, "itoa(int)"); }
}
static void one_u(unsigned n) {
  std::string s = "garbage before", w; char b[32]; snprintf(b, sizeof b, "%u", n); w = b;
  cmdr::string::conv::itoa(n, s);
  if (s != w) { h::begin(h::args(n)); h::same(s, w, "itoa(unsigned)"); }
}
static h::add m1("counter-models", [](h::rng &) { for (auto &m: h::models) { h::begin(m["n"]); one_i((int) atoll(m["n"].c_str())); one_u((unsigned) atoll(m["n"].c_str())); } }, 0.05);
static h::add a1("itoa boundaries", [](h::rng &) {
  for (int64_t b = 1; b <= 10000000000ll; b *= 10) for (int64_t d = -1200; d <= 1200; d++) {
    int64_t v = b + d; h::begin(h::args((long) v));
    one_u((unsigned) v); one_i((int) v); one_i((int) -v);
  }
  for (int64_t d = 0; d < 1000; d++) { h::begin(h::args((long) d)); one_i((int) (INT32_MIN + d)); one_i((int) (INT32_MAX - d)); one_u((unsigned) (UINT32_MAX - d)); }
});
static h::add a2("itoa random", [](h::rng &r) { while (h::time_left()) { h::begin("random block"); for (int i = 0; i < 1000; i++) { auto v = r.next() >> r.below(33); one_i((int) v); one_i(-(int) (v & 0x7fffffff)); one_u((unsigned) v); } } });
