#include "h.hh"
#include "cmdr11/cmdr_var_t.hh"
using cmdr::vars::variable;
static char const *T[] = {"1", "t", "true", "y", "yes", "on"}, *F[] = {"0", "f", "false", "n", "no", "off"};
static std::string lower(std::string s) { for (auto &c: s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool is_in(char const **w, std::string const &s) { for (int i = 0; i < 6; i++) if (lower(s) == w[i]) return true; return false; }
static void one(std::string const &pre, std::string const &t) {
  for (int x0 = 0; x0 < 2; x0++) {
    h::begin(h::args(pre, t), !t.empty());
    std::istringstream is(pre + t); for (size_t i = 0; i < pre.size(); i++) is.get();
    bool x = x0, r = variable::parse_bool(is, x);
    is.clear(); size_t k = (size_t) is.tellg() - pre.size();
    if (k > t.size()) { h::fail("stream position outside the text"); continue; }
    std::string c = t.substr(0, k);
    if (r && x && !is_in(T, c)) h::fail("accepted as true, consumed " + h::show(c));
    if (r && !x && !is_in(F, c)) h::fail("accepted as false, consumed " + h::show(c));
    if (!r && (k != 0 || x != (bool) x0)) h::fail("rejected, but value or stream position changed");
    for (int v = 0; v < 2; v++) for (int i = 0; i < 6; i++) {
      std::string w = v ? T[i] : F[i];
      if (lower(t.substr(0, w.size())) == w && (t.size() == w.size() || !isalpha((unsigned char) t[w.size()])))
        if (!r || x != (bool) v || k != w.size()) h::fail("the word " + w + " is not accepted as " + h::show((bool) v) + " (accepted " + h::show(r) + " value " + h::show((bool) x) + " consumed " + h::show(k) + ")");
    }
    // the typed option value
    if (pre.empty() && t.find_first_of("\n") == std::string::npos) {
      variable var((bool) x0); std::istringstream ss(t); ss >> var;
      if (var.type() != typeid(bool)) { h::fail("reading changed the type of the option value"); continue; }
      bool g = var.as<bool>();
      if (is_in(T, t) && !g) h::fail("option value for a true word is false");
      if (!is_in(T, t) && g && !r) h::fail("option value for a rejected word is true");
      if (is_in(F, t) && g) h::fail("option value for a false word is true");
    }
  }
}
static h::add m1("counter-models", [](h::rng &) { for (auto &m: h::models) { auto t = m["text"]; size_t p = (size_t) atoll(m["start"].c_str()); if (p <= t.size()) one(t.substr(0, p), t.substr(p)); one("", t); } }, 0.05);
static void cases(std::string w, std::string const &suf) {
  for (unsigned m = 0; m < (1u << w.size()); m++) { std::string s = w; for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i] = (char) toupper(s[i]); one("", s + suf); one("ab", s + suf); }
}
static h::add a1("documented words", [](h::rng &) {
  for (auto ws: {T, F}) for (int i = 0; i < 6; i++) for (auto suf: {"", " ", "]", ",x", "1", "=", "x", "e", "\n", "\xff", "\x01", " true"}) cases(ws[i], suf);
});
static h::add a2("bool texts exhaustive", [](h::rng &) {
  std::string al = "tTrueEyYsSofFnNalL1 02x";
  std::vector<std::string> q{""}; for (size_t i = 0; i < q.size() && h::time_left(); i++) { auto s = q[i]; one("", s); if (s.size() < 4) for (char c: al) q.push_back(s + c); }
});
static h::add a3("bool texts random", [](h::rng &r) { while (h::time_left()) { auto t = r.text("truefalsyonTRUEFALSYON10 x,]", 7); one(r.chance(30) ? r.text("ab1t ", 3) : "", t); one("", r.text(std::string("\0\xff\x80tfyn", 7), 4)); } });
