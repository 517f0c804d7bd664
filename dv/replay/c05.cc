#include "apph.hh"
using namespace h;
namespace {
using V = cmdr::vars::variable; using N = cmdr::vars::nodeT<V, std::string>;
// what a value reads back as: its type and text; an any inside an any reads as such
std::string seen(std::any const &a) {
  if (!a.has_value()) return "nothing";
  if (a.type() == typeid(bool)) return std::string("bool ") + (std::any_cast<bool>(a) ? "true" : "false");
  if (a.type() == typeid(int)) return "int " + std::to_string(std::any_cast<int>(a));
  if (a.type() == typeid(long)) return "long " + std::to_string(std::any_cast<long>(a));
  if (a.type() == typeid(unsigned)) return "unsigned " + std::to_string(std::any_cast<unsigned>(a));
  if (a.type() == typeid(double)) return "double " + std::to_string(std::any_cast<double>(a));
  if (a.type() == typeid(char)) return std::string("char ") + std::any_cast<char>(a);
  if (a.type() == typeid(std::string)) return "text " + show(std::any_cast<std::string>(a));
  if (a.type() == typeid(strings)) { std::string r = "texts"; for (auto &x: std::any_cast<strings>(a)) r += " " + show(x); return r; }
  if (a.type() == typeid(std::chrono::seconds)) return "seconds " + std::to_string(std::any_cast<std::chrono::seconds>(a).count());
  if (a.type() == typeid(std::any)) return "an any inside the any: " + seen(std::any_cast<std::any>(a));
  if (a.type() == typeid(V)) return "a variable inside the any";
  return std::string("a ") + a.type().name();
}
std::any draw(rng &r) {
  switch (r.below(10)) {
  case 0: return r.chance(50);
  case 1: return (int) r.below(2000) - 1000;
  case 2: return (long) r.below(100000);
  case 3: return (double) r.below(1000) / 8;
  case 4: return r.text("xyz. ", 5);
  case 5: { strings v; for (int n = (int) r.below(4); n > 0; n--) v.push_back(r.text("pq", 2)); return v; }
  case 6: return std::chrono::seconds((int) r.below(5000));
  case 7: return (unsigned) r.below(77);
  case 8: return {};
  default: return (char) ('a' + r.below(26));
  }
}
// store v by one of the setters; -> its name
template<class S> std::string put(rng &r, S &s, char const *pre, std::string const &k, std::any const &v, bool withp) {
  auto raw = [&](auto x) -> std::string {
    switch (r.below(3)) {
    case 0: if (withp) s.set_raw_p(pre, k.c_str(), x); else s.set_raw(k.c_str(), x); return "lvalue";
    case 1: { auto const &c = x; if (withp) s.set_raw_p(pre, k.c_str(), c); else s.set_raw(k.c_str(), c); return "const lvalue"; }
    default: { auto y = x; if (withp) s.set_raw_p(pre, k.c_str(), std::move(y)); else s.set_raw(k.c_str(), std::move(y)); return "rvalue"; }
    }
  };
  switch (r.below(v.has_value() ? 4 : 3)) {
  case 0: { std::any w = v; V x(w); if (withp) s.set_raw_p(pre, k.c_str(), std::move(x)); else s.set_raw(k.c_str(), std::move(x)); return "variable&&"; }
  case 1: { std::any w = v; V x(w); V const &c = x; if (withp) s.set_raw_p(pre, k.c_str(), c); else s.set_raw(k.c_str(), c); return "variable const&"; }
  case 2: { if (r.chance(50)) { std::any w = v; if (withp) s.set_raw_p(pre, k.c_str(), w); else s.set_raw(k.c_str(), w); return "any&"; } std::any const &w = v; if (withp) s.set_raw_p(pre, k.c_str(), w); else s.set_raw(k.c_str(), w); return "any const&"; }
  default:
    if (v.type() == typeid(bool)) return raw(std::any_cast<bool>(v));
    if (v.type() == typeid(int)) return raw(std::any_cast<int>(v));
    if (v.type() == typeid(long)) return raw(std::any_cast<long>(v));
    if (v.type() == typeid(unsigned)) return raw(std::any_cast<unsigned>(v));
    if (v.type() == typeid(double)) return raw(std::any_cast<double>(v));
    if (v.type() == typeid(char)) return raw(std::any_cast<char>(v));
    if (v.type() == typeid(std::string)) return raw(std::any_cast<std::string>(v));
    if (v.type() == typeid(strings)) return raw(std::any_cast<strings>(v));
    return raw(std::any_cast<std::chrono::seconds>(v));
  }
}
std::string full(char const *p, std::string const &k) { return p && *p ? std::string(p) + "." + k : k; }
void check(rng &r, cmdr::vars::store &s, std::map<std::string, std::string> const &m, std::vector<std::string> const &keys) {
  auto const &cs = s;
  for (auto &k: keys) {
    auto it = m.find(k); bool in = it != m.end(); std::string want = in ? it->second : "nothing", nm = "value of " + show(k);
    same(s.has(nullptr, k.c_str()), in, ("has " + show(k)).c_str()); same(cs.has("", k.c_str()), in, ("has with an empty prefix " + show(k)).c_str());
    same(seen(s.get_raw(k.c_str()).underlying_value()), want, nm.c_str()); same(seen(cs.get_raw(k.c_str()).underlying_value()), want, nm.c_str()); same(seen(s.get_raw(k).underlying_value()), want, nm.c_str()); same(seen(cs.get_raw(k).underlying_value()), want, nm.c_str());
    same(seen(s.get_raw_p("", k.c_str()).underlying_value()), want, (nm + " by an empty prefix").c_str());
    for (size_t i = k.find('.'); i != std::string::npos; i = k.find('.', i + 1)) {
      std::string p = k.substr(0, i), q = k.substr(i + 1); if (p.empty()) continue; std::string w = nm + " by prefix " + show(p);
      same(s.has(p.c_str(), q.c_str()), in, ("has by prefix " + show(p) + " " + show(q)).c_str());
      same(seen(s.get_raw_p(p.c_str(), q.c_str()).underlying_value()), want, w.c_str()); same(seen(s.get_raw_p(p, q).underlying_value()), want, w.c_str()); same(seen(cs.get_raw_p(p.c_str(), q.c_str()).underlying_value()), want, w.c_str()); same(seen(cs.get_raw_p(p, q).underlying_value()), want, w.c_str());
    }
  }
}
}
static h::add a0("set and get", [](rng &r) {
  while (time_left()) {
    cmdr::vars::store s; std::map<std::string, std::string> m; std::vector<std::string> keys; std::string d; int n = 1 + (int) r.below(14); std::string alpha = r.chance(70) ? "ab..." : r.chance(50) ? "abc." : "a.";
    for (int i = 0; i < 6; i++) keys.push_back(r.text(alpha, 7));
    for (int i = 0; i < n; i++) {
      bool withp = r.chance(40); std::string k = r.chance(60) ? r.pick(keys) : r.text(alpha, 6), p; char const *pre = nullptr; std::any v = draw(r);
      if (withp) { size_t c = k.find('.'); if (c != std::string::npos && c > 0 && r.chance(70)) { p = k.substr(0, c); k = k.substr(c + 1); pre = p.c_str(); } else if (r.chance(50)) pre = ""; }
      std::string f = full(pre, k); d += " " + show(f) + "=" + seen(v); keys.push_back(f); begin("(sets" + d + ")");
      std::string how = put(r, s, pre, k, v, withp); d += "(" + how + ")"; m[f] = seen(v);
      check(r, s, m, keys);
    }
  }
});
static h::add a1("values set through the reader, nodes copied", [](rng &r) {
  while (time_left()) {
    cmdr::vars::store s; std::map<std::string, std::string> m; std::vector<std::string> keys; std::string d;
    for (int i = 0; i < 8; i++) {
      std::string k = r.text("ab..", 5); std::any v = draw(r); keys.push_back(k); d += " " + show(k) + "=" + seen(v); begin("(sets" + d + ")"); put(r, s, nullptr, k, v, false); m[k] = seen(v); check(r, s, m, keys);
      if (r.chance(50)) { std::string t = r.pick(keys), q = r.chance(50) ? r.pick(keys) : r.text("ab.", 4); d += " " + show(q) + "=value of " + show(t); begin("(sets" + d + ")"); keys.push_back(q); V const &c = s.get_raw(t.c_str()); std::string now = m.count(t) ? m[t] : "nothing"; s.set_raw(q.c_str(), c); m[q] = now; check(r, s, m, keys); }
    }
  }
});
