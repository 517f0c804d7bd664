#include "apph.hh"
using namespace h;
namespace {
struct F { o::arg *p; std::string l, s; int kind; std::string val; int hits{}; }; // kind 0: boolean, 1: int, 2: std::string, 3: char const *, 4: double
struct hit { size_t f; strings rest; bool operator==(hit const &o) const { return f == o.f && rest == o.rest; } };
std::string show1(cmdr::vars::variable const &v) { std::ostringstream os; auto const &a = v.underlying_value(); if (v.type() == typeid(bool)) os << (std::any_cast<bool>(a) ? "true" : "false"); else if (v.type() == typeid(int)) os << std::any_cast<int>(a); else if (v.type() == typeid(double)) os << std::any_cast<double>(a); else if (v.type() == typeid(std::string)) os << "'" << std::any_cast<std::string>(a) << "'"; else if (v.type() == typeid(char const *)) os << "'" << std::any_cast<char const *>(a) << "'"; else os << "(" << v.type().name() << ")"; return os.str(); }
std::string textval(rng &r) { std::string t; do t = r.text("ab-= x1.", 9); while (!t.empty() && t[0] == '='); return t; }
}
static h::add a0("command lines", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<F> fs; std::vector<hit> got, want; std::string d; a->treat_unknown_input_flag_as_error(false); std::string letters = "ABCEFGIJKLMNOPRSTUWXYZ";
    o::cmd *cmds[2] = {a.a, nullptr}; cmds[1] = &sub(*a, "run"); cmds[1]->on_invoke([](o::cmd const &, string_array const &) { return 0; });
    for (int i = 0, n = 1 + (int) r.below(6); i < n; i++) {
      F f; f.kind = (int) r.below(5); f.l = "flag-" + std::to_string(10 + i); do f.s = letters.substr(r.below(letters.size()), 1); while (a->_short_args.count(f.s) || std::any_of(fs.begin(), fs.end(), [&](F const &x) { return x.s == f.s; }));
      auto x = f.kind == 0 ? mkflag(false, f.l, f.s) : f.kind == 1 ? mkflag(7, f.l, f.s) : f.kind == 2 ? mkflag(std::string("dflt"), f.l, f.s) : f.kind == 3 ? mkflag("dflt", f.l, f.s) : mkflag(0.5, f.l, f.s); f.val = f.kind == 0 ? "false" : f.kind == 1 ? "7" : f.kind == 4 ? "0.5" : "'dflt'";
      size_t id = fs.size(); x.on_flag_hit([&got, id](o::cmd const &, o::arg const &, string_array const &rest) { got.push_back({id, strings(rest.begin(), rest.end())}); return o::Action::Continue; }); auto *c = cmds[r.below(2)]; c->add(x); f.p = c->last_added_arg(); d += " --" + f.l + "/-" + f.s + ":" + "bistd"[f.kind]; fs.push_back(f);
    }
    strings line{"run"}; std::vector<std::pair<size_t, size_t>> order; // flag, index of the last argument it used
    for (int i = 0, n = 1 + (int) r.below(5); i < n; i++) {
      bool lng = r.chance(45); std::string tok = lng ? "--" : "-"; bool last = false; std::string extra; bool hasx = false; int items = lng ? 1 : 1 + (int) r.below(4); size_t at = line.size();
      for (int k = 0; k < items && !last; k++) {
        size_t j = r.below(fs.size()); auto &f = fs[j]; tok += lng ? f.l : f.s; f.hits++; bool own = r.chance(60);
        if (f.kind == 0) { int how = (int) r.below(3); tok += how == 0 ? "" : how == 1 ? "+" : "-"; f.val = how == 2 ? "false" : "true"; }
        else if (f.kind == 1 || f.kind == 4) { int v = (int) r.below(2000) - 500; auto t = std::to_string(v); if (own) tok += std::string(r.chance(50) ? "=" : "") + t; else { hasx = last = true; extra = t; if (r.chance(30)) tok += "="; } std::ostringstream os; os << (f.kind == 4 ? (double) v : v); f.val = os.str(); if (f.kind == 4) last = true; }
        else { auto t = textval(r); bool eq = lng || r.chance(50) || (!t.empty() && t[0] == '='); if (own && !t.empty()) tok += (eq ? "=" : "") + t; else { hasx = true; extra = t; if (r.chance(30)) tok += "="; } f.val = "'" + t + "'"; last = true; }
        order.push_back({j, at + (hasx ? 1 : 0)});
      }
      line.push_back(tok); if (hasx) line.push_back(extra);
    }
    for (auto &x: order) want.push_back({x.first, strings(line.begin() + (long) x.second + 1, line.end())});
    begin("(" + d.substr(1) + "; line " + words(line) + ")"); a.run(line);
    for (auto &f: fs) {
      auto v = show1(a->_store.get_raw(f.p->dotted_key())); if (v != f.val) { fail("stored value of --" + f.l + " is " + v + ", the command line gives " + f.val); break; }
      if (f.kind) { v = show1(*f.p->default_value()); if (v != f.val) { fail("value of --" + f.l + " is " + v + ", the command line gives " + f.val); break; } }
      if (f.p->hit_count() != f.hits) { fail("--" + f.l + " was hit " + std::to_string(f.p->hit_count()) + " times, it is given " + std::to_string(f.hits) + " times"); break; }
    }
    if (!(got == want)) { auto dump = [&](std::vector<hit> const &v) { std::string s; for (auto &x: v) s += " " + fs[x.f].l + "(" + words(x.rest) + ")"; return s; }; fail("flag handlers ran:" + dump(got) + ", expected:" + dump(want)); }
  }
});
