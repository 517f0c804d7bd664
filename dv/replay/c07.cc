#include "apph.hh"
using namespace h;
namespace {
struct F { o::arg *p; int cmd; std::string l, group; bool isbool; std::string val; };
struct G { std::vector<o::cmd *> cmds; std::vector<std::string> path; std::vector<F> fs; std::map<std::pair<int, std::string>, std::string> choice, recorded; std::string d; };
std::string show1(cmdr::vars::variable const &v) { std::ostringstream os; if (v.type() == typeid(bool)) os << (std::any_cast<bool>(v.underlying_value()) ? "true" : "false"); else if (v.type() == typeid(int)) os << std::any_cast<int>(v.underlying_value()); else if (v.type() == typeid(std::string)) os << "'" << std::any_cast<std::string>(v.underlying_value()) << "'"; else os << "(" << v.type().name() << ")"; return os.str(); }
void make(cli &a, rng &r, G &g) {
  g.cmds.push_back(a.a); g.path.push_back(""); int n = 1 + (int) r.below(4), k = 0;
  for (int i = 0; i < n; i++) { int p = (int) r.below(g.cmds.size()); std::string l = "cmd" + std::to_string(i); g.cmds.push_back(&sub(*g.cmds[p], l)); g.path.push_back(g.path[p] + (g.path[p].empty() ? "" : " ") + l); }
  for (int i = 0, m = 2 + (int) r.below(8); i < m; i++) {
    F f; f.cmd = (int) r.below(g.cmds.size()); f.l = "flag-" + std::to_string(10 + k++); f.group = r.chance(70) ? (r.chance(50) ? "shape" : "color") : ""; f.isbool = r.chance(85); bool on = r.chance(40);
    std::string shown = r.chance(40) ? (r.chance(50) ? "warm" : "cold") : "";
    auto x = f.isbool ? mkflag(on, f.l, "", {}, f.group) : mkflag(7, f.l, "", {}, f.group); if (!shown.empty()) x.group(shown.c_str()); g.cmds[f.cmd]->add(x); f.p = g.cmds[f.cmd]->last_added_arg(); f.val = !f.isbool ? "7" : on ? "true" : "false";
    g.d += " " + f.l + (f.isbool ? "" : ":int") + (f.isbool && on ? "=on" : "") + "<" + std::to_string(f.cmd) + (f.group.empty() ? "" : "@" + f.group) + (shown.empty() ? "" : "%" + shown); g.fs.push_back(f);
  }
}
void matched(G &g, size_t i, std::string const &v) {
  auto &f = g.fs[i]; f.val = v;
  if (!f.group.empty() && f.isbool) { for (auto &x: g.fs) if (&x != &f && x.cmd == f.cmd && x.group == f.group && x.isbool) x.val = "false"; g.choice[{f.cmd, f.group}] = f.l; }
}
void compare(cli &a, G &g) {
  for (auto &f: g.fs) { auto got = show1(a->_store.get_raw(f.p->dotted_key())); if (got != f.val) fail("stored value of " + f.l + " is " + got + ", expected " + f.val); }
  for (auto &x: g.choice) {
    auto *c = g.cmds[x.first.first]; auto got = show1(a->_store.get_raw_p(c->dotted_key(), x.first.second)); if (got != "'" + x.second + "'") fail("stored choice of group " + x.first.second + " is " + got + ", expected " + x.second);
    auto const &rec = c->toggle_group(x.first.second); if (rec != x.second) fail("recorded choice of group " + x.first.second + " is " + rec + ", expected " + x.second);
  }
}
}
static h::add a0("matches", [](rng &r) {
  while (time_left()) {
    cli a; G g; make(a, r, g); std::string d = g.d + "; matched";
    for (int i = 0, n = 1 + (int) r.below(12); i < n; i++) {
      size_t k = r.below(g.fs.size()); auto &f = g.fs[k]; bool v = r.chance(70); int num = (int) r.below(100); d += " " + f.l + "=" + (f.isbool ? (v ? "true" : "false") : std::to_string(num)); begin("(" + d.substr(1) + ")");
      auto val = f.isbool ? std::make_shared<cmdr::vars::variable>(v) : std::make_shared<cmdr::vars::variable>(num); a->on_arg_matched(f.p, val);
      matched(g, k, f.isbool ? (v ? "true" : "false") : std::to_string(num)); compare(a, g);
    }
  }
});
static h::add a1("command lines", [](rng &r) {
  while (time_left()) {
    cli a; G g; make(a, r, g); std::string d = g.d + "; lines"; for (size_t i = 1; i < g.cmds.size(); i++) g.cmds[i]->on_invoke([](o::cmd const &, string_array const &) { return 0; });
    for (int k = 0, n = 1 + (int) r.below(3); k < n; k++) {
      size_t c = r.below(g.cmds.size()); strings line; { std::istringstream is(g.path[c]); std::string w; while (is >> w) line.push_back(w); }
      for (int i = 0, m = 1 + (int) r.below(5); i < m; i++) {
        size_t j = r.below(g.fs.size()); auto &f = g.fs[j]; if (!f.isbool) continue; auto const &p = g.path[f.cmd]; if (!(p.empty() || g.path[c] == p || g.path[c].compare(0, p.size() + 1, p + " ") == 0)) continue;
        int how = (int) r.below(3); line.push_back("--" + f.l + (how == 0 ? "" : how == 1 ? "+" : "-")); matched(g, j, how == 2 ? "false" : "true");
      }
      if (line.empty()) continue;
      d += " [" + words(line) + "]"; begin("(" + d.substr(1) + ")"); a.run(line); compare(a, g);
    }
  }
});
