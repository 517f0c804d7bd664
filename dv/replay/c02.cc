#include "apph.hh"
using namespace h;
namespace {
struct C { o::cmd *p; int parent; std::string d; };
struct rec { int n{}; std::string t; bool l{}, s{}; bool operator==(rec const &o) const { return n == o.n && t == o.t && l == o.l && s == o.s; } };
std::string name(rng &r, int k) { std::string n; do n = r.text("abc", k); while (n.empty()); return n; }
// commands with flags whose names are prefixes of each other; names are unique below one command, not between commands
void grow(cli &a, rng &r, std::vector<C> &cs) {
  cs.push_back({a.a, -1, ""}); int n = (int) r.below(4);
  for (int i = 0; i < n; i++) { int p = (int) r.below(cs.size()); auto l = "cmd" + std::to_string(i); cs.push_back({&sub(*cs[p].p, l), p, l}); }
  for (size_t i = 0; i < cs.size(); i++) {
    std::set<std::string> ls, ss; for (auto &x: cs[i].p->_long_args) ls.insert(x.first); for (auto &x: cs[i].p->_short_args) ss.insert(x.first);
    for (int k = (int) r.below(6); k > 0; k--) {
      auto l = name(r, 5); if (ls.count(l)) continue; ls.insert(l); std::string s; if (r.chance(70)) { s = name(r, 2); if (ss.count(s)) s.clear(); else ss.insert(s); } strings al; if (r.chance(40)) { auto x = name(r, 5); if (!ls.count(x)) { ls.insert(x); al.push_back(x); } }
      flag(*cs[i].p, false, l, s, al); cs[i].d += " --" + l + (s.empty() ? "" : "/-" + s); for (auto &x: al) cs[i].d += "|" + x;
    }
  }
}
std::string dump(std::vector<C> const &cs) { std::string d; for (size_t i = 0; i < cs.size(); i++) d += (i ? "; command " + std::to_string(i) + " below " + std::to_string(cs[i].parent) + ":" : "root:") + cs[i].d; return d; }
std::map<o::arg *, rec> records(std::vector<C> const &cs) { std::map<o::arg *, rec> m; for (auto &c: cs) { for (auto &x: c.p->_long_args) m[x.second] = {x.second->hit_count(), x.second->hit_title(), x.second->hit_long(), x.second->hit_special()}; for (auto &x: c.p->_short_args) m[x.second] = {x.second->hit_count(), x.second->hit_title(), x.second->hit_long(), x.second->hit_special()}; } return m; }
std::map<std::string, o::types::indexed_args> tables(std::vector<C> const &cs) { std::map<std::string, o::types::indexed_args> m; for (size_t i = 0; i < cs.size(); i++) { m["l" + std::to_string(i)] = cs[i].p->_long_args; m["s" + std::to_string(i)] = cs[i].p->_short_args; } return m; }
// the longest name of an active flag (no kind: long titles and aliases, or short titles) that the text starts with
std::string longest(std::vector<o::cmd *> const &on, bool lng, std::string const &rest, std::set<o::arg *> &of) { std::string best; for (auto *c: on) for (auto &x: lng ? c->_long_args : c->_short_args) if (!x.first.empty() && rest.compare(0, x.first.size(), x.first) == 0) { if (x.first.size() > best.size()) { best = x.first; of.clear(); } if (x.first == best) of.insert(x.second); } return best; }
std::vector<o::cmd *> chain(std::vector<C> const &cs, std::vector<int> const &matched) { std::vector<o::cmd *> v; for (int i: matched) for (int k = i; k >= 0; k = cs[k].parent) v.push_back(cs[k].p); return v; }
}
static h::add a0("lookups", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<C> cs; grow(a, r, cs); auto d = dump(cs) + "; tokens"; auto tabs = tables(cs);
    for (int i = 0; i < 8 && time_left(); i++) {
      std::vector<int> on; if (r.chance(80)) on.push_back(0); for (int k = (int) r.below(3); k > 0; k--) on.push_back((int) r.below(cs.size())); if (on.empty()) on.push_back(0);
      o::types::parsing_context pc{a.a}; for (int k: on) pc.add_matched_cmd(cs[k].p); pc.title = r.text("abc", 9); pc.pos = r.below(pc.title.size() + 1); if (r.chance(50)) pc.pos = 0; int kind = (int) r.below(3);
      std::string ws; for (int k: on) ws += (ws.empty() ? "" : ",") + std::to_string(k); d += std::string(" ") + (kind == 0 ? "-" : kind == 1 ? "--" : "~~") + pc.title + " at " + std::to_string(pc.pos) + " (matched " + ws + ")"; begin("(" + d + ")");
      auto before = records(cs); auto rest = pc.title.substr(pc.pos), title = pc.title; auto pos = pc.pos; std::set<o::arg *> of; auto best = longest(chain(cs, on), kind != 0, rest, of);
      auto m = kind == 0 ? cmdr::app::matching_short_flag(pc) : kind == 1 ? cmdr::app::matching_long_flag(pc) : cmdr::app::matching_special_flag(pc);
      if (m.matched != !best.empty()) { fail(m.matched ? "the flag named '" + m.matched_str + "' is selected although no name is a prefix of '" + rest + "'" : "nothing is selected although '" + best + "' is a name"); break; }
      if (pc.title != title || pc.pos != pos) { fail("the token changed"); break; }
      if (m.matched) { if (m.matched_str != best || m.matched_length != (int) best.size()) { fail("'" + m.matched_str + "' (length " + std::to_string(m.matched_length) + ") is selected, '" + best + "' is the longest name that '" + rest + "' starts with"); break; } if (!of.count(m.obj)) { fail("the flag selected is none of those named '" + best + "'"); break; } }
      auto after = records(cs); bool bad = false; for (auto &x: before) { rec w = x.second; rec g = after[x.first]; if (m.matched && x.first == m.obj) { w.n++; w.t = best; w.l = g.l; w.s = g.s; if (g.l != (kind != 0 || x.second.l) || g.s != (kind == 2 || x.second.s)) { fail("the selected flag is recorded as given in another way"); bad = true; break; } } if (!(g == w)) { std::ostringstream s; s << "hit record of --" << x.first->title_long() << " is " << g.n << " '" << g.t << "', expected " << w.n << " '" << w.t << "'"; fail(s.str()); bad = true; break; } } if (bad) break;
      if (tables(cs) != tabs) { fail("the names some command offers changed"); break; }
    }
  }
});
static h::add a1("command lines", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<C> cs; grow(a, r, cs); int at = (int) r.below(cs.size()); std::vector<int> path; for (int k = at; k > 0; k = cs[k].parent) path.insert(path.begin(), k); for (size_t i = 1; i < cs.size(); i++) cs[i].p->on_invoke([](o::cmd const &, string_array const &) { return 0; });
    strings line; std::vector<int> on{0}; std::map<std::string, int> want; size_t next = 0; std::vector<o::cmd *> act; bool safe = true;
    auto count = [&](std::string const &w, bool lng) { auto rest = w; size_t p = 0; while (p < w.size() && safe) { std::set<o::arg *> of; auto best = longest(chain(cs, on), lng, w.substr(p), of); if (best.empty()) { if (p == 0) break; safe = false; break; } if (of.size() != 1) { safe = false; break; } auto *f = *of.begin(); if (f->default_value()->type() != typeid(bool) || f->on_flag_hit()) { safe = false; break; } want[f->dotted_key()]++; p += best.size(); } };
    for (int i = 0, n = 1 + (int) r.below(4); i < n; i++) {
      if (next < path.size() && r.chance(40)) { line.push_back(cs[path[next]].d.empty() ? "" : "cmd" + std::to_string(path[next] - 1)); if (line.back().empty()) line.back() = "cmd" + std::to_string(path[next] - 1); on.push_back(path[next++]); continue; }
      bool lng = r.chance(50); auto w = name(r, 6); line.push_back((lng ? "--" : "-") + w); count(w, lng);
    }
    if (!safe) continue;
    begin("(" + dump(cs) + "; line " + words(line) + ")"); a->treat_unknown_input_flag_as_error(false); a.run(line); std::map<std::string, int> got; std::map<std::string, o::arg *> all; for (auto &c: cs) for (auto &x: c.p->_long_args) all[x.second->dotted_key()] = x.second; for (auto &x: all) if (x.second->hit_count()) got[x.first] = x.second->hit_count();
    if (got != want) { std::string g, w; for (auto &x: got) g += " " + x.first + ":" + std::to_string(x.second); for (auto &x: want) w += " " + x.first + ":" + std::to_string(x.second); fail("flags hit:" + g + ", expected:" + w); }
  }
});
