#include "apph.hh"
using namespace h;
namespace {
struct C { o::cmd *p; int parent; std::string l, s; strings al; };
char const *alpha = "abc";
std::string dump(std::vector<C> const &cs) { std::string d; for (size_t i = 1; i < cs.size(); i++) { d += " " + std::to_string(i) + ":" + cs[i].l + (cs[i].s.empty() ? "" : "/" + cs[i].s); for (auto &x: cs[i].al) d += "|" + x; d += "<" + std::to_string(cs[i].parent); } return d; }
std::string name(rng &r) { std::string n; do n = r.text("abcd", 3); while (n.empty()); return n; }
// a tree of commands whose names are unique per parent, except that a short title may equal a sibling's long title or alias
void grow(cli &a, rng &r, std::vector<C> &cs) {
  cs.push_back({a.a, -1, "", "", {}}); int n = 1 + (int) r.below(8); std::map<int, std::set<std::string>> longs, shorts; for (auto &x: a->_long_commands) longs[0].insert(x.first); for (auto &x: a->_short_commands) shorts[0].insert(x.first);
  for (int i = 0; i < n; i++) {
    int p = (int) r.below(cs.size()); C c; c.parent = p; c.l = name(r); if (longs[p].count(c.l)) continue; longs[p].insert(c.l); if (r.chance(60)) { c.s = name(r); if (shorts[p].count(c.s)) c.s.clear(); else shorts[p].insert(c.s); }
    for (int k = (int) r.below(3); k > 0; k--) { auto x = name(r); if (!longs[p].count(x)) { longs[p].insert(x); c.al.push_back(x); } }
    c.p = &sub(*cs[p].p, c.l, c.s, c.al); cs.push_back(c);
  }
}
int resolve(std::vector<C> const &cs, int cur, std::string const &t, bool &lng) { for (size_t i = 1; i < cs.size(); i++) if (cs[i].parent == cur && (cs[i].l == t || std::find(cs[i].al.begin(), cs[i].al.end(), t) != cs[i].al.end())) { lng = true; return (int) i; } for (size_t i = 1; i < cs.size(); i++) if (cs[i].parent == cur && !cs[i].s.empty() && cs[i].s == t) { lng = false; return (int) i; } return -1; }
std::vector<std::map<std::string, o::cmd *>> names(std::vector<C> const &cs) { std::vector<std::map<std::string, o::cmd *>> v; for (auto &c: cs) { v.emplace_back(c.p->_long_commands.begin(), c.p->_long_commands.end()); v.emplace_back(c.p->_short_commands.begin(), c.p->_short_commands.end()); } return v; }
struct rec { int n{}; std::string t; bool l{}; bool operator==(rec const &o) const { return n == o.n && t == o.t && l == o.l; } };
std::ostream &operator<<(std::ostream &os, rec const &x) { return os << x.n << "," << x.t << "," << x.l; }
}
static h::add a0("lookups", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<C> cs; grow(a, r, cs); std::vector<rec> want(cs.size()); std::string d = dump(cs) + "; tokens"; int cur = 0; o::types::parsing_context pc{a.a}; bool addroot = r.chance(50); if (addroot) pc.add_matched_cmd(a.a);
    int n = 1 + (int) r.below(12);
    for (int i = 0; i < n; i++) {
      if (r.chance(40)) { cur = (int) r.below(cs.size()); o::types::parsing_context q{a.a}; q.add_matched_cmd(a.a); if (cur) q.add_matched_cmd(cs[cur].p); pc = q; d += " (at " + std::to_string(cur) + ")"; }
      std::string t = r.chance(80) && cs.size() > 1 ? [&] { auto &c = cs[1 + r.below(cs.size() - 1)]; int k = (int) r.below(2 + c.al.size()); return k == 0 ? c.l : k == 1 ? c.s : c.al[k - 2]; }() : r.text("abcd", 4);
      if (t.empty()) t = "a"; d += " " + t; begin("(" + d.substr(1) + ")"); pc.title = t; bool lng = false; int w = resolve(cs, cur, t, lng); if (w < 0 && cur == 0 && (a->_long_commands.count(t) || a->_short_commands.count(t))) continue;
      auto tables = names(cs); auto m = cmdr::app::matching_command(pc); if (names(cs) != tables) { fail("the names some command answers to changed"); break; } if (w >= 0) { want[w].n++; want[w].t = t; want[w].l = lng; }
      if (m.matched != (w >= 0)) { fail(w >= 0 ? "the token of command " + std::to_string(w) + " selects nothing" : "a token that names no sub-command selects one"); break; }
      if (w >= 0 && m.obj != cs[w].p) { fail("another sub-command than " + std::to_string(w) + " is selected"); break; }
      bool bad = false; for (size_t k = 1; k < cs.size(); k++) { rec g{cs[k].p->hit_count(), cs[k].p->hit_title(), cs[k].p->hit_long()}; if (!(g == want[k])) { std::ostringstream x; x << "hit record of command " << k << " is " << g << ", expected " << want[k]; fail(x.str()); bad = true; } } if (bad) break;
      if (w >= 0 && r.chance(50)) { pc.add_matched_cmd(m.obj); cur = w; }
    }
  }
});
static h::add a1("command lines", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<C> cs; grow(a, r, cs); std::vector<int> ran; for (size_t i = 1; i < cs.size(); i++) cs[i].p->on_invoke([&ran, i](o::cmd const &, string_array const &) { ran.push_back((int) i); return 0; });
    std::vector<int> hits(cs.size(), 0); std::string before; int runs = 1 + (int) r.below(3);
    for (int rep = 0; rep < runs; rep++) {
      strings line; int cur = 0; bool valid = true; std::vector<int> path;
      while (true) { std::vector<int> kids; for (size_t i = 1; i < cs.size(); i++) if (cs[i].parent == cur) kids.push_back((int) i); if (kids.empty()) break; auto &c = cs[r.pick(kids)]; int k = (int) r.below(2 + c.al.size()); auto t = k == 0 || (k == 1 && c.s.empty()) ? c.l : k == 1 ? c.s : c.al[k - 2]; bool lng; line.push_back(t); cur = resolve(cs, cur, t, lng); path.push_back(cur); }
      if (r.chance(20)) { auto at = (long) r.below(line.size() + 1); valid = at == (long) line.size(); line.insert(line.begin() + at, "zz"); }
      if (line.empty()) continue;
      begin("(" + dump(cs) + "; line " + before + words(line) + ")"); before += words(line) + " ; then "; ran.clear(); int rc = a.run(line);
      if (valid) { same(rc, 0, "result"); if (ran != std::vector<int>{cur}) fail("ran " + (ran.empty() ? "nothing" : std::to_string(ran[0])) + " instead of command " + std::to_string(cur)); for (size_t i = 1; i < cs.size(); i++) { bool on = std::find(path.begin(), path.end(), (int) i) != path.end(); if (cs[i].p->hit_count() != (hits[i] += on ? 1 : 0)) fail("command " + std::to_string(i) + " was hit " + std::to_string(cs[i].p->hit_count()) + " times"); } }
      else { if (!ran.empty()) fail("a command ran although a token names no sub-command"); break; }
    }
  }
});
