#include "apph.hh"
using namespace h;
namespace {
struct C { o::cmd *p; int parent; std::string l, hit; int n; };
std::string join(strings const &v, char d) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += d; r += v[i]; } return r; }
strings path(std::vector<C> const &cs, int i) { strings v; for (; i >= 0; i = cs[i].parent) v.insert(v.begin(), cs[i].l); return v; }
strings titles(std::vector<C> const &cs, int i) { strings v; for (; i > 0; i = cs[i].parent) v.insert(v.begin(), cs[i].n > 0 ? cs[i].hit : cs[i].l); return v; }
}
static h::add a0("trees", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<C> cs{{a.a, -1, a->title_long(), a->hit_title(), a->hit_count()}}; int n = 1 + (int) r.below(12); std::string d; std::map<int, std::set<std::string>> used; bool deep = r.chance(50);
    for (auto &x: a->_long_commands) used[0].insert(x.first);
    for (int i = 0; i < n; i++) {
      int p = deep ? (int) cs.size() - 1 : (int) r.below(cs.size()); std::string l = r.chance(10) ? std::string("a.b") : r.chance(10) ? r.text("ab. \xe4-", 6) : r.text("abcd", 4); if (l.empty() || used[p].count(l)) continue; used[p].insert(l);
      C c{&sub(*cs[p].p, l), p, l, "", 0}; cs.push_back(c); d += " " + std::to_string(cs.size() - 1) + ":" + l + "<" + std::to_string(p);
    }
    for (int k = 0; k < 6; k++) {
      begin("(tree" + d + ")");
      for (size_t i = 0; i < cs.size(); i++) {
        same(cs[i].p->dotted_key(), join(path(cs, (int) i), '.'), ("dotted key of command " + std::to_string(i)).c_str());
        same(cs[i].p->title_sequences(), join(titles(cs, (int) i), ' '), ("title sequence of command " + std::to_string(i)).c_str());
      }
      size_t i = r.below(cs.size()); std::string l = r.text("xyz", 3) + "f";
      if (r.chance(50)) { if (cs[i].p->_long_args.count(l)) continue; auto &f = flag(*cs[i].p, r.chance(50), l); auto v = path(cs, (int) i); v.push_back(l); same(f.dotted_key(), join(v, '.'), ("dotted key of flag " + l + " of command " + std::to_string(i)).c_str()); }
      else if (i > 0) { std::string t = r.text("ABC", 2); cs[i].p->update_hit_count_from_env(t); cs[i].hit = t; cs[i].n++; d += " hit " + std::to_string(i) + " as '" + t + "'"; }
    }
  }
});
static h::add a1("stored under the key", [](rng &r) {
  while (time_left()) {
    cli a; o::cmd *p = a.a; strings v{a->title_long()}; int depth = (int) r.below(6);
    for (int i = 0; i < depth; i++) { std::string l = r.text("abc", 3) + "c"; if (p->_long_commands.count(l)) l += "q"; p = &sub(*p, l); v.push_back(l); }
    std::string l = r.text("xyz", 3) + "f"; int val = (int) r.below(1000); auto &f = flag(*p, val, l); v.push_back(l); begin("(flag " + join(v, '.') + ")");
    same(f.dotted_key(), join(v, '.'), "dotted key"); { strings w; for (size_t i = 1; i + 1 < v.size(); i++) w.push_back(v[i]); same(p->title_sequences(), join(w, ' '), "title sequence"); }
  }
});
