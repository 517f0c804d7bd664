#include "apph.hh"
using namespace h;
namespace {
struct item { std::string l, s, g, tg; strings al; void *p; };
o::cmd *former = nullptr; // the item was registered there before
template<class T> struct K;
template<> struct K<o::arg> {
  static void add(o::cmd &c, item const &x) { o::arg a{false}; if (!x.l.empty()) a.titles(x.l.c_str(), x.s.empty() ? nullptr : x.s.c_str()); for (auto &y: x.al) a.title_aliases().push_back(y); if (!x.tg.empty()) a.toggle_group(x.tg.c_str()); if (!x.g.empty()) a.group(x.g.c_str()); if (former) a.owner(former); c.add(a); }
  static auto &longs(o::cmd &c) { return c._long_args; } static auto &shorts(o::cmd &c) { return c._short_args; } static auto &index(o::cmd &c) { return c._indexed_args; } static auto &groups(o::cmd &c) { return c._grouped_args; } static auto &all(o::cmd &c) { return c._all_args; }
  static void *find(o::cmd &c, std::string const &t, bool x) { auto *p = &c.find_flag(t.c_str(), x); return p == &o::cmd::null_arg() ? nullptr : p; }
  static void const *cfind(o::cmd const &c, std::string const &t, bool x) { return c.find_flag(t, x); }
  static void *last(o::cmd &c) { return c.last_added_arg(); }
  static bool strips() { return true; }
  static std::string dup(o::cmd &c, item const &x) { try { add(c, x); return ""; } catch (cmdr::exception::dup_short_flag_found const &) { return "short"; } catch (cmdr::exception::dup_long_flag_found const &) { return "long"; } catch (cmdr::exception::dup_alias_flag_found const &) { return "alias"; } catch (std::exception const &e) { return std::string("other: ") + e.what(); } }
};
template<> struct K<o::cmd> {
  static void add(o::cmd &c, item const &x) { o::cmd a; if (!x.l.empty()) a.titles(x.l.c_str(), x.s.empty() ? nullptr : x.s.c_str()); for (auto &y: x.al) a.title_aliases().push_back(y); if (!x.g.empty()) a.group(x.g.c_str()); if (former) a.owner(former); c.add(a); }
  static auto &longs(o::cmd &c) { return c._long_commands; } static auto &shorts(o::cmd &c) { return c._short_commands; } static auto &index(o::cmd &c) { return c._indexed_commands; } static auto &groups(o::cmd &c) { return c._grouped_commands; } static auto &all(o::cmd &c) { return c._all_commands; }
  static void *find(o::cmd &c, std::string const &t, bool x) { auto *p = &c.find_command(t.c_str(), x); return p == &o::cmd::null_command() ? nullptr : p; }
  static void const *cfind(o::cmd const &c, std::string const &t, bool x) { return c.find_command(t, x); }
  static void *last(o::cmd &c) { return c.last_added_command(); }
  static bool strips() { return false; }
  static std::string dup(o::cmd &c, item const &x) { try { add(c, x); return ""; } catch (cmdr::exception::dup_short_cmd_found const &) { return "short"; } catch (cmdr::exception::dup_long_cmd_found const &) { return "long"; } catch (cmdr::exception::dup_alias_cmd_found const &) { return "alias"; } catch (std::exception const &e) { return std::string("other: ") + e.what(); } }
};
std::string show_item(item const &x) { std::string s = "{" + x.l + "," + x.s + ",["; for (auto &a: x.al) s += a + " "; return s + "]," + x.g + "," + x.tg + "}"; }
bool has(item const &x, std::string const &n) { if (x.s == n && !n.empty()) return true; for (auto &y: x.al) if (y == n) return true; return false; }
template<class T> void check(o::cmd &c, std::vector<item> const &v, std::set<std::string> const &names) {
  auto who = [&](void const *p) -> std::string { if (!p) return "nothing"; for (auto &x: v) if (x.p == p) return show_item(x); return "an unknown item"; };
  for (auto &n: names) {
    void *l = nullptr, *s = nullptr, *t = nullptr; for (auto &x: v) { if (x.l == n) l = t = x.p; if (x.s == n && !n.empty()) s = x.p; for (auto &y: x.al) if (y == n) l = x.p; }
    auto &L = K<T>::longs(c); auto &S = K<T>::shorts(c); auto i = L.find(n); auto j = S.find(n);
    same(who(i == L.end() ? nullptr : (void *) i->second), who(l), ("long name or alias " + show(n)).c_str());
    same(who(j == S.end() ? nullptr : (void *) j->second), who(s), ("short name " + show(n)).c_str());
    if (n.empty()) continue;
    for (int pre = 0; pre < (K<T>::strips() ? 3 : 1); pre++) for (int ext = 0; ext < 2; ext++) for (int con = 0; con < 2; con++) {
      std::string q = std::string(pre, '-') + n; void const *p = con ? K<T>::cfind(c, q, ext) : K<T>::find(c, q, ext); std::string w = std::string(con ? "const " : "") + "find(" + show(q) + (ext ? ", extensive)" : ")");
      if (t) { same(who(p), who(t), w.c_str()); continue; }
      bool any = false; for (auto &x: v) any = any || has(x, n);
      if (!ext || !any) { same(who(p), who(nullptr), w.c_str()); continue; }
      bool ok = false; for (auto &x: v) ok = ok || (x.p == p && has(x, n)); if (!ok) fail(w + " gives " + who(p) + ", which does not have that name");
    }
  }
  size_t listed = 0; for (auto &g: K<T>::groups(c)) listed += g.second.size(); same(listed, v.size(), "items listed in groups"); same(K<T>::all(c).size(), v.size(), "items"); same(K<T>::index(c).size(), v.size(), "titles");
  for (auto &x: v) {
    auto *p = (T *) x.p; if (p->owner() != &c) fail(show_item(x) + " does not belong to the command it was added to");
    same(p->title_long(), x.l, "long title"); same(p->title_short(), x.s, "short title"); if (p->title_aliases() != x.al) fail("the aliases of " + show_item(x) + " changed");
    std::string g = !x.g.empty() ? x.g : x.tg; if (!g.empty()) same(p->group_name(), g, "group"); else if (p->group_name().empty()) fail(show_item(x) + " has no group");
    size_t k = 0; for (auto *y: K<T>::groups(c)[p->group_name()]) k += y == p; same(k, (size_t) 1, ("times listed in its group: " + show_item(x)).c_str());
  }
}
template<class T> void go(rng &r) {
  while (time_left()) {
    cli a; o::cmd &other = sub(*a.a, "other"), &c = sub(*a.a, "host"); c._all_args.clear(); std::vector<item> v; std::set<std::string> names{""}; int n = 1 + (int) r.below(8); std::string d; bool flags = K<T>::strips();
    auto name = [&](unsigned m) { std::string s = r.chance(8) ? r.text("a.\xe4 ", m) : r.text(r.chance(50) ? "ab" : "abcdefgh", m); return s; };
    for (int i = 0; i < n; i++) {
      item x; x.l = name(3); if (r.chance(60)) x.s = name(2); int k = (int) r.below(4); for (int q = 0; q < k; q++) x.al.push_back(r.chance(12) ? x.l : r.chance(12) && q ? x.al[0] : name(3));
      if (r.chance(60)) x.g = r.text("GH", 2); if (flags && r.chance(40)) x.tg = r.text("TG", 2);
      if (x.l.empty() && r.chance(70)) x.l = "q"; if (x.l.empty()) x.s = "";  d += " " + show_item(x); begin("(adding" + d + ")"); names.insert(x.l); names.insert(x.s); for (auto &y: x.al) names.insert(y);
      bool s = false, l = false, al = false; for (auto &y: v) { s = s || (!x.s.empty() && y.s == x.s); l = l || y.l == x.l; for (auto &z: y.al) { l = l || z == x.l; for (auto &w: x.al) al = al || z == w; } for (auto &w: x.al) al = al || y.l == w; }
      former = r.chance(25) ? &other : nullptr; if (former) begin("(adding" + d + ", the last one registered elsewhere before)"); std::string e = K<T>::dup(c, x);
      if (x.l.empty()) { same(e, std::string(), "adding an item without a title"); check<T>(c, v, names); continue; }
      if (s || l || al) { if (!((e == "short" && s) || (e == "long" && l) || (e == "alias" && al))) fail("a duplicate is answered by " + (e.empty() ? std::string("recording it") : e)); }
      else if (!e.empty()) fail("rejected: " + e); else { x.p = K<T>::last(c); v.push_back(x); }
      check<T>(c, v, names);
    }
  }
}
}
static h::add a0("flags", [](rng &r) { go<o::arg>(r); });
static h::add a1("commands", [](rng &r) { go<o::cmd>(r); });
