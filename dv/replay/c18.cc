#include "apph.hh"
#include <pty.h>
#include <sys/ioctl.h>
using namespace h;
namespace {
namespace d = o::detail;
using color = cmdr::terminal::colors::colorize;
std::string plain(std::string const &s) { // without the colour sequences
  std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && !std::isalpha((unsigned char) s[i])) i++; } else r += s[i]; } return r;
}
std::string solid(std::string const &s) { std::string r; for (char c: s) if (!std::isspace((unsigned char) c)) r += c; return r; }
size_t times(std::string const &in, std::string const &what) { size_t k = 0; for (size_t p = in.find(what); p != std::string::npos; p = in.find(what, p + 1)) k++; return k; }
struct screen { // a terminal of a given width, as far as the sandbox has pseudo terminals; standard output only while it is alive
  int was = -1, m = -1, s = -1;
  explicit screen(int w) { if (openpty(&m, &s, nullptr, nullptr, nullptr)) return; fflush(stdout); struct winsize z{}; z.ws_row = 24; z.ws_col = (unsigned short) w; ioctl(s, TIOCSWINSZ, &z); was = dup(1); dup2(s, 1); }
  ~screen() { if (was < 0) return; dup2(was, 1); close(was); close(m); close(s); }
};
void fam_desc(rng &r) {
  while (time_left()) {
    std::string t = r.chance(50) ? r.text("ab ", 30) : r.chance(80) ? r.text("abcdefgh.,-(\xe4  ", 200) : r.text("x \t\n", 40);
    int tw = r.chance(70) ? (int) r.below(60) : r.chance(50) ? (int) r.below(2000) - 1000 : r.chance(50) ? INT_MAX : INT_MIN, wt = r.chance(70) ? (int) r.below(60) : (int) r.below(3000); bool dim = r.chance(50);
    if (tw == INT_MIN && r.chance(50)) tw = 0;
    begin("_out_desc(" + show(t) + ", terminal " + show(tw) + ", titles " + show(wt) + ")", t.size() > 1);
    color c; std::string got = plain(d::_out_desc(t, c, color::Colors256::Grey50, dim, tw, wt)); same(solid(got), solid(t), "the non-blank characters laid out");
    long room = (tw <= 0 ? 1000 : (long) tw) - wt - 2;
    if (room > 0 && t.find_first_of("\n\t") == std::string::npos) { size_t at = 0, k = 0; do { size_t q = got.find('\n', at); if (q == std::string::npos) q = got.size(); size_t n = q - at, pad = k++ ? (size_t) wt + 2 : 0; if (n > pad + (size_t) room) fail("line " + show(k) + " takes " + show(n - pad) + " columns of " + show(room)); at = q + 1; } while (at <= got.size()); }
  }
}
struct it { std::string l, s, ph, desc, g; strings al; bool hidden; };
std::string show_it(it const &x) { std::string s = "{" + x.l + "," + x.s + ",["; for (auto &a: x.al) s += a + " "; return s + "]," + x.g + (x.hidden ? ",hidden" : "") + "}"; }
std::vector<it> items(rng &r, bool flags) {
  std::vector<it> v; int n = (int) r.below(9); std::vector<std::string> gs{"", "K1z", "K2z", "a.K3z", "a.K4z", "20.K5z", "20.K6z", "1001.K7z", "K8z.K8z", "K9z.sub.K9y", "a.K0z"};
  for (int i = 0; i < n; i++) {
    it x; x.l = "N" + std::to_string(i) + (r.chance(50) ? "Q" : std::string(r.below(30), 'W') + "Q"); if (r.chance(60)) x.s = "S" + std::to_string(i); for (int k = (int) r.below(3); k > 0; k--) x.al.push_back("A" + std::to_string(i) + std::string(k, 'B'));
    if (flags && r.chance(40)) x.ph = r.text("PH", 6); x.desc = "<" + std::to_string(i) + " " + r.text("abc def", 60) + ">"; x.g = gs[r.below(gs.size())]; x.hidden = r.chance(25); v.push_back(x);
  }
  return v;
}
template<class T> void fill(T &a, it const &x) { a.titles(x.l.c_str(), x.s.empty() ? nullptr : x.s.c_str()); for (auto &y: x.al) a.title_aliases().push_back(y); if (!x.g.empty()) a.group(x.g.c_str()); a.description(x.desc.c_str()); a.hidden(x.hidden); }
void put(o::cmd &c, it const &x, o::arg *) { o::arg a{1}; fill(a, x); if (!x.ph.empty()) a.placeholder(x.ph.c_str()); c.add(a); }
void put(o::cmd &c, it const &x, o::cmd *) { o::cmd a; fill(a, x); c.add(a); }
auto &groups(o::cmd &c, o::arg *) { return c._grouped_args; }
auto &groups(o::cmd &c, o::cmd *) { return c._grouped_commands; }
template<class T> void go(rng &r) {
  bool flags = std::is_same_v<T, o::arg>; 
  while (time_left()) {
    cli a; o::cmd &c = sub(*a.a, "host"); auto v = items(r, flags); std::string txt; for (auto &x: v) { txt += " " + show_it(x); put(c, x, (T *) nullptr); }
    bool h = r.chance(40); int w = r.chance(50) ? 20 + (int) r.below(100) : r.chance(30) ? 46 : 0, level = !flags && r.chance(40) ? 0 : -1, wt = (int) r.below(80);
    begin(std::string(flags ? "print_flags" : "print_commands") + (h ? " with hidden ones" : "") + " width " + show(w) + ":" + txt, !v.empty());
    // widths
    std::map<std::string, std::vector<it *>> by; for (auto &x: v) by[x.g].push_back(&x);
    for (auto &g: groups(c, (T *) nullptr)) {
      int f = 0, s = 0, al = 0, n = 0;
      for (auto *p: g.second) { if (!h && p->hidden()) continue; n++; int e = flags ? 2 : 0; f = std::max(f, (int) p->title_long().size() + e); s = std::max(s, (int) p->title_short().size() + (flags ? 1 : 0)); int q = 0; for (auto &y: p->title_aliases()) q += (q ? 1 : 0) + (int) y.size() + e; al = std::max(al, q); }
      if constexpr (std::is_same_v<T, o::arg>) { f = 0; for (auto *p: g.second) if (h || !p->hidden()) f = std::max(f, (int) p->title_long().size() + 2 + (p->placeholder().empty() ? 0 : (int) p->placeholder().size() + 1)); }
      auto [wf, ws, wa, ww, cnt] = d::calc_widths(h, g.second); same(wf, f, "width of the long titles"); same(ws, s, "width of the short titles"); same(wa, al, "width of the aliases"); same(cnt, n, "visible items");
    }
    // sorting keys
    auto keys = d::sort_keys(groups(c, (T *) nullptr)); std::map<std::string, int> seen; for (auto &k: keys) seen[k.second]++;
    same(seen.size(), groups(c, (T *) nullptr).size(), "groups sorted"); for (auto &k: seen) { same(k.second, 1, ("times the group is sorted: " + k.first).c_str()); if (!groups(c, (T *) nullptr).count(k.first)) fail("an unknown group is sorted: " + k.first); }
    std::ostringstream os; color z; int wt0 = wt; { screen scr(w); if constexpr (std::is_same_v<T, o::arg>) c.print_flags(os, z, wt, true, h, false, level); else c.print_commands(os, z, wt, true, h, false, level); }
    std::string got = plain(os.str()), flat = solid(got); if (wt < wt0) fail("the title column shrank");
    for (auto &x: v) {
      bool vis = h || !x.hidden; size_t want = vis ? 1 : 0;
      same(times(flat, solid(x.desc)), want, ("times described: " + show_it(x)).c_str()); same(times(flat, x.l), want, ("times titled: " + show_it(x)).c_str());
      if (!x.s.empty()) same(times(flat, x.s), want, ("times its short title is shown: " + show_it(x)).c_str()); for (auto &y: x.al) { size_t k = times(flat, y); if (vis ? k < 1 : k > 0) fail("alias " + y + " of " + show_it(x) + " is shown " + show(k) + " times"); }
    }
    for (auto &g: by) { if (g.first.empty()) continue; bool any = false; for (auto *x: g.second) any = any || h || !x->hidden; std::string n = g.first.substr(g.first.find('.') == std::string::npos ? 0 : g.first.find('.') + 1); same(times(got, "[" + n + "]"), (size_t) (any ? 1 : 0), ("times the group is shown: " + g.first).c_str()); }
    bool none = true; for (auto &x: v) none = none && !h && x.hidden; same(times(got, flags ? "(no options)" : "(no sub-commands)"), (size_t) (none ? 1 : 0), "times it says that there is nothing");
  }
}
}
static h::add a0("descriptions", fam_desc);
static h::add a1("flags", [](rng &r) { go<o::arg>(r); });
static h::add a2("commands", [](rng &r) { go<o::cmd>(r); });
