#include "apph.hh"
using namespace h;
namespace {
struct custom { int n; };
struct plan { bool present{}; int what{}; }; // what: 0..: the code; 100: std exception, 101: custom, 102: int
char const *names[] = {"global-pre", "pre", "handler", "not-hooked", "post", "global-post"};
struct rig { plan p[6]; strings trace; strings got; cmdr::opt::cmd const *cmd{}; bool wrong{}; strings want; };
int act(rig &g, int k, cmdr::opt::cmd const &c, string_array const &a) {
  g.trace.push_back(names[k]); if (g.cmd && &c != g.cmd) g.wrong = true; if (strings(a.begin(), a.end()) != g.want) g.wrong = true;
  switch (g.p[k].what) { case 100: throw std::runtime_error(std::string("boom ") + names[k]); case 101: throw custom{k}; case 102: throw 42 + k; default: return g.p[k].what; }
}
int codes[] = {0, 0, 0, 0, 1, -1, 7, 2147483647, 256, 100, 100, 101, 102};
void arm(rng &r, rig &g, std::string &d) {
  for (int k = 0; k < 6; k++) { g.p[k].present = r.chance(k == 3 ? 80 : 70); g.p[k].what = codes[r.below(13)]; if (g.p[k].present) { int w = g.p[k].what; d += std::string(" ") + names[k] + "=" + (w == 100 ? "throws runtime_error" : w == 101 ? "throws custom" : w == 102 ? "throws int" : std::to_string(w)); } }
}
struct expect { strings trace; int rc{}; std::string thrown; };
std::string exname(rig &g, int k) { int w = g.p[k].what; return w == 100 ? std::string("boom ") + names[k] : w == 101 ? "custom " + std::to_string(k) : "int " + std::to_string(42 + k); }
expect oracle(rig &g) {
  expect e;
  auto main = [&](int k) { if (!g.p[k].present || !e.thrown.empty()) return; e.trace.push_back(names[k]); if (g.p[k].what >= 100 && g.p[k].what <= 102) e.thrown = exname(g, k); else e.rc = g.p[k].what; };
  auto post = [&](int k) { if (!g.p[k].present) return; e.trace.push_back(names[k]); if (g.p[k].what >= 100 && g.p[k].what <= 102 && e.thrown.empty()) e.thrown = exname(g, k); };
  main(0); if (e.rc == 0) main(1); if (e.rc == 0) { if (g.p[2].present) main(2); else main(3); }
  post(4); post(5); return e;
}
void hook(cmdr::app &a, cmdr::opt::cmd &c, rig &g) {
  auto f = [&g](int k) { return [&g, k](cmdr::opt::cmd const &x, string_array const &s) { return act(g, k, x, s); }; };
  if (g.p[0].present) a.set_global_pre_invoke_handler(f(0));
  if (g.p[5].present) a.set_global_post_invoke_handler(f(5));
  a.set_global_on_command_not_hooked(g.p[3].present ? cmdr::opt::types::on_invoke(f(3)) : cmdr::opt::types::on_invoke());
  if (g.p[1].present) c.on_pre_invoke(f(1)); if (g.p[2].present) c.on_invoke(f(2)); if (g.p[4].present) c.on_post_invoke(f(4));
}
template<class F> std::string run(F f, int &rc) {
  try { rc = f(); return ""; } catch (std::runtime_error const &e) { return e.what(); } catch (custom const &c) { return "custom " + std::to_string(c.n); } catch (int n) { return "int " + std::to_string(n); } catch (std::exception const &e) { return std::string("other: ") + e.what(); } catch (...) { return "unknown"; }
}
}
static h::add a0("one command", [](rng &r) {
  while (time_left()) {
    rig g; std::string d; arm(r, g, d); cli a; auto &c = sub(*a, "cmd", "c"); hook(*a, c, g); g.cmd = &c;
    int n = (int) r.below(4); string_array args; for (int i = 0; i < n; i++) { args.push_back(r.text("abc -", 5)); g.want.push_back(args.back()); }
    begin("(hooks:" + d + "; arguments " + words(g.want) + ")"); cmdr::opt::types::parsing_context pc{a.a}; auto e = oracle(g); int rc = 0; std::string ex;
    { quiet q; ex = run([&] { return a->invoke_command(c, args, pc); }, rc); }
    same(words(g.trace), words(e.trace), "hooks called"); same(ex, e.thrown, "exception"); if (ex.empty() && e.thrown.empty()) same(rc, e.rc, "result"); if (g.wrong) fail("a hook got another command or other arguments");
  }
});
static h::add a1("command lines", [](rng &r) {
  while (time_left()) {
    rig g, other; std::string d; arm(r, g, d); cli a; cmdr::opt::cmd *p = a.a; strings line; int depth = (int) r.below(3);
    for (int i = 0; i < depth; i++) { p = &sub(*p, "grp" + std::to_string(i)); line.push_back("grp" + std::to_string(i)); }
    auto &c = sub(*p, "cmd", "c"); auto &c2 = sub(*p, "other"); hook(*a, c, g); line.push_back("cmd");
    c2.on_invoke([&other](cmdr::opt::cmd const &, string_array const &) { other.trace.push_back("other command's handler"); return 9; });
    p->on_pre_invoke([&other, p, &a](cmdr::opt::cmd const &, string_array const &) { other.trace.push_back("parent's pre"); return 9; });
    int n = (int) r.below(4); for (int i = 0; i < n; i++) { g.want.push_back(r.text("abc", 4)); if (g.want.back().empty()) g.want.back() = "w"; line.push_back(g.want.back()); }
    if (r.chance(30)) { line.push_back("--"); for (int i = (int) r.below(3); i > 0; i--) { g.want.push_back(r.text("ab-", 4)); line.push_back(g.want.back()); } }
    begin("(line " + words(line) + ", hooks:" + d + ")"); auto e = oracle(g); int rc = 0; auto ex = run([&] { return a.run(line); }, rc);
    same(words(g.trace), words(e.trace), "hooks called"); if (!other.trace.empty()) fail("called " + words(other.trace)); if (g.wrong) fail("a hook got other arguments");
    if (e.thrown.empty()) { same(ex, std::string(), "exception"); same(rc, e.rc, "result"); }
    else if (e.thrown.rfind("boom", 0) == 0) { same(ex, std::string(), "exception"); same(rc, -1, "result after a reported exception"); }
    else same(ex, e.thrown, "exception");
  }
});
