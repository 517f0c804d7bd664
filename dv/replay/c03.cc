#include "apph.hh"
using namespace h;
static h::add a0("command lines", [](rng &r) {
  while (time_left()) {
    cli a; struct fl { o::arg *p; std::string l, s; int kind; int at; }; std::vector<fl> fs; int n = 1 + (int) r.below(3), nf = 0; std::vector<o::cmd *> chain{a.a}; strings names; bool got = false; strings seen, want, hit, wanthit; int hits = 0;
    for (int i = 1; i <= n; i++) { auto &c = sub(*chain.back(), "cmd" + std::to_string(i), "c" + std::to_string(i)); if (r.chance(40)) sub(*chain.back(), "sib" + std::to_string(i)); chain.push_back(&c); names.push_back("cmd" + std::to_string(i)); }
    for (int i = 0; i <= n; i++) for (int k = (int) r.below(3); k > 0; k--) { nf++; fl f{nullptr, "flag" + std::to_string(nf), "Z" + std::to_string(nf) + "_", (int) r.below(3), i}; switch (f.kind) { case 0: flag(*chain[i], false, f.l, f.s); break; case 1: flag(*chain[i], 3, f.l, f.s); break; default: flag(*chain[i], std::string("d"), f.l, f.s); } fs.push_back(f); }
    auto &leaf = *chain.back(); int pre = 0; strings pres; leaf.on_invoke([&](o::cmd const &, string_array const &x) { got = true; seen = x; return 0; }); leaf.on_pre_invoke([&](o::cmd const &, string_array const &x) { pre++; pres = x; return 0; });
    leaf.on_command_hit([&](o::cmd const &, string_array const &x) { hits++; hit = x; return o::Action::Continue; });
    strings line; int depth = 0;
    auto give = [&] { if (fs.empty()) return; auto &f = fs[r.below(fs.size())]; if (f.at > depth) return; bool sh = r.chance(40); std::string t = sh ? "-" + f.s : (r.chance(20) ? "~~" : "--") + f.l; if (f.kind == 0) { line.push_back(t + (r.chance(20) ? "+" : "")); return; } std::string v = f.kind == 1 ? "12" : r.chance(50) ? "word" : "12"; if (r.chance(50)) line.push_back(t + "=" + v); else { line.push_back(t); line.push_back(v); } };
    for (auto &c: names) { while (r.chance(25)) give(); line.push_back(r.chance(30) ? "c" + c.substr(3) : c); depth++; }
    size_t after = line.size(); static const strings P{"", "a", "b", "a b", "cmd1", "c1", "x=1", "~", "~x", "12", "help", "a-b", "a/b", "'q'", "\"q\"", "\xc3\xa9", " ", "=", "+"};
    auto word = [&] { return r.chance(80) ? r.pick(P) : [&] { auto t = r.text("ab~-/ =\"'", 5); while (!t.empty() && (t[0] == '-' || t[0] == '/' || t.substr(0, 2) == "~~")) t.erase(0, 1); return t; }(); };
    int m = (int) r.below(7); for (int i = 0; i < m; i++) if (r.chance(25)) give(); else { line.push_back(word()); want.push_back(line.back()); }
    if (r.chance(45)) { line.push_back("--"); static const strings Q{"--", "-", "--flag1", "-x", "~~x", "/x", "--zz=1", "~~"}; for (int k = (int) r.below(5); k > 0; k--) { line.push_back(r.chance(50) ? r.pick(Q) : word()); want.push_back(line.back()); } }
    wanthit.assign(line.begin() + (long) after, line.end());
    begin("(" + words(line) + ")"); int rc = 99; try { rc = a.run(line); } catch (std::exception const &e) { fail(std::string("throws ") + e.what()); }
    same(rc, 0, "result"); if (!got) fail("the handler did not run"); else { if (seen != want) fail("the handler got (" + words(seen) + "), expected (" + words(want) + ")"); if (pre != 1 || pres != want) fail("the pre-hook got (" + words(pres) + "), expected (" + words(want) + ")"); if (hits != 1 || hit != wanthit) fail("the on-hit callback got (" + words(hit) + "), expected (" + words(wanthit) + ")"); }
  }
});
static h::add a1("tail", [](rng &r) {
  while (time_left()) {
    cli a; for (int rep = 0; rep < 200 && time_left(); rep++) {
      o::types::parsing_context pc{a.a}; strings c, w; for (int k = (int) r.below(6); k > 0; k--) c.push_back(r.text("ab-", 4)); for (int k = (int) r.below(7); k > 0; k--) w.push_back(r.text("ab-", 4));
      std::vector<char *> v; for (auto &s: w) v.push_back(s.data()); v.push_back(nullptr); int i = (int) r.below(w.size() + 2); begin("collected (" + words(c) + ") arguments (" + words(w) + ") from " + std::to_string(i));
      for (auto &s: c) pc.add_remain_arg(s); strings want = c, tail; for (size_t k = i; k < w.size(); k++) tail.push_back(w[k]); want.insert(want.end(), tail.begin(), tail.end());
      auto got = cmdr::app::remain_args(pc, v.data(), i, (int) w.size()); if (got != want) fail("collected and tail: (" + words(got) + "), expected (" + words(want) + ")");
      got = cmdr::app::remain_args(v.data(), i, (int) w.size()); if (got != tail) fail("tail: (" + words(got) + "), expected (" + words(tail) + ")"); if (pc.remain_args() != c) fail("the collected ones changed");
    }
  }
});
