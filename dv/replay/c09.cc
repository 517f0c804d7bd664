#include "apph.hh"
using namespace h;
namespace {
struct node { o::cmd *c; int parent; std::string name; };
struct fl { int owner; std::string name; bool required; int kind; o::arg *p; };
}
static h::add a0("command lines", [](rng &r) {
  while (time_left()) {
    cli a; bool nc = r.chance(50); a->set_no_catch_cmdr_biz_error(nc); std::string d; std::vector<node> ns{{a.a, -1, ""}}; std::vector<fl> fs; int depth = 1 + (int) r.below(4); std::vector<int> ran; int nf = 0;
    for (int i = 1; i <= depth; i++) { // one chain of commands, with a sibling at each level
      auto &p = *ns[i - 1 == 0 ? 0 : i - 1].c; auto &c = sub(p, "cmd" + std::to_string(i)); ns.push_back({&c, i - 1, "cmd" + std::to_string(i)});
      o::cmd *sib = nullptr; if (r.chance(50)) { sib = &sub(p, "sib" + std::to_string(i)); flag(*sib, false, "sibflag" + std::to_string(i), "", {}, "", true); sib->on_invoke([&ran](o::cmd const &, string_array const &) { ran.push_back(-1); return 0; }); }
    }
    for (int i = 1; i <= depth; i++) ns[i].c->on_invoke([&ran, i](o::cmd const &, string_array const &) { ran.push_back(i); return 0; });
    for (int i = 0; i <= depth; i++) for (int k = (int) r.below(4); k > 0; k--) {
      fl f{i, "f" + std::to_string(nf) + "x", r.chance(50), (int) r.below(3), nullptr}; nf++; std::string sh = "Q" + std::to_string(nf) + "_"; bool post = r.chance(30);
      switch (f.kind) { case 0: f.p = &flag(*ns[i].c, false, f.name, sh, {}, r.chance(20) ? "grp" : "", f.required && !post); break; case 1: f.p = &flag(*ns[i].c, 7, f.name, sh, {}, "", f.required && !post); break; default: f.p = &flag(*ns[i].c, std::string("d"), f.name, sh, {}, "", f.required && !post); }
      if (post) f.p->required(f.required); f.p = ns[i].c->last_added_arg(); fs.push_back(f); d += (f.required ? " !" : " ") + f.name + "@" + std::to_string(i);
    }
    strings line; std::vector<bool> given(fs.size(), false); bool envset = false; int at = 0; // words in front of / after the commands
    auto give = [&](size_t k) { given[k] = true; std::string n = "--" + fs[k].name, s = "-Q" + std::to_string(k + 1) + "_"; bool sh = r.chance(30); switch (fs[k].kind) { case 0: line.push_back(sh ? s : n); break; default: if (r.chance(50)) line.push_back((sh ? s : n) + "=12"); else { line.push_back(sh ? s : n); line.push_back("12"); } } };
    for (int i = 0; i <= depth; i++) { if (i) line.push_back(ns[i].name); at = i; for (size_t k = 0; k < fs.size(); k++) if (!given[k] && fs[k].owner <= at && r.chance(nf > 3 ? 70 : 55)) give(k); }
    if (!fs.empty() && r.chance(15)) { size_t k = r.below(fs.size()); if (!given[k]) { fs[k].p->env_vars("DV_C09_ENV"); setenv("DV_C09_ENV", "1", 1); envset = true; given[k] = true; d += " (" + fs[k].name + " from the environment)"; } }
    if (r.chance(30)) line.push_back("tail");
    bool missing = false; std::string which; for (size_t k = 0; k < fs.size(); k++) if (fs[k].required && !given[k]) { missing = true; which += " " + fs[k].name; }
    begin("(flags:" + d + "; line " + words(line) + ")"); bool thrown = false; std::string what; int rc = 77; 
    try { rc = a.run(line); } catch (cmdr::exception::required_flag_missed const &e) { thrown = true; what = "required"; } catch (std::exception const &e) { thrown = true; what = e.what(); } catch (...) { thrown = true; what = "unknown"; }
    if (envset) unsetenv("DV_C09_ENV");
    a->set_no_catch_cmdr_biz_error(false);
    if (missing) { if (!ran.empty()) fail("a handler ran while" + which + " was missing"); if (nc ? what != "required" : (thrown || rc != -1)) fail("the required flag error was not raised for" + which + (thrown ? " but " + what : ", result " + std::to_string(rc))); }
    else { if (thrown || rc != 0) fail("an error was raised though every required flag was given: " + what + " result " + std::to_string(rc)); if (ran != std::vector<int>{depth}) fail("the handler did not run once"); }
  }
});
static h::add a1("the check itself", [](rng &r) {
  while (time_left()) {
    cli a; std::vector<o::cmd *> ns{a.a}; std::string d; int depth = (int) r.below(5), n = 0; bool missing = false; strings w;
    for (int i = 0; i <= depth; i++) { if (i) ns.push_back(&sub(*ns.back(), "c" + std::to_string(i))); for (int k = (int) r.below(4); k > 0; k--) { std::string nm = "g" + std::to_string(n++) + "y"; flag(*ns.back(), 0, nm); auto *p = ns.back()->last_added_arg(); p->required(r.chance(60)); if (r.chance(65)) p->update_hit_count(nm, 1 + (int) r.below(3)); if (p->required() && p->hit_count() < 1) missing = true; d += " " + nm + "@" + std::to_string(i) + (p->required() ? "!" : "") + (p->hit_count() ? "*" : ""); } }
    begin("(" + d + ")"); bool th = false; try { if (r.chance(50)) cmdr::app::check_required_flags(*ns.back()); else { o::cmd copy = *ns.back(); cmdr::app::check_required_flags(copy); } } catch (cmdr::exception::required_flag_missed const &) { th = true; }
    if (th != missing) fail(th ? "the error was raised though every required flag was given" : "no error although a required flag is missing");
  }
});
