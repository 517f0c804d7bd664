// flags: thread (ThreadSanitizer reports unlocked accesses)
#include "h.hh"
#include <atomic>
#include <memory>
#include <string>
#include "cmdr11/cmdr_common.hh"
static std::atomic<bool> raced{false};
extern "C" void __tsan_on_report(void *) { raced = true; }
extern "C" const char *__tsan_default_options() { return "exitcode=0:report_signal_unsafe=0:die_after_fork=0"; }
struct ev { int id{0}; std::string text; };
using trace = std::vector<std::string>;
static trace *tr;
struct obs : cmdr::util::observer<ev> { int id; explicit obs(int i) : id(i) {} void observe(ev const &e) override { tr->push_back(std::to_string(id) + ":" + std::to_string(e.id) + e.text); } };
static std::string join(trace const &t) { std::string r; for (auto &x: t) r += x + " "; return r; }
template<bool L, bool C> static void observable_histories(h::rng &r, char const *kind) {
  using O = cmdr::util::observable<ev, L, C>; using SP = std::shared_ptr<cmdr::util::observer<ev>>; using WP = std::weak_ptr<cmdr::util::observer<ev>>;
  O o; std::vector<SP> live; std::vector<int> ids; int serial = 0; struct sub { int id; bool dead; }; std::vector<sub> subs; std::string d = std::string(kind) + ": ";
  int n = 1 + (int) r.below(25);
  for (int i = 0; i < n; i++) {
    int op = (int) r.below(12); size_t k = live.empty() ? 0 : (size_t) r.below(live.size());
    if (op < 3 || live.empty()) { live.push_back(std::make_shared<obs>(serial)); ids.push_back(serial++); k = live.size() - 1; op = (int) r.below(4); d += "new" + std::to_string(ids[k]) + " "; }
    h::begin("(" + d + ")");
    if (op < 5) { d += "add" + std::to_string(ids[k]) + " "; h::begin("(" + d + ")"); switch (r.below(4)) { case 0: o.add_observer(live[k]); break; case 1: o += live[k]; break; case 2: o + live[k]; break; default: { WP w = live[k]; o.add_observer(w); } } subs.push_back({ids[k], false}); }
    else if (op < 7) { d += "remove" + std::to_string(ids[k]) + " "; h::begin("(" + d + ")"); switch (r.below(4)) { case 0: o.remove_observer(live[k]); break; case 1: o -= live[k]; break; case 2: o - live[k].get(); break; default: o.remove_observer(live[k].get()); } std::vector<sub> s2; for (auto &s: subs) if (s.dead || s.id != ids[k]) s2.push_back(s); subs = s2; }
    else if (op < 8) { d += "expire" + std::to_string(ids[k]) + " "; h::begin("(" + d + ")"); for (auto &s: subs) if (s.id == ids[k]) s.dead = true; live.erase(live.begin() + (long) k); ids.erase(ids.begin() + (long) k); }
    else {
      ev e{(int) r.below(1000), r.text("ab", 3)}; d += "emit "; h::begin("(" + d + ")"); trace got, want; tr = &got; o.emit(e);
      for (auto &s: subs) if (!s.dead) want.push_back(std::to_string(s.id) + ":" + std::to_string(e.id) + e.text);
      if (got != want) { h::fail("called " + join(got) + ", expected " + join(want)); return; }
    }
    if (r.chance(5)) { // a scoped registration
      auto sp = SP(std::make_shared<obs>(-1)); { cmdr::util::registerer<ev, L, C> reg(o, sp); trace got; tr = &got; o.emit(ev{7, ""}); size_t nn = 0; for (auto &s: subs) nn += !s.dead; if (got.size() != nn + 1 || got.back() != "-1:7") h::fail("a registered observer is not called: " + join(got)); }
      trace got; tr = &got; o.emit(ev{8, ""}); for (auto &g: got) if (g == "-1:8") h::fail("a registration outlives its scope");
    }
  }
}
static h::add a0("observers", [](h::rng &r) { while (h::time_left()) { observable_histories<true, true>(r, "locked, copy and swap"); observable_histories<true, false>(r, "locked"); observable_histories<false, false>(r, "unlocked"); observable_histories<false, true>(r, "unlocked, copy and swap"); } });
static h::add a1("observers subscribed from several threads", [](h::rng &r) {
  while (h::time_left()) {
    int nt = 2 + (int) r.below(4), per = 1 + (int) r.below(12); bool cns = r.chance(50); h::begin("(" + std::to_string(nt) + " threads subscribe " + std::to_string(per) + " observers each, one unsubscribes, one emits" + (cns ? ", copy and swap)" : ")"));
    struct cnt : cmdr::util::observer<int> { std::atomic<int> n{0}; void observe(int const &e) override { if (e == 42) n++; } };
    auto go = [&](auto &o) {
      std::vector<std::vector<std::shared_ptr<cmdr::util::observer<int>>>> sp(nt), gone(nt); for (auto &v: sp) for (int i = 0; i < per; i++) v.push_back(std::make_shared<cnt>());
      for (auto &v: gone) for (int i = 0; i < per; i++) { v.push_back(std::make_shared<cnt>()); o.add_observer(v.back()); }
      std::vector<std::thread> ts; for (int t = 0; t < nt; t++) ts.emplace_back([&, t] { for (int i = 0; i < per; i++) { o.add_observer(sp[t][i]); o.remove_observer(gone[t][i]); if (i % 5 == 4) o.emit(1); } });
      for (auto &t: ts) t.join();
      o.emit(42); int missed = 0, kept = 0; for (auto &v: sp) for (auto &x: v) missed += ((cnt *) x.get())->n != 1; for (auto &v: gone) for (auto &x: v) kept += ((cnt *) x.get())->n != 0;
      if (missed) h::fail(std::to_string(missed) + " subscribed observers were not called exactly once"); if (kept) h::fail(std::to_string(kept) + " unsubscribed observers were called");
    };
    if (cns) { cmdr::util::observable<int, true, true> o; go(o); } else { cmdr::util::observable<int, true, false> o; go(o); }
    if (raced.exchange(false)) h::fail("a data race: the list of observers is touched without its lock");
  }
});
struct target { trace *t; int k; void m(ev const &e) { t->push_back("m" + std::to_string(k) + ":" + std::to_string(e.id)); } void m2(int x, ev const &e) { t->push_back("n" + std::to_string(k * 100 + x) + ":" + std::to_string(e.id)); } };
static trace *ft; static void freef(ev const &e) { ft->push_back("f:" + std::to_string(e.id)); }
static h::add a2("bound callbacks", [](h::rng &r) {
  while (h::time_left()) {
    cmdr::util::observable_bindable<ev> o; std::vector<std::function<std::string(ev const &)>> want; trace got; ft = &got; std::vector<std::unique_ptr<target>> tg; std::string d; int n = 1 + (int) r.below(12);
    for (int i = 0; i < n; i++) {
      int op = (int) r.below(7); bool on = r.chance(50);
      if (op == 0) { d += "lambda "; h::begin("(" + d + ")"); auto f = [&got, i](ev const &e) { got.push_back("l" + std::to_string(i) + ":" + std::to_string(e.id) + e.text); }; if (on) o.on(f); else o.add_callback(f); want.push_back([i](ev const &e) { return "l" + std::to_string(i) + ":" + std::to_string(e.id) + e.text; }); }
      else if (op == 1) { d += "member "; h::begin("(" + d + ")"); tg.push_back(std::make_unique<target>(target{&got, i})); if (on) o.on(&target::m, tg.back().get()); else o.add_callback(&target::m, tg.back().get()); want.push_back([i](ev const &e) { return "m" + std::to_string(i) + ":" + std::to_string(e.id); }); }
      else if (op == 2) { d += "member+arg "; h::begin("(" + d + ")"); tg.push_back(std::make_unique<target>(target{&got, i})); if (on) o.on(&target::m2, tg.back().get(), 5); else o.add_callback(&target::m2, tg.back().get(), 5); want.push_back([i](ev const &e) { return "n" + std::to_string(i * 100 + 5) + ":" + std::to_string(e.id); }); }
      else if (op == 3) { d += "function "; h::begin("(" + d + ")"); if (on) o.on(freef); else o.add_callback(freef); want.push_back([](ev const &e) { return "f:" + std::to_string(e.id); }); }
      else { ev e{(int) r.below(100), r.text("xy", 4)}; d += "emit "; h::begin("(" + d + ")"); got.clear(); o.emit(e); trace w; for (auto &f: want) w.push_back(f(e)); if (got != w) { h::fail("called " + join(got) + ", expected " + join(w)); break; } }
    }
  }
});
static h::add a3("signals", [](h::rng &r) {
  while (h::time_left()) {
    cmdr::util::signal<int, std::string> s; cmdr::util::signal<> s0; cmdr::util::signal<std::string> s1; cmdr::util::signal<std::vector<int>, std::string, double> s3; trace got, want; std::string d; int n = 1 + (int) r.below(10), c2 = 0, c0 = 0, c1 = 0, c3 = 0; std::vector<int> byv;
    struct rec { trace *t; void m(int a, std::string b) { t->push_back("M" + std::to_string(a) + b); } }; rec rc{&got}; std::vector<std::function<std::string(int, std::string const &)>> w2; std::vector<std::string> w1;
    for (int i = 0; i < n; i++) switch (r.below(9)) {
      case 0: d += "connect(by value) "; h::begin("(" + d + ")"); s.connect([&got, i](int a, std::string b) { std::string own = std::move(b); got.push_back("v" + std::to_string(i) + "," + std::to_string(a) + own); }); w2.push_back([i](int a, std::string const &b) { return "v" + std::to_string(i) + "," + std::to_string(a) + b; }); break;
      case 1: d += "on(by reference) "; h::begin("(" + d + ")"); s.on([&got, i](int a, std::string const &b) { got.push_back("r" + std::to_string(i) + "," + std::to_string(a) + b); }); w2.push_back([i](int a, std::string const &b) { return "r" + std::to_string(i) + "," + std::to_string(a) + b; }); break;
      case 2: d += "connect(member) "; h::begin("(" + d + ")"); s.connect(&rec::m, &rc); w2.push_back([](int a, std::string const &b) { return "M" + std::to_string(a) + b; }); break;
      case 3: { d += "emit "; h::begin("(" + d + ")"); int a = (int) r.below(50); std::string b = r.text("pq", 30); got.clear(); want.clear(); for (auto &f: w2) want.push_back(f(a, b)); std::string x = b; s.emit((int) a, std::move(x)); if (got != want) { h::fail("called " + join(got) + ", expected " + join(want)); i = n; } break; }
      case 4: s0.connect([&c0] { c0++; }); c1++; break;
      case 5: { h::begin("(signal without values, " + std::to_string(c1) + " callbacks)"); c0 = 0; s0.emit(); if (c0 != c1) h::fail("called " + std::to_string(c0) + " times"); break; }
      case 6: { s1.on([&got, i](std::string b) { got.push_back("P" + std::to_string(i) + b); }); w1.push_back("P" + std::to_string(i)); break; }
      case 7: { h::begin("(signal of one text, " + std::to_string(w1.size()) + " callbacks)"); got.clear(); s1.emit(std::string("a text that is longer than a small buffer")); trace w; for (auto &x: w1) w.push_back(x + "a text that is longer than a small buffer"); if (got != w) { h::fail("called " + join(got) + ", expected " + join(w)); i = n; } break; }
      default: { h::begin("(signal of a list, a text and a number)"); if (r.chance(60)) { s3.connect([&byv](std::vector<int> v, std::string t, double x) { byv.push_back((int) v.size() * 100 + (int) t.size() * 10 + (int) x); }); c3++; } byv.clear(); s3.emit(std::vector<int>{1, 2, 3}, std::string("four"), 5.0); for (auto v: byv) if (v != 345) { h::fail("a callback got other values than emitted"); i = n; break; } if ((int) byv.size() != c3) h::fail("calls"); }
    }
    (void) c2;
  }
});
