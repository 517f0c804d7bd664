// flags: thread (ThreadSanitizer reports unlocked accesses)
#include "h.hh"
#include <atomic>
#include <optional>
#include <set>
#include <string>
#include "cmdr11/cmdr_pool.hh"
using MQ = cmdr::pool::threaded_message_queue<std::string>;
static std::atomic<bool> raced{false};
extern "C" void __tsan_on_report(void *) { raced = true; }
extern "C" const char *__tsan_default_options() { return "exitcode=0:report_signal_unsafe=0:die_after_fork=0"; }
static void races() { if (raced.exchange(false)) h::fail("a data race: the queue state is touched without its lock"); }
static h::add a0("single-threaded histories", [](h::rng &r) {
  while (h::time_left()) {
    int n = 1 + (int) r.below(30); std::string d; h::begin("history"); MQ q; std::multiset<std::string> m; bool dead = false; int serial = 0;
    for (int i = 0; i < n; i++) {
      int op = (int) r.below(10);
      if (op < 5) { std::string s = r.chance(30) ? "same" : r.chance(20) ? "" : "m" + std::to_string(serial++); d += "put(" + s + ") "; h::begin("(" + d + ")"); m.insert(s); q.emplace_back(std::move(s)); }
      else if (op < 9) {
        if (m.empty() && !dead) continue;
        d += "take "; h::begin("(" + d + ")"); auto x = q.pop_front();
        if (dead) { if (x) h::fail("a take after clear returns " + *x); }
        else if (!x) h::fail("a take reports none while messages are queued");
        else { auto it = m.find(*x); if (it == m.end()) { h::fail("a take returns '" + *x + "', which is not queued"); break; } m.erase(it); }
      } else if (r.chance(15)) { d += "clear "; h::begin("(" + d + ")"); q.clear(); m.clear(); dead = true; }
      if (q.empty() != m.empty()) { h::fail("empty() reports the opposite"); break; }
    }
    while (!dead && !m.empty()) { auto x = q.pop_front(); auto it = x ? m.find(*x) : m.end(); if (it == m.end()) { h::fail("draining returns a message that is not queued"); break; } m.erase(it); }
    if (!dead && !q.empty()) h::fail("not empty after every message was taken");
    races();
  }
});
static h::add a1("producers and consumers", [](h::rng &r) {
  while (h::time_left()) {
    int np = 1 + (int) r.below(4), nc = 1 + (int) r.below(4), per = 1 + (int) r.below(60); bool late = r.chance(50);
    h::begin("(" + std::to_string(np) + " producers of " + std::to_string(per) + ", " + std::to_string(nc) + " consumers" + (late ? ", consumers first" : "") + ")");
    MQ q; std::vector<std::vector<std::string>> got(nc); std::atomic<int> left{np * per}; std::vector<std::thread> ts;
    auto produce = [&](int p) { for (int i = 0; i < per; i++) { std::string s = std::to_string(p) + "/" + std::to_string(i); q.emplace_back(std::move(s)); if (i % 7 == 0) { volatile bool e = q.empty(); (void) e; } } };
    auto consume = [&](int k) { while (left.fetch_sub(1) > 0) { auto x = q.pop_front(); got[k].push_back(x ? *x : std::string("none")); } };
    if (late) for (int k = 0; k < nc; k++) ts.emplace_back(consume, k);
    for (int p = 0; p < np; p++) ts.emplace_back(produce, p);
    if (!late) for (int k = 0; k < nc; k++) ts.emplace_back(consume, k);
    for (auto &t: ts) t.join();
    std::multiset<std::string> m; for (auto &v: got) for (auto &s: v) m.insert(s);
    for (int p = 0; p < np; p++) for (int i = 0; i < per; i++) { auto s = std::to_string(p) + "/" + std::to_string(i); if (m.count(s) != 1) { h::fail("message " + s + " was taken " + std::to_string(m.count(s)) + " times"); p = np; break; } }
    if (m.size() != (size_t) np * per) h::fail("takes returned " + std::to_string(m.size()) + " messages");
    if (!q.empty()) h::fail("not empty at the end");
    races();
  }
});
static h::add a2("clear wakes every waiting take", [](h::rng &r) {
  while (h::time_left()) {
    int nc = 1 + (int) r.below(5), extra = (int) r.below(4); h::begin("(" + std::to_string(nc) + " waiting takes, " + std::to_string(extra) + " messages, then clear)");
    MQ q; std::atomic<int> none{0}, some{0}; std::vector<std::thread> ts;
    for (int k = 0; k < nc; k++) ts.emplace_back([&] { auto x = q.pop_front(); (x ? some : none)++; });
    for (int i = 0; i < extra; i++) { std::string s = "m"; q.emplace_back(std::move(s)); }
    if (r.chance(50)) usleep((int) r.below(300));
    q.clear(); for (auto &t: ts) t.join();
    if (none + some != nc || some > extra) h::fail(std::to_string(some) + " takes returned a message, " + std::to_string(none) + " none"); if (!q.empty()) h::fail("not empty after clear");
    races();
  }
});
