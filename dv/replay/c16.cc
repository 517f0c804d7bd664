#include "h.hh"
#include "cmdr11/cmdr_priority_queue.hh"
// what a user sees of the queue against a plain multiset; elements are (rank, serial) so that equal ranks stay distinguishable
struct item { int rank{0}, id{0}; bool operator==(item const &o) const { return rank == o.rank && id == o.id; } };
static int mode;
struct cmp { int operator()(item const &a, item const &b) const { int d = mode == 1 ? a.rank / 3 - b.rank / 3 : mode == 2 ? b.rank - a.rank : a.rank - b.rank; return mode == 3 ? (d > 0) - (d < 0) : d * 5; } };
template<bool R, class C> static void run(std::vector<int> const &ops, char const *what) {
  std::string d; for (int o: ops) d += o < 0 ? "pop " : o >= 1000 ? "pop_front " : "push" + std::to_string(o) + " ";
  h::begin("(" + std::string(what) + " mode " + std::to_string(mode) + ": " + d + ")");
  cmdr::queue::priority_queue<item, int, C, std::list<item>, R> q; std::vector<item> m; int id = 0; cmp c;
  if constexpr (!std::is_same_v<C, cmp>) q._comparer = cmp{};
  for (int o: ops) {
    if (o >= 0 && o < 1000) { item x{o, ++id}; if (o % 2) q.push(x); else q.push_back(x); m.push_back(x); }
    else if (m.empty()) { item x = o < 0 ? q.pop() : (q.pop_front(), item{}); if (!(x == item{}) || !q.is_null(x)) h::fail("popping an empty queue returns an element"); }
    else {
      if (o >= 1000) { // pop_front drops what pop would have returned: found by what is missing afterwards, below
        size_t n = q.size(); q.pop_front(); if (q.size() + 1 != n) h::fail("pop_front: size");
        std::vector<item> rest; auto left = m; while (!q.empty() && rest.size() <= m.size()) rest.push_back(q.pop());
        for (auto &r: rest) { bool f = false; for (size_t i = 0; i < left.size() && !f; i++) if (left[i] == r) { left.erase(left.begin() + i); f = true; } if (!f) h::fail("returned an element that is not queued"); }
        if (left.size() != 1) h::fail("pop_front dropped " + std::to_string(left.size()) + " elements");
        else for (auto &y: m) { int z = c(y, left[0]); if (R ? z < 0 : z > 0) { h::fail("pop_front dropped an element that a queued one outranks"); break; } }
        m = rest; for (auto &r: rest) q.push(r);
      } else {
        item x = q.pop(); bool f = false;
        for (size_t i = 0; i < m.size() && !f; i++) if (m[i] == x) { f = true; m.erase(m.begin() + i); }
        if (!f) { h::fail("pop returned rank " + std::to_string(x.rank) + " #" + std::to_string(x.id) + ", which is not queued"); return; }
        for (auto &y: m) { int z = c(y, x); if (R ? z < 0 : z > 0) { h::fail("pop returned rank " + std::to_string(x.rank) + " while rank " + std::to_string(y.rank) + " is queued"); return; } }
      }
    }
    if (q.size() != m.size()) { h::fail("size is " + std::to_string(q.size()) + ", " + std::to_string(m.size()) + " are queued"); return; }
    if (q.empty() != m.empty()) { h::fail("empty() is wrong"); return; }
  }
}
static void all(std::vector<int> const &ops) {
  using F = cmdr::queue::comparer<item, int>;
  for (mode = 0; mode < 4; mode++) { run<false, cmp>(ops, "normal"); run<true, cmp>(ops, "reversed"); }
  mode = 0; run<false, F>(ops, "function"); run<true, F>(ops, "function, reversed");
}
static void drain(std::vector<int> v) { int n = 0; for (int o: v) n += o >= 0 && o < 1000; for (int i = 0; i <= n; i++) v.push_back(-1); all(v); }
static h::add a0("short histories", [](h::rng &) {
  for (int len = 1; len <= 6; len++) { std::vector<int> v(len, 0); int base = 5; long total = 1; for (int i = 0; i < len; i++) total *= base;
    for (long k = 0; k < total; k++) { if (!h::time_left()) return; long x = k; for (int i = 0; i < len; i++) { int o = (int) (x % base); x /= base; v[i] = o == 4 ? -1 : o * 2 + 1; } drain(v); } }
});
static h::add a1("random histories", [](h::rng &r) { while (h::time_left()) { std::vector<int> v; int span = 1 + (int) r.below(30), n = 1 + (int) r.below(40), pops = 20 + (int) r.below(50); for (int i = 0; i < n; i++) v.push_back(r.chance(pops) ? (r.chance(8) ? 1000 : -1) : (int) r.below(span)); drain(v); } });
struct scmp { int operator()(std::string const &a, std::string const &b) const { return (int) a.size() - (int) b.size(); } };
static h::add a2("texts", [](h::rng &r) { while (h::time_left()) { h::begin("random texts"); cmdr::queue::priority_queue<std::string, int, scmp> q; std::multiset<std::string> m; std::string d; scmp c;
  for (int k = 0; k < 30; k++) { if (r.chance(60)) { auto s = "x" + r.text("ab", 6); d += "push " + s + " "; q.push(s); m.insert(s); } else { d += "pop "; auto s = q.pop(); if (m.empty()) { if (!s.empty()) h::fail("(" + d + ")", "popping an empty queue returns " + s); } else { auto it = m.find(s); if (it == m.end()) { h::fail("(" + d + ")", "not queued: " + s); break; } m.erase(it); for (auto &y: m) if (c(y, s) > 0) { h::fail("(" + d + ")", "pop returned " + s + " while " + y + " is queued"); break; } } } if (q.size() != m.size()) h::fail("(" + d + ")", "size"); } } }, 0.4);
