// Replay / bounded-check harness library: runs the real code of /repo on concrete inputs against a
// property-derived oracle; every family runs in a child process so crashes and hangs are failures too.
#pragma once
#include "../tu/prelude.hh"
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace h {
  struct shared { long cases; long nontrivial; int nfail; char cur[4096]; char sample[4][1024]; int nsample; };
  inline shared *sh = nullptr;
  inline double secs = 20;
  inline uint64_t seed = 1;
  inline std::string casefile;
  inline std::string family;
  inline double deadline = 0;
  inline std::map<std::string, std::vector<std::string>> directed; // unit -> values of a counter-model
  inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  inline bool time_left() { return now() < deadline; }
  struct rng {
    uint64_t s;
    explicit rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    bool chance(int pct) { return below(100) < (uint64_t) pct; }
    template<class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
    std::string text(std::string const &alphabet, size_t maxlen) {
      std::string r; size_t n = below(maxlen + 1);
      for (size_t i = 0; i < n; i++) r += alphabet[below(alphabet.size())];
      return r;
    }
  };
  inline std::string show(std::string const &s) {
    std::string r = "\""; char b[8];
    for (unsigned char c: s) { if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char) c; }
    return r + "\"";
  }
  inline std::string show(char c) { return show(std::string(1, c)); }
  inline std::string show(bool b) { return b ? "true" : "false"; }
  template<class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>, int> = 0>
  inline std::string show(T v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
  inline std::string show(char const *s) { return s ? show(std::string(s)) : "null"; }
  template<class T> inline std::string show(std::vector<T> const &v) { std::string r = "["; for (auto const &x: v) r += (r.size() > 1 ? ", " : "") + show(x); return r + "]"; }
  inline void show_all(std::string &) {}
  template<class A, class... R> inline void show_all(std::string &o, A const &a, R const &...r) { if (!o.empty()) o += ", "; o += show(a); show_all(o, r...); }
  inline int current_timeout = 10;
  // names the case about to run (for crash / hang reports); returns its text
  inline void begin(std::string const &desc, bool nontrivial = true) {
    sh->cases++;
    if (nontrivial) {
      sh->nontrivial++;
      if (sh->nsample < 4 && (sh->nontrivial & (sh->nontrivial - 1)) == 0) { snprintf(sh->sample[sh->nsample], 1024, "%s %s", family.c_str(), desc.c_str()); sh->nsample++; }
    }
    snprintf(sh->cur, sizeof sh->cur, "%s", desc.c_str());
    alarm(current_timeout);
  }
  template<class... A> inline std::string args(A const &...a) { std::string o; show_all(o, a...); return "(" + o + ")"; }
  inline void fail(std::string const &desc, std::string const &why) {
    std::string a = desc, b = why;
    for (auto *s: {&a, &b}) for (auto &c: *s) if (c == '\n' || c == '\t') c = ' ';
    printf("FAIL\t%s\t%s\t%s\n", family.c_str(), a.c_str(), b.c_str()); fflush(stdout);
    if (++sh->nfail >= 40) _exit(3);
  }
  inline void fail(std::string const &why) { fail(sh->cur, why); }
  template<class A, class B> inline bool same(A const &got, B const &want, char const *what) {
    if (got == want) return true;
    fail(std::string(what) + ": got " + show(got) + ", expected " + show(want)); return false;
  }
  struct fam { std::string name; std::function<void(rng &)> f; double share; };
  inline std::vector<fam> &families() { static std::vector<fam> v; return v; }
  struct add { add(char const *n, std::function<void(rng &)> f, double share = 1) { families().push_back({n, std::move(f), share}); } };
  inline std::string unescape(std::string const &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\\' && i + 2 < s.size() && s[i + 1] == 'u' && s[i + 2] == '{') {
        size_t j = s.find('}', i); r += (char) strtol(s.substr(i + 3, j - i - 3).c_str(), nullptr, 16); i = j;
      } else r += s[i];
    }
    return r;
  }
  // value of input `name` in the counter-models of this family's unit
  inline std::vector<std::map<std::string, std::string>> models;
  inline void load_cases() {
    if (casefile.empty()) return;
    std::ifstream f(casefile); std::string line; std::map<std::string, std::string> cur;
    while (std::getline(f, line)) {
      if (line.empty()) { if (!cur.empty()) models.push_back(cur); cur.clear(); continue; }
      auto k = line.find('='); if (k == std::string::npos) continue;
      cur[line.substr(0, k)] = unescape(line.substr(k + 1));
    }
    if (!cur.empty()) models.push_back(cur);
  }
  inline int main_(int argc, char **argv) {
    double total = 20;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
      else if (a == "--secs") total = atof(argv[++i]);
      else if (a == "--case") casefile = argv[++i];
    }
    load_cases();
    sh = (shared *) mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double w = 0; for (auto &f: families()) w += f.share;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    for (auto &f: families()) {
      fflush(stdout);
      memset(sh, 0, sizeof *sh);
      double t0 = now(), budget = total * f.share / w;
      pid_t p = fork();
      if (p == 0) {
        family = f.name; deadline = now() + budget; rng r(seed + std::hash<std::string>()(f.name) % 1000);
        int null = open("/dev/null", O_WRONLY); dup2(null, 2);
        struct rlimit cl{0, 0}; setrlimit(RLIMIT_CORE, &cl);
        try { f.f(r); } catch (std::exception const &x) { fail(std::string("escaping exception: ") + x.what()); } catch (...) { fail("escaping exception"); }
        fflush(stdout); _exit(0);
      }
      int st = 0; bool hung = false;
      for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now() - t0 > budget + 60) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
      }
      bool sig = WIFSIGNALED(st), bad = sig || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3);
      if (hung || (sig && WTERMSIG(st) == SIGALRM)) { printf("FAIL\t%s\t%s\tdoes not terminate\n", f.name.c_str(), sh->cur); }
      else if (bad) printf("FAIL\t%s\t%s\tcrashes (%s %d)\n", f.name.c_str(), sh->cur, sig ? "signal" : "exit", sig ? WTERMSIG(st) : WEXITSTATUS(st));
      printf("FAMILY\t%s\t%ld\t%ld\t%.2f\n", f.name.c_str(), sh->cases, sh->nontrivial, now() - t0);
      for (int i = 0; i < sh->nsample; i++) printf("SAMPLE\t%s\n", sh->sample[i]);
    }
    return 0;
  }
} // namespace h
int main(int argc, char **argv) { return h::main_(argc, argv); }
