// helpers for harnesses that build and run whole command line applications
#pragma once
#include "h.hh"
#include "cmdr11/cmdr11.hh"
namespace h {
  namespace o = cmdr::opt;
  using strings = std::vector<std::string>;
  struct quiet { // keeps the screens a run prints out of the report
    std::ostringstream out, err; std::streambuf *a, *b;
    quiet() : a(std::cout.rdbuf(out.rdbuf())), b(std::cerr.rdbuf(err.rdbuf())) {}
    ~quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
  };
  struct cli {
    cmdr::app *a; std::vector<int> dummy;
    cli() { quiet q; a = &cmdr::app::create_new("t", "1.0", "me", "copyright", "desc", "examples"); }
    cli(cli const &) = delete;
    ~cli() { delete a; }
    cmdr::app *operator->() { return a; }
    cmdr::app &operator*() { return *a; }
    int run(strings const &words) { quiet q; strings w{"t"}; w.insert(w.end(), words.begin(), words.end()); std::vector<char *> v; for (auto &s: w) v.push_back(s.data()); v.push_back(nullptr); return a->run((int) w.size(), v.data()); }
  };
  inline o::cmd &sub(o::cmd &p, std::string const &l, std::string const &s = "", strings const &al = {}) {
    o::cmd c; c.titles(l.c_str(), s.empty() ? nullptr : s.c_str()); for (auto &x: al) c.title_aliases().push_back(x); p.add(c); return *p.last_added_command();
  }
  template<class V> inline o::arg mkflag(V const &def, std::string const &l, std::string const &s = "", strings const &al = {}, std::string const &toggle = "") {
    o::arg a{def}; a.titles(l.c_str(), s.empty() ? nullptr : s.c_str()); for (auto &x: al) a.title_aliases().push_back(x); if (!toggle.empty()) a.toggle_group(toggle.c_str()); return a;
  }
  template<class V> inline o::arg &flag(o::cmd &p, V const &def, std::string const &l, std::string const &s = "", strings const &al = {}, std::string const &toggle = "", bool required = false) {
    auto a = mkflag(def, l, s, al, toggle); if (required) a.required(true); p.add(a); return *p.last_added_arg();
  }
  inline std::string words(strings const &v) { std::string r; for (auto &x: v) r += (r.empty() ? "" : " ") + show(x); return r; }
} // namespace h
