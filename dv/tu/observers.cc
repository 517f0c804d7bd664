#include "prelude.hh"
#include <memory>
#include <string>
#include "cmdr11/cmdr_common.hh"
namespace u = cmdr::util;
using OB = u::observer<int>;
using SP = std::shared_ptr<OB>;
using WP = std::weak_ptr<OB>;
using O11 = u::observable<int, true, true>;
using O10 = u::observable<int, true, false>;
using O00 = u::observable<int, false, false>;
using B = u::observable_bindable<int>;
using S2 = u::signal<int, std::string>;
using S0 = u::signal<>;
void cb(int const &); void cb2(int, std::string); void cb0();
extern "C" {
#define OPS(N) \
  void dv_##N##_addw(O##N &o, WP const &w) { o.add_observer(w); } \
  void dv_##N##_adds(O##N &o, SP &s) { o.add_observer(s); } \
  void dv_##N##_pluss(O##N &o, SP &s) { o += s; } \
  void dv_##N##_plusw(O##N &o, WP const &w) { o += w; } \
  void dv_##N##_plus2(O##N &o, SP &s) { o + s; } \
  void dv_##N##_removes(O##N &o, SP &s) { o.remove_observer(s); } \
  void dv_##N##_removep(O##N &o, OB *p) { o.remove_observer(p); } \
  void dv_##N##_minuss(O##N &o, SP &s) { o -= s; } \
  void dv_##N##_minus2(O##N &o, OB *s) { o - s; } \
  void dv_##N##_emit(O##N &o, int const &e) { o.emit(e); } \
  void *dv_##N##_at_observers(O##N &o) { return &o._observers; } \
  void *dv_##N##_at_m(O##N &o) { return &o._m; }
OPS(11) OPS(10) OPS(00)
void dv_b_add(B &b) { b.add_callback(cb); }
void dv_b_on(B &b) { b.on(cb); }
void dv_b_emit(B &b, int const &e) { b.emit(e); }
void *dv_b_at_callbacks(B &b) { return &b._callbacks; }
void dv_s_connect(S2 &s) { s.connect(cb2); }
void dv_s_on(S2 &s) { s.on(cb2); }
void dv_s_emit(S2 &s, int &&i, std::string &&t) { s.emit(std::move(i), std::move(t)); }
void *dv_s_at_callbacks(S2 &b) { return &b._callbacks; }
}
