#include "prelude.hh"
#include "cmdr11/cmdr_chrono.hh"
namespace ch = cmdr::chrono; namespace sc = std::chrono;
using iom = ch::iom; using ff = iom::fmtflags;
using tp_ns = sc::time_point<sc::system_clock, sc::nanoseconds>; using tp_us = sc::time_point<sc::system_clock, sc::microseconds>; using tp_ms = sc::time_point<sc::system_clock, sc::milliseconds>; using tp_s = sc::time_point<sc::system_clock, sc::seconds>;
typedef sc::duration<int, std::ratio<86400>> days;
extern "C" {
void dv_bd6(long n, long *o) {
  auto r = ch::detail::break_down_durations<days, sc::hours, sc::minutes, sc::seconds, sc::milliseconds, sc::nanoseconds>(sc::nanoseconds(n));
  o[0] = std::get<0>(r).count(); o[1] = std::get<1>(r).count(); o[2] = std::get<2>(r).count(); o[3] = std::get<3>(r).count(); o[4] = std::get<4>(r).count(); o[5] = std::get<5>(r).count();
}
void dv_bd3(long n, long *o) {
  auto r = ch::detail::break_down_durations<sc::seconds, sc::milliseconds, sc::microseconds>(sc::nanoseconds(n));
  o[0] = std::get<0>(r).count(); o[1] = std::get<1>(r).count(); o[2] = std::get<2>(r).count();
}
void dv_bd2(long n, long *o) {
  auto r = ch::detail::break_down_durations<sc::minutes, sc::seconds>(sc::milliseconds(n));
  o[0] = std::get<0>(r).count(); o[1] = std::get<1>(r).count();
}
void dv_bd1(long n, long *o) { o[0] = std::get<0>(ch::detail::break_down_durations<sc::hours>(sc::seconds(n))).count(); }
unsigned long dv_get_ms_ns(long n) { return ch::time_point_get_ms(tp_ns(sc::nanoseconds(n))); }
unsigned long dv_get_us_ns(long n) { return ch::time_point_get_us(tp_ns(sc::nanoseconds(n))); }
unsigned long dv_get_ns_ns(long n) { return ch::time_point_get_ns(tp_ns(sc::nanoseconds(n))); }
unsigned long dv_get_ms_us(long n) { return ch::time_point_get_ms(tp_us(sc::microseconds(n))); }
unsigned long dv_get_us_us(long n) { return ch::time_point_get_us(tp_us(sc::microseconds(n))); }
unsigned long dv_get_ns_us(long n) { return ch::time_point_get_ns(tp_us(sc::microseconds(n))); }
unsigned long dv_get_ms_ms(long n) { return ch::time_point_get_ms(tp_ms(sc::milliseconds(n))); }
unsigned long dv_get_us_ms(long n) { return ch::time_point_get_us(tp_ms(sc::milliseconds(n))); }
unsigned long dv_get_ms_s(long n) { return ch::time_point_get_ms(tp_s(sc::seconds(n))); }
unsigned long dv_clock_in_nsec(long n) { ch::clock c; c._now = tp_ns(sc::nanoseconds(n)); return c.in_nsec(); }
unsigned long dv_clock_nsec(long n) { ch::clock c; c._now = tp_ns(sc::nanoseconds(n)); return c.nsec(); }
unsigned dv_flags() { return (unsigned) iom::flags(); }
void dv_set_raw(unsigned v) { iom::_flags = (ff) v; }
void dv_set(unsigned v, bool on) { iom::set_flags((ff) v, on); }
void dv_out(std::ostream &os, unsigned v) { os << (ff) v; }
bool dv_has(unsigned v) { return iom::has((ff) v); }
void dv_reset() { iom::reset(); }
void dv_body(); // anything
void dv_saved() { iom::saver s{}; dv_body(); }
void dv_saved2() { iom::saver s{}; dv_body(); { iom::saver t{}; dv_body(); } dv_body(); }
}
