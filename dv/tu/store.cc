// Entry points of the option store (treeT / nodeT) of /repo.
#include "prelude.hh"
#include "cmdr11/cmdr11.hh"
using V = cmdr::vars::variable;
using N = cmdr::vars::nodeT<V, std::string>;
using T = cmdr::vars::treeT<V, std::string>;
using CB = N::update_parent_index;
using SA = std::any const &;
extern "C" {
void *dv_at_children(N &n) { return &n._children; }
void *dv_at_indexes(N &n) { return &n._indexes; }
void *dv_at_value(N &n) { return &n._value; }
void *dv_at_root(T &t) { return &t._root; }
void dv_set_any(N &n, char const *k, CB const &cb, std::any const &a) { n._set(k, cb, a); }
void dv_set_mutany(N &n, char const *k, CB const &cb, std::any &a) { n._set(k, cb, a); }
void dv_set_bool(N &n, char const *k, CB const &cb, bool &a) { n._set(k, cb, a); }
void dv_set_int(N &n, char const *k, CB const &cb, int &a) { n._set(k, cb, a); }
void dv_set_text(N &n, char const *k, CB const &cb, std::string const &a) { n._set(k, cb, a); }
void dv_nset_any(N &n, char const *k, std::any const &a) { n.set(k, a); }
void dv_tset_var(T &t, char const *k, V const &a) { t.set_raw(k, a); }
void dv_tset_mvar(T &t, char const *k, V &&a) { t.set_raw(k, std::move(a)); }
void dv_tset_bool(T &t, char const *k, bool a) { t.set_raw(k, a); }
void dv_tset_text(T &t, char const *k, std::string const &a) { t.set_raw(k, a); }
void dv_tsetp_var(T &t, char const *p, char const *k, V const &a) { t.set_raw_p(p, k, a); }
void dv_tsetp_mvar(T &t, char const *p, char const *k, V &&a) { t.set_raw_p(p, k, std::move(a)); }
void dv_tsetp_bool(T &t, char const *p, char const *k, bool a) { t.set_raw_p(p, k, a); }
void dv_tsetp_text(T &t, char const *p, char const *k, std::string const &a) { t.set_raw_p(p, k, a); }
V const *dv_get_cc(T const &t, char const *k) { return &t.get_raw(k); }
V const *dv_get_c(T &t, char const *k) { return &t.get_raw(k); }
V const *dv_get_cs(T const &t, std::string const &k) { return &t.get_raw(k); }
V const *dv_get_s(T &t, std::string const &k) { return &t.get_raw(k); }
V const *dv_getp_cc(T const &t, char const *p, char const *k) { return &t.get_raw_p(p, k); }
V const *dv_getp_c(T &t, char const *p, char const *k) { return &t.get_raw_p(p, k); }
V const *dv_getp_cs(T const &t, std::string const &p, std::string const &k) { return &t.get_raw_p(p, k); }
V const *dv_getp_s(T &t, std::string const &p, std::string const &k) { return &t.get_raw_p(p, k); }
V const *dv_null() { return &N::null_element(); }
bool dv_has(T const &t, char const *p, char const *k) { return t.has(p, k); }
}
