#include "prelude.hh"
#include "cmdr11/cmdr11.hh"
namespace o = cmdr::opt;
using cmdr::app;
using PC = o::types::parsing_context;
using MF = std::function<o::types::indexed_args const &(o::cmd *)>;
extern "C" {
// C08 C09
int dv_invoke(app &a, o::cmd &c, string_array const &r, PC &pc) { return a.invoke_command(c, r, pc); }
void dv_check_required(o::cmd &c) { app::check_required_flags(c); }
int dv_after_run(app &a, o::Action rc, PC &pc, int argc, char **argv) { return a.after_run(rc, pc, argc, argv); }
void *dv_at_gpre(app &a) { return &a._global_on_pre_invoke; }
void *dv_at_gpost(app &a) { return &a._global_on_post_invoke; }
void *dv_at_nothooked(app &a) { return &a._on_command_not_hooked; }
void *dv_at_pre(o::cmd &a) { return &a._on_pre_invoke; }
void *dv_at_invoke(o::cmd &a) { return &a._on_invoke; }
void *dv_at_post(o::cmd &a) { return &a._on_post_invoke; }
void *dv_at_allargs(o::cmd &a) { return &a._all_args; }
void *dv_at_owner(o::cmd &a) { return &a._owner; }
bool dv_required(o::arg const &a) { return a.required(); }
void *dv_at_hitcount(o::bas &a) { return &a._hit_count; }
void dv_bas_copy(o::bas *to, o::bas const &from) { new (to) o::bas(from); }
void dv_arg_copy(o::arg *to, o::arg const &from) { new (to) o::arg(from); }
void dv_cmd_copy(o::cmd *to, o::cmd const &from) { new (to) o::cmd(from); }
void *dv_at_default(o::arg &a) { return &a._default; }
// C01
void dv_match_command(app::cmd_matching_result *r, PC &pc) { new (r) app::cmd_matching_result(app::matching_command(pc)); }
void *dv_at_matched_cmds(PC &p) { return &p._matched_commands; }
void *dv_at_pcroot(PC &p) { return &p._root; }
void *dv_at_title(PC &p) { return &p.title; }
void *dv_at_pos(PC &p) { return &p.pos; }
void *dv_at_long_commands(o::cmd &a) { return &a._long_commands; }
void *dv_at_short_commands(o::cmd &a) { return &a._short_commands; }
void *dv_at_hit_title(o::bas &a) { return &a._hit_title; }
bool dv_hit_long(o::bas const &a) { return a.hit_long(); }
bool dv_hit_special(o::bas const &a) { return a.hit_special(); }
bool dv_hit_env(o::bas const &a) { return a.hit_env(); }
void *dv_at_cmr_matched(app::cmd_matching_result &r) { return &r.matched; }
void *dv_at_cmr_obj(app::cmd_matching_result &r) { return &r.obj; }
// C02
void dv_match_on(app::arg_matching_result *r, PC &pc, bool l, bool s, MF const &f) { new (r) app::arg_matching_result(app::matching_flag_on(pc, l, s, f)); }
void dv_match_special(app::arg_matching_result *r, PC &pc) { new (r) app::arg_matching_result(app::matching_special_flag(pc)); }
void dv_match_long(app::arg_matching_result *r, PC &pc) { new (r) app::arg_matching_result(app::matching_long_flag(pc)); }
void dv_match_short(app::arg_matching_result *r, PC &pc) { new (r) app::arg_matching_result(app::matching_short_flag(pc)); }
void *dv_at_long_args(o::cmd &a) { return &a._long_args; }
void *dv_at_short_args(o::cmd &a) { return &a._short_args; }
void *dv_at_amr_matched(app::arg_matching_result &r) { return &r.matched; }
void *dv_at_amr_obj(app::arg_matching_result &r) { return &r.obj; }
void *dv_at_amr_len(app::arg_matching_result &r) { return &r.matched_length; }
void *dv_at_amr_str(app::arg_matching_result &r) { return &r.matched_str; }
using MM = std::function<app::arg_matching_result(PC &)>;
int dv_process_flag(app &a, PC &pc, int argc, char **argv, int lead, MM const &m) { return (int) a.process_flag(pc, argc, argv, lead, m); }
int dv_process_special(app &a, PC &pc, int argc, char **argv) { return (int) a.process_special_flag(pc, argc, argv); }
int dv_process_long(app &a, PC &pc, int argc, char **argv) { return (int) a.process_long_flag(pc, argc, argv); }
int dv_process_short(app &a, PC &pc, int argc, char **argv) { return (int) a.process_short_flag(pc, argc, argv); }
void *dv_at_matched_flags(PC &p) { return &p.matched_flags; }
void *dv_at_unknown_flags(PC &p) { return &p.unknown_flags; }
void *dv_at_mft(PC &p) { return &p.matching_flag_type; }
void *dv_at_amr_abort(app::arg_matching_result &r) { return &r.should_abort; }
// C03
void dv_remain(string_array *r, PC &pc, char **argv, int i, int argc) { new (r) string_array(app::remain_args(pc, argv, i, argc)); }
void dv_remain2(string_array *r, char **argv, int i, int argc) { new (r) string_array(app::remain_args(argv, i, argc)); }
void dv_add_remain(PC &pc, std::string const &s) { pc.add_remain_arg(s); }
int dv_process_command(app &a, PC &pc, int argc, char **argv) { return (int) a.process_command(pc, argc, argv); }
int dv_run(app &a, int argc, char **argv) { return a.app::run(argc, argv); }
void *dv_at_noncmds(PC &p) { return &p.non_commands; }
void *dv_at_index(PC &p) { return &p.index; }
// C04
void dv_add_arg(o::cmd &c, o::arg const &a) { c.add(a); }
void dv_add_cmd(o::cmd &c, o::cmd const &a) { c.add(a); }
void *dv_at_grouped_args(o::cmd &a) { return &a._grouped_args; }
void *dv_at_indexed_args(o::cmd &a) { return &a._indexed_args; }
void *dv_at_toggle_groups(o::cmd &a) { return &a._toggle_groups; }
void *dv_at_hit_toggle_groups(o::cmd &a) { return &a._hit_toggle_groups; }
void *dv_at_all_commands(o::cmd &a) { return &a._all_commands; }
void *dv_at_grouped_commands(o::cmd &a) { return &a._grouped_commands; }
void *dv_at_indexed_commands(o::cmd &a) { return &a._indexed_commands; }
void *dv_at_long(o::bas &a) { return &a._long; }
void *dv_at_short(o::bas &a) { return &a._short; }
void *dv_at_aliases(o::bas &a) { return &a._aliases; }
void *dv_at_group(o::bas &a) { return &a._group; }
void *dv_find_flag(o::cmd &c, char const *t, bool x) { return &c.find_flag(t, x); }
void const *dv_find_flag_c(o::cmd const &c, std::string const &t, bool x) { return c.find_flag(t, x); }
void *dv_find_cmd(o::cmd &c, char const *t, bool x) { return &c.find_command(t, x); }
void const *dv_find_cmd_c(o::cmd const &c, std::string const &t, bool x) { return c.find_command(t, x); }
void *dv_null_arg() { return &o::cmd::null_arg(); }
void *dv_index_flag(o::cmd &c, char const *t) { return &c.o::cmd::operator[](t); }
void *dv_index_cmd(o::cmd &c, char const *t, bool x) { return &c.o::cmd::operator()(t, x); }
void dv_group_name_arg(std::string *r, o::arg const &b) { new (r) std::string(b.o::arg::group_name()); }
void dv_group_name(std::string *r, o::bas const &b) { new (r) std::string(b.o::bas::group_name()); }
// C06
void dv_dotted_key(std::string *r, o::bas const &b) { new (r) std::string(b.dotted_key()); }
void dv_title_sequences(std::string *r, o::cmd const &b) { new (r) std::string(b.title_sequences()); }
// C07
void dv_on_arg_matched(app &a, o::arg *x, o::arg::var_type &v) { a.on_arg_matched(x, v); }
void dv_toggle_group_set(o::cmd &c, std::string const &k, o::arg *a) { c.toggle_group_set(k, a); }
void *dv_at_toggle_group(o::arg &a) { return &a._toggle_group; }
// C18
void dv_sort_cmds(std::multimap<std::string, std::string> *r, o::types::grouped_cmd_list const &g) { new (r) std::multimap<std::string, std::string>(o::detail::sort_keys(g)); }
void dv_sort_args(std::multimap<std::string, std::string> *r, o::types::grouped_arg_list const &g) { new (r) std::multimap<std::string, std::string>(o::detail::sort_keys(g)); }
void dv_print_cmds(o::cmd const &c, std::ostream &s, cmdr::terminal::colors::colorize &z, int &wt, bool hidden, int level) { c.print_commands(s, z, wt, true, hidden, false, level); }
void dv_print_args(o::cmd const &c, std::ostream &s, cmdr::terminal::colors::colorize &z, int &wt, bool hidden, int level) { c.print_flags(s, z, wt, true, hidden, false, level); }
bool dv_hidden(o::bas const &b) { return b.hidden(); }
void *dv_at_placeholder(o::arg &a) { return &a._placeholder; }
void *dv_at_width0(std::tuple<int, int, int, int, int> &t) { return &std::get<0>(t); }
void *dv_at_width1(std::tuple<int, int, int, int, int> &t) { return &std::get<1>(t); }
void *dv_at_width2(std::tuple<int, int, int, int, int> &t) { return &std::get<2>(t); }
void *dv_at_width3(std::tuple<int, int, int, int, int> &t) { return &std::get<3>(t); }
void *dv_at_width4(std::tuple<int, int, int, int, int> &t) { return &std::get<4>(t); }
void dv_populate_cmds(std::multimap<std::string, std::string> const &k, o::types::grouped_cmd_list const &g, bool h, int &wt) { o::detail::populate_tab_stop_width(k, g, h, wt); }
void dv_populate_args(std::multimap<std::string, std::string> const &k, o::types::grouped_arg_list const &g, bool h, int &wt) { o::detail::populate_tab_stop_width(k, g, h, wt); }
void dv_clean_group(std::string *r, std::string const &k, std::string const &g) { new (r) std::string(o::detail::clean_group_name(k, g)); }
void dv_title_long(std::string *r, std::string const &t, o::bas *x, cmdr::terminal::colors::colorize &c, int fg, bool dim, bool u, int &n, bool f) { new (r) std::string(o::detail::_out_title_long(t, x, c, (cmdr::terminal::colors::colorize::Colors256) fg, dim, u, n, f)); }
void dv_title_short(std::string *r, std::string const &t, o::bas *x, cmdr::terminal::colors::colorize &c, int fg, bool dim, bool u, int &n, bool f) { new (r) std::string(o::detail::_out_title_short(t, x, c, (cmdr::terminal::colors::colorize::Colors256) fg, dim, u, n, f)); }
void dv_out_desc(std::string *r, std::string const &d, cmdr::terminal::colors::colorize &c, int fg, bool dim, int tw, int wt) { new (r) std::string(o::detail::_out_desc(d, c, (cmdr::terminal::colors::colorize::Colors256) fg, dim, tw, wt)); }
void *dv_calc_cmd(bool h, o::types::cmd_pointers const &v, int *out) { auto [a, b, c, d, n] = o::detail::calc_widths(h, v); out[0] = a; out[1] = b; out[2] = c; out[3] = d; out[4] = n; return out; }
void *dv_calc_arg(bool h, o::types::arg_pointers const &v, int *out) { auto [a, b, c, d, n] = o::detail::calc_widths(h, v); out[0] = a; out[1] = b; out[2] = c; out[3] = d; out[4] = n; return out; }
}
