// Entry points of the string helpers of /repo (the real header is compiled; nothing is re-written here).
#include "prelude.hh"
#include "cmdr11/cmdr_string.hh"
#include <vector>
using S = std::string;
using V = std::vector<std::string>;
extern "C" {
bool dv_has_prefix_c(S const &s, char const *p) { return cmdr::string::has_prefix(s, p); }
bool dv_has_prefix_s(S const &s, S const &p) { return cmdr::string::has_prefix(s, p); }
bool dv_has_suffix_c(S const &s, char const *p) { return cmdr::string::has_suffix(s, p); }
bool dv_has_suffix_s(S const &s, S const &p) { return cmdr::string::has_suffix(s, p); }
void dv_strip(S &out, S const &s, char const *a, char const *b) { out = cmdr::string::strip(s, a, b); }
void dv_strip_quotes(S &out, S const &s) { out = cmdr::string::strip_quotes(s); }
void dv_trim_left(S &out, S const &s) { out = cmdr::string::trim_left(s); }
void dv_trim_right(S &out, S const &s) { out = cmdr::string::trim_right(s); }
void dv_trim(S &out, S const &s) { out = cmdr::string::trim(s); }
void dv_trim_left_space(S &s) { cmdr::string::trim_left_space(s); }
void dv_trim_right_space(S &s) { cmdr::string::trim_right_space(s); }
void dv_trim_left_space_r(S &out, S &s) { out = cmdr::string::trim_left_space(std::move(s)); }
void dv_trim_right_space_r(S &out, S &s) { out = cmdr::string::trim_right_space(std::move(s)); }
void dv_wrap_c(S &out, S const &s, char a, char b) { out = cmdr::string::wrap(s, a, b); }
void dv_wrap_p(S &out, S const &s, char const *a, char const *b) { out = cmdr::string::wrap(s, a, b); }
void dv_wrap_s(S &out, S const &s, S const &a, S const &b) { out = cmdr::string::wrap(s, a, b); }
void dv_quoted(S &out, S const &s) { out = cmdr::string::quoted(s); }
void dv_pad(S &s, unsigned long n, char c) { cmdr::string::pad(s, n, c); }
void dv_tokenize(V &out, S const &s) { out = cmdr::string::tokenize(s); }
void dv_tokenize_c(V &out, S const &s, char c) { out = cmdr::string::tokenize(s, c); }
void dv_split_c(V &out, S const &s, char c) { out = cmdr::string::split(s, c); }
void dv_split_s(V &out, S const &s, S const &d) { cmdr::string::split(s, d, std::back_inserter(out)); }
void dv_join_c(S &out, V const &v, char d, char b, char a) { out = cmdr::string::join(v, d, b, a); }
void dv_join_p(S &out, V const &v, char const *d, char const *b, char const *a) { out = cmdr::string::join(v, d, b, a); }
void dv_join_cc(S &out, std::vector<char const *> const &v, char d, char b, char a) { out = cmdr::string::join(v, d, b, a); }
void dv_join_cp(S &out, std::vector<char const *> const &v, char const *d, char const *b, char const *a) { out = cmdr::string::join(v, d, b, a); }
bool dv_replace(S &s, S const &a, S const &b) { return cmdr::string::replace(s, a, b); }
void dv_replace_all(S &s, S const &a, S const &b) { cmdr::string::replace_all(s, a, b); }
void dv_to_capitalize(S &out, S const &s) { out = cmdr::string::to_capitalize(s); }
void dv_itoa_i(int n, S &s) { cmdr::string::conv::itoa(n, s); }
void dv_itoa_u(unsigned n, S &s) { cmdr::string::conv::itoa(n, s); }
}
extern "C" {
// the measure as its users see it: calculate, then the recorded distance and the verdict
double dv_jaro(char const *a, char const *b, bool cs, bool append, double threshold, double *got, bool *matched) {
  cmdr::text::jaro_winkler_distance j(threshold, cs);
  double r = j.calc(a, b, append);
  *got = j.get_distance(); *matched = j.matched();
  return r;
}
}
extern "C" {
void dv_to_lower(S &s) { cmdr::string::to_lower(s); }
int dv_max(int a, int b) { return cmdr::cross::max(a, b); }
unsigned long dv_umax(unsigned long a, unsigned long b) { return cmdr::cross::max(a, b); }
int dv_min(int a, int b) { return cmdr::cross::min(a, b); }
}
