// Entry points of the typed option value (variable) of /repo.
#include "prelude.hh"
#include "cmdr11/cmdr_var_t.hh"
extern "C" {
bool dv_parse_bool(std::istream &is, bool &x) { return cmdr::vars::variable::parse_bool(is, x); }
}
