#include "prelude.hh"
#include <optional>
#include <string>
#include "cmdr11/cmdr_pool.hh"
using MQ = cmdr::pool::threaded_message_queue<std::string>;
extern "C" {
void dv_mq_put(MQ &q, std::string &&s) { q.emplace_back(std::move(s)); }
void dv_mq_take(std::optional<std::string> *out, MQ &q) { new (out) std::optional<std::string>(q.pop_front()); }
void dv_mq_clear(MQ &q) { q.clear(); }
bool dv_mq_empty(MQ const &q) { return q.empty(); }
void dv_mq_new(MQ *q) { new (q) MQ(); }
void *dv_mq_at_data(MQ &q) { return &q._data; }
void *dv_mq_at_abort(MQ &q) { return &q._abort; }
void *dv_mq_at_m(MQ &q) { return (void *) &q._m; }
void *dv_mq_at_cv(MQ &q) { return &q._cv; }
}
