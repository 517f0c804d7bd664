#include "prelude.hh"
#include "cmdr11/cmdr_priority_queue.hh"
using Q = cmdr::queue::priority_queue<int, int>;
using R = cmdr::queue::priority_queue<int, int, cmdr::queue::comparer<int, int>, std::list<int>, true>;
extern "C" {
int dv_q_pop(Q &q) { return q.pop(); }
void dv_q_push(Q &q, int v) { q.push(v); }
void dv_q_push_back(Q &q, int const &v) { q.push_back(v); }
void dv_q_pop_front(Q &q) { q.pop_front(); }
unsigned long dv_q_size(Q const &q) { return q.size(); }
bool dv_q_empty(Q const &q) { return q.empty(); }
void dv_q_new(Q *q) { new (q) Q(); }
int dv_r_pop(R &q) { return q.pop(); }
void dv_r_push(R &q, int v) { q.push(v); }
void dv_r_push_back(R &q, int const &v) { q.push_back(v); }
void dv_r_pop_front(R &q) { q.pop_front(); }
unsigned long dv_r_size(R const &q) { return q.size(); }
bool dv_r_empty(R const &q) { return q.empty(); }
void dv_r_new(R *q) { new (q) R(); }
void *dv_q_at_root(Q &e) { return &e._root; }
void *dv_q_at_count(Q &e) { return &e._count; }
void *dv_q_at_list(Q::element &e) { return &e._list; }
void *dv_q_at_left(Q::element &e) { return &e._left; }
void *dv_q_at_right(Q::element &e) { return &e._right; }
void *dv_r_at_root(R &e) { return &e._root; }
void *dv_r_at_count(R &e) { return &e._count; }
void *dv_r_at_list(R::element &e) { return &e._list; }
void *dv_r_at_left(R::element &e) { return &e._left; }
void *dv_r_at_right(R::element &e) { return &e._right; }
}
