"""C17: the thread-safe message queue (pool::threaded_message_queue): every critical section against a ghost copy of the state taken when the lock was acquired"""
import re
from unit import *
import models
AS = z3.ArraySort(I_SORT, S_SORT)
X = z3.String('x')                                        # an arbitrary message, whose occurrences are counted
CNTX = z3.Function('CNTM', AS, I_SORT, I_SORT)            # occurrences of x in a[0..n)
def is_x(v): return z3.If(v == X, 1, 0)
def l_step(a, n): return z3.And(CNTX(a, 0) == 0, z3.Implies(n >= 0, CNTX(a, n + 1) == CNTX(a, n) + is_x(z3.Select(a, n))))
def same(a, b, n): i = z3.Int('i'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(a, i) == z3.Select(b, i)))
def shifted(a, b, n): i = z3.Int('i'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(b, i) == z3.Select(a, i + 1)))
def l_same(a, b, n): return z3.Implies(z3.And(n >= 0, same(a, b, n)), CNTX(a, n) == CNTX(b, n))
def l_shift(a, b, n): return z3.Implies(z3.And(n >= 0, shifted(a, b, n)), CNTX(a, n + 1) == CNTX(b, n) + is_x(z3.Select(a, 0)))
def lemmas(c):
    e, st = c.e, c.st; a, b = z3.Const('a', AS), z3.Const('b', AS); n = z3.Int('n')
    def ind(name, f, defs):
        s0 = st.copy(); [s0.assume(d(z3.IntVal(0))) for d in defs]; e.oblige(s0, name + ' (base)', f(z3.IntVal(0)), 'lemma')
        s1 = st.copy(); s1.assume(n >= 0); [s1.assume(d(n)) for d in defs]; [s1.assume(d(n + 1)) for d in defs]; s1.assume(f(n)); e.oblige(s1, name + ' (step)', f(n + 1), 'lemma')
    ind('equal contents have equal counts', lambda k: l_same(a, b, k), [lambda k: l_step(a, k), lambda k: l_step(b, k)])
    ind('removing the first element', lambda k: l_shift(a, b, k), [lambda k: l_step(a, k), lambda k: l_step(b, k)])
    c.reached(st, 'lemma')
class MQ:
    def __init__(s, c, fresh_queue=False):
        s.c, s.e = c, c.e; e, st = c.e, c.st; s.q = e.newloc('queue'); s.g = e.newloc('snapshot')
        s.at = {f: s.offset(f) for f in ('data', 'abort', 'm', 'cv')}
        s.data, s.ab, s.m, s.cv = (Ptr(s.q.b, s.at[f]) for f in ('data', 'abort', 'm', 'cv'))
        s.lo, s.hi = {s.data.off: 'messages', s.ab.off: 'abort flag'}, None
        s.sect = 0
        if fresh_queue: return
        s.havoc(st); e.guard = s.guard; e.on_acquire = lambda st, m: s.acquired(st, m)
        e.contracts.append((re.compile(r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)'), s.wait))
        e.loopcands.append(lambda ls: [('the state is the one the lock was acquired with', s.unchanged(ls.st)), ('length', s.peek(ls.st, s.g)[0] >= 0), ('flag', z3.And(s.peek(ls.st, s.g)[2] >= 0, s.peek(ls.st, s.g)[2] <= 1))])
    def offset(s, f):
        (st, o), = s.e.run(s.c.st.copy(), 'dv_mq_at_' + f, [s.q]); return o[1].off
    def guard(s, st, p, cell, write):
        if p.b.id != s.q.b.id or p.off not in s.lo or getattr(s, 'peeking', 0): return
        if s.m.key() not in models.held(s.e, st): s.e.oblige(st, 'the %s only touched while the lock is held' % s.lo[p.off], False, 'lock')
        if write and s.e.gget(st, 'notified', 0): s.e.gset(st, 'notified', 0)
    def peek(s, st, b):
        s.peeking = 1
        try:
            n = toi(s.e.rd(st, b if b is s.data else Ptr(s.g.b, 0), 'len', I_SORT)); a = s.e.rd(st, b if b is s.data else Ptr(s.g.b, 0), 'e.str', AS)
            f = s.e.load(st, ir.INT(8), s.ab if b is s.data else Ptr(s.g.b, 500)); return n, a, toi(f.u())
        finally: s.peeking = 0
    def havoc(s, st):
        """another thread may have done anything that keeps the representation valid"""
        n, a, f = fresh('len', I_SORT), fresh('messages', AS), fresh('aborted', I_SORT); st.assume(z3.And(n >= 0, n < (1 << 62), f >= 0, f <= 1)); s.peeking = 1
        for p, q in ((s.data, s.ab), (Ptr(s.g.b, 0), Ptr(s.g.b, 500))):
            s.e.wr(st, p, 'len', I_SORT, n); s.e.wr(st, p, 'e.str', AS, a); s.e.store(st, ir.INT(8), I(f, 8, 0, 1), q)
        s.peeking = 0
    def unchanged(s, st):
        x, y = s.peek(st, s.data), s.peek(st, s.g); return z3.And(*[p == q for p, q in zip(x, y)])
    def acquired(s, st, m):
        if m.key() != s.m.key(): return
        k = s.e.gget(st, 'sections', 0); s.e.gset(st, 'sections', k + 1)
        s.e.oblige(st, 'one critical section (the call is atomic)', k == 0, 'lock')
        s.havoc(st)
    def wait(s, e, st, c):
        lk = e.load(st, ir.PTR, c.args[1]); e.oblige(st, 'waiting with the queue lock', lk.key() == s.m.key() and s.m.key() in models.held(e, st), 'lock')
        e.oblige(st, 'waiting on the variable that is notified', c.args[0].key() == s.cv.key(), 'lock')
        e.oblige(st, 'nothing changed before the wait', s.unchanged(st), 'lock')
        # released while waiting: the wait must only happen when there is nothing to take and no abort, or it would sleep through it
        n, a, f = s.peek(st, s.data); e.oblige(st, 'sleeps only when there is nothing to take', z3.And(n == 0, f == 0), 'lock')
        s.havoc(st); return [(st, ('ret', None))]
    def done(s, outs):
        e = s.e
        for st, o in outs:
            if o[0] != 'ret': e.oblige(st, 'throws', False); continue
            s.c.reached(st, 'return'); e.oblige(st, 'the lock is released', not models.held(e, st), 'lock')
            x, y = s.peek(st, s.data), s.peek(st, s.g)
            for a, n in ((x[1], x[0]), (y[1], y[0])):
                for k in (n, n - 1, z3.IntVal(0)): st.assume(l_step(a, k))
            for k in (x[0], y[0]): st.assume(l_same(x[1], y[1], k)); st.assume(l_shift(y[1], x[1], k)); st.assume(l_shift(x[1], y[1], k))
            yield st, o[1], x, y
def put(c):
    Q = MQ(c); e = c.e; p, t = c.text('message')
    for st, r, (n1, a1, f1), (n0, a0, f0) in Q.done(c.call([Q.q, p])):
        e.oblige(st, 'exactly one message more', n1 == n0 + 1); e.oblige(st, 'exactly the given message is added', CNTX(a1, n1) == CNTX(a0, n0) + is_x(t)); e.oblige(st, 'does not abort', f1 == f0)
        e.oblige(st, 'wakes a waiting take, after adding', e.gget(st, 'notified', 0) >= 1)
def take(c):
    Q = MQ(c); e = c.e; out = e.newloc('taken')
    for st, r, (n1, a1, f1), (n0, a0, f0) in Q.done(c.call([out, Q.q])):
        has = tob(e.rd(st, out, 'opt', B_SORT)); t = e.rdstr(st, out)
        e.oblige(st, 'reports none exactly when the queue was cleared', has == (f0 == 0)); e.oblige(st, 'abort flag', f1 == f0)
        e.oblige(st, 'nothing taken: nothing removed', z3.Implies(z3.Not(has), z3.And(n1 == n0, CNTX(a1, n1) == CNTX(a0, n0))))
        e.oblige(st, 'exactly the returned message is removed', z3.Implies(has, z3.And(n0 > 0, n1 == n0 - 1, CNTX(a1, n1) == CNTX(a0, n0) - is_x(t))))
def clear(c):
    Q = MQ(c); e = c.e
    for st, r, (n1, a1, f1), (n0, a0, f0) in Q.done(c.call([Q.q])):
        e.oblige(st, 'empties the queue', n1 == 0); e.oblige(st, 'later takes report none', f1 == 1); e.oblige(st, 'wakes every waiting take, after clearing', e.gget(st, 'notified', 0) >= 2)
def empty(c):
    Q = MQ(c); e = c.e
    for st, r, (n1, a1, f1), (n0, a0, f0) in Q.done(c.call([Q.q])):
        e.oblige(st, 'true exactly when there is no message', tob(r) == (n0 == 0)); e.oblige(st, 'changes nothing', z3.And(n1 == n0, a1 == a0, f1 == f0))
def new(c):
    Q = MQ(c, True); e = c.e
    for st, o in c.call([Q.q]):
        if o[0] != 'ret': e.oblige(st, 'throws', False); continue
        c.reached(st, 'return'); e.oblige(st, 'a new queue is empty', toi(e.rd(st, Q.data, 'len', I_SORT)) == 0); e.oblige(st, 'a new queue is not aborted', toi(e.load(st, ir.INT(8), Q.ab).u()) == 0)
def units():
    return [Unit('counting lemmas', 'pool', 'dv_mq_put', lemmas), Unit('emplace_back', 'pool', 'dv_mq_put', put), Unit('pop_front', 'pool', 'dv_mq_take', take), Unit('clear', 'pool', 'dv_mq_clear', clear),
            Unit('empty', 'pool', 'dv_mq_empty', empty), Unit('new queue', 'pool', 'dv_mq_new', new)]
HARNESS = 'c17'
HSECS = 20
NOTE = 'proof for every history: each operation is one critical section, its effect stated against the (arbitrary) state found when the lock was acquired, so any interleaving of calls is a sequence of these effects; lock discipline and notify-after-change are obligations; the wait loop by invariant'
ASSUME = ['std::mutex gives mutual exclusion, condition_variable::wait releases and re-acquires the lock it is given, notify wakes a waiting thread (scheduling fairness is not modelled)', 'instantiation with std::string messages stands for every message type', 'a message leaves the queue state only through the operations under contract (the fields are private)']
