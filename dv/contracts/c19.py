"""C19: observers, bound callbacks and signals (util::observable, observable_bindable, signal)"""
import re
from unit import *
import models
AI = z3.ArraySort(I_SORT, I_SORT)
POS = z3.Function('POS', I_SORT, I_SORT)        # how many of the first i subscribers are called / kept (per unit: its definition is stated there)
def posdef(n, called):
    i = z3.Int('i'); return z3.And(POS(0) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), POS(i + 1) == POS(i) + z3.If(called(i), 1, 0)), patterns=[POS(i + 1)]))
class Sub:
    """a list of subscribers (observers or callbacks) at a field of the object; with `m` guarded by that mutex"""
    def __init__(s, c, field, m=None):
        s.c, s.e = c, c.e; e, st = c.e, c.st; s.o = e.newloc('subject'); s.g = e.newloc('snapshot'); s.tr = e.newloc('trace')
        s.lst = Ptr(s.o.b, s.offset(field)); s.m = Ptr(s.o.b, s.offset(m)) if m else None; s.peeking = 0
        s.havoc(st); e.store(st, ir.INT(64), I(0, 64), s.tr)
        if m: e.guard = s.guard; e.on_acquire = lambda st, p: s.havoc(st) if p.key() == s.m.key() and not s.first(st) else None
        e.loopcands.append(s.cand)
    def offset(s, f):
        (st, o), = s.e.run(s.c.st.copy(), f, [s.o]); return o[1].off
    def first(s, st):
        k = s.e.gget(st, 'sections', 0); s.e.gset(st, 'sections', k + 1)
        if k: s.e.oblige(st, 'one critical section (the call is atomic)', False, 'lock')
        return False
    def guard(s, st, p, cell, write):
        if p.b.id == s.o.b.id and p.off == s.lst.off and not s.peeking and s.m.key() not in models.held(s.e, st): s.e.oblige(st, 'the list of observers only touched while the lock is held', False, 'lock')
    def at(s, st, p):
        s.peeking = 1
        try: return toi(s.e.rd(st, p, 'len', I_SORT)), s.e.rd(st, p, 'e.ptr', AI)
        finally: s.peeking = 0
    def havoc(s, st):
        n, a = fresh('subscribers', I_SORT), fresh('list', AI); i = z3.Int('i'); st.assume(z3.And(n >= 0, n < (1 << 62))); st.assume(z3.ForAll([i], z3.Select(a, i) >= 0, patterns=[z3.Select(a, i)])); s.peeking = 1; s.n0, s.a0 = n, a
        for p in (s.lst, s.g): s.e.wr(st, p, 'len', I_SORT, n); s.e.wr(st, p, 'e.ptr', AI, a)
        s.peeking = 0
    # the calls made so far
    def trace(s, st): return toi(s.e.load(st, ir.INT(64), s.tr).u()), s.e.rd(st, Ptr(s.tr.b, 8), 'e.ptr', AI)
    def record(s, st, who):
        n, a = s.trace(st); s.e.store(st, ir.INT(64), I(n + 1, 64, 0, (1 << 64) - 1), s.tr); s.e.wr(st, Ptr(s.tr.b, 8), 'e.ptr', AI, z3.Store(a, n, who))
    def sofar(s, st, i):
        """exactly the called ones of the first i subscribers were called, in order"""
        tn, t = s.trace(st); j = z3.Int('j')
        return z3.And(tn == POS(i), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, s.called(j)), z3.And(POS(j) >= 0, POS(j) < tn, z3.Select(t, POS(j)) == z3.Select(s.a0, j))), patterns=[POS(j)]))
    called = None
    def cand(s, ls):
        if s.called is None: return []
        r = [('calls are counted', s.trace(ls.st)[0] >= 0)]
        for nm, p, _ in ls.ptrs():
            if p.b.kind == 'elem' and p.b.c.key() == s.lst.key(): i = toi(p.b.idx); r += [('position', z3.And(i >= 0, i <= s.n0)), ('calls so far', s.sofar(ls.st, i))]
        for nm, x, _ in ls.ints(): i = toi(x.u()); r += [('index', z3.And(i >= 0, i <= s.n0)), ('calls so far by index', s.sofar(ls.st, i))]
        return r
    def done(s, outs):
        e = s.e
        for st, o in outs:
            if o[0] != 'ret': e.oblige(st, 'throws', False); continue
            s.c.reached(st, 'return'); e.oblige(st, 'the lock is released', not models.held(e, st), 'lock'); yield st, s.at(st, s.lst), s.at(st, s.g)
    def kept(s, st, n, a, n0, a0):
        i = z3.Int('i'); s.e.oblige(st, 'the others stay subscribed, in their order', z3.And(n >= n0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), z3.Select(a, i) == z3.Select(a0, i)))))
M = lambda k: 'dv_%s_at_m' % k if k[0] == '1' else None
def add(k, fn):
    def go(c):
        S = Sub(c, 'dv_%s_at_observers' % k, M(k)); e = c.e; p = e.newloc('given'); r = z3.Int('observer'); c.st.assume(r > 0); e.store(c.st, ir.PTR, Ptr(Ref(r)), p)
        for st, (n, a), (n0, a0) in S.done(c.call([S.o, p], fn=fn)):
            e.oblige(st, 'one subscription more', n == n0 + 1); e.oblige(st, 'the observer is subscribed last', z3.Select(a, n0) == r); S.kept(st, n, a, n0, a0)
            e.oblige(st, 'no observer is called', S.trace(st)[0] == 0)
    return go
def remove(k, fn, shared):
    def go(c):
        S = Sub(c, 'dv_%s_at_observers' % k, M(k)); e = c.e; r = z3.Int('observer'); c.st.assume(z3.And(r > 0, models.ALIVE(r))); p = Ptr(Ref(r))
        if shared: q = e.newloc('given'); e.store(c.st, ir.PTR, p, q); p = q
        def keep(a): return lambda i: z3.Select(a, i) != r
        def remove_if(e, st, c2):
            f, l = c2.args[0], c2.args[1]
            if f.b.kind != 'elem' or l.b.kind != 'elem' or f.b.c.key() != l.b.c.key(): raise Unsupported('remove_if')
            v = f.b.c; n, a = S.at(st, v) if v.key() == S.lst.key() else (toi(models.vlen(e, st, v)), e.rd(st, v, 'e.ptr', AI))
            e.oblige(st, 'the whole list is searched', z3.And(toi(f.b.idx) == 0, toi(l.b.idx) == n), 'pre')
            # the predicate on an arbitrary element must be the one of the specification
            j = fresh('j', I_SORT); s1 = st.copy(); s1.assume(z3.And(0 <= j, j < n)); slot = Ptr(Elem(v, j, TPTR, 8))
            q = [x for x in e.m.findre(r'remove_observer\(.*\)::\{lambda\(.*\)#\d+\}::operator\(\)') if vexec.demparse(e.m.dem(x))]
            lam = models.lambda_param(c2)
            q = [x for x in q if e.m.dem(x).startswith(lam)] if lam else q
            if not q: raise Unsupported('predicate not found')
            clos = e.newloc('closure'); e.store(s1, ir.PTR, c2.args[2] if isinstance(c2.args[2], Ptr) and c2.args[2].b.kind == 'ref' else e.load(st, ir.PTR, c2.args[2]), clos)
            for s2, o in e.run(s1, q[0], [clos, slot], c2.depth + 1):
                if o[0] != 'ret': e.oblige(s2, 'the predicate throws', False); continue
                b = o[1]; e.oblige(s2, 'drops exactly the given observer', tob(b) == (z3.Select(a, j) == r) if not isinstance(b, I) else (toi(b.u()) != 0) == (z3.Select(a, j) == r))
            na = fresh('kept', AI); i = z3.Int('i'); st.assume(posdef(n, keep(a))); st.assume(z3.And(POS(n) >= 0, POS(n) <= n))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, keep(a)(i)), z3.Select(na, POS(i)) == z3.Select(a, i)), patterns=[POS(i)]))
            e.wr(st, v, 'e.ptr', AI, na); return [(st, ('ret', Ptr(Elem(v, POS(n), TPTR, 8))))]
        e.contracts.append((re.compile(r'\bstd::remove_if<'), remove_if))
        for st, (n, a), (n0, a0) in S.done(c.call([S.o, p], fn=fn)):
            i = z3.Int('i'); e.oblige(st, 'only the subscriptions of the given observer are dropped', n == POS(n0))
            e.oblige(st, 'the others stay subscribed, in their order', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0, z3.Select(a0, i) != r), z3.Select(a, POS(i)) == z3.Select(a0, i))))
            e.oblige(st, 'no observer is called', S.trace(st)[0] == 0)
    return go
def emit(k):
    def go(c):
        S = Sub(c, 'dv_%s_at_observers' % k, M(k)); e = c.e; v, vt = c.int('event', 32, signed=True); p = e.newloc('event'); e.store(c.st, ir.INT(32), v, p)
        S.called = lambda i: z3.And(z3.Select(S.a0, i) != 0, models.ALIVE(z3.Select(S.a0, i)))
        def call(e, st, c2, f):
            if len(c2.args) != 2: return None
            who = toi(e.as_ref(c2.args[0])); want = e.load(st, ir.PTR, Ptr(e.load(st, ir.PTR, c2.args[0]).b, 16))
            if want.key() != f.key(): return None
            e.oblige(st, 'called with the emitted event', toi(e.load(st, ir.INT(32), c2.args[1]).s()) == vt); S.record(st, who); return [(st, ('ret', None))]
        e.indirect = call; x = z3.Int('x'); vtab = toi(e.rd(c.st, Ptr(Ref(x)), 'ptr', I_SORT)); c.st.assume(z3.ForAll([x], z3.Implies(models.ALIVE(x), vtab > 0), patterns=[models.ALIVE(x)]))   # a live object has its vtable
        hav = S.havoc
        def havoc(st): hav(st); st.assume(posdef(S.n0, S.called))
        S.havoc = havoc
        if not S.m: c.st.assume(posdef(S.n0, S.called))
        for st, (n, a), (n0, a0) in S.done(c.call([S.o, p], fn='dv_%s_emit' % k)):
            e.oblige(st, 'each live subscribed observer is called exactly once, in order', S.sofar(st, n0)); e.oblige(st, 'the subscriptions stay', z3.And(n == n0, a == a0))
    return go
def connect(fld, fn, cb):
    def go(c):
        S = Sub(c, fld); e = c.e; tok = z3.Int('callback')
        def bind(e, st, c2):
            fs = [x for x in c2.args if isinstance(x, Ptr) and x.b.kind == 'fn']; e.oblige(st, 'binds the given callback', len(fs) == 1 and cb in fs[0].b.name, 'pre')
            e.gset(st, 'bound', 1); return [(st, ('ret', fs[0] if c2.rty.k == 'ptr' else None))]
        def fctor(e, st, c2):
            if len(c2.args) < 2: return None
            if re.match(r'std::function<', c2.q[3]): e.store(st, ir.PTR, e.load(st, ir.PTR, c2.args[1]), c2.args[0])
            else: e.oblige(st, 'stores the bound callback', bool(e.gget(st, 'bound', 0)), 'pre'); e.store(st, ir.PTR, Ptr(Ref(tok)), c2.args[0])
            return [(st, ('ret', None))]
        c.st.assume(tok > 0)
        e.contracts += [(re.compile(r'\bstd::bind<|cool::bind_tie<'), bind), (re.compile(r'^std::function<.*>::function'), fctor)]
        for st, (n, a), (n0, a0) in S.done(c.call([S.o], fn=fn)):
            e.oblige(st, 'one subscription more', n == n0 + 1); e.oblige(st, 'the callback is subscribed last', z3.Select(a, n0) == tok); S.kept(st, n, a, n0, a0)
    return go
def fire(fld, fn, args):
    def go(c):
        S = Sub(c, fld); e = c.e; S.called = lambda i: z3.BoolVal(True); c.st.assume(posdef(S.n0, S.called)); vals, ptrs = [], []
        for k in args:
            if k == 'int': v, t = c.int('number', 32, signed=True); p = e.newloc('number'); e.store(c.st, ir.INT(32), v, p); vals.append(t); ptrs.append(p)
            else: p, t = c.text('text'); vals.append(t); ptrs.append(p)
        def call(e, st, c2):
            for p, k, t in zip(c2.args[1:], args, vals):
                got = toi(e.load(st, ir.INT(32), p).s()) if k == 'int' else e.rdstr(st, p)
                e.oblige(st, 'called with the emitted values', got == t)
                if '&&' in c2.q[2][0] and k != 'int': e.wrstr(st, p, fresh('moved', S_SORT))     # a callback may move its values away
            S.record(st, toi(e.as_ref(e.load(st, ir.PTR, c2.args[0])))); return [(st, ('ret', None))]
        e.contracts.append((re.compile(r'^std::function<.*>::operator\(\)'), call))
        for st, (n, a), (n0, a0) in S.done(c.call([S.o] + ptrs, fn=fn)):
            e.oblige(st, 'each callback is called exactly once, in order', S.sofar(st, n0)); e.oblige(st, 'the subscriptions stay', z3.And(n == n0, a == a0))
    return go
KIND = {'11': ' (locked, copy and swap)', '10': ' (locked)', '00': ' (unlocked)'}
def units():
    r = []
    for k in ('11', '10', '00'):
        for x in ('addw', 'adds', 'pluss', 'plusw', 'plus2'): r.append(Unit('observable: subscribe, %s%s' % (x, KIND[k]), 'observers', 'dv_%s_%s' % (k, x), add(k, 'dv_%s_%s' % (k, x))))
        for x in ('removes', 'removep', 'minuss', 'minus2'): r.append(Unit('observable: unsubscribe, %s%s' % (x, KIND[k]), 'observers', 'dv_%s_%s' % (k, x), remove(k, 'dv_%s_%s' % (k, x), x in ('removes', 'minuss'))))
        r.append(Unit('observable: emit' + KIND[k], 'observers', 'dv_%s_emit' % k, emit(k)))
    for x, cb, fld in (('b_add', 'cb', 'dv_b_at_callbacks'), ('b_on', 'cb', 'dv_b_at_callbacks'), ('s_connect', 'cb2', 'dv_s_at_callbacks'), ('s_on', 'cb2', 'dv_s_at_callbacks')):
        r.append(Unit(('bindable: ' if x[0] == 'b' else 'signal: ') + x[2:], 'observers', 'dv_' + x, connect(fld, 'dv_' + x, cb)))
    r += [Unit('bindable: emit', 'observers', 'dv_b_emit', fire('dv_b_at_callbacks', 'dv_b_emit', ['int'])), Unit('signal: emit', 'observers', 'dv_s_emit', fire('dv_s_at_callbacks', 'dv_s_emit', ['int', 'str']))]
    return r
HARNESS = 'c19'
HSECS = 20
NOTE = 'Every function of the three classes is executed symbolically from the IR of /repo for an arbitrary list of any length (all three locking variants of observable). Subscribing: the list afterwards is the list before with the one given observer (or the callback made by binding the given function) at the end. Unsubscribing: what remains is the old list, in order, without the entries of the given observer (erase/remove_if with the predicate of the code evaluated on an arbitrary entry). Emitting: a trace of calls is kept as ghost state; the loop invariant and postcondition say that the trace is exactly the sequence of the live entries, in order, each with the emitted value. For the locked variants the list may only be touched while the mutex is held, in one critical section, and on entry to it the list is arbitrary (rely), which makes every call atomic with respect to concurrent subscriptions.'
ASSUME = ['std::vector (copy, swap, emplace_back, erase, iteration), std::remove_if (its standard postcondition: keeps, in order, the elements not satisfying the predicate), std::mutex, std::weak_ptr/shared_ptr as modelled in dv/models.py; a live object has a vtable', 'which weak_ptrs are alive does not change during one emit (an observer dying at the same time may or may not be called)', 'callbacks and observers do not change the list while it is being emitted (re-entrant subscription is not covered)', 'std::bind / cool::bind_tie produce a callable that calls the given function (checked by the replay harness on the real binary, not proved); sequentially consistent interleaving of critical sections']
