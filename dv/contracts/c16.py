"""C16: the priority queue (queue::priority_queue), a tree of lists; each child is known by its contract only"""
import re
from unit import *
import models
AI = z3.ArraySort(I_SORT, I_SORT)
K = z3.Function('rank', I_SORT, I_SORT)                  # the comparer is a strict weak order: sign(cmp(a, b)) = sign(rank a - rank b)
X = z3.Int('x')                                          # an arbitrary value, whose occurrences are counted
CNTX = z3.Function('CNTX', AI, I_SORT, I_SORT)           # occurrences of x in a[0..n)
def is_x(v): return z3.If(v == X, 1, 0)
def l_step(a, n): return z3.And(CNTX(a, 0) == 0, z3.Implies(n >= 0, CNTX(a, n + 1) == CNTX(a, n) + is_x(z3.Select(a, n))))
def same(a, b, n): i = z3.Int('i'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(a, i) == z3.Select(b, i)))
def shifted(a, b, n): i = z3.Int('i'); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(b, i) == z3.Select(a, i + 1)))
def l_same(a, b, n): return z3.Implies(z3.And(n >= 0, same(a, b, n)), CNTX(a, n) == CNTX(b, n))
def l_shift(a, b, n): return z3.Implies(z3.And(n >= 0, shifted(a, b, n)), CNTX(a, n + 1) == CNTX(b, n) + is_x(z3.Select(a, 0)))
def l_bound(a, n): return z3.Implies(n >= 0, z3.And(CNTX(a, n) >= 0, CNTX(a, n) <= n))
def lemmas(c):
    e, st = c.e, c.st; a, b = z3.Const('a', AI), z3.Const('b', AI); n = z3.Int('n')
    def ind(name, f, defs):
        s0 = st.copy(); [s0.assume(d(z3.IntVal(0))) for d in defs]; e.oblige(s0, name + ' (base)', f(z3.IntVal(0)), 'lemma')
        s1 = st.copy(); s1.assume(n >= 0); [s1.assume(d(n)) for d in defs]; [s1.assume(d(n + 1)) for d in defs]; s1.assume(f(n)); e.oblige(s1, name + ' (step)', f(n + 1), 'lemma')
    ind('equal contents have equal counts', lambda k: l_same(a, b, k), [lambda k: l_step(a, k), lambda k: l_step(b, k)])
    ind('removing the first element', lambda k: l_shift(a, b, k), [lambda k: l_step(a, k), lambda k: l_step(b, k)])
    ind('counts are between 0 and the length', lambda k: l_bound(a, k), [lambda k: l_step(a, k)])
    c.reached(st, 'lemma')
G = ('n', 'c', 'mn', 'mx')
class Node:
    """abstract value of an element: size, occurrences of x, lowest and highest rank"""
    def __init__(s, n, c, mn, mx): s.n, s.c, s.mn, s.mx = n, c, mn, mx
    def ok(s): return z3.And(s.n >= 0, s.c >= 0, s.c <= s.n, z3.Implies(s.n > 0, s.mn <= s.mx))
def ghost(e, st, r):
    """value of a child that is known by its contract only (a null child is empty)"""
    v = Node(*[e.rd(st, Ptr(Ref(r)), 'g.' + g, I_SORT) for g in G]); z = toi(r) == 0
    return Node(z3.If(z, 0, v.n), z3.If(z, 0, v.c), v.mn, v.mx)
def setghost(e, st, r, v):
    for g, t in zip(G, (v.n, v.c, v.mn, v.mx)): e.wr(st, Ptr(Ref(r)), 'g.' + g, I_SORT, t)
class Tree:
    def __init__(s, c, rev):
        s.c, s.e, s.rev = c, c.e, rev; s.cls = r'cmdr::queue::priority_queue<int, int, .*, %s>' % ('true' if rev else 'false')
        x = 'r' if rev else 'q'; s.at = {f: s.offset('dv_%s_at_%s' % (x, f)) for f in ('root', 'count', 'list', 'left', 'right')}; e = s.e
        e.contracts += [(re.compile(r'^std::function<int ?\(int const&, int const&\)>::operator\(\)'), s.compare), (re.compile(r'std::make_shared<'), s.made)]
    def offset(s, fn):
        (st, o), = s.e.run(s.c.st.copy(), fn, [Ptr(Ref(z3.Int('any')))]); return o[1].off
    def compare(s, e, st, c):
        a, b = (e.load(st, ir.INT(32), p).canon() for p in c.args[1:3]); r = fresh('compared', I_SORT); a, b = toi(a), toi(b)
        st.assume(z3.And(r >= -(1 << 31), r < (1 << 31), (r < 0) == (K(a) < K(b)), (r > 0) == (K(a) > K(b))))
        return [(st, ('ret', I(r, 32, -(1 << 31), (1 << 31) - 1)))]
    def made(s, e, st, c):
        outs = models.REG[('std', 'make_shared')](e, st, c)
        for s2, o in outs:
            if o[0] != 'ret': continue
            p = e.load(s2, ir.PTR, c.args[0]); v, ok = s.value(s2, p); setghost(e, s2, p.b.t, v)
            e.oblige(s2, 'a new element is in order', ok)
        return outs
    def parts(s, st, p):
        e = s.e; f = lambda o: Ptr(p.b, p.off + o)
        n = toi(models.vlen(e, st, f(s.at['list']))); a = e.rd(st, f(s.at['list']), 'e.i32', AI)
        l, r = toi(e.as_ref(e.load(st, ir.PTR, f(s.at['left'])))), toi(e.as_ref(e.load(st, ir.PTR, f(s.at['right']))))
        return n, a, l, r
    def value(s, st, p):
        """(abstract value, its order invariant) of the element at p, from its fields and its children's values"""
        e = s.e; n, a, l, r = s.parts(st, p)
        vl, vr = ghost(e, st, l), ghost(e, st, r); i = z3.Int('i'); k = K(z3.Select(a, 0))
        for x in (n, z3.IntVal(0)): st.assume(l_step(a, x)); st.assume(l_bound(a, x))
        inv = z3.And(vl.ok(), vr.ok(), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), K(z3.Select(a, i)) == k), patterns=[z3.Select(a, i)] if z3.is_const(a) or z3.is_select(a) and z3.is_const(a.arg(0)) and z3.is_const(a.arg(1)) else []),
              z3.Implies(n > 0, z3.And(z3.Implies(vl.n > 0, vl.mx < k), z3.Implies(vr.n > 0, vr.mn > k))),
              z3.Implies(n == 0, (vl if s.rev else vr).n == 0))
        v = Node(n + vl.n + vr.n, CNTX(a, n) + vl.c + vr.c, z3.If(vl.n > 0, vl.mn, z3.If(n > 0, k, vr.mn)), z3.If(vr.n > 0, vr.mx, z3.If(n > 0, k, vl.mx)))
        return v, inv
    def relate(s, st, p, old):
        """counting facts between the list at p now and before"""
        a1, n1 = s.parts(st, p)[1], s.parts(st, p)[0]
        a0, n0 = old
        for f in (l_step(a0, n0), l_step(a0, n0 - 1), l_step(a1, n1), l_step(a1, n1 - 1), l_bound(a0, n0), l_bound(a1, n1), l_same(a0, a1, n0), l_same(a0, a1, n1), l_shift(a0, a1, n1), l_shift(a1, a0, n0)): st.assume(f)
    # contracts used for calls
    def pop_contract(s, e, st, c):
        p, cnt = c.args; r = toi(e.as_ref(p)); v = ghost(e, st, r)
        e.oblige(st, 'popping an element that exists', r != 0, 'pre')
        n0 = toi(e.load(st, ir.INT(64), cnt).u()); outs = []
        s1 = st.copy(); s1.assume(v.n == 0)
        if e.feasible(s1): outs.append((s1, ('ret', s.null(s1))))
        s2 = st.copy(); s2.assume(v.n > 0)
        if e.feasible(s2):
            t = fresh('popped', I_SORT); w = Node(v.n - 1, v.c - is_x(t), fresh('mn', I_SORT), fresh('mx', I_SORT))
            s2.assume(z3.And(t >= -(1 << 31), t < (1 << 31), K(t) == (v.mn if s.rev else v.mx), w.ok(), z3.Implies(w.n > 0, z3.And(w.mn >= v.mn, w.mx <= v.mx))))
            setghost(e, s2, r, w); e.oblige(s2, 'popping counts an element that is counted', n0 > 0, 'pre'); e.store(s2, ir.INT(64), I(n0 - 1, 64, 0, (1 << 64) - 1), cnt)
            outs.append((s2, ('ret', I(t, 32, -(1 << 31), (1 << 31) - 1))))
        return outs
    def null(s, st):
        n = [g for g in s.e.m.globals if '_null' in g and s.tag() in s.e.m.dem(g)] if hasattr(s.e.m, 'globals') else []
        return s.e.load(st, ir.INT(32), s.e.gptr(st, n[0])) if n else I(fresh('null', I_SORT), 32)
    def tag(s): return ', %s>::element::_null' % ('true' if s.rev else 'false')
    def push_contract(s, e, st, c):
        q, at, d = c.args; p = e.load(st, ir.PTR, at); r = toi(e.as_ref(p)); d = toi(d.canon())
        e.oblige(st, 'pushing below an element that exists', r != 0, 'pre')
        v = ghost(e, st, r); w = Node(v.n + 1, v.c + is_x(d), z3.If(z3.And(v.n > 0, v.mn < K(d)), v.mn, K(d)), z3.If(z3.And(v.n > 0, v.mx > K(d)), v.mx, K(d)))
        st.assume(v.ok())
        r2 = fresh('at', I_SORT); st.assume(r2 > 0)
        for o in s.own: st.assume(r2 != o)
        s.own.append(r2); setghost(e, st, r2, w); e.store(st, ir.PTR, Ptr(Ref(r2)), at)
        return [(st, ('ret', None))]
def pop(rev):
    def go(c):
        e, st = c.e, c.st; T = Tree(c, rev); t = z3.Int('this'); st.assume(t > 0); p = Ptr(Ref(t))
        v, inv = T.value(st, p); st.assume(inv); n0, a0, l0, r0 = T.parts(st, p); st.assume(z3.And(l0 >= 0, r0 >= 0, l0 != t, r0 != t, z3.Or(l0 == 0, l0 != r0)))
        cnt = e.newloc('count'); c0 = z3.Int('count'); st.assume(z3.And(c0 >= v.n, c0 < (1 << 63))); e.store(st, ir.INT(64), I(c0, 64, 0, (1 << 63) - 1), cnt)
        e.contracts.append((re.compile(T.cls + r'::element::pop\('), T.pop_contract))
        for nm, x in (('elements', v.n), ('list length', n0), ('left', ghost(e, st, l0).n), ('right', ghost(e, st, r0).n), ('first of the list', z3.Select(a0, 0))): c.inputs[nm] = x
        outs = c.call([p, cnt], fn=T.cls + r'::element::pop\(')
        for st, o in outs:
            if o[0] != 'ret': e.oblige(st, 'pop throws', False); continue
            c.reached(st, 'return'); T.relate(st, p, (a0, n0)); w, inv2 = T.value(st, p); r = toi(o[1].s()); c1 = toi(e.load(st, ir.INT(64), cnt).u())
            e.oblige(st, 'popping an empty branch changes nothing and returns the null element', z3.Implies(v.n == 0, z3.And(c1 == c0, w.n == 0, w.c == v.c, r == toi(T.null(st).s()))))
            e.oblige(st, 'the popped element is outranked by none', z3.Implies(v.n > 0, K(r) == (v.mn if rev else v.mx)))
            e.oblige(st, 'exactly one element less', z3.Implies(v.n > 0, z3.And(c1 == c0 - 1, w.n == v.n - 1)))
            e.oblige(st, 'exactly the popped element is gone', z3.Implies(v.n > 0, w.c == v.c - is_x(r)))
            e.oblige(st, 'what is left stays within the ranks that were there', z3.Implies(w.n > 0, z3.And(w.mn >= v.mn, w.mx <= v.mx)))
            e.oblige(st, 'the order invariant is kept', inv2)
    return go
def push(rev):
    def go(c):
        e, st = c.e, c.st; T = Tree(c, rev); t = z3.Int('at'); st.assume(t > 0); p = Ptr(Ref(t))
        v, inv = T.value(st, p); st.assume(inv); n0, a0, l0, r0 = T.parts(st, p); st.assume(z3.And(l0 >= 0, r0 >= 0, l0 != t, r0 != t, z3.Or(l0 == 0, l0 != r0)))
        T.own = [t, l0, r0]; st.assume(v.n < (1 << 62))
        at = e.newloc('at'); e.store(st, ir.PTR, p, at); q = e.newloc('queue'); d, dt = c.int('data', 32, signed=True)
        e.contracts.append((re.compile(T.cls + r'::_push\('), T.push_contract))
        for nm, x in (('elements', v.n), ('list length', n0), ('left', ghost(e, st, l0).n), ('right', ghost(e, st, r0).n), ('first of the list', z3.Select(a0, 0))): c.inputs[nm] = x
        def cand(ls):
            out = []; k = K(z3.Select(a0, 0)); seen = [toi(b.b.idx) for _, b, _ in ls.ptrs() if b.b.kind in ('lit', 'elem')]
            for nm, x, _ in ls.ints():
                x = toi(x.s()); out += [(nm + ' <= 0', x <= 0), (nm + ' >= 0', x >= 0), (nm + ' == 0 unless lower', z3.Implies(K(dt) >= k, x == 0)), (nm + ' == 0 unless higher', z3.Implies(K(dt) <= k, x == 0))]
                for i in seen: out += [(nm + ' < 0 if lower', z3.Implies(z3.And(i > 0, K(dt) < k), x < 0)), (nm + ' > 0 if higher', z3.Implies(z3.And(i > 0, K(dt) > k), x > 0))]
            for i in seen: out += [('position in the list', z3.And(i >= 0, i <= n0))]
            return out
        e.loopcands.append(cand)
        outs = c.call([q, at, d], fn=T.cls + r'::_push\(')
        for st, o in outs:
            if o[0] != 'ret': e.oblige(st, 'push throws', False); continue
            c.reached(st, 'return'); p2 = e.load(st, ir.PTR, at)
            if p2.key() == p.key(): T.relate(st, p, (a0, n0)); w, inv2 = T.value(st, p)
            else: w = ghost(e, st, toi(e.as_ref(p2))); inv2 = toi(e.as_ref(p2)) != 0
            e.oblige(st, 'exactly one element more', w.n == v.n + 1)
            e.oblige(st, 'exactly the pushed element is added', w.c == v.c + is_x(dt))
            e.oblige(st, 'the highest rank', w.mx == z3.If(z3.And(v.n > 0, v.mx > K(dt)), v.mx, K(dt)))
            e.oblige(st, 'the lowest rank', w.mn == z3.If(z3.And(v.n > 0, v.mn < K(dt)), v.mn, K(dt)))
            e.oblige(st, 'the order invariant is kept', inv2)
    return go
class Queue(Tree):
    def __init__(s, c, rev):
        Tree.__init__(s, c, rev); e, st = s.e, c.st; s.own = []
        e.contracts += [(re.compile(s.cls + r'::element::pop\('), s.pop_contract), (re.compile(s.cls + r'::_push\('), s.push_contract)]
        s.q = e.newloc('queue'); s.root = z3.Int('root'); st.assume(s.root > 0); s.own.append(s.root)
        s.oroot, s.ocount = s.at['root'], s.at['count']; e.store(st, ir.PTR, Ptr(Ref(s.root)), Ptr(s.q.b, s.oroot))
        s.v = ghost(e, st, s.root); st.assume(s.v.ok()); st.assume(s.v.n < (1 << 62)); c.inputs['elements'] = s.v.n
        e.store(st, ir.INT(64), I(s.v.n, 64, 0, 1 << 62), Ptr(s.q.b, s.ocount))
    def check(s, outs, ret=None):
        for st, o in outs:
            if o[0] != 'ret': s.e.oblige(st, 'throws', False); continue
            s.c.reached(st, 'return'); r = toi(s.e.as_ref(s.e.load(st, ir.PTR, Ptr(s.q.b, s.oroot)))); w = ghost(s.e, st, r); n = toi(s.e.load(st, ir.INT(64), Ptr(s.q.b, s.ocount)).u())
            s.e.oblige(st, 'the reported size is the number of elements', z3.And(r != 0, n == w.n)); yield st, o[1], w
def q_pop(rev, pre, val):
    def go(c):
        Q = Queue(c, rev); e, v = c.e, Q.v
        for st, r, w in Q.check(c.call([Q.q], fn=pre)):
            if val:
                r = toi(r.s()); e.oblige(st, 'returns an element that none outranks', z3.Implies(v.n > 0, K(r) == (v.mn if rev else v.mx)))
                e.oblige(st, 'exactly the returned element is gone', z3.Implies(v.n > 0, z3.And(w.n == v.n - 1, w.c == v.c - is_x(r))))
                e.oblige(st, 'popping an empty queue', z3.Implies(v.n == 0, z3.And(w.n == 0, r == toi(Q.null(st).s()))))
            else: e.oblige(st, 'one element less, none when empty', w.n == z3.If(v.n > 0, v.n - 1, 0))
    return go
def q_push(rev, fn, ref):
    def go(c):
        Q = Queue(c, rev); e, v = c.e, Q.v; d, dt = c.int('data', 32, signed=True)
        if ref: p = e.newloc('data'); e.store(c.st, ir.INT(32), d, p); d = p
        for st, r, w in Q.check(c.call([Q.q, d], fn=fn)): e.oblige(st, 'exactly the pushed element is added', z3.And(w.n == v.n + 1, w.c == v.c + is_x(dt)))
    return go
def q_size(rev, fn, empty):
    def go(c):
        Q = Queue(c, rev); e, v = c.e, Q.v
        for st, r, w in Q.check(c.call([Q.q], fn=fn)): e.oblige(st, 'changes nothing', z3.And(w.n == v.n, w.c == v.c)); e.oblige(st, 'value', (tob(r) == (v.n == 0)) if empty else toi(r.u()) == v.n)
    return go
def q_new(rev, fn):
    def go(c):
        T = Tree(c, rev); e = c.e; q = e.newloc('queue'); r0, n0 = T.at['root'], T.at['count']
        for st, o in c.call([q], fn=fn):
            if o[0] != 'ret': e.oblige(st, 'throws', False); continue
            c.reached(st, 'return'); r = toi(e.as_ref(e.load(st, ir.PTR, Ptr(q.b, r0)))); e.oblige(st, 'a new queue is empty', z3.And(r != 0, ghost(e, st, r).n == 0, toi(e.load(st, ir.INT(64), Ptr(q.b, n0)).u()) == 0))
    return go
def units():
    r = [Unit('counting lemmas', 'queue', 'dv_q_pop', lemmas)]
    for rev, x, nm in ((False, 'q', ''), (True, 'r', ' (reversed)')):
        r += [Unit('element::pop' + nm, 'queue', 'dv_%s_pop' % x, pop(rev)), Unit('_push' + nm, 'queue', 'dv_%s_push' % x, push(rev)),
              Unit('pop' + nm, 'queue', 'dv_%s_pop' % x, q_pop(rev, 'dv_%s_pop' % x, True)), Unit('pop_front' + nm, 'queue', 'dv_%s_pop_front' % x, q_pop(rev, 'dv_%s_pop_front' % x, False)),
              Unit('push' + nm, 'queue', 'dv_%s_push' % x, q_push(rev, 'dv_%s_push' % x, False)), Unit('push_back' + nm, 'queue', 'dv_%s_push_back' % x, q_push(rev, 'dv_%s_push_back' % x, True)),
              Unit('size' + nm, 'queue', 'dv_%s_size' % x, q_size(rev, 'dv_%s_size' % x, False)), Unit('empty' + nm, 'queue', 'dv_%s_empty' % x, q_size(rev, 'dv_%s_empty' % x, True)),
              Unit('new queue' + nm, 'queue', 'dv_%s_new' % x, q_new(rev, 'dv_%s_new' % x))]
    return r
HARNESS = 'c16'
HSECS = 20
NOTE = 'proof for every queue, every history and every comparer that is a strict weak order: the tree is an inductive structure, each recursive call is checked against the contract of element::pop / _push (size, occurrences of an arbitrary value, rank bounds, order invariant), list counting facts are proved by induction; decided for the instantiations priority_queue<int, int> (normal and reversed), other element types and comparers by the harness'
ASSUME = ['children are uniquely owned (the tree is built by _push only, shared_ptr never aliases two positions)', 'instantiation with int elements stands for every element type', 'fewer than 2^62 elements', 'make_shared does not fail']
