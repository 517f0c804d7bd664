"""C05: the option store (vars::nodeT / vars::treeT): set, get, has"""
from appx import *
SB, SI = z3.ArraySort(S_SORT, B_SORT), z3.ArraySort(S_SORT, I_SORT)
NEWER = -1000000        # objects made by a called function have addresses below; those made here lie between it and 0
# ghost facts fixed when a node is hung into its owner's children: its owner, its name, its level, its dotted name as seen from an ancestor
PAR, NM, LVL = z3.Function('PAR', I_SORT, I_SORT), z3.Function('NM', I_SORT, S_SORT), z3.Function('LVL', I_SORT, I_SORT)
KEY, BELOW = z3.Function('KEY', I_SORT, I_SORT, S_SORT), z3.Function('BELOW', I_SORT, I_SORT, B_SORT)
# texts: only where the first dot is, what is before and behind it, and joining with a dot matter (their laws are proved in the unit on texts)
DOTAT, DOTTED = z3.Function('DOTAT', S_SORT, I_SORT), z3.Function('DOTTED', S_SORT, B_SORT)
HEAD, REST, CAT = z3.Function('HEAD', S_SORT, S_SORT), z3.Function('REST', S_SORT, S_SORT), z3.Function('CAT', S_SORT, S_SORT, S_SORT)
cat = CAT
def keydef(m, p): return z3.And(BELOW(m, p) == z3.And(p != 0, z3.Or(PAR(p) == m, z3.And(PAR(p) != 0, BELOW(m, PAR(p))))), KEY(m, p) == z3.If(PAR(p) == m, NM(p), cat(KEY(m, PAR(p)), NM(p))))
def grown(n, c, p):
    """the lemma proved below: names seen from the owner of c, for a node p below c"""
    return z3.Implies(z3.And(n != 0, c != 0, p != 0, PAR(c) == n, LVL(c) == LVL(n) + 1), z3.And(BELOW(n, c), KEY(n, c) == NM(c), z3.Implies(z3.And(BELOW(c, p), LVL(p) > LVL(c)), z3.And(BELOW(n, p), KEY(n, p) == cat(NM(c), KEY(c, p)), LVL(p) > LVL(n)))))
def textlaws(x):
    """laws of texts, at x (proved in the unit on texts)"""
    return z3.Implies(DOTTED(x), z3.And(DOTAT(x) >= 0, DOTAT(x) < z3.Length(x), x == cat(HEAD(x), REST(x)), z3.Not(DOTTED(HEAD(x))), z3.Length(REST(x)) < z3.Length(x)))
class Store(App):
    def __init__(s, c):
        super().__init__(c); e = c.e; s.o = {k: s.off(k) for k in ('children', 'indexes', 'value')}
        s.closures = {}; s.exceptions(); e.contracts += [
            (re.compile(r'^strchr$|^std::strchr'), s.strchr), (re.compile(r'^std::string::substr\('), s.substr), (re.compile(r'^std::any::any|^std::any::operator=|^std::any::emplace|^std::any::swap|^std::any::~any|^std::any::reset|_ZNSt3any|^.*std::any::emplace<'), s.any),
            (re.compile(r'^_ZNSt8functionIFvPKc.*EEC2IZ'), s.closure)]
        c.st.assume(toi(e.as_ref(NULL)) == 0) if not isinstance(e.as_ref(NULL), int) else None
        fnobj.install(e, s.invoke)
        e.contracts += [(re.compile(r'^std::shared_mutex::(lock|lock_shared)\('), s.lock), (re.compile(r'^std::shared_mutex::(unlock|unlock_shared)\('), s.unlock), (re.compile(r'^std::shared_mutex::'), lambda e, st, c: [(st, ('ret', None))])]
    # heap
    def dom(s, st, f, m): return s.e.rd(st, Ptr(Ref(m), s.o[f]), 'dom', SB)
    def ptrs(s, st, f, m): return s.e.rd(st, Ptr(Ref(m), s.o[f]), 'v.ptr', SI)
    def has(s, st, f, m, x): return z3.Select(s.dom(st, f, m), x)
    def at(s, st, f, m=None, x=None):
        if m is None: return super().at(st, f)
        return z3.Select(s.ptrs(st, f, m), x)
    def val(s, st, p): return s.e.rd(st, Ptr(Ref(p), s.o['value']), 'any', I_SORT)
    def inv(s, st, m, x, ex): return z3.And(*s.invs(st, m, x, ex))
    def invs(s, st, m, x, ex):
        """the invariants of node m at key x; ex(p): p is a node"""
        H, A = s.has, s.at; ix, ch = A(st, 'indexes', m, x), A(st, 'children', m, x); hc = A(st, 'children', m, HEAD(x))
        return (z3.Implies(H(st, 'indexes', m, x), z3.And(ex(ix), BELOW(m, ix), KEY(m, ix) == x, LVL(ix) > LVL(m))),
            z3.Implies(H(st, 'children', m, x), z3.And(ex(ch), z3.Not(DOTTED(x)), PAR(ch) == m, NM(ch) == x, LVL(ch) == LVL(m) + 1)),
            z3.Implies(z3.And(H(st, 'indexes', m, x), z3.Not(DOTTED(x))), z3.And(H(st, 'children', m, x), ch == ix)),
            z3.Implies(z3.And(H(st, 'indexes', m, x), DOTTED(x)), z3.And(H(st, 'children', m, HEAD(x)), H(st, 'indexes', hc, REST(x)), A(st, 'indexes', hc, REST(x)) == ix)))
    def same(s, a, b, f, m, x): return z3.And(s.has(a, f, m, x) == s.has(b, f, m, x), z3.Implies(s.has(a, f, m, x), s.at(a, f, m, x) == s.at(b, f, m, x)))
    def kept(s, a, b, m, x): return z3.And(*[z3.Implies(s.has(a, f, m, x), z3.And(s.has(b, f, m, x), s.at(b, f, m, x) == s.at(a, f, m, x))) for f in ('children', 'indexes')])
    # parts known by contract
    def strchr(s, e, st, c):
        t = e.ctext(st, c.args[0]); ch = c.args[1].u()
        if ch != ord('.') or c.args[0].b.kind != 'cstr' and c.args[0].b.kind != 'strd': raise Unsupported('strchr')
        if not (isinstance(c.args[0].off, int) and c.args[0].off == 0 and c.args[0].idx == 0): raise Unsupported('strchr inside a text')
        outs = []
        for cond, r in ((DOTTED(t), Ptr(c.args[0].b, 0, DOTAT(t))), (z3.Not(DOTTED(t)), NULL)):
            s2 = st.copy(); s2.assume(cond); s2.assume(textlaws(t))
            if e.feasible(s2): outs.append((s2, ('ret', r)))
        return outs
    def substr(s, e, st, c):
        t = e.rdstr(st, c.args[1]); i, n = toi(c.args[2].u()), toi(c.args[3].u()); d = DOTAT(t)
        if e.feasible(st, z3.Not(DOTTED(t))): return None
        if not e.feasible(st, z3.Not(z3.And(i == 0, n == d))): r = HEAD(t)
        elif not e.feasible(st, z3.Not(z3.And(i == d + 1, n >= z3.Length(t) - i))): r = REST(t)
        else: return None
        e.wrstr(st, c.args[0], r); return [(st, ('ret', None))]
    def any(s, e, st, c):
        d = c.dem; a = c.args; cell = lambda p: e.rd(st, p, 'any', I_SORT); put = lambda p, v: e.wr(st, p, 'any', I_SORT, toi(v))
        if '~any' in d: return [(st, ('ret', None))]
        if re.match(r'std::any::any\(\)', d) or '::reset(' in d: put(a[0], 0); return [(st, ('ret', None))]
        m = re.match(r'std::any::(any|operator=)\(std::any( const)?\s*(&&?)\)', d)
        if m:
            v = cell(a[1])
            if m.group(3) == '&&' and a[0].key() != a[1].key(): put(a[1], 0)
            put(a[0], v); return [(st, ('ret', None if m.group(1) == 'any' else a[0]))]
        if '::swap(' in d: x, y = cell(a[0]), cell(a[1]); put(a[0], y); put(a[1], x); return [(st, ('ret', None))]
        if re.search(r'::emplace<|::any<|^_ZNSt3any|^_ZNSt3anyC', d):
            v = s.anyof(st, d, a[1]); put(a[0], v); return [(st, ('ret', Ptr(a[0].b, a[0].off) if c.rty.k == 'ptr' else None))]
        return None
    def anyof(s, st, d, p):
        """the any holding the object at p, of the type the constructor or emplace is instantiated for"""
        e = s.e; m = re.search(r'(?:emplace|any)<(.*)', d); t = m.group(1) if m else d
        if t.startswith(('bool', 'bool&')) or re.search(r'^_ZNSt3any(C2|7emplace)I(R|RK)?b', d): return ANYOF('bool', I_SORT)(toi(e.load(st, ir.INT(8), p).u()))
        if t.startswith(('int', )) or re.search(r'^_ZNSt3any(C2|7emplace)I(R|RK)?i', d): return ANYOF('int', I_SORT)(toi(e.load(st, ir.INT(32), p).s()))
        if 'basic_string' in t or t.startswith('std::string') or re.search(r'^_ZNSt3any(C2|7emplace)I(R|RK)?NSt7__cxx1112basic_string', d): return ANYOF('text', S_SORT)(e.rdstr(st, p))
        if t.startswith('std::any') or re.search(r'^_ZNSt3any7emplaceI(R|RK)?S_', d): return ANYOF('any', I_SORT)(e.rd(st, p, 'any', I_SORT))
        raise Unsupported('std::any of ' + d[:80])
    def lock(s, e, st, c): models.acquire(e, st, c.args[0]); return [(st, ('ret', None))]
    def unlock(s, e, st, c): models.release(e, st, c.args[0]); return [(st, ('ret', None))]
    def closure(s, e, st, c):
        """a std::function made from a lambda: remember the lambda's body (found through the functions its constructor refers to)"""
        seen, todo, found = set(), [c.name], set()
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            if re.match(r'_ZZN.*ENKUl.*E_cl', n): found.add(n); continue
            f = e.m.funcs.get(n)
            if f is not None: todo += [x for x in set(re.findall(r'@([\w.$]+)', '\n'.join(f.lines))) if x in e.m.funcs]
        if len(found) != 1: raise Unsupported('body of a lambda not found')
        t = e.alloc(st, 'function'); s.closures[simp(toi(e.as_ref(t))) if not isinstance(t.b.t, int) else t.b.t] = (found.pop(), c.args[1], st)
        e.store(st, ir.PTR, t, c.args[0]); return [(st, ('ret', None))]
    def run_closure(s, e, st, t, args, c):
        t = simp(t)
        if not isinstance(t, int): t = t.as_long() if z3.is_int_value(t) else t
        if not isinstance(t, int) or t not in s.closures: raise Unsupported('call of an unknown function object')
        fn, clo, _ = s.closures[t]; return e.run(st, fn, [clo] + list(args), c.depth + 1)
    def invoke(s, e, st, t, args, c):
        """the callback given by the caller"""
        if not z3.eq(simp(toi(t)) if not isinstance(simp(toi(t)), int) else z3.IntVal(simp(toi(t))), s.cbtok): return s.run_closure(e, st, t, [e.load(st, ir.PTR, args[0]) if args[0].b.kind == 'loc' else args[0]] + args[1:], c)
        k = e.load(st, ir.PTR, args[0]) if args[0].b.kind == 'loc' else args[0]
        e.oblige(st, 'the callback gets the node now indexed', toi(e.as_ref(e.load(st, ir.PTR, args[1]))) == s.at(st, 'indexes', s.N, s.key))
        e.gset(st, 'called back', e.gget(st, 'called back', 0) + 1); s.posts(st); st.ghost[('g', 'at callback')] = st.copy(); return [(st, ('ret', None))]
_A = {}
def ANYOF(t, so):
    if t not in _A: _A[t] = z3.Function('any_of_' + t, so, I_SORT)
    return _A[t]
SETTERS = {'const any': (r'^_ZN4cmdr4vars5nodeT.*4_setIRKSt3any', 'dv_set_any'), 'any': (r'^_ZN4cmdr4vars5nodeT.*4_setIRSt3any', 'dv_set_mutany'), 'bool': (r'^_ZN4cmdr4vars5nodeT.*4_setIRbTn', 'dv_set_bool'), 'int': (r'^_ZN4cmdr4vars5nodeT.*4_setIRiTn', 'dv_set_int'), 'text': (r'^_ZN4cmdr4vars5nodeT.*4_setIRKS', 'dv_set_text')}
def given(S, e, st, kind, p):
    """the any that has to be stored for the argument at p"""
    if 'any' in kind: return e.rd(st, p, 'any', I_SORT)
    if kind == 'bool': return ANYOF('bool', I_SORT)(toi(e.load(st, ir.INT(8), p).u()))
    if kind == 'int': return ANYOF('int', I_SORT)(toi(e.load(st, ir.INT(32), p).s()))
    return ANYOF('text', S_SORT)(e.rdstr(st, p))
def value(c, kind):
    e, st = c.e, c.st; p = e.newloc('value given')
    if 'any' in kind: src = z3.Int('holder_of_the_value'); st.assume(src > 0); p = Ptr(Ref(src), c.S.o['value'])      # any object, a node of the store included
    elif kind == 'bool': v = z3.Int('given_bool'); st.assume(z3.And(v >= 0, v <= 1)); e.store(st, ir.INT(8), I(v, 8, 0, 1), p)
    elif kind == 'int': v = z3.Int('given_int'); st.assume(z3.And(v >= -(1 << 31), v < 1 << 31)); e.store(st, ir.INT(32), I(v, 32, -(1 << 31), (1 << 31) - 1), p)
    else: e.wrstr(st, p, z3.Const('given_text', S_SORT))
    return p
M0, X0, P0 = z3.Int('some_node'), z3.Const('some_key', S_SORT), z3.Int('some_other_node')
def effect(S, e, st, kind, C, R, v, known):
    """assume the postconditions of _set(C, R) after the call; known: list of (node, key) and nodes of interest"""
    pre = st.copy()
    for f in ('children', 'indexes'):
        for cn, so in (('dom', SB), ('v.ptr', SI)): S.e.rd(st, Ptr(Ref(C), S.o[f]), cn, so); st.heap[(S.o[f], cn)] = fresh('after_' + f, z3.ArraySort(I_SORT, so))
    S.val(st, C); st.heap[(S.o['value'], 'any')] = fresh('after_value', z3.ArraySort(I_SORT, I_SORT))
    P = S.at(st, 'indexes', C, R); ex = lambda p: p != 0
    st.assume(z3.And(S.has(st, 'indexes', C, R), S.val(st, P) == v, z3.Or(P > NEWER, P < NEWER), P != 0))
    mk, ps, low = known(pre, st)
    for m, x in mk + [(C, R)]:
        st.assume(z3.And(S.kept(pre, st, m, x), S.inv(st, m, x, ex))); st.assume(z3.Implies(LVL(m) < LVL(C), z3.And(S.same(pre, st, 'children', m, x), S.same(pre, st, 'indexes', m, x))))
        st.assume(z3.Implies(z3.And(m == C, x != R), S.same(pre, st, 'indexes', m, x)))
    for m in low: st.assume(z3.Implies(LVL(m) < LVL(C), z3.And(*[z3.And(S.dom(pre, f, m) == S.dom(st, f, m), S.ptrs(pre, f, m) == S.ptrs(st, f, m)) for f in ('children', 'indexes')])))
    for p in ps: st.assume(z3.Implies(z3.And(p > NEWER, p != P), S.val(pre, p) == S.val(st, p)))
    return P
def setter(kind):
    def go(c):
        S = Store(c); e, st = c.e, c.st; rx, entry = SETTERS[kind]; N, K = z3.Int('node'), z3.Const('key', S_SORT); S.N, S.key, S.cbtok = N, K, z3.Int('callback')
        kp = Ptr(CStr(K)); cb = e.newloc('callback'); e.store(st, ir.PTR, Ptr(Ref(S.cbtok)), cb); st.assume(z3.And(S.cbtok >= 0, N > 0, z3.Length(K) <= models.MAXLEN))
        c.S = S; a = value(c, kind); v = given(S, e, st, kind, a); pos = lambda p: p > 0; st.ghost[('g', 'made')] = ()
        for f in ('children', 'indexes'): S.dom(st, f, N), S.ptrs(st, f, N)
        S.val(st, N); entry_st = st.copy(); MK = [(N, K), (N, HEAD(K)), (M0, HEAD(X0)), (N, HEAD(X0)), (M0, X0), (N, X0), (S.at(entry_st, 'children', N, HEAD(K)), REST(K)), (S.at(entry_st, 'children', N, HEAD(X0)), REST(X0))]
        for m, x in MK: st.assume(z3.Implies(m > 0, S.inv(entry_st, m, x, pos)))
        for x in (K, X0): st.assume(textlaws(x))
        st.assume(keydef(N, S.at(entry_st, 'children', N, K)))
        st.assume(z3.Implies(z3.And(DOTTED(K), DOTTED(X0), HEAD(K) == HEAD(X0), REST(K) == REST(X0)), K == X0))
        made = lambda st, m: z3.Or(m > 0, m < NEWER if e.gget(st, 'recursed', 0) else z3.BoolVal(False), *[m == t for t in e.gget(st, 'made', ())])
        isnode = lambda p: p != 0
        def settle(st, k):
            "a new node put among the children in another way: its ghost facts are those of the only place it may have"
            for p in e.gget(st, 'unhung', ()): st.assume(z3.And(PAR(p) == N, NM(p) == k, LVL(p) == LVL(N) + 1)); st.assume(keydef(N, toi(p)))
            e.gset(st, 'unhung', ())
        def posts(st):
            settle(st, K); P = S.at(st, 'indexes', N, K)
            for nm, g in (('the key is known afterwards', S.has(st, 'indexes', N, K)), ('the key has the value given', S.val(st, P) == v),
                ('every other key is known as before', z3.Implies(X0 != K, S.same(entry_st, st, 'indexes', N, X0))),
                ('the value of every other node is as before', z3.Implies(z3.And(P0 > 0, P0 != P), S.val(st, P0) == S.val(entry_st, P0))),
                ('nothing known is forgotten', z3.Implies(M0 > 0, S.kept(entry_st, st, M0, X0))),
                ('nodes further up are left alone', z3.Implies(z3.And(M0 > 0, LVL(M0) < LVL(N)), z3.And(S.same(entry_st, st, 'children', M0, X0), S.same(entry_st, st, 'indexes', M0, X0)))),
                *[('the tree stays consistent: ' + w, z3.Implies(made(st, M0), g)) for w, g in zip(('indexed nodes bear their names', 'children bear their names', 'an undotted key is a child', 'a dotted key is indexed further down'), S.invs(st, M0, X0, isnode))]): e.oblige(st, nm, g)
        S.posts = posts
        def made_shared(e, st, c2):
            outs = models_make(e, st, c2)
            for s2, o in outs:
                if o[0] == 'ret':
                    p = toi(e.as_ref(e.load(s2, ir.PTR, c2.args[0]))); e.gset(s2, 'made', e.gget(s2, 'made', ()) + (p,)); e.gset(s2, 'unhung', e.gget(s2, 'unhung', ()) + (p,))
            return outs
        S.contract(r'std::make_shared<cmdr::vars::nodeT', made_shared)
        def hang(e, st, c2):
            """a node put into a list of children for the first time: its ghost facts are fixed now"""
            m = c2.args[0]
            if m.b.kind != 'ref' or m.off != S.o['children']: return None
            a1, two = c2.args[1], len(c2.args) == 3 and isinstance(c2.args[2], Ptr)
            try: p = simp(toi(e.as_ref(e.load(st, ir.PTR, c2.args[2] if two else Ptr(a1.b, a1.off + 32))))) if a1.b.kind == 'loc' and (two or len(c2.args) == 2) else None
            except Unsupported: p = None
            if p is None: return None
            w = toi(m.b.t); un = e.gget(st, 'unhung', ())
            if any(z3.eq(toi(p), toi(x)) for x in un):
                k = e.rdstr(st, a1); st.assume(z3.And(PAR(p) == w, NM(p) == k, LVL(p) == LVL(w) + 1)); st.assume(keydef(w, toi(p))); e.gset(st, 'unhung', tuple(x for x in un if not z3.eq(toi(p), toi(x))))
            return None
        S.contract(r'std::unordered_map<.*>::(emplace|insert|try_emplace)[<(]', hang)
        def rec(e, st, c2):
            a0, a1, a2, a3 = c2.args; C = toi(e.as_ref(a0)); R = e.ctext(st, a1)
            if st.ghost.get(('g', 'top'), 1): st.ghost[('g', 'top')] = 0; return None
            settle(st, HEAD(K))
            e.oblige(st, 'the key gets shorter', z3.Length(R) < z3.Length(K)); e.oblige(st, 'the tree is consistent before the recursive call', z3.Implies(made(st, M0), S.inv(st, M0, X0, lambda p: z3.And(p > NEWER, p != 0)))); e.oblige(st, 'the node exists', z3.And(made(st, C), LVL(C) == LVL(N) + 1, PAR(C) == N))
            H = z3.simplify(R); vv = given(S, e, st, kind, a3); e.oblige(st, 'the value given is passed on', vv == v); ch = S.at(st, 'children', N, HEAD(X0))
            known = lambda pre, now: ([(M0, X0), (ch, REST(X0)), (C, REST(X0)), (C, REST(K)), (S.at(now, 'children', N, HEAD(X0)), REST(X0))], [P0], [N])
            P = effect(S, e, st, kind, C, R, v, known); e.gset(st, 'recursed', 1)
            st.assume(grown(N, C, P)); t = toi(e.as_ref(e.load(st, ir.PTR, a2))); sp = e.newloc('node handed on'); e.store(st, ir.PTR, Ptr(Ref(P)), sp)
            ts = simp(t); ts = ts.as_long() if isinstance(ts, z3.ExprRef) and z3.is_int_value(ts) else ts
            if isinstance(ts, int) and ts == 0: return [(st, ('ret', None))]
            return S.run_closure(e, st, t, [Ptr(CStr(fresh('end_key', S_SORT))), sp], c2)
        S.contract(rx, rec)
        for s1, o in c.call([Ptr(Ref(N)), kp, cb, a]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'return'); n = e.gget(s1, 'called back', 0); e.oblige(s1, 'the callback is called once when there is one', z3.If(S.cbtok == 0, n == 0, n == 1)); e.oblige(s1, 'the lock is released', not models.held(e, s1), 'lock')
            b = s1.ghost.get(('g', 'at callback'))
            if b is None: posts(s1)
            else:
                for k in ((S.o['children'], 'dom'), (S.o['children'], 'v.ptr'), (S.o['indexes'], 'dom'), (S.o['indexes'], 'v.ptr'), (S.o['value'], 'any')): e.oblige(s1, 'nothing changes after the callback', s1.heap[k] == b.heap[k])
    return Unit('nodeT::_set (%s)' % kind, 'store', SETTERS[kind][1], go)
models_make = models.REG[('std', 'make_shared')]
def treeset(entry, kind, prefixed, what):
    """set_raw / set_raw_p: the setter of the tree on top of the contract of _set"""
    def go(c):
        S = Store(c); c.S = S; e, st = c.e, c.st; N, K = z3.Int('tree'), z3.Const('key', S_SORT); S.cbtok = z3.Int('no_callback'); st.assume(z3.And(N > 0, z3.Length(K) <= models.MAXLEN)); pre = z3.Const('prefix', S_SORT)
        if S.off('root'): raise Unsupported('the root node is not the first part of the tree')
        if kind in ('mvar', 'var'): src = z3.Int('holder_of_the_value'); st.assume(src > 0); a = Ptr(Ref(src)); v = S.val(st, src)
        elif kind == 'bool': a = z3.Bool('given_bool'); v = ANYOF('bool', I_SORT)(z3.If(a, 1, 0))
        else: a = value(c, kind); v = given(S, e, st, kind, a)
        for f in ('children', 'indexes'): S.dom(st, f, N), S.ptrs(st, f, N)
        S.val(st, N); st0 = st.copy(); inv0 = lambda m, x: S.inv(st0, m, x, lambda p: p > 0)
        for m, x in ((M0, X0), (N, X0), (N, K)): st.assume(z3.Implies(m > 0, inv0(m, x)))
        def use(k2):
            def h(e, st, c2):
                if (k2 == 'any' or k2 == 'const any') != (kind in ('mvar', 'var')) or (k2 not in ('any', 'const any') and k2 != kind): return None
                a0, a1, a2, a3 = c2.args; R = e.ctext(st, a1); C = toi(e.as_ref(a0))
                e.oblige(st, 'the tree is consistent before', z3.Implies(M0 > 0, S.inv(st, M0, X0, lambda p: p > 0))); e.oblige(st, 'stored in the root of this tree', C == N)
                vv = given(S, e, st, k2, a3); Q = z3.Select(S.ptrs(st0, 'indexes', N), X0)
                P = effect(S, e, st, k2, C, R, vv, lambda pre, now: ([(N, X0), (N, K)], [Q], [])); e.gset(st, 'stored', e.gget(st, 'stored', 0) + 1); st.ghost[('g', 'with')] = (R, vv)
                t = toi(e.as_ref(e.load(st, ir.PTR, a2))); sp = e.newloc('node handed on'); e.store(st, ir.PTR, Ptr(Ref(P)), sp); st.assume(z3.Or(P > 0, P < 0))
                return S.run_closure(e, st, t, [Ptr(CStr(fresh('end_key', S_SORT))), sp], c2)
            return h
        for k2, (rx, _) in SETTERS.items(): S.contract(rx, use(k2))
        cases = [([Ptr(CStr(K))], K)]
        if prefixed: cases = [([NULL, Ptr(CStr(K))], K), ([Ptr(CStr(pre)), Ptr(CStr(K))], z3.If(z3.Length(pre) == 0, K, z3.Concat(pre, z3.StringVal('.'), K)))]; st.assume(z3.Length(pre) <= models.MAXLEN); st.assume(z3.Implies(z3.Length(pre) > 0, CODE(pre, 0) != 0))
        for args, full in cases:
            for s1, o in c.call([Ptr(Ref(N))] + args + [a], st=st.copy()):
                if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
                c.reached(s1, 'return'); n = e.gget(s1, 'stored', 0); e.oblige(s1, 'stored once', n == 1)
                if n != 1: continue
                R, vv = s1.ghost[('g', 'with')]; e.oblige(s1, 'stored under the key (with its prefix)', R == full); e.oblige(s1, 'the value given is stored', vv == v)
                P = S.at(s1, 'indexes', N, R); e.oblige(s1, 'the key is known and has the value given', z3.And(S.has(s1, 'indexes', N, R), S.val(s1, P) == v))
                Q = S.at(st0, 'indexes', N, X0); e.oblige(s1, 'every other key is known as before', z3.Implies(X0 != R, S.same(st0, s1, 'indexes', N, X0)))
                e.oblige(s1, 'every other key keeps its value', z3.Implies(z3.And(X0 != R, S.has(st0, 'indexes', N, X0)), S.val(s1, S.at(s1, 'indexes', N, X0)) == S.val(st0, Q)))
    return Unit(what, 'store', entry, go)
def getter(entry, how, what):
    """get_raw, get_raw_p and has: answers taken from the index of the root"""
    def go(c):
        S = Store(c); e, st = c.e, c.st; N, K, pre = z3.Int('tree'), z3.Const('key', S_SORT), z3.Const('prefix', S_SORT); S.cbtok = z3.Int('no_callback')
        st.assume(z3.And(N > 0, z3.Length(K) <= models.MAXLEN, z3.Length(pre) <= models.MAXLEN, z3.Implies(z3.Length(pre) > 0, CODE(pre, 0) != 0)))
        if S.off('root'): raise Unsupported('the root node is not the first part of the tree')
        S.dom(st, 'indexes', N); S.ptrs(st, 'indexes', N); S.val(st, N); full = z3.If(z3.Length(pre) == 0, K, z3.Concat(pre, z3.StringVal('.'), K)); st0 = st.copy()
        def text(t, nm): p = e.newloc(nm); e.wrstr(st, p, t); return p
        cases = {'c': [([Ptr(CStr(K))], K)], 's': [([text(K, 'key')], K)], 'ps': [([text(pre, 'prefix'), text(K, 'key')], full)], 'pc': [([NULL, Ptr(CStr(K))], K), ([Ptr(CStr(pre)), Ptr(CStr(K))], full)]}[how]
        nuls = {o[1].key() for _, o in e.run(st.copy(), c.fname('dv_null'), []) if o[0] == 'ret'}
        for args, key in cases:
            s0 = st.copy(); s0.assume(z3.Implies(S.has(s0, 'indexes', N, key), S.at(s0, 'indexes', N, key) > 0)); h = S.has(s0, 'indexes', N, key)
            for s1, o in c.call([Ptr(Ref(N))] + args, st=s0):
                if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
                c.reached(s1, 'return'); r = o[1]
                if entry == 'dv_has': e.oblige(s1, 'true exactly for a stored key', (toi(r.u()) != 0) == h if isinstance(r, I) else tob(r) == h)
                elif r.b.kind == 'ref': e.oblige(s1, 'the value stored under the key', z3.And(h, toi(e.as_ref(r)) == S.at(s0, 'indexes', N, key)))
                else: e.oblige(s1, 'the null element for a key that is not stored', z3.And(z3.Not(h), z3.BoolVal(nuls == {r.key()})))
                e.oblige(s1, 'the lock is released', not models.held(e, s1), 'lock')
                for f, cn in (('indexes', 'dom'), ('indexes', 'v.ptr'), ('value', 'any')): e.oblige(s1, 'asking changes nothing', s1.heap[(S.o[f], cn)] == st0.heap[(S.o[f], cn)])
    return Unit(what, 'store', entry, go)
def laws(c):
    """the texts: definitions of the first dot, what is before and behind it; joining"""
    e, st = c.e, c.st; x = z3.Const('text', S_SORT); dot = z3.StringVal('.'); i = z3.IndexOf(x, dot, 0); h, r = z3.SubString(x, 0, i), z3.SubString(x, i + 1, z3.Length(x) - i - 1)
    st.assume(z3.Contains(x, dot)); c.reached(st, 'dotted text')
    for nm, g in (('the first dot lies in the text', z3.And(i >= 0, i < z3.Length(x))), ('the text is what is before the dot, the dot and what is behind it', x == z3.Concat(h, dot, r)), ('no dot before the first', z3.Not(z3.Contains(h, dot))), ('what is behind the dot is shorter', z3.Length(r) < z3.Length(x))): e.oblige(st, nm, g)
    a, b, d = z3.Const('a', S_SORT), z3.Const('b', S_SORT), z3.Const('d', S_SORT); e.oblige(State(), 'joining with a dot is associative', z3.Concat(z3.Concat(a, dot, b), dot, d) == z3.Concat(a, dot, z3.Concat(b, dot, d)))
def path_lemma(c):
    """names of a node as seen from an ancestor c and from the owner n of c, by induction on the level of the node"""
    e, st = c.e, c.st; n, k, p = z3.Int('n'), z3.Int('c'), z3.Int('p'); st.assume(z3.And(n != 0, k != 0, p != 0, PAR(k) == n, LVL(k) == LVL(n) + 1)); q = PAR(p)
    st.assume(z3.Implies(PAR(p) != 0, LVL(p) == LVL(PAR(p)) + 1))
    for m, x in ((n, k), (n, p), (k, p), (n, q)): st.assume(keydef(m, x))
    st.assume(z3.Implies(z3.And(q != 0, BELOW(k, q)), LVL(q) > LVL(k)))      # proved in the other unit
    st.assume(z3.Implies(LVL(q) < LVL(p), grown(n, k, q)))                   # induction hypothesis
    a, b, d = NM(k), KEY(k, q), NM(p); st.assume(cat(cat(a, b), d) == cat(a, cat(b, d))); c.reached(st, 'step'); e.oblige(st, 'names seen from the owner', grown(n, k, p))
def level_lemma(c):
    e, st = c.e, c.st; k, p = z3.Int('c'), z3.Int('p'); q = PAR(p); st.assume(z3.And(p != 0, keydef(k, p), z3.Implies(q != 0, LVL(p) == LVL(q) + 1), z3.Implies(k != 0, LVL(k) >= 0), k != 0))
    st.assume(z3.Implies(z3.And(q != 0, BELOW(k, q)), LVL(q) > LVL(k))); c.reached(st, 'step'); e.oblige(st, 'a node below another is on a deeper level', z3.Implies(BELOW(k, p), LVL(p) > LVL(k)))
def units():
    return [setter(k) for k in SETTERS] + [Unit('laws of dotted texts', 'store', 'dv_has', laws), Unit('names along a path (induction)', 'store', 'dv_has', path_lemma), Unit('levels along a path (induction)', 'store', 'dv_has', level_lemma),
        treeset('dv_tset_var', 'var', 0, 'treeT::set_raw (variable const&)'), treeset('dv_tset_mvar', 'mvar', 0, 'treeT::set_raw (variable&&)'), treeset('dv_tset_bool', 'bool', 0, 'treeT::set_raw (bool)'), treeset('dv_tset_text', 'text', 0, 'treeT::set_raw (text)'),
        treeset('dv_tsetp_var', 'var', 1, 'treeT::set_raw_p (variable const&)'), treeset('dv_tsetp_mvar', 'mvar', 1, 'treeT::set_raw_p (variable&&)'), treeset('dv_tsetp_bool', 'bool', 1, 'treeT::set_raw_p (bool)'), treeset('dv_tsetp_text', 'text', 1, 'treeT::set_raw_p (text)'),
        getter('dv_get_cc', 'c', 'get_raw (char const*) const'), getter('dv_get_c', 'c', 'get_raw (char const*)'), getter('dv_get_cs', 's', 'get_raw (text) const'), getter('dv_get_s', 's', 'get_raw (text)'),
        getter('dv_getp_cc', 'pc', 'get_raw_p (char const*) const'), getter('dv_getp_c', 'pc', 'get_raw_p (char const*)'), getter('dv_getp_cs', 'ps', 'get_raw_p (text) const'), getter('dv_getp_s', 'ps', 'get_raw_p (text)'), getter('dv_has', 'pc', 'has')]
HARNESS = 'c05'
HSECS = 20
NOTE = 'The recursive setter is proved by a contract used at its own recursive call, for trees of any depth and keys of any length, for the argument types std::any, bool, int and text; the other argument types are other instances of the same templates.'
ASSUME = ['the tree is only changed through the store (a node is hung into one list of children only)', 'std::any is modelled by the identity of the value it holds', 'std::function calls the lambda it was made from', 'addresses of new nodes differ from those of existing ones', 'one thread at a time (the locks are only checked to be released)']
