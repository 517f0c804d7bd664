"""C06: dotted keys and title sequences spell the path from the root"""
from appx import *
from c12 import cells
CH = z3.Function('CHAIN', I_SORT, I_SORT)        # the item, its owner, the owner's owner, ...; 0 behind the outermost
DEPTH = z3.Int('depth')
def go(entry, name, n, delim, what):
    def f(c):
        a = App(c); e, st = c.e, c.st; i, j = z3.Int('i'), z3.Int('j'); it = z3.Int('item'); out = e.newloc('result'); a.exceptions()
        for x in ('long', 'hit_title'): a.str(st, x, z3.Int('q'))
        a.int(st, 'hitcount', z3.Int('q')); a.ptr(st, 'owner', z3.Int('q')); st0 = st.copy()
        st.assume(z3.And(it > 0, CH(0) == it, DEPTH >= 0, CH(DEPTH + 1) == 0, DEPTH < (1 << 31) - 2))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= DEPTH), z3.And(CH(i) > 0, CH(i + 1) == a.ptr(st0, 'owner', CH(i)))), patterns=[CH(i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < DEPTH), CH(i + 1) > 0), patterns=[CH(i)]))
        def seq(st, p): return toi(e.rd(st, p, 'len', I_SORT)), e.rd(st, p, 'e.str', AS)
        def cand(ls):
            r = []
            for nm, p, _ in ls.ptrs():
                if p.b.kind == 'ref': r.append(('level of the owner walk', z3.And(p.b.t == CH(ls.k), ls.k >= 0, ls.k <= DEPTH))); r.append(('level of the owner walk or behind it', z3.And(p.b.t == CH(ls.k), ls.k >= 0, ls.k <= DEPTH + 1)))
            for k in cells(ls, 'len'):
                m, l = (toi(ls.st.mem[k] if not isinstance(ls.st.mem[k], I) else ls.st.mem[k].t), ls.st.mem.get((k[0], k[1], 'e.str'), z3.K(I_SORT, z3.StringVal(''))))
                r += [('one name per level', m == ls.k), ('the names so far, outermost first', z3.Implies(z3.And(0 <= J, J < ls.k), z3.Select(l, ls.k - 1 - J) == name(a, st0, CH(J)))), ('the names so far, innermost first', z3.Implies(z3.And(0 <= J, J < ls.k), z3.Select(l, J) == name(a, st0, CH(J))))]
            return r
        e.loopcands.append(cand); e.measures.append(lambda ls: [('depth', DEPTH + 1 - ls.k)])
        J, R = z3.Int('some_level'), z3.Const('joined text', S_SORT); e.gset(st, 'joined', 0)
        def join(e, st, c2):
            ar = c2.args; m, l = seq(st, ar[1]); e.oblige(st, 'one name for every level', m == n())
            e.oblige(st, 'the names are those of the path, outermost first', z3.Implies(z3.And(0 <= J, J < m), z3.Select(l, m - 1 - J) == name(a, st0, CH(J))))
            e.oblige(st, 'joined with the delimiter only', z3.And(toi(ar[2].u()) == ord(delim), toi(ar[3].u()) == 0, toi(ar[4].u()) == 0) if isinstance(ar[2], I) else z3.And(e.ctext(st, ar[2]) == z3.StringVal(delim), e.ptreq(st, ar[3], NULL), e.ptreq(st, ar[4], NULL)))
            e.wrstr(st, ar[0], R); e.gset(st, 'joined', e.gget(st, 'joined', 0) + 1); return [(st, ('ret', None))]
        a.contract(r'^cmdr::string::join\(std::vector<std::string', join)
        for s1, o in c.call([out, Ptr(Ref(it))]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            if not e.gget(s1, 'joined', 0): raise Unsupported('the path is not built with string::join')
            c.reached(s1, 'joined'); e.oblige(s1, 'the result is the joined path', z3.And(e.gget(s1, 'joined', 0) == 1, e.rdstr(s1, out) == R))
    return Unit(what, 'app', entry, f)
long_ = lambda a, st, x: a.str(st, 'long', x)
shown = lambda a, st, x: z3.If(a.int(st, 'hitcount', x) > 0, a.str(st, 'hit_title', x), a.str(st, 'long', x))
def units(): return [go('dv_dotted_key', long_, lambda: DEPTH + 1, '.', 'bas::dotted_key'), go('dv_title_sequences', shown, lambda: DEPTH, ' ', 'cmd::title_sequences')]
HARNESS = 'c06'
HSECS = 20
NOTE = 'The owner walks of dotted_key and title_sequences are proved for chains of any finite depth and any texts: the list handed to join is exactly the path, and what join returns is the result.'
ASSUME = ['the chain of owners is finite (no command owns itself)', 'string::join is used by the contract proved for it in C12']
