"""contract parts shared by the command line properties: fields of the real objects and functions known by contract"""
import re
from unit import *
import models, fnobj
from engine import Fn as ir_fn
AI = z3.ArraySort(I_SORT, I_SORT); AS = z3.ArraySort(I_SORT, S_SORT)
class App:
    def __init__(s, c): s.c, s.e, s.offs, s.getters = c, c.e, {}, {}
    def off(s, field):
        if field not in s.offs: s.offs[field] = fnobj.offset(s.c, 'dv_at_' + field, Ptr(Ref(z3.Int('any_object'))))
        return s.offs[field]
    def at(s, field, p): return Ptr(p.b, p.off + s.off(field))
    def spec(s):
        class Q:
            def __enter__(q): s.e.quiet += 1
            def __exit__(q, *x): s.e.quiet -= 1
        return Q()
    def get(s, st, fn, r):
        """value of a one-argument bool getter of the real code on the object at address r, as a term over the heap of st"""
        with s.spec(): outs = s.e.run(st.copy(), fn, [Ptr(Ref(r)) if not isinstance(r, Ptr) else r])
        if len(outs) != 1 or outs[0][1][0] != 'ret': raise Unsupported('getter %s forks' % fn)
        v = outs[0][1][1]; return toi(v.u()) != 0 if isinstance(v, I) else tob(v)
    def int(s, st, field, r, w=32):
        with s.spec(): return toi(s.e.load(st, ir.INT(w), s.at(field, Ptr(Ref(r)) if not isinstance(r, Ptr) else r)).s())
    def str(s, st, field, r):
        with s.spec(): return s.e.rdstr(st, s.at(field, Ptr(Ref(r)) if not isinstance(r, Ptr) else r))
    def ptr(s, st, field, r):
        with s.spec(): return toi(s.e.as_ref(s.e.load(st, ir.PTR, s.at(field, Ptr(Ref(r)) if not isinstance(r, Ptr) else r))))
    def list(s, st, field, r):
        """(length, array of addresses) of a list of objects or pointers"""
        p = s.at(field, Ptr(Ref(r)) if not isinstance(r, Ptr) else r); return toi(s.e.rd(st, p, 'len', I_SORT)), s.e.rd(st, p, 'e.ptr', AI)
    def contract(s, rx, f): s.e.contracts.insert(0, (re.compile(rx), f))
    def anystr(s, rx):
        """functions whose text result does not matter here"""
        def f(e, st, c):
            if c.attrs and 'sret' in c.attrs[0]: e.wrstr(st, c.args[0], fresh('text', S_SORT)); return [(st, ('ret', None))]
            p = e.alloc(st, 'text'); e.wrstr(st, p, fresh('text', S_SORT)); return [(st, ('ret', p))]
        s.contract(rx, f)
    def exceptions(s):
        """constructors and destructors of the library's exceptions only record their message"""
        s.contract(r'^cmdr::exception::\w+::(cmdr_exception|cmdr_biz_error|dup_error|\w+)\(', lambda e, st, c: [(st, ('ret', None))])
        s.contract(r'^cmdr::exception::\w+::~', lambda e, st, c: [(st, ('ret', None))])
    def virtual_texts(s):
        """virtual functions returning a text (titles, descriptions, group names) whose value does not matter here"""
        x = z3.Int('x'); vt = toi(s.e.rd(s.c.st, Ptr(Ref(x)), 'ptr', I_SORT)); s.c.st.assume(z3.ForAll([x], z3.Implies(x > 0, vt > 0), patterns=[vt]))
        def call(e, st, c, f):
            if not (c.attrs and 'sret' in c.attrs[0] and len(c.args) == 2): return None
            e.wrstr(st, c.args[0], fresh('text', S_SORT)); return [(st, ('ret', None))]
        s.e.indirect = call
    def devirtual(s, cls, over=None):
        """virtual calls go to the functions of class cls (assumption: no derived class overrides them); over(slot name) may replace one"""
        e = s.e; x = z3.Int('x'); vt = toi(e.rd(s.c.st, Ptr(Ref(x)), 'ptr', I_SORT)); s.c.st.assume(z3.ForAll([x], z3.Implies(x > 0, vt > 0), patterns=[vt]))
        g = e.m.ginit('_ZTVN4cmdr3opt3%sE' % cls); names = re.findall(r'ptr (@[-\w.$]+|null)', e.m.globals['_ZTVN4cmdr3opt3%sE' % cls].split('} {', 1)[1])
        def call(e, st, c, f):
            defs = {i.res: i for b in c.fn.blocks.values() for i in b.ins if i.res}; v = c.ins.x
            d = defs.get(v[1]) if v[0] == 'local' else None
            if d is None or d.op != 'load' or d.a[0][0] != 'local': return None
            q = defs.get(d.a[0][1]); slot = 0
            if q is not None and q.op == 'getelementptr' and len(q.a[1]) == 1 and q.a[1][0][1][0] == 'int': slot = q.a[1][0][1][1]
            elif q is not None and q.op != 'load': return None
            n = names[int(slot) + 2].lstrip('@'); return e.call(st, Ptr(ir_fn(n)), c)
        e.indirect = call
    def argv(s, argc):
        """argv: argc texts; -> (pointer, texts by index)"""
        e, st = s.e, s.c.st; v = z3.Int('argv'); i = z3.Int('i'); arr = e.rd(st, Ptr(Ref(v)), 'a8.ptr', AI); st.assume(v > 0)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < argc), z3.Select(arr, i) > 0), patterns=[z3.Select(arr, i)]))
        return Ptr(Ref(v)), lambda i: e.TEXT(z3.Select(arr, toi(i)))

def positions(ls):
    """positions a loop may run through a sequence with: iterators and counters"""
    return [(nm, toi(p.b.idx)) for nm, p, _ in ls.ptrs() if p.b.kind in ('elem', 'lit')] + [(nm, toi(x.u())) for nm, x, _ in ls.ints()]
def quads(ls):
    """the loop of std::find_if and its like: four elements a turn"""
    return [('turns left of four', z3.And(toi(x.s()) >= 0, toi(x.s()) * 4 + toi(p.b.idx) <= n, n < toi(x.s()) * 4 + toi(p.b.idx) + 4)) for _, p, _ in ls.ptrs() if p.b.kind in ('elem', 'lit') for n in [toi(ls.e.rd(ls.st, p.b.c, 'len', I_SORT))] for _, x, _ in ls.ints() if x.w == 64]
