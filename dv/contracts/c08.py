"""C08: app::invoke_command calls the hooks in order, once, and returns the deciding hook's code"""
import re
from unit import *
import fnobj
HOOKS = (('gpre', 'a', 'global pre-hook'), ('pre', 'c', "command's pre-hook"), ('invoke', 'c', 'command handler'), ('nothooked', 'a', 'not-hooked fallback'), ('post', 'c', "command's post-hook"), ('gpost', 'a', 'global post-hook'))
NAMES = {h: n for h, _, n in HOOKS}
def invoke(c):
    e = c.e; a, cc, pc = e.newloc('app'), e.newloc('command'), e.newloc('context'); args = e.newloc('args'); toks = {}
    for h, w, _ in HOOKS:
        o = a if w == 'a' else cc; t = z3.Int(h); toks[h] = t; c.st.assume(t >= 0); c.inputs['present ' + h] = t
        e.store(c.st, ir.PTR, Ptr(Ref(t)), Ptr(o.b, fnobj.offset(c, 'dv_at_' + h, o)))
    hs = list(toks.items())
    for i in range(len(hs)):
        for j in range(i): c.st.assume(z3.Or(hs[i][1] == 0, hs[i][1] != hs[j][1]))
    e.wr(c.st, args, 'len', I_SORT, z3.Int('argn')); e.wr(c.st, args, 'e.str', z3.ArraySort(I_SORT, S_SORT), z3.Const('argv', z3.ArraySort(I_SORT, S_SORT))); c.st.assume(z3.Int('argn') >= 0)
    def call(e, st, t, ar, c2):
        h = [k for k, v in hs if v.eq(t)]
        if not h: raise Unsupported('call of an unknown function object')
        h = h[0]; n = len(e.gget(st, 'trace', ())); 
        if len(ar) >= 2:
            e.oblige(st, '%s gets the command' % NAMES[h], e.ptreq(st, ar[0], cc))
            e.oblige(st, '%s gets the arguments' % NAMES[h], z3.And(toi(e.rd(st, ar[1], 'len', I_SORT)) == z3.Int('argn'), e.rd(st, ar[1], 'e.str', z3.ArraySort(I_SORT, S_SORT)) == z3.Const('argv', z3.ArraySort(I_SORT, S_SORT))))
        r = fresh('rc_' + h, I_SORT); lo, hi = -(1 << 31), (1 << 31) - 1; x = Exc(None, e.alloc(st, 'thrown_' + h)); outs = []
        s1 = st.copy(); s1.assume(z3.And(r >= lo, r <= hi)); e.gset(s1, 'trace', e.gget(st, 'trace', ()) + ((h, r, None),)); outs.append((s1, ('ret', I(r, 32, lo, hi))))
        s2 = st.copy(); e.gset(s2, 'trace', e.gget(st, 'trace', ()) + ((h, None, x.ptr),)); outs.append((s2, ('exc', x))); return outs
    fnobj.install(e, call)
    for st, o in c.call([a, cc, args, pc]):
        c.reached(st, 'end'); tr = list(e.gget(st, 'trace', ())); pos = 0; rc = z3.IntVal(0); thrown = None
        def stage(h, cond):
            nonlocal pos, rc, thrown
            should = z3.And(toks[h] != 0, *([] if cond is None else [cond])) if not (cond is False) else z3.BoolVal(False)
            if pos < len(tr) and tr[pos][0] == h:
                e.oblige(st, '%s is called only when it is due' % NAMES[h], should); q = tr[pos]; pos += 1; return q
            e.oblige(st, '%s is called when it is due' % NAMES[h], z3.Not(should)); return None
        def main(h, cond):
            nonlocal rc, thrown
            q = stage(h, False if thrown is not None else cond)
            if q is not None:
                if q[1] is None: thrown = q[2]
                else: rc = q[1]
        main('gpre', z3.BoolVal(True)); main('pre', rc == 0); rc1 = rc; th1 = thrown
        main('invoke', rc1 == 0)
        if thrown is th1 and (pos == 0 or tr[pos - 1][0] != 'invoke'): main('nothooked', z3.And(rc1 == 0, toks['invoke'] == 0))
        for h in ('post', 'gpost'):
            q = stage(h, None)
            if q is not None and q[1] is None and thrown is None: thrown = q[2]
        e.oblige(st, 'no hook is called again', pos == len(tr))
        if thrown is not None: e.oblige(st, 'the first exception is passed on', o[0] == 'exc' and o[1].ptr is not None and e.ptreq(st, o[1].ptr, thrown))
        elif o[0] != 'ret': e.oblige(st, 'no exception of its own', False)
        else: e.oblige(st, "the result is the deciding hook's code", toi(o[1].s()) == rc)
def units(): return [Unit('app::invoke_command', 'app', 'dv_invoke', invoke)]
HARNESS = 'c08'
HSECS = 24
NOTE = 'Every path of invoke_command is executed symbolically with each of the six hooks present or not, returning any code or throwing any exception; the trace of calls is compared with the specified one.'
ASSUME = ['hooks do not replace the hooks while they run', 'std::function and std::exception_ptr as modelled (calling an empty one throws bad_function_call)']
