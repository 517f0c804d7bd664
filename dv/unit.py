"""One verification unit = one real function under contract: run it symbolically, discharge its obligations."""
import time, re, traceback, z3
import ir, models, build
from engine import *
import vexec

class Unit:
    def __init__(s, name, tu, fn, go, opts=None, needs=None, what=''):
        s.name, s.tu, s.fn, s.go, s.opts, s.what = name, tu, fn, go, opts or {}, what
class Ctx:
    """what a contract's `go` works with"""
    def __init__(s, unit, mod):
        s.u, s.m = unit, mod
        s.e = vexec.Verifier(mod, models, unit.opts)
        s.st = State()
        s.reach = []
        s.inputs = {}
        s.notes = []
    # inputs
    def text(s, name):
        p = s.e.newloc(name); t = z3.Const(name, S_SORT); s.e.wrstr(s.st, p, t)
        s.st.assume(z3.Length(t) <= models.MAXLEN)
        s.inputs[name] = t; return p, t
    def ctext(s, name):
        """a NUL-terminated constant text argument"""
        t = z3.Const(name, S_SORT); s.inputs[name] = t; s.st.assume(z3.Length(t) <= models.MAXLEN); return Ptr(CStr(t)), t
    def outtext(s, name='out'):
        p = s.e.newloc(name); s.e.wrstr(s.st, p, z3.Const(name + '_before', S_SORT)); return p
    def int(s, name, w, lo=None, hi=None, signed=None):
        t = z3.Int(name); a, b = canon_range(w)
        if signed is True: a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if signed is False: a, b = 0, (1 << w) - 1
        a = a if lo is None else lo; b = b if hi is None else hi
        s.st.assume(z3.And(t >= a, t <= b)); s.inputs[name] = t
        return I(t, w, a, b), t
    def fname(s, fn=None):
        fn = fn or s.u.fn
        if fn in s.m.funcs: return fn
        r = [n for n in s.m.findre(fn)]
        if len(r) != 1: raise Unsupported('%d functions match %s' % (len(r), fn))
        return r[0]
    def call(s, args, fn=None, st=None):
        outs = s.e.run(st or s.st, s.fname(fn), args)
        return outs
    def post(s, outs, name, f, exc='forbid'):
        """f(state, value) -> formula for every normal outcome; exceptional outcomes per `exc`"""
        for st, o in outs:
            if o[0] == 'ret':
                s.reached(st, 'return')
                s.e.oblige(st, name, f(st, o[1]))
            else:
                x = exc(st, o[1]) if callable(exc) else False
                if x is None: continue
                s.e.oblige(st, name + ' (throws %s)' % (o[1].ty or 'callback exception'), x)
    def span(s, st, r, base):
        """(i, n) with r == base[i..i+n), or None"""
        r = simp(r)
        def go(t):
            if t.eq(base): return z3.IntVal(0), z3.Length(base)
            if z3.is_string_value(t) and t.as_string() == '': return z3.IntVal(0), z3.IntVal(0)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                q = go(t.arg(0))
                if q is None: return None
                i, n = t.arg(1), t.arg(2); L0 = q[1]
                ok = s.e.ite(st, z3.And(i >= 0, i <= L0, n >= 0), True, False)
                if ok is not True: return None
                return q[0] + i, s.e.ite(st, n <= L0 - i, n, L0 - i)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = t.children()
                if not s.e.feasible(st, z3.Not(c)): return go(a)
                if not s.e.feasible(st, c): return go(b)
            return None
        return go(r)
    def reached(s, st, what):
        if len(s.reach) < 4:
            sv = z3.Solver(); sv.set('timeout', 3000)
            for f in st.pc: sv.add(f)
            r = sv.check(); s.reach.append((what, str(r)))

def run_unit(u, mod):
    """-> plain dict describing the result"""
    t = time.time(); c = Ctx(u, mod); res = dict(unit=u.name, fn=u.fn, what=u.what, status='undecided', reason='', obls=[], secs=0)
    try:
        u.go(c)
    except Unsupported as x: res['reason'] = 'unsupported: %s' % x
    except ir.IRError as x: res['reason'] = 'unsupported IR: %s' % x
    except z3.Z3Exception as x: res['reason'] = 'solver error: %s %s' % (str(x)[:300], traceback.format_exc()[-500:])
    except RecursionError as x: res['reason'] = 'recursion limit'
    except Exception as x: res['reason'] = 'engine error: %s' % traceback.format_exc()[-1500:]
    res['secs'] = round(time.time() - t, 2)
    e = c.e
    for o in e.obls:
        d = dict(name=o.name, status=o.status, ms=round(o.ms, 1), backend=o.backend, kind=o.kind, detail=str(o.detail)[:200])
        if o.status != 'valid' and o.model is not None:
            d['model'] = {n: str(o.model.eval(t, model_completion=True))[:300] for n, t in c.inputs.items()}
        if o.status != 'valid': d['goal'] = str(getattr(o, 'goal', ''))[:400]
        res['obls'].append(d)
    res['reach'] = c.reach; res['loops'] = e.loopinfo; res['assumed'] = sorted(e.assumed)
    res['contracts_used'] = sorted(e.called); res['inlined'] = len(e.inlined); res['inlined_repo'] = sorted(x for x in e.inlined if 'cmdr::' in x and not x.startswith('std::'))[:60]
    res['queries'] = e.stats['queries']; res['solver_ms'] = round(e.stats['ms'])
    if res['reason']: return res
    if not e.obls: res['reason'] = 'no obligations'; return res
    if not any(r == 'sat' for _, r in c.reach):
        if any(r == 'unsat' for _, r in c.reach) and not any(r == 'unknown' for _, r in c.reach): res['reason'] = 'vacuous: no outcome reachable'; return res
        if not c.reach: res['reason'] = 'no normal outcome'
    bad = [o for o in e.obls if o.status != 'valid']
    if not bad: res['status'] = 'proved' if not res['reason'] else 'undecided'
    elif any(o.status == 'sat' for o in bad): res['status'] = 'failed'; res['reason'] = '; '.join(sorted({o.name for o in bad}))[:400]
    else: res['reason'] = 'not discharged: ' + '; '.join(sorted({o.name for o in bad}))[:300]
    return res
