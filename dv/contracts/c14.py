"""C14: Jaro similarity of two names (text::jaro_winkler_distance)"""
import re
from unit import *
import models
L = z3.Length
AI = z3.ArraySort(I_SORT, I_SORT)
CNT = z3.Function('CNT', AI, I_SORT, I_SORT)     # CNT(a, n) = a[0] + ... + a[n-1]
BITS = z3.Function('BITS', AI, I_SORT, B_SORT)   # a[0..n) holds only 0 and 1
LOWER = z3.Function('lower', S_SORT, S_SORT)
def bits_def(a, n): j = z3.Int('j'); return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(a, j) >= 0, z3.Select(a, j) <= 1)))
# facts about counting; each one is instantiated where needed and proved (by induction where marked) in the unit 'counting lemmas'
def l_step(cnt, a, n): return z3.And(cnt(a, 0) == 0, z3.Implies(n >= 0, cnt(a, n + 1) == cnt(a, n) + z3.Select(a, n)))
def l_store(cnt, a, j, v, n): return z3.Implies(z3.And(n >= 0, j >= 0), cnt(z3.Store(a, j, v), n) == cnt(a, n) + z3.If(j < n, v - z3.Select(a, j), 0))
def l_bound(cnt, bits, a, n): return z3.Implies(z3.And(n >= 0, bits(a, n)), z3.And(cnt(a, n) >= 0, cnt(a, n) <= n))
def l_mono(cnt, bits, a, m, n): return z3.Implies(z3.And(0 <= m, m <= n, bits(a, n)), cnt(a, m) <= cnt(a, n))
def l_bits(bits, a, j, n): return z3.Implies(z3.And(bits(a, n), 0 <= j, j < n), z3.And(z3.Select(a, j) >= 0, z3.Select(a, j) <= 1))
def l_bits_part(bits, a, m, n): return z3.Implies(z3.And(bits(a, n), m <= n), bits(a, m))
def l_bits_store(bits, a, j, v, n): return z3.Implies(z3.And(bits(a, n), v >= 0, v <= 1), bits(z3.Store(a, j, v), n))
def l_zero(cnt, bits, n): z = z3.K(I_SORT, z3.IntVal(0)); return z3.And(bits(z, n), z3.Implies(n >= 0, cnt(z, n) == 0))
def lemmas(c):
    a = z3.Const('a', AI); j, v, n, m = z3.Ints('j v n m'); e = c.e
    step = lambda a, n: l_step(CNT, a, n)
    st = c.st
    def by_induction(name, f, v, lo, defs):
        s0 = st.copy(); [s0.assume(d(lo)) for d in defs]; e.oblige(s0, name + ' (base)', f(lo), 'lemma')
        s1 = st.copy(); s1.assume(v >= lo); [s1.assume(d(v)) for d in defs]; s1.assume(f(v)); e.oblige(s1, name + ' (step)', f(v + 1), 'lemma')
    by_induction('storing changes the count by the difference', lambda x: l_store(CNT, a, j, v, x), n, z3.IntVal(0), [lambda x: step(a, x), lambda x: step(z3.Store(a, j, v), x)])
    by_induction('a count of bits is between 0 and the length', lambda x: l_bound(CNT, bits_def, a, x), n, z3.IntVal(0), [lambda x: step(a, x)])
    by_induction('counts of bits grow with the length', lambda x: l_mono(CNT, bits_def, a, m, x), n, m, [lambda x: step(a, x)])
    by_induction('the count of zeros is zero', lambda x: CNT(z3.K(I_SORT, z3.IntVal(0)), x) == 0, n, z3.IntVal(0), [lambda x: step(z3.K(I_SORT, z3.IntVal(0)), x)])
    for nm, f in (('entries of bits', l_bits(bits_def, a, j, n)), ('part of bits', l_bits_part(bits_def, a, m, n)), ('storing a bit', l_bits_store(bits_def, a, j, v, n)), ('zeros are bits', bits_def(z3.K(I_SORT, z3.IntVal(0)), n))): e.oblige(st, nm, f, 'lemma')
    c.reached(st, 'lemma')
def to_lower_contract(e, st, c):
    p = c.args[0]; t = e.rdstr(st, p); e.wrstr(st, p, LOWER(t)); st.assume(L(LOWER(t)) == L(t)); return [(st, ('ret', None))]
def minmax_contract(big):
    def go(e, st, c):
        x, y = toi(c.args[0].s()), toi(c.args[1].s())
        return [(st, ('ret', I(z3.If((x > y) if big else (x < y), x, y), 32, -(1 << 31), (1 << 31) - 1)))]
    return go
def umax_contract(e, st, c):
    x, y = toi(c.args[0].u()), toi(c.args[1].u()); return [(st, ('ret', I(z3.If(x > y, x, y), 64, 0, (1 << 64) - 1)))]
def umax(c):
    (a, at), (b, bt) = c.int('a', 64), c.int('b', 64)
    outs = c.call([a, b]); A, Bt = toi(a.u()), toi(b.u())
    c.post(outs, 'the larger of the two', lambda st, v: toi(v.u()) == z3.If(A > Bt, A, Bt))
def minmax(big):
    def go(c):
        (a, at), (b, bt) = c.int('a', 32), c.int('b', 32)
        outs = c.call([a, b])
        c.post(outs, 'the %s of the two' % ('larger' if big else 'smaller'), lambda st, v: toi(v.s()) == z3.If((at > bt) if big else (at < bt), at, bt))
    return go
def to_lower(c):
    p, t = c.text('s'); n0 = L(t)
    c.e.loopcands.append(lambda ls: [('length of the text', L(c.e.rdstr(ls.st, p)) == n0)])
    outs = c.call([p])
    c.post(outs, 'keeps the length', lambda st, v: L(c.e.rdstr(st, p)) == n0)
def jaro(cs):
    def go(c):
        e = c.e; ap, a = c.ctext('a'); bp, b = c.ctext('b')
        e.contracts += [(re.compile(r'^cmdr::string::to_lower\('), to_lower_contract), (re.compile(r'cmdr::cross::max<int>'), minmax_contract(True)), (re.compile(r'cmdr::cross::min<int>'), minmax_contract(False)), (re.compile(r'cmdr::cross::max<unsigned long>'), umax_contract)]
        for t in (a, b): c.st.assume(L(t) < (1 << 30))
        ap_ = z3.Bool('append'); th = z3.Real('threshold'); c.inputs['threshold'] = th; c.st.assume(z3.And(th >= 0, th <= 1))
        got, mat = e.newloc('got'), e.newloc('matched')
        e.lenterms += [('|a|', L(a)), ('|b|', L(b))]
        seen = set()
        def fact(f):
            if f.get_id() not in seen: seen.add(f.get_id()); e.gaxioms.append((f, e.constnames(f))); keep.append(f)
        keep = []
        def facts(v, n, S):
            for x in S: fact(l_step(CNT, v, x))
            for x in S + [n]: fact(l_bound(CNT, BITS, v, x)); fact(l_zero(CNT, BITS, x)); fact(l_bits_part(BITS, v, x, n))
            for x in S: fact(l_mono(CNT, BITS, v, x, n)); fact(l_mono(CNT, BITS, v, x + 1, n)); fact(l_bits(BITS, v, x, n)); fact(l_bits_part(BITS, v, x + 1, n))
            t = v
            while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                u, j, w = t.children()
                for x in S + [n, j, simp(j + 1)]: fact(l_store(CNT, u, j, w, toi(x))); fact(l_bits_store(BITS, u, j, w, toi(x)))
                fact(l_step(CNT, u, j)); fact(l_bits(BITS, u, j, n)); t = u
        def cand(ls):
            r = []; A = []
            for k, v in sorted(ls.st.mem.items(), key=str):
                if k[2] == 'e.i32' and isinstance(v, z3.ExprRef): A.append((k, v, toi(ls.st.mem[(k[0], k[1], 'len')])))
            S = [(nm, toi(v.canon()), ls.init.get(nm)) for nm, v in ls.vals.items() if isinstance(v, I)]
            for k, v, n in A:
                facts(v, n, [x for _, x, _ in S])
                r += [('bits %s' % k[0], BITS(v, n)), ('count %s >= 0' % k[0], CNT(v, n) >= 0), ('count %s in range' % k[0], CNT(v, n) <= n)]
                for nm, x, x0 in S:
                    r += [('all counted in %s is %s' % (k[0], nm), CNT(v, n) == x), ('nothing counted in %s from %s on' % (k[0], nm), z3.And(x >= 0, x <= n, CNT(v, n) == CNT(v, x)))]
                    if isinstance(x0, I): r.append(('nothing counted in %s since %s' % (k[0], nm), CNT(v, x) == CNT(v, toi(x0.canon()))))
            for x in range(len(A)):
                for y in range(x + 1, len(A)):
                    r.append(('equal counts', CNT(A[x][1], A[x][2]) == CNT(A[y][1], A[y][2])))
                for y in range(len(A)):
                    if x != y:
                        for nm, i, _ in S:
                            for nm2, i2, _ in S:
                                if nm2 != nm: r.append(('as many counted in %s to %s as in %s to %s' % (A[x][0][0], nm, A[y][0][0], nm2), CNT(A[x][1], i) == CNT(A[y][1], i2)))
            for nm, t in ls.vals.items():
                if isinstance(t, z3.ExprRef) and t.sort() == z3.RealSort():
                    r.append(('%s >= 0' % nm, t >= 0))
                    for k, v, n in A:
                        for nm2, x, _ in S: r.append(('%s <= count of %s to %s' % (nm, k[0], nm2), t <= z3.ToReal(CNT(v, x))))
            return r
        e.loopcands.append(cand)
        outs = c.call([ap, bp, cs, ap_, th, got, mat])
        X = z3.Reals('m la lb t')
        def post(st, v): return z3.And(v >= 0, v <= 1)
        c.post(outs, 'between 0 and 1', post)
        for st, o in outs:
            if o[0] != 'ret': continue
            g = e.rd(st, got, 'double', z3.RealSort()); m = e.load(st, ir.INT(8), mat).u()
            e.oblige(st, 'the recorded distance is the returned one', g == o[1])
            e.oblige(st, 'identical names score 1', z3.Implies(z3.And(a == b, L(a) > 0), o[1] == 1))
            e.oblige(st, 'an empty name scores 0', z3.Implies(z3.Or(L(a) == 0, L(b) == 0), o[1] == 0))
            e.oblige(st, 'a score at the threshold matches', z3.Implies(o[1] >= th, toi(m) != 0))
            e.oblige(st, 'a score clearly below the threshold does not match', z3.Implies(o[1] < th - z3.RealVal('0.0000001'), toi(m) == 0))
    return go
def nothing_common(c):
    e = c.e; ap, a = c.ctext('a'); bp, b = c.ctext('b')
    e.contracts += [(re.compile(r'cmdr::cross::max<int>'), minmax_contract(True)), (re.compile(r'cmdr::cross::min<int>'), minmax_contract(False)), (re.compile(r'cmdr::cross::max<unsigned long>'), umax_contract)]
    for t in (a, b): c.st.assume(L(t) < (1 << 30))
    i, j = z3.Ints('i j'); c.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < L(a), 0 <= j, j < L(b)), CODE(a, i) != CODE(b, j)), patterns=[z3.MultiPattern(CODE(a, i), CODE(b, j))]))
    th = z3.Real('threshold'); c.st.assume(z3.And(th >= 0, th <= 1)); c.st.assume(a != b)
    e.lenterms += [('|a|', L(a)), ('|b|', L(b))]
    outs = c.call([ap, bp, True, False, th, e.newloc('got'), e.newloc('matched')])
    c.post(outs, 'no character in common scores 0', lambda st, v: v == 0)
def units():
    o = dict(maxtime=400, softcands=True)
    return [Unit('jaro similarity (case sensitive)', 'strings', 'dv_jaro', jaro(True), o), Unit('jaro similarity (case insensitive)', 'strings', 'dv_jaro', jaro(False), o),
            Unit('names without a common character', 'strings', 'dv_jaro', nothing_common, o),
            Unit('counting lemmas', 'strings', 'dv_jaro', lemmas), Unit('to_lower', 'strings', 'dv_to_lower', to_lower), Unit('cross::max (sizes)', 'strings', 'dv_umax', umax), Unit('cross::max', 'strings', 'dv_max', minmax(True)), Unit('cross::min', 'strings', 'dv_min', minmax(False))]
HARNESS = 'c14'
HSECS = 20
NOTE = 'proof for every pair of names shorter than 2^30 characters: the loops of calc() by inductive invariants over two bit tables (equal counts, bounds), the counting facts by induction in a unit of their own; double arithmetic as real arithmetic, so the bound 0..1 is exact in the reals and the harness covers rounding'
ASSUME = ['IEEE double arithmetic treated as real arithmetic', 'char to lower case: std::ctype<char>::tolower maps each character to some character', 'to_lower gives equal texts for equal texts (it is a function of the text)']
