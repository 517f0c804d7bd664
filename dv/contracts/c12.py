"""C12: tokenise, split, join, replace (cmdr_string.hh)"""
from unit import *
import models
L = z3.Length
ASTR = z3.ArraySort(I_SORT, S_SORT)
SPACE = [9, 10, 11, 12, 13, 32]
def cells(ls, comp, sort=None):
    """addresses of the objects written by the loop that have the component"""
    for n in ls.vals:
        if n.startswith('cell:'):
            k = eval(n[5:])
            if k[2] == comp: yield k
def vecs(ls):
    for k in cells(ls, 'len'):
        a = ls.st.mem.get((k[0], k[1], 'e.str'))
        if a is None: a = z3.K(I_SORT, z3.StringVal(''))
        yield k, toi(ls.st.mem[k] if not isinstance(ls.st.mem[k], I) else ls.st.mem[k].t), a
def each(n, a, text):
    """items 0..n-1 are exactly text(j)"""
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == text(j)))
def outvec(c, name='out'):
    p = c.e.newloc(name); c.e.wr(c.st, p, 'len', I_SORT, z3.IntVal(0)); c.e.wr(c.st, p, 'e.str', ASTR, z3.K(I_SORT, z3.StringVal('')))
    return p
def getvec(c, st, p): return toi(c.e.rd(st, p, 'len', I_SORT)), c.e.rd(st, p, 'e.str', ASTR)
def runs(c, s, delim, keep):
    """TB(k), TE(k): begin and end of the k-th maximal run of non-delimiters"""
    e = c.e; TB, TE = z3.Function('TB', I_SORT, I_SORT), z3.Function('TE', I_SORT, I_SORT); k = z3.Int('k')
    al = lambda i, j, cs: e.allin(s, i, j, cs)
    ax = lambda k: z3.And(TE(k - 1) <= TB(k), TB(k) <= L(s), al(TE(k - 1), TB(k), delim), z3.Implies(TB(k) < L(s), incodes(CODE(s, TB(k)), keep)),
                          TB(k) <= TE(k), TE(k) <= L(s), al(TB(k), TE(k), keep), z3.Implies(TE(k) < L(s), incodes(CODE(s, TE(k)), delim)))
    e.axioms += [TE(-1) == 0, z3.ForAll([k], z3.Implies(k >= 0, ax(k)), patterns=[TB(k)]), z3.ForAll([k], z3.Implies(k >= 0, ax(k)), patterns=[TE(k)])]
    return TB, TE, ax
def pos(v):
    if isinstance(v, Ptr) and v.b.kind == 'strd': return toi(v.idx) + v.off
    return None
def tok(chardelim):
    def go(c):
        p, s = c.text('s'); out = outvec(c); args = [out, p]
        if chardelim:
            d, dt = c.int('delim', 8); args.append(d); delim, keep = ('eq', dt), ('ne', dt)
        else: delim, keep = SPACE, [x for x in range(256) if x not in SPACE]
        TB, TE, ax = runs(c, s, delim, keep); e = c.e
        e.lenterms.append(('|s|', L(s)))
        item = lambda j: z3.SubString(s, TB(j), TE(j) - TB(j))
        def cand(ls):
            r = []
            for k, n, a in vecs(ls):
                t = '%s' % (k,)
                r += [('count %s >= 0' % t, n >= 0), ('items %s are the first runs' % t, each(n, a, item)), ('runs %s exist' % t, z3.And(ax(n), z3.Implies(n > 0, z3.And(TB(n - 1) < L(s), TE(n - 1) > TB(n - 1)))))]
                P = [(nm, pos(v)) for nm, v in ls.vals.items() if pos(v) is not None]
                for nm, i in P:
                    for kk in cells(ls, 'str'):
                        m = L(ls.st.mem[kk])
                        r += [('token %s=%s in run up to %s' % (kk, t, nm), z3.And(m <= i, i <= L(s), z3.If(m > 0, z3.And(TB(n) == i - m, ls.st.mem[kk] == z3.SubString(s, i - m, m), e.allin(s, i - m, i, keep)), z3.And(TE(n - 1) <= i, e.allin(s, TE(n - 1), i, delim)))))]
                    for n2, b in P:
                        if n2 != nm: r += [('run from %s to %s' % (n2, nm), z3.And(0 <= i, i <= L(s), b <= L(s), z3.If(b == L(s), z3.And(TE(n - 1) <= i, e.allin(s, TE(n - 1), i, delim)), z3.And(TB(n) == b, b < i, e.allin(s, b, i, keep)))))]
            return r
        e.loopcands.append(cand)
        outs = c.call(args)
        def post(st, v):
            n, a = getvec(c, st, out)
            return z3.And(n >= 0, each(n, a, item), ax(n), TB(n) == L(s))
        c.post(outs, 'the tokens are exactly the maximal runs of other characters, in order', post)
    return go
def split_char(c):
    p, s = c.text('s'); out = outvec(c); d, dt = c.int('delim', 8); e = c.e
    B, E = z3.Function('SB', I_SORT, I_SORT), z3.Function('SE', I_SORT, I_SORT); k = z3.Int('k')
    ax = lambda k: z3.And(B(k) <= E(k), z3.Implies(B(k) <= L(s), z3.And(E(k) <= L(s), e.allin(s, B(k), E(k), ('ne', dt)), z3.Implies(E(k) < L(s), CODE(s, E(k)) == dt))), B(k + 1) == E(k) + 1)
    e.axioms += [B(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, ax(k)), patterns=[B(k)]), z3.ForAll([k], z3.Implies(k >= 0, ax(k)), patterns=[E(k)])]
    item = lambda j: z3.SubString(s, B(j), E(j) - B(j))
    def cand(ls):
        r = []
        for kk, n, a in vecs(ls):
            t = '%s' % (kk,)
            r += [('count %s >= 0' % t, n >= 0), ('items %s' % t, each(n, a, item)), ('last %s' % t, z3.And(ax(n), B(n) >= 0, z3.Implies(n > 0, z3.And(ax(n - 1), B(n - 1) < L(s), B(n - 1) >= 0))))]
            for kp in cells(ls, 'inpos'):
                ip = toi(ls.st.mem[kp])
                r += [('read up to item %s' % t, z3.And(0 <= ip, ip <= L(s), z3.Or(ip == B(n), z3.And(ip == L(s), B(n) > L(s)))))]
        for kp in cells(ls, 'infail'): r += [('not failed %s' % (kp,), z3.Not(tob(ls.st.mem[kp])))]
        return r
    e.loopcands.append(cand)
    outs = c.call([out, p, d])
    def post(st, v):
        n, a = getvec(c, st, out)
        return z3.And(n >= 0, each(n, a, item), ax(n), B(n) >= L(s))
    c.post(outs, 'the items are exactly the pieces between delimiters, in order', post)
def split_text(c):
    p, s = c.text('s'); out = outvec(c); q, d = c.text('delim'); e = c.e
    B = z3.Function('PB', I_SORT, I_SORT); k = z3.Int('k'); E = lambda k: models.FIND(s, d, B(k))
    ax = lambda k: z3.And(E(k) >= -1, z3.Implies(E(k) >= 0, z3.And(E(k) >= B(k), E(k) + L(d) <= L(s), B(k + 1) == E(k) + L(d))))
    e.axioms += [B(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, ax(k)), patterns=[B(k)])]
    item = lambda j: z3.SubString(s, B(j), E(j) - B(j))
    isin = lambda n: (lambda j: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), E(j) >= 0), patterns=[B(j)]))(z3.Int('j'))
    def cand(ls):
        r = []
        for kk, n, a in vecs(ls):
            r += [('count >= 0', n >= 0), ('items', each(n, a, item)), ('pieces end', isin(n)), ('in text', z3.And(B(n) >= 0, B(n) <= L(s)))]
            for nm, v in ls.vals.items():
                if isinstance(v, I) and nm.startswith('phi:'):
                    x = toi(v.u()); r += [('%s is the start' % nm, x == B(n)), ('%s is the end' % nm, z3.If(E(n) >= 0, x == E(n), x == models.NPOS))]
        return r
    e.loopcands.append(cand)
    outs = c.call([out, p, q])
    def post(st, v):
        n, a = getvec(c, st, out)
        whole = z3.And(n == 1, z3.Select(a, 0) == s)
        return z3.If(L(d) == 0, whole, z3.And(n >= 1, each(n - 1, a, item), isin(n - 1), z3.Select(a, n - 1) == z3.SubString(s, B(n - 1), L(s) - B(n - 1)), E(n - 1) == -1))
    c.post(outs, 'the items are exactly the pieces between delimiters, in order', post)
def join(kind, textual):
    def go(c):
        e = c.e; out = c.outtext(); v = e.newloc('items'); n = z3.Int('n'); a = z3.Const('items', ASTR); c.inputs['n'] = n
        c.st.assume(z3.And(n >= 0, n < (1 << 31) - 1)); e.wr(c.st, v, 'len', I_SORT, n)
        if kind == 'str': e.wr(c.st, v, 'e.str', ASTR, a); item = lambda j: z3.Select(a, j)
        else:
            # array of constant texts: distinct addresses, each a NUL-terminated text
            ad = z3.Const('addr', z3.ArraySort(I_SORT, I_SORT)); e.wr(c.st, v, 'e.ptr', z3.ArraySort(I_SORT, I_SORT), ad)
            j = z3.Int('j'); c.st.assume(z3.ForAll([j], z3.Select(ad, j) > 0, patterns=[z3.Select(ad, j)])); item = lambda j: e.TEXT(z3.Select(ad, j))
        if textual:
            dp, d = c.ctext('delim'); bp, b = c.ctext('before'); ap, af = c.ctext('after'); args = [dp, bp, ap]; bt, at = b, af
        else:
            (d_, dt), (b_, bt_), (a_, at_) = c.int('delim', 8), c.int('before', 8), c.int('after', 8)
            ch = lambda I_, t: e.chr_of(c.st, I_); d = ch(d_, dt); args = [d_, b_, a_]
            bt = z3.If(bt_ == 0, z3.StringVal(''), ch(b_, bt_)); at = z3.If(at_ == 0, z3.StringVal(''), ch(a_, at_))
        J = z3.Function('joined', I_SORT, S_SORT); i = z3.Int('i')
        e.axioms += [J(0) == z3.StringVal(''), z3.ForAll([i], z3.Implies(i >= 0, J(i + 1) == z3.If(i == 0, item(i), z3.Concat(J(i), d, item(i)))), patterns=[item(i)])]
        def cand(ls):
            r = []
            for k in cells(ls, 'ss'): r.append(('text so far %s' % (k,), ls.st.mem[k] == z3.Concat(bt, J(ls.k))))
            return r
        e.loopcands.append(cand)
        outs = c.call([out, v] + args)
        c.post(outs, 'the items in order, the delimiter exactly between neighbours, the brackets outside', lambda st, r: e.rdstr(st, out) == z3.Concat(bt, J(n), at))
    return go
def replace(c):
    p, s = c.text('s'); q, a = c.text('from'); r, b = c.text('to')
    outs = c.call([p, q, r]); i = z3.IndexOf(s, a, 0)
    c.post(outs, 'replaces exactly the first occurrence', lambda st, v: z3.And(tob(v) == z3.Contains(s, a), c.e.rdstr(st, p) == z3.If(z3.Contains(s, a), z3.Concat(z3.SubString(s, 0, i), b, z3.SubString(s, i + L(a), L(s) - i - L(a))), s)))
def replace_all(c):
    p, s = c.text('s'); q, a = c.text('from'); r, b = c.text('to'); e = c.e
    F = models.FIND; T, U, X = z3.Consts('T U X', S_SORT); i = z3.Int('i')
    e.axioms += [z3.ForAll([T, U, X], F(z3.Concat(T, U), X, L(T)) == z3.If(F(U, X, 0) < 0, -1, L(T) + F(U, X, 0)), patterns=[F(z3.Concat(T, U), X, L(T))]),
                 z3.ForAll([T, i, X], z3.Implies(z3.And(0 <= i, i <= L(T)), F(z3.SubString(T, i, L(T) - i), X, 0) == z3.If(F(T, X, i) < 0, -1, F(T, X, i) - i)), patterns=[F(z3.SubString(T, i, L(T) - i), X, 0)])]
    Q, O = z3.Function('RQ', I_SORT, I_SORT), z3.Function('RO', I_SORT, S_SORT); k = z3.Int('k'); at = lambda k: F(s, a, Q(k))
    ax = lambda k: z3.Implies(at(k) >= 0, z3.And(at(k) >= Q(k), at(k) + L(a) <= L(s), Q(k + 1) == at(k) + L(a), O(k + 1) == z3.Concat(O(k), z3.SubString(s, Q(k), at(k) - Q(k)), b)))
    e.axioms += [Q(0) == 0, O(0) == z3.StringVal(''), z3.ForAll([k], z3.Implies(k >= 0, ax(k)), patterns=[Q(k)])]
    rest = lambda k: z3.SubString(s, Q(k), L(s) - Q(k))
    def cand(ls):
        r = [('in text', z3.And(0 <= Q(ls.k), Q(ls.k) <= L(s)))]
        for kk in cells(ls, 'str'): r.append(('DEF replaced so far', ls.st.mem[kk] == z3.Concat(O(ls.k), rest(ls.k))))
        for nm, v in ls.vals.items():
            if isinstance(v, I): r.append(('DEF %s after the replaced part' % nm, toi(v.u()) == L(O(ls.k))))
        if z3.is_const(ls.k) and not z3.is_int_value(ls.k): c.lastk = ls.k
        return r
    e.loopcands.append(cand)
    outs = c.call([p, q, r])
    def post(st, v):
        if not hasattr(c, 'lastk'): return e.rdstr(st, p) == s
        k = c.lastk; t = e.rdstr(st, p)
        return z3.If(L(a) == 0, t == s, z3.And(k >= 0, t == z3.Concat(O(k), rest(k)), at(k) == -1))
    c.post(outs, 'replaces exactly the non-overlapping occurrences from left to right', post)
def lemmas(c):
    """the two facts about first occurrences used for replace_all, shown for the solver's own string theory"""
    T, U, X = z3.Consts('T U X', S_SORT); i = z3.Int('i'); F = z3.IndexOf
    c.e.oblige(c.st, 'lemma: search from the seam of a concatenation', F(z3.Concat(T, U), X, L(T)) == z3.If(F(U, X, 0) < 0, -1, L(T) + F(U, X, 0)), 'lemma')
    c.e.oblige(c.st, 'lemma: search inside a tail', z3.Implies(z3.And(0 <= i, i <= L(T)), F(z3.SubString(T, i, L(T) - i), X, 0) == z3.If(F(T, X, i) < 0, -1, F(T, X, i) - i)), 'lemma')
    c.reached(c.st, 'lemma')
def units():
    U = [Unit('tokenize(blanks)', 'strings', 'dv_tokenize', tok(False)), Unit('tokenize(char)', 'strings', 'dv_tokenize_c', tok(True)),
         Unit('split(char)', 'strings', 'dv_split_c', split_char), Unit('split(text)', 'strings', 'dv_split_s', split_text, dict(findlemma=True)),
         Unit('join(strings, char)', 'strings', 'dv_join_c', join('str', False)), Unit('join(strings, text)', 'strings', 'dv_join_p', join('str', True)),
         Unit('join(texts, char)', 'strings', 'dv_join_cc', join('ptr', False)), Unit('join(texts, text)', 'strings', 'dv_join_cp', join('ptr', True)),
         Unit('replace', 'strings', 'dv_replace', replace), Unit('replace_all', 'strings', 'dv_replace_all', replace_all, dict(findlemma=True)),
         Unit('search lemmas', 'strings', 'dv_replace_all', lemmas)]
    return U
HARNESS = 'c12'
NOTE = 'unbounded proof per function over all texts; trusts std::string / stringstream / vector contracts, clang IR, z3/cvc5; a bounded concrete harness runs beside it only to produce failing inputs'
ASSUME = ['join: fewer than 2^31 - 1 items', 'constant text arguments (char const*) are valid NUL-terminated texts']
