"""C02: a flag token selects the longest matching flag of the active commands"""
from appx import *
from c01 import frame, hitoffs
ACT = z3.Function('active', I_SORT, B_SORT)             # the command is a matched one or an owner of one
PRE = z3.Function('is_prefix', S_SORT, S_SORT, B_SORT)  # contract of string::has_prefix (text, prefix); proved to be the prefix relation in C11
OFFER = z3.Function('offered', S_SORT, I_SORT, B_SORT)  # any predicate true for every (name, flag) in the tables of the active commands
CH = z3.Function('owner of order', I_SORT, I_SORT, I_SORT); RANK = z3.Function('level', I_SORT, I_SORT); LEN = z3.Function('length of', S_SORT, I_SORT)
AB, AP = z3.ArraySort(S_SORT, B_SORT), z3.ArraySort(S_SORT, I_SORT); GOOD = z3.Function('offers only', AB, AP, B_SORT); big = 1 << 30
# What is known of the active commands is assumed as ground instances at the loop heads: every matched command is active, so is the owner of an active one, and the tables of active commands offer what they hold.
def match(c):
    a = App(c); e, st = c.e, c.st; pc, res, fn = e.newloc('context'), e.newloc('result'), e.newloc('names of'); title = z3.Const('title', S_SORT); pos = a.int(st, 'pos', pc, 64)
    e.wrstr(st, a.at('title', pc), title); st.assume(z3.And(pos >= 0, pos <= LEN(title), LEN(title) < big)); rest = z3.Const('rest', S_SORT); c.inputs['title'] = title
    n, L = a.list(st, 'matched_cmds', pc); st.assume(z3.And(n >= 0, n < big)); mcs = a.at('matched_cmds', pc); own = lambda t: a.ptr(st0, 'owner', t)
    p = a.at('long_args', Ptr(Ref(z3.Int('any_object')))); tab = lambda t: (e.rd(st0, Ptr(Ref(t), p.off), 'dom', AB), e.rd(st0, Ptr(Ref(t), p.off), 'v.ptr', AP)); q0 = z3.Int('q'); e.rd(st, Ptr(Ref(q0), p.off), 'dom', AB), e.rd(st, Ptr(Ref(q0), p.off), 'v.ptr', AP); a.ptr(st, 'owner', q0); a.int(st, 'hitcount', q0); a.str(st, 'hit_title', q0)
    for g in ('dv_hit_long', 'dv_hit_special'): a.get(st, g, q0)
    e.store(st, ir.INT(8), I(1, 8), e.gptr(st, '_ZN4cmdr3opt3bas14_longest_firstE'))
    st0 = st.copy(); I0, L0, X0 = z3.Int('some_matched'), z3.Int('some_level'), z3.Const('some_name', S_SORT); Q0 = z3.Select(L, I0); T0 = CH(Q0, L0)     # an arbitrary name of an arbitrary active command
    st.assume(z3.And(0 <= I0, I0 < n, L0 >= 0, T0 > 0)); inT0 = z3.And(z3.Select(tab(T0)[0], X0), PRE(rest, X0))
    e.store(st, ir.PTR, Ptr(Ref(z3.Int('namesof'))), fn); st.assume(z3.Int('namesof') > 0)
    fnobj.install(e, lambda e, st, t, ar, c2: [(st, ('ret', Ptr(ar[0].b, ar[0].off + p.off)))])
    def text(e, st, x): return e.rdstr(st, x)
    def sub(e, st, c2):
        r, x, k, m = c2.args; e.oblige(st, 'the remaining text is taken', z3.And(text(e, st, x) == title, toi(k.u()) == pos, toi(m.u()) >= LEN(title))); e.wrstr(st, r, rest); return [(st, ('ret', None))]
    a.contract(r'^std::string::substr\(', sub)
    def pref(e, st, c2): e.oblige(st, 'the remaining text is searched', text(e, st, c2.args[0]) == rest); return [(st, ('ret', PRE(rest, text(e, st, c2.args[1]))))]
    a.contract(r'^cmdr::string::has_prefix\(std::string const&, std::string const&', pref)
    def length(e, st, c2): x = LEN(text(e, st, c2.args[0])); st.assume(x >= 0); return [(st, ('ret', I(x, 64)))]
    a.contract(r'^std::string::(length|size)\(\)', length)
    def hit(e, st, c2): x = a.int(st, 'hitcount', toi(e.as_ref(c2.args[0]))); st.assume(z3.And(x >= 0, x < big)); return None
    a.contract(r'^cmdr::opt::bas::update_hit_count\(', hit)
    def amr(st):
        m = toi(e.load(st, ir.INT(8), a.at('amr_matched', res)).u()) != 0; return m, a.int(st, 'amr_len', res), a.str(st, 'amr_str', res), a.ptr(st, 'amr_obj', res)
    def good(st): m, k, s, o = amr(st); return z3.And(toi(e.load(st, ir.INT(8), a.at('amr_matched', res)).u()) <= 1, k >= 0, k < big, z3.If(m, z3.And(k == LEN(s), k > 0, PRE(rest, s), OFFER(s, o), o > 0), k == 0))
    def cover(st): m, k, s, o = amr(st); return z3.Implies(inT0, z3.And(m, LEN(X0) <= k))
    def cand(ls):
        s = ls.st; r = [('selected so far', good(s)), ('covered stays covered', z3.Implies(cover(ls.st0), cover(s)))]
        for nm, q, q1 in ls.ptrs():
            if q.b.kind == 'lit':
                j = toi(q.b.idx); x = z3.Select(L, j - 1); s.assume(z3.Implies(z3.And(0 < j, j <= n), z3.And(x > 0, ACT(x)))); r += [('position', z3.And(j >= 0, j <= n)), ('the commands behind are covered', z3.Implies(I0 >= j, cover(s)))]
            elif nm.startswith('phi') and q.b.kind == 'ref' and isinstance(q1, Ptr) and q1.b.kind == 'ref':
                t, i, k = toi(q.b.t), toi(q1.b.t), ls.k; D, V = tab(t); o = own(t)
                s.assume(z3.And(CH(i, 0) == i, RANK(t) >= 0, z3.Implies(ACT(t), z3.And(GOOD(D, V), z3.Implies(o != 0, z3.And(o > 0, ACT(o), RANK(o) < RANK(t))))), z3.Implies(t == CH(i, k), CH(i, k + 1) == o), z3.Implies(z3.And(i == Q0, 0 <= k, k < L0), CH(i, k + 1) > 0), z3.Implies(z3.And(i == Q0, 0 < k, k <= L0), CH(i, k) > 0)))
                r += [('an active command', z3.And(t > 0, ACT(t))), ('an active command or none', z3.Or(t == 0, z3.And(t > 0, ACT(t)))), ('on its way to the root', t == CH(i, k)), ('the levels below are covered', z3.Implies(z3.And(i == Q0, k > L0), cover(s)))]
            elif q.b.kind == 'mit':
                en = q.b.en; at = toi(q.b.idx); x = z3.Select(en['keys'], at); V = e.rd(s, q.b.c, 'v.ptr', AP); D = en['dom']
                s.assume(z3.Implies(z3.And(GOOD(D, V), 0 <= at, at < en['n']), z3.And(OFFER(x, z3.Select(V, x)), z3.Select(V, x) > 0, LEN(x) > 0, LEN(x) < big)))
                r += [('name position', z3.And(at >= 0, at <= en['n'])), ('the names before are covered', z3.Implies(z3.And(z3.Select(D, X0), PRE(rest, X0), en['pos'](D, X0) < at), z3.And(amr(s)[0], LEN(X0) <= amr(s)[1])))]
        return r
    e.loopcands.append(cand)
    e.measures.append(lambda ls: [('what is left', toi(q.b.idx) if q.b.kind == 'lit' else q.b.en['n'] - toi(q.b.idx) if q.b.kind == 'mit' else RANK(toi(q.b.t))) for nm, q, q1 in ls.ptrs() if q.b.kind in ('lit', 'mit') or nm.startswith('phi') and q.b.kind == 'ref' and isinstance(q1, Ptr) and q1.b.kind == 'ref'])
    for s1, o in c.call([res, pc, z3.Bool('is_long'), z3.Bool('is_special'), fn]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        c.reached(s1, 'searched'); m, k, s, ob = amr(s1)
        e.oblige(s1, 'no active flag has a longer matching name', z3.Implies(inT0, z3.And(m, LEN(X0) <= k)))
        e.oblige(s1, 'the selected name is a prefix of the remaining text', z3.Implies(m, PRE(rest, s)))
        e.oblige(s1, 'the selected flag has that name and is active', z3.Implies(m, OFFER(s, ob)))
        e.oblige(s1, 'the length is that of the name', z3.Implies(m, k == LEN(s)))
        e.oblige(s1, 'it is recorded as hit once', z3.Implies(m, a.int(s1, 'hitcount', ob) == a.int(st0, 'hitcount', ob) + 1))
        e.oblige(s1, 'with the matched text', z3.Implies(m, a.str(s1, 'hit_title', ob) == s))
        z = z3.Int('another'); e.oblige(s1, "no other flag's hit record changes", z3.Implies(z3.And(z > 0, z3.Or(z3.Not(m), z != ob)), z3.And(a.int(s1, 'hitcount', z) == a.int(st0, 'hitcount', z), a.str(s1, 'hit_title', z) == a.str(st0, 'hit_title', z), a.get(s1, 'dv_hit_long', z) == a.get(st0, 'dv_hit_long', z), a.get(s1, 'dv_hit_special', z) == a.get(st0, 'dv_hit_special', z))))
        frame(c, a, st0, s1, {q: z3.If(m, ob, 0) for q in hitoffs(c, a)}, 'the names and everything else stay')
def wrapper(field, is_long, is_special):
    def go(c):
        a = App(c); e, st = c.e, c.st; pc, res = e.newloc('context'), e.newloc('result'); q = z3.Int('any_command'); st.assume(q > 0); want = a.at(field, Ptr(Ref(q))); m, k, s, o = z3.Bool('found'), z3.Int('length'), z3.Const('name', S_SORT), z3.Int('flag')
        title = z3.Const('title', S_SORT); e.wrstr(st, a.at('title', pc), title); pos = a.int(st, 'pos', pc, 64); st.assume(z3.And(k >= 0, k < big, pos >= 0)); call = [n for n in e.m.funcs if re.match(r'std::function<.*indexed_args|std::function<.*cmdr::opt::arg\*.*const& \(cmdr::opt::cmd\*\)>::operator\(\)', e.m.dem(n))][0]
        def on(e, st, c2):
            r, x, l, sp, fn = c2.args; e.gset(st, 'searches', e.gget(st, 'searches', 0) + 1); B = lambda v: v if isinstance(v, bool) or z3.is_bool(v) else toi(v.u()) != 0
            e.oblige(st, 'the token is searched where it stands', z3.And(e.ptreq(st, x, pc), a.str(st, 'title', pc) == title, a.int(st, 'pos', pc, 64) == pos))
            e.oblige(st, 'as a %s%s flag' % ('long' if is_long else 'short', ', special' if is_special else ''), z3.And(B(l) == is_long, B(sp) == is_special)); outs = []
            for s2, o2 in e.run(st, call, [fn, Ptr(Ref(q))]):
                if o2[0] != 'ret': e.oblige(s2, 'the table is read without exception', False); continue
                e.oblige(s2, 'among the %s of every command' % ('long titles and aliases' if is_long else 'short titles'), e.ptreq(s2, o2[1], want))
                e.store(s2, ir.INT(8), I(z3.If(m, z3.IntVal(1), z3.IntVal(0)), 8, 0, 1), a.at('amr_matched', r)); e.store(s2, ir.INT(8), I(0, 8), Ptr(r.b, r.off + a.off('amr_matched') + 1)); e.store(s2, ir.INT(32), I(k, 32), a.at('amr_len', r)); e.wrstr(s2, a.at('amr_str', r), s); e.store(s2, ir.PTR, Ptr(Ref(o)), a.at('amr_obj', r)); outs.append((s2, ('ret', None)))
            return outs
        a.contract(r'^cmdr::app::matching_flag_on\(', on); st0 = st.copy()
        for s1, o1 in c.call([res, pc]):
            if o1[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'searched'); e.oblige(s1, 'searched once', e.gget(s1, 'searches', 0) == 1)
            e.oblige(s1, 'what was selected is the result', z3.And((toi(e.load(s1, ir.INT(8), a.at('amr_matched', res)).u()) != 0) == m, a.int(s1, 'amr_len', res) == k, a.str(s1, 'amr_str', res) == s, a.ptr(s1, 'amr_obj', res) == o)); frame(c, a, st0, s1, {})
    return go
def units(): return [Unit('app::matching_flag_on', 'app', 'dv_match_on', match), Unit('app::matching_special_flag', 'app', 'dv_match_special', wrapper('long_args', True, True)), Unit('app::matching_long_flag', 'app', 'dv_match_long', wrapper('long_args', True, False)), Unit('app::matching_short_flag', 'app', 'dv_match_short', wrapper('short_args', False, False))]
HARNESS = 'c02'
HSECS = 24
NOTE = 'matching_flag_on is proved for any number of matched commands, any depth of owners, any tables and any iteration order of them, with nested loop invariants (the names seen so far are covered by the selection); the three wrappers against the table they hand over.'
ASSUME = ['the setting longest-match-first has its default value', 'flag names are not empty and shorter than 2^30 characters, no flag was hit 2^30 times', 'the tables of active commands hold only pointers to flags; the chain of owners is finite', 'string::has_prefix is used by the contract proved for it in C11', 'the copy of a name table holds what the table holds and is iterated in an arbitrary order (model of std::unordered_map)']
