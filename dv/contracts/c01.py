"""C01: a command token selects exactly the sub-command carrying that name"""
from appx import *
def frame(c, a, st0, st1, but, what='nothing else changes'):
    """every heap cell that existed before has its old value, except those of `but` (offset -> address)"""
    e = c.e; x = z3.Int('any_object')
    for k in sorted(st1.heap, key=str):
        old = st0.heap.get(k, e.kdefault.get(k)); new = st1.heap[k]
        if old is None or new.eq(old): continue
        g = z3.Select(new, x) == z3.Select(old, x); g = z3.Implies(x > 0, g) if k[0] not in but else z3.Implies(z3.And(x > 0, x != but[k[0]]), g)
        e.oblige(st1, '%s (field at %d)' % (what, k[0]), g, 'frame')
HITS = ('hit_title', 'hitcount')
def match(c):
    a = App(c); e, st = c.e, c.st; pc = e.newloc('context'); res = e.newloc('result'); root = z3.Int('root'); title = z3.Const('title', S_SORT); c.inputs['title'] = title
    st.assume(root > 0); e.store(st, ir.PTR, Ptr(Ref(root)), a.at('pcroot', pc)); e.wrstr(st, a.at('title', pc), title)
    n, l = a.list(st, 'matched_cmds', pc); i = z3.Int('i'); st.assume(z3.And(n >= 0, n < (1 << 60))); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(l, i) > 0), patterns=[z3.Select(l, i)]))
    cur = z3.If(n > 0, z3.Select(l, n - 1), root); AB, AP = z3.ArraySort(S_SORT, B_SORT), z3.ArraySort(S_SORT, I_SORT); M = {}
    for f in ('long_commands', 'short_commands'):
        p = a.at(f, Ptr(Ref(cur))); dom, v = e.rd(st, p, 'dom', AB), e.rd(st, p, 'v.ptr', AP); M[f] = (z3.Select(dom, title), z3.Select(v, title)); st.assume(z3.Implies(M[f][0], M[f][1] > 0))
    (inl, pl), (ins, ps) = M['long_commands'], M['short_commands']; want = z3.Or(inl, ins); obj = z3.If(inl, pl, ps)
    for f in ('hit_title',): a.str(st, f, obj)
    st0 = st.copy(); cnt0 = a.int(st0, 'hitcount', obj); st.assume(cnt0 < (1 << 31) - 1)
    def oinit(e, st, c2): return [(st, ('ret', None))]
    a.contract(r'^std::exception::', oinit)
    for s1, o in c.call([res, pc]):
        if o[0] != 'ret': e.oblige(s1, 'no exception', False); continue
        c.reached(s1, 'looked up'); matched = toi(e.load(s1, ir.INT(8), a.at('cmr_matched', res)).u()) != 0; got = a.ptr(s1, 'cmr_obj', res)
        e.oblige(s1, 'a sub-command is selected exactly when it carries the name', matched == want)
        e.oblige(s1, 'the selected one carries the name (long titles and aliases first)', z3.Implies(want, got == obj))
        e.oblige(s1, 'nothing is selected otherwise', z3.Implies(z3.Not(want), got == 0))
        e.oblige(s1, 'the hit is counted once', z3.Implies(want, a.int(s1, 'hitcount', obj) == cnt0 + 1))
        e.oblige(s1, 'the hit is recorded under the given name', z3.Implies(want, a.str(s1, 'hit_title', obj) == title))
        e.oblige(s1, 'the hit is recorded as long or short', z3.Implies(want, a.get(s1, 'dv_hit_long', obj) == inl))
        x = z3.Int('another'); st0b = st0.copy()
        e.oblige(s1, "no other command's hit record changes", z3.Implies(z3.And(x > 0, z3.Or(z3.Not(want), x != obj)), z3.And(a.int(s1, 'hitcount', x) == a.int(st0b, 'hitcount', x), a.str(s1, 'hit_title', x) == a.str(st0b, 'hit_title', x), a.get(s1, 'dv_hit_long', x) == a.get(st0b, 'dv_hit_long', x), a.get(s1, 'dv_hit_special', x) == a.get(st0b, 'dv_hit_special', x))))
        e.oblige(s1, 'its required mark stays', z3.Implies(want, a.get(s1, 'dv_required', obj) == a.get(st0b, 'dv_required', obj)))
        frame(c, a, st0, s1, {o: obj for o in hitoffs(c, a)}, 'the names and everything else stay')
def process(c, tail=False):
    a = App(c); e, st = c.e, c.st; ap, pc = e.newloc('app'), e.newloc('context'); title, arg = z3.Const('title', S_SORT), z3.Const('argument', S_SORT); e.wrstr(st, a.at('title', pc), title); a.virtual_texts()
    n, l = a.list(st, 'matched_cmds', pc); obj = z3.Int('selected'); m = z3.Bool('found'); st.assume(z3.And(n >= 0, n < (1 << 60), obj > 0)); LAST = Ptr(Ref(z3.Int('last_matched')))
    argc = c.int('argc', 32, 1)[0]; ix = a.int(st, 'index', pc); st.assume(z3.And(ix >= 0, ix < toi(argc.s())))
    def looked(e, st, c2):
        e.gset(st, 'lookups', e.gget(st, 'lookups', 0) + 1); r = c2.args[0]; e.oblige(st, 'the token is looked up as given', a.str(st, 'title', c2.args[1]) == title)
        e.store(st, ir.INT(8), I(z3.If(m, z3.IntVal(1), z3.IntVal(0)), 8, 0, 1), a.at('cmr_matched', r)); e.store(st, ir.INT(8), I(0, 8), Ptr(r.b, r.off + a.off('cmr_matched') + 1)); e.store(st, ir.PTR, Ptr(Ref(z3.If(m, obj, 0))), a.at('cmr_obj', r)); return [(st, ('ret', None))]
    a.contract(r'^cmdr::app::matching_command\(', looked); a.contract(r'^std::exception::', lambda e, st, c2: [(st, ('ret', None))]); a.contract(r'::cmd_matching_result::~', lambda e, st, c2: [(st, ('ret', None))])
    a.contract(r'^cmdr::get_app\(', lambda e, st, c2: [(st, ('ret', ap))])
    def matched_cb(e, st, c2): e.oblige(st, 'the match is announced for the selected one', toi(e.as_ref(c2.args[1])) == obj); return [(st, ('ret', None))]
    a.contract(r'^cmdr::app::on_cmd_matched\(', matched_cb); a.contract(r'::last_matched_cmd\(', lambda e, st, c2: [(st, ('ret', LAST))]); st.assume(LAST.b.t > 0)
    def remain(e, st, c2):
        if tail: e.oblige(st, 'what follows the command is taken', z3.And(len(c2.args) == 4, e.ptreq(st, c2.args[1], argv), toi(c2.args[2].s()) == ix + 1, toi(c2.args[3].s()) == toi(argc.s())))
        k = fresh('n', I_SORT); st.assume(k >= 0); e.wr(st, c2.args[0], 'len', I_SORT, k); e.wr(st, c2.args[0], 'e.str', AS, fresh('rest', AS)); return [(st, ('ret', None))]
    a.contract(r'^cmdr::app::remain_args\(', remain)
    def act(e, st, c2): r = fresh('rc', I_SORT); lo, hi = -(1 << 31), (1 << 31) - 1; st.assume(z3.And(r >= lo, r <= hi)); return [(st, ('ret', I(r, 32, lo, hi)))]
    a.contract(r'^cmdr::app::unknown_command_found\(', act); fnobj.install(e, lambda e, st, t, ar, c2: act(e, st, c2))
    argv, _ = a.argv(toi(argc.s())); a.str(st, 'hit_title', obj); rest0 = (a.list(st, 'noncmds', pc)[0], e.rd(st, a.at('noncmds', pc), 'e.str', AS))
    for s1, o in c.call([ap, pc, argc, argv]):
        if o[0] != 'ret': continue
        c.reached(s1, 'processed')
        if tail:
            e.oblige(s1, 'the positional arguments collected stay', z3.And(a.list(s1, 'noncmds', pc)[0] == rest0[0], e.rd(s1, a.at('noncmds', pc), 'e.str', AS) == rest0[1])); e.oblige(s1, 'the index stays', a.int(s1, 'index', pc) == ix); continue
        n1, l1 = a.list(s1, 'matched_cmds', pc); i = z3.Int('i')
        e.oblige(s1, 'one lookup', e.gget(s1, 'lookups', 0) == 1)
        e.oblige(s1, 'the selected sub-command becomes the current one', z3.Implies(m, z3.And(n1 == n + 1, z3.Select(l1, n) == obj)))
        e.oblige(s1, 'an unknown token selects nothing', z3.Implies(z3.Not(m), n1 == n))
        e.oblige(s1, 'the commands selected before stay', z3.Implies(z3.And(0 <= i, i < n), z3.Select(l1, i) == z3.Select(l, i)))
        e.oblige(s1, 'the hit title is the token', z3.Implies(m, a.str(s1, 'hit_title', obj) == title))
def hitoffs(c, a):
    """offsets of the fields the hit record consists of (the bits share a byte with other marks)"""
    b = set()
    e = c.e; st = c.st.copy(); r = z3.Int('any_object'); before = dict(st.heap)
    seen = set(); old = e.rd
    def rd(s, p, cn, so): seen.add(p.off); return old(s, p, cn, so)
    e.rd = rd
    try:
        for g in ('dv_hit_long', 'dv_hit_special', 'dv_hit_env'): a.get(st, g, r)
    finally: del e.rd
    return seen | {a.off('hit_title'), a.off('hitcount')}
def units(): return [Unit('app::matching_command', 'app', 'dv_match_command', match), Unit('app::process_command', 'app', 'dv_process_command', process)]
HARNESS = 'c01'
HSECS = 24
NOTE = 'For any set of names and any token, the result, the hit record and the unchanged name tables of every command are proved for matching_command.'
ASSUME = ['the tables of names hold what C04 states', 'std::unordered_map as modelled (a partial function from keys to values)', 'hit counts stay below 2^31']
