"""C09: no command handler runs while a required flag of the command or of one of its owners is missing"""
from appx import *
CH = z3.Function('CHAIN', I_SORT, I_SORT)        # the command, its owner, the owner's owner, ...; 0 behind the outermost
DEPTH = z3.Int('depth')
def ok(a, st, x): return z3.Or(z3.Not(a.get(st, 'dv_required', x)), a.int(st, 'hitcount', x) >= 1)
def given(a, st, i, j):
    n, l = a.list(st, 'allargs', CH(i)); return z3.Implies(z3.And(0 <= j, j < n), ok(a, st, z3.Select(l, j)))
def setup(c):
    a = App(c); e, st = c.e, c.st; i, j = z3.Int('i'), z3.Int('j'); cc = z3.Int('command'); a.exceptions(); a.anystr(r'^cmdr::opt::(bas|arg|cmd)::title\[?.*\(\) const')
    st.assume(z3.And(cc > 0, CH(0) == cc, DEPTH >= 0, CH(DEPTH + 1) == 0))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= DEPTH), z3.And(CH(i) > 0, CH(i + 1) == a.ptr(st, 'owner', CH(i)))), patterns=[CH(i)]))
    n, l = a.list(st, 'allargs', CH(i)); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= DEPTH), z3.And(n >= 0, n < (1 << 60))), patterns=[CH(i)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= DEPTH, 0 <= j, j < n), z3.Select(l, j) > 0), patterns=[z3.Select(l, j)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= DEPTH, 0 <= j, j < n), a.int(st, 'hitcount', z3.Select(l, j)) >= 0), patterns=[z3.Select(l, j)]))
    return a, cc
def check(c):
    a, cc = setup(c); e = c.e; i, j = z3.Int('i'), z3.Int('j'); st0 = c.st.copy()
    a.virtual_texts()
    def cand(ls):
        r = []
        for nm, p, init in ls.ptrs():
            if p.b.kind == 'ref': r += [('on the chain of owners', z3.And(p.b.t == CH(ls.k), ls.k >= 0, ls.k <= DEPTH)), ('on the chain of owners or behind it', z3.And(p.b.t == CH(ls.k), ls.k >= 0, ls.k <= DEPTH + 1)), ('all given so far', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < ls.k), given(a, ls.st, i, j)), patterns=[z3.Select(a.list(ls.st, 'allargs', CH(i))[1], j)]))]
            elif p.b.kind in ('elem', 'lit'):
                n, l = toi(e.rd(ls.st, p.b.c, 'len', I_SORT)), e.rd(ls.st, p.b.c, 'e.ptr', AI)
                r += [('position', z3.And(toi(p.b.idx) >= 0, toi(p.b.idx) <= n)), ("this command's flags given so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < toi(p.b.idx)), ok(a, ls.st, z3.Select(l, j))), patterns=[z3.Select(l, j)]))]
        return r + quads(ls)
    e.loopcands.append(cand)
    e.measures.append(lambda ls: [('depth', DEPTH + 1 - ls.k)])
    I0, J0 = z3.Int('a_level'), z3.Int('a_flag')
    for st, o in c.call([Ptr(Ref(cc))]):
        if o[0] == 'ret':
            c.reached(st, 'all given')
            e.oblige(st, 'no error means every required flag was given', z3.Implies(z3.And(0 <= I0, I0 <= DEPTH), given(a, st0, I0, J0)))
        else:
            e.oblige(st, 'the error is the required flag error', bool(o[1].ty) and 'required_flag_missed' in o[1].ty)
            s1 = st.copy(); s1.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= DEPTH), given(a, st0, i, j)), patterns=[z3.Select(a.list(st0, 'allargs', CH(i))[1], j)]))
            e.oblige(s1, 'the error is raised only when a required flag is missing', False)
def copied(what):
    def go(c):
        a = App(c); e, st = c.e, c.st; to, fr = e.newloc('copy'), Ptr(Ref(z3.Int('original'))); st.assume(z3.Int('original') > 0); a.virtual_texts(); fnobj.install(e, None)
        for f in ('long', 'short', 'hit_title'): a.str(st, f, fr)
        st0 = st.copy(); want = [(k, f(st0, fr)) for k, f in fields(a, what)]
        for s1, o in c.call([to, fr], fn='dv_%s_copy' % what):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'copied')
            for (k, f), (_, w) in zip(fields(a, what), want): e.oblige(s1, 'the copy has the same ' + k, f(s1, to) == w)
    return go
def fields(a, what):
    r = [('required mark', lambda st, p: a.get(st, 'dv_required', p)), ('hit count', lambda st, p: a.int(st, 'hitcount', p)), ('owner', lambda st, p: a.ptr(st, 'owner', p)), ('long title', lambda st, p: a.str(st, 'long', p)), ('short title', lambda st, p: a.str(st, 'short', p))]
    if what == 'cmd': r += [('number of flags', lambda st, p: a.list(st, 'allargs', p)[0])]
    return r
def after(c, tail=False):
    """tail: what the command's hooks are given (C03)"""
    a = App(c); e, st = c.e, c.st; ap, pc, fin, cur = e.newloc('app'), e.newloc('context'), Ptr(Ref(z3.Int('last_matched'))), Ptr(Ref(z3.Int('current'))); st.assume(z3.And(z3.Int('last_matched') > 0, z3.Int('current') > 0))
    a.exceptions(); a.virtual_texts(); fnobj.install(e, None); noop = lambda e, st, c: [(st, ('ret', None))]
    a.contract(r'::last_matched_cmd\(', lambda e, st, c: [(st, ('ret', fin))]); a.contract(r'::curr_command\(', lambda e, st, c: [(st, ('ret', cur))])
    a.contract(r'^cmdr::app::print_usages\(', noop)
    def anyrc(e, st, c): r = fresh('rc', I_SORT); lo, hi = -(1 << 31), (1 << 31) - 1; st.assume(z3.And(r >= lo, r <= hi)); return [(st, ('ret', I(r, 32, lo, hi)))]
    a.contract(r'^cmdr::app::internal_action\(', anyrc)
    def some(e, st, c): p = e.alloc(st, 'value'); return [(st, ('ret', p))]
    a.contract(r'::store::get_raw_p\(|nodeT<.*>::get_raw_p\(|::get_raw_p\(', some)
    a.contract(r'::cast_as<', lambda e, st, c: [(st, ('ret', fresh('help_asked', B_SORT)))])
    N, REST = z3.Int('tail_length'), z3.Const('tail', AS); st.assume(N >= 0)
    def remain(e, st, c):
        if tail:
            if len(c.args) != 5: e.oblige(st, 'the collected and the remaining arguments are taken', False); return [(st, ('ret', None))]
            e.oblige(st, 'those collected by this run', e.ptreq(st, c.args[1], pc)); e.oblige(st, 'of all arguments', z3.And(e.ptreq(st, c.args[2], Ptr(Ref(z3.Int('argv')))), toi(c.args[4].s()) == z3.Int('argc')))
            e.oblige(st, 'those behind the last token taken', toi(c.args[3].s()) == ix + 1)
        e.wr(st, c.args[0], 'len', I_SORT, N); e.wr(st, c.args[0], 'e.str', AS, REST); return [(st, ('ret', None))]
    a.contract(r'^cmdr::app::remain_args\(', remain)
    src = {}
    def copyc(e, st, c):
        to, fr = c.args; src[to.key()] = fr
        for f in ('long', 'short'): e.wrstr(st, a.at(f, to), e.rdstr(st, a.at(f, fr)))
        for f in ('all_commands', 'allargs'):
            n, l = a.list(st, f, fr); st.assume(n >= 0); e.wr(st, a.at(f, to), 'len', I_SORT, n); e.wr(st, a.at(f, to), 'e.ptr', AI, l)
        e.store(st, ir.PTR, e.load(st, ir.PTR, a.at('owner', fr)), a.at('owner', to)); return [(st, ('ret', None))]
    a.contract(r'^cmdr::opt::cmd::cmd\(cmdr::opt::cmd const&\)', copyc); a.contract(r'^cmdr::opt::cmd::~cmd\(', noop)
    orig = lambda p: src.get(p.key(), p)
    def checkc(e, st, c):
        e.gset(st, 'checked', e.gget(st, 'checked', ()) + (orig(c.args[0]).key(),)); s2 = st.copy(); x = e.alloc(s2, 'missing'); e.gset(s2, 'missing', True)
        return [(st, ('ret', None)), e.throw(s2, 'cmdr::exception::required_flag_missed', x)]
    a.contract(r'^cmdr::app::check_required_flags\(', checkc)
    def invoke(e, st, c):
        if tail: e.oblige(st, 'the hooks get the collected and the remaining arguments', z3.And(toi(e.rd(st, c.args[2], 'len', I_SORT)) == N, e.rd(st, c.args[2], 'e.str', AS) == REST)); return anyrc(e, st, c)
        e.oblige(st, 'the required flags of the command were checked before it runs', orig(c.args[1]).key() in e.gget(st, 'checked', ()))
        e.oblige(st, 'no handler runs after the required flag error', not e.gget(st, 'missing', False)); e.oblige(st, 'the command runs once', not e.gget(st, 'invoked', False)); e.gset(st, 'invoked', True)
        return anyrc(e, st, c) + [e.throw(st.copy(), None, e.alloc(st, 'from_a_hook'))]
    a.contract(r'^cmdr::app::invoke_command\(', invoke)
    ix = a.int(st, 'index', pc); st.assume(z3.And(ix >= 0, ix < (1 << 31) - 1))
    rc, argc = c.int('rc', 32)[0], c.int('argc', 32, 1)[0]
    for s1, o in c.call([ap, rc, pc, argc, Ptr(Ref(z3.Int('argv')))]):
        if e.gget(s1, 'missing', False): e.oblige(s1, 'the required flag error is raised', o[0] == 'exc' and bool(o[1].ty) and 'required_flag_missed' in o[1].ty)
        c.reached(s1, 'done')
def units(): return [Unit('bas: copy', 'app', 'dv_bas_copy', copied('bas')), Unit('arg: copy', 'app', 'dv_arg_copy', copied('arg')), Unit('cmd: copy', 'app', 'dv_cmd_copy', copied('cmd')), Unit('app::check_required_flags', 'app', 'dv_check_required', check), Unit('app::after_run', 'app', 'dv_after_run', after)]
HARNESS = 'c09'
HSECS = 24
NOTE = 'The owner walk of check_required_flags is proved for chains of any finite depth and lists of any length; after_run calls it, on the command it then runs, before every handler; copies of commands and flags keep the fields the check reads.'
ASSUME = ['the chain of owners is finite (no command owns itself)', 'no other thread changes the commands during the check', 'hit counts are what C02 states (they only ever grow from 0)']
