"""C03: the command handler receives the positional arguments complete and in order"""
from appx import *
import c01, c09, c21
from engine import CODE
is_ = lambda t, i, ch: z3.And(z3.Length(t) > i, CODE(t, i) == ord(ch))
def seq(e, st, p): return toi(e.rd(st, p, 'len', I_SORT)), e.rd(st, p, 'e.str', AS)
def inputs(c, a):
    n = z3.Int('argc'); e, st = c.e, c.st; st.assume(z3.And(n >= 1, n < (1 << 31))); argv, text = a.argv(n); c.inputs['argc'] = n
    i = c.int('i', 32, 0)[0]; return n, argv, text, i
def remain(both):
    def go(c):
        a = App(c); e, st = c.e, c.st; n, argv, text, i = inputs(c, a); res, pc = e.newloc('result'), e.newloc('context'); i0 = toi(i.s()); j = z3.Int('j')
        m, L = (seq(e, st, a.at('noncmds', pc)) if both else (z3.IntVal(0), z3.K(I_SORT, z3.StringVal('')))); st.assume(z3.And(m >= 0, m < (1 << 40)))
        want = lambda k: z3.If(k < m, z3.Select(L, k), text(i0 + k - m)); total = m + z3.If(i0 < n, n - i0, 0)
        def inv(ls):
            r = []; k, arr = seq(e, ls.st, res); same = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Select(arr, j) == want(j)), patterns=[z3.Select(arr, j)])
            r += [('collected so far', z3.And(k >= 0, k <= total, same))]
            for nm, x, _ in ls.ints(): v = toi(x.s()); r += [('next index', z3.And(v >= i0, z3.Implies(v > i0, v <= n), k == m + v - i0)), ('next of those collected before', z3.And(v >= 0, v <= m, k == v))]
            for nm, p, _ in ls.ptrs():
                if p.b.kind in ('elem', 'lit'): r += [('position', z3.And(toi(p.b.idx) >= 0, toi(p.b.idx) <= m, k == toi(p.b.idx)))]
            return r
        def tail(e, st, c2):
            if len(c2.args) != 4: return None
            k0 = toi(c2.args[2].s()); q = c2.args[0]; e.oblige(st, 'the tail of these arguments', z3.And(e.ptreq(st, c2.args[1], argv), toi(c2.args[3].s()) == n, k0 >= 0)); arr = fresh('tail', AS); ln = z3.If(k0 < n, n - k0, 0)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.Select(arr, j) == text(k0 + j)), patterns=[z3.Select(arr, j)])); e.wr(st, q, 'len', I_SORT, ln); e.wr(st, q, 'e.str', AS, arr); return [(st, ('ret', None))]
        if both: a.contract(r'^cmdr::app::remain_args\(char\*\*, int, int\)', tail)
        e.loopcands.append(inv); args = [res, pc, argv, i, I(n, 32, 1, (1 << 31) - 1)] if both else [res, argv, i, I(n, 32, 1, (1 << 31) - 1)]
        for s1, o in c.call(args):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'collected'); k, arr = seq(e, s1, res); J = z3.Int('some_position')
            e.oblige(s1, 'as many as collected before and left', k == total)
            e.oblige(s1, 'each one verbatim and in order', z3.Implies(z3.And(0 <= J, J < k), z3.Select(arr, J) == want(J)))
            if both:
                m1, L1 = seq(e, s1, a.at('noncmds', pc)); e.oblige(s1, 'those collected before stay', z3.And(m1 == m, z3.Implies(z3.And(0 <= J, J < m), z3.Select(L1, J) == z3.Select(L, J))))
    return go
def addone(c):
    a = App(c); e, st = c.e, c.st; pc, s = e.newloc('context'), e.newloc('token'); t = z3.Const('token', S_SORT); e.wrstr(st, s, t); m, L = seq(e, st, a.at('noncmds', pc)); st.assume(z3.And(m >= 0, m < (1 << 40))); J = z3.Int('some_position')
    for s1, o in c.call([pc, s]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        c.reached(s1, 'added'); k, arr = seq(e, s1, a.at('noncmds', pc)); e.oblige(s1, 'one more', k == m + 1); e.oblige(s1, 'it is the last', z3.Select(arr, m) == t); e.oblige(s1, 'the others stay', z3.Implies(z3.And(0 <= J, J < m), z3.Select(arr, J) == z3.Select(L, J)))
def run(c):
    a = App(c); e, st = c.e, c.st; ap, G = Ptr(Ref(z3.Int('app'))), e.newloc('specified'); st.assume(z3.Int('app') > 0); n = z3.Int('argc'); st.assume(z3.And(n >= 1, n < (1 << 31) - 1)); argv, text = a.argv(n); PC = []; j = z3.Int('j')
    noop = lambda e, st, c: [(st, ('ret', None))]; a.exceptions(); a.virtual_texts(); fnobj.install(e, None)
    e.wr(st, G, 'len', I_SORT, z3.IntVal(0)); e.wr(st, G, 'e.str', AS, z3.K(I_SORT, z3.StringVal(''))); e.wr(st, Ptr(G.b, 64), 'len', I_SORT, z3.IntVal(1))
    nxt = lambda st: toi(e.rd(st, Ptr(G.b, 64), 'len', I_SORT))
    def setnext(st, t): e.wr(st, Ptr(G.b, 64), 'len', I_SORT, t)
    def ctor(e, st, c2):
        if c2.args[0] not in PC: PC.append(c2.args[0])
        return None
    a.contract(r'parsing_context::parsing_context\(cmdr::opt::cmd\*\)', ctor)
    a.contract(r'parsing_context::~parsing_context\(', noop)
    for f in (r'^cmdr::app::prepare\(', r'::post_runner::', r'post_runner::~', r'std::lock_guard<', r'^std::function<void \(\)>::'): a.contract(f, noop)
    def assign(e, st, c2):
        if not PC or not isinstance(c2.args[0], Ptr) or c2.args[0].key() != a.at('title', PC[0]).key(): return None
        i = toi(a.int(st, 'index', PC[0])); k = nxt(st); t = text(k); st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(t)), CODE(t, j) != 0), patterns=[CODE(t, j)])); e.wrstr(st, c2.args[0], e.ctext(st, c2.args[1]))
        e.oblige(st, 'the next token is taken, verbatim', e.rdstr(st, c2.args[0]) == t); e.oblige(st, 'no token behind the last one is taken', k < n)
        ml, m = a.list(st, 'matched_cmds', PC[0]); cur = z3.Select(m, ml - 1); leaf = z3.And(ml >= 1, a.str(st, 'long', cur) != z3.StringVal(''), a.list(st, 'all_commands', cur)[0] == 0)
        flag = z3.Or(is_(t, 0, '-'), is_(t, 0, '/'), z3.And(is_(t, 0, '~'), is_(t, 1, '~')))
        gn, g = seq(e, st, G); pos = z3.And(leaf, z3.Not(flag)); e.wr(st, G, 'len', I_SORT, z3.If(pos, gn + 1, gn)); e.wr(st, G, 'e.str', AS, z3.If(pos, z3.Store(g, gn, t), g)); setnext(st, k + 1); return [(st, ('ret', c2.args[0]))]
    a.contract(r'^std::string::operator=\(char const\*\)', assign)
    def process(e, st, c2):
        pc = PC[0]; r, k = fresh('rc', I_SORT), fresh('index', I_SORT); t = text(nxt(st) - 1); dd, tt = z3.And(is_(t, 0, '-'), is_(t, 1, '-')), z3.And(is_(t, 0, '~'), is_(t, 1, '~')); sh = z3.Or(is_(t, 0, '-'), is_(t, 0, '/')); w = c2.dem.split('process_')[1]
        e.oblige(st, 'the token is processed from its begin, with the arguments', z3.And(a.str(st, 'title', pc) == t, a.int(st, 'pos', pc, 64) == 0, a.int(st, 'index', pc) == nxt(st) - 1, e.ptreq(st, c2.args[1], pc), toi(c2.args[2].s()) == n, e.ptreq(st, c2.args[3], argv)))
        e.oblige(st, 'as what its first characters make it', tt if w.startswith('special') else z3.And(dd, z3.Not(tt), z3.Length(t) > 2) if w.startswith('long') else z3.And(sh, z3.Not(dd), z3.Not(tt)) if w.startswith('short') else z3.And(z3.Not(sh), z3.Not(tt), z3.Length(t) > 0))
        lo, hi = -(1 << 31), (1 << 31) - 1; i = a.int(st, 'index', pc); st.assume(z3.And(r >= lo, r <= hi, k >= i, k < n)); e.store(st, ir.INT(32), I(k, 32, 0, hi), a.at('index', pc)); setnext(st, k + 1)
        ml, m = fresh('commands', I_SORT), fresh('matched', AI); l0 = a.list(st, 'matched_cmds', pc); st.assume(z3.And(ml >= l0[0], z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ml), z3.Select(m, j) > 0), patterns=[z3.Select(m, j)]))); q = a.at('matched_cmds', pc); e.wr(st, q, 'len', I_SORT, ml); e.wr(st, q, 'e.ptr', AI, m)
        e.wrstr(st, a.at('title', pc), fresh('title', S_SORT)); return [(st, ('ret', I(r, 32, lo, hi)))]
    a.contract(r'^cmdr::app::process_(command|long_flag|short_flag|special_flag)\(', process)
    def after(e, st, c2):
        k, arr = seq(e, st, a.at('noncmds', PC[0])); gn, g = seq(e, st, G); J = z3.Int('some_position')
        e.oblige(st, 'the context parsed is handed on', e.ptreq(st, c2.args[2], PC[0])); e.oblige(st, 'with all arguments', z3.And(toi(c2.args[3].s()) == n, e.ptreq(st, c2.args[4], argv)))
        e.oblige(st, 'every positional token was collected, and nothing else', k == gn); e.oblige(st, 'verbatim and in order', z3.Implies(z3.And(0 <= J, J < k), z3.Select(arr, J) == z3.Select(g, J)))
        e.oblige(st, 'the tail starts behind the last token taken', a.int(st, 'index', PC[0]) + 1 == nxt(st)); c.reached(st, 'handed on')
        e.oblige(st, 'parsing stops at the end or at --', z3.Or(nxt(st) == n, z3.And(is_(text(nxt(st) - 1), 0, '-'), is_(text(nxt(st) - 1), 1, '-'), z3.Length(text(nxt(st) - 1)) == 2)))
        r = fresh('rc', I_SORT); lo, hi = -(1 << 31), (1 << 31) - 1; st.assume(z3.And(r >= lo, r <= hi)); return [(st, ('ret', I(r, 32, lo, hi)))]
    a.contract(r'^cmdr::app::after_run\(', after)
    def inv(ls):
        if not PC: return []
        r = []; k, arr = seq(e, ls.st, a.at('noncmds', PC[0])); gn, g = seq(e, ls.st, G); ml, m = a.list(ls.st, 'matched_cmds', PC[0]); i = a.int(ls.st, 'index', PC[0])
        r += [('collected so far', z3.And(k >= 0, k == gn, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Select(arr, j) == z3.Select(g, j)), patterns=[z3.Select(arr, j)]))), ('a command is current', z3.And(ml >= 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ml), z3.Select(m, j) > 0), patterns=[z3.Select(m, j)]))), ('index', z3.And(i >= 0, i < n, nxt(ls.st) == i + 1))]
        for nm, x, _ in ls.ints(): r.append(('this token is next', toi(x.s()) == nxt(ls.st)))
        return r
    e.loopcands.append(inv)
    for s1, o in c.call([ap, I(n, 32, 1, (1 << 31) - 2), argv]): pass
def units(): return [Unit('app::process_flag (arguments)', 'app', 'dv_process_flag', lambda c: c21.token(c, True)), Unit('parsing_context::add_remain_arg', 'app', 'dv_add_remain', addone), Unit('app::remain_args (tail)', 'app', 'dv_remain2', remain(False)), Unit('app::remain_args (collected and tail)', 'app', 'dv_remain', remain(True)), Unit('app::run', 'app', 'dv_run', run), Unit('app::after_run (arguments)', 'app', 'dv_after_run', lambda c: c09.after(c, True)), Unit('app::process_command (arguments)', 'app', 'dv_process_command', lambda c: c01.process(c, True))]
HARNESS = 'c03'
HSECS = 24
NOTE = 'run is proved with an invariant over all its iterations (what is collected equals the specified sequence so far); remain_args, add_remain_arg, after_run, process_command and process_flag (with an invariant over the flags combined in a token) against their own contracts.'
ASSUME = ['reading a value from a text changes that value only', 'arguments are NUL-terminated texts that do not change during the run', 'hooks do not change the arguments they are given (const)']
