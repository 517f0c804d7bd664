"""C21: a flag on the command line gets the value given with it"""
from appx import *
from c02 import LEN, big
SUBT = z3.Function('from', S_SORT, I_SORT, S_SORT); CHAR = z3.Function('char of', S_SORT, I_SORT, I_SORT); STRIP = z3.Function('without quotes', S_SORT, S_SORT)   # contracts of substr, operator[] and string::strip_quotes
def token(c, tail=False):
    """process_flag: a flag token, with any number of flags combined in it"""
    a = App(c); e, st = c.e, c.st; ap, pc, fn, G = Ptr(Ref(z3.Int('app'))), e.newloc('context'), e.newloc('matcher'), {k: e.newloc(k) for k in ('selected', 'announced', 'flag', 'from', 'length', 'extra', 'taken', 'value', 'boolean', 'next', 'read')}
    st.assume(z3.And(z3.Int('app') > 0, z3.Int('stream_table') > 0, z3.Int('matcher_id') > 0)); e.store(st, ir.PTR, Ptr(Ref(z3.Int('matcher_id'))), fn); title = z3.Const('title', S_SORT); e.wrstr(st, a.at('title', pc), title); c.inputs['title'] = title; lead = c.int('lead', 32, 0, 2)[0]; ln = toi(lead.s()); st.assume(z3.And(ln <= LEN(title), LEN(title) < big))
    argc = c.int('argc', 32, 1)[0]; n = toi(argc.s()); ix = a.int(st, 'index', pc); st.assume(z3.And(ix >= 1, ix < n)); argv, arg = a.argv(n); e.store(st, ir.INT(64), I(0, 64), a.at('pos', pc)); T = SUBT(title, ln); m0 = a.list(st, 'matched_flags', pc)[0]; u0 = toi(e.rd(st, a.at('unknown_flags', pc), 'len', I_SORT)); rest0 = (toi(e.rd(st, a.at('noncmds', pc), 'len', I_SORT)), e.rd(st, a.at('noncmds', pc), 'e.str', AS)); st.assume(z3.And(m0 >= 0, m0 < big, u0 >= 0, u0 < big, LEN(T) == LEN(title) - ln))
    gi = lambda st, k: toi(e.rd(st, G[k], 'len', I_SORT))
    def setg(st, k, v): e.wr(st, G[k], 'len', I_SORT, z3.IntVal(v) if isinstance(v, int) else v)
    for k in G: setg(st, k, z3.IntVal(0))
    noop = lambda e, st, c2: [(st, ('ret', None))]; a.exceptions(); a.virtual_texts(); pos = lambda st: a.int(st, 'pos', pc, 64); idx = lambda st: a.int(st, 'index', pc); ob = (lambda *x: None) if tail else e.oblige
    a.contract(r'^std::string::(length|size)\(\)', lambda e, st, c2: (st.assume(LEN(text(st, c2.args[0])) >= 0), [(st, ('ret', I(LEN(text(st, c2.args[0])), 64)))])[1])
    a.contract(r'^std::string::empty\(\)', lambda e, st, c2: [(st, ('ret', LEN(text(st, c2.args[0])) == 0))])
    text = lambda st, p: e.rdstr(st, p)
    def sub(e, st, c2):
        r, x, k, m = c2.args; t, k = text(st, x), toi(k.u()); e.oblige(st, 'a part of the token is taken from inside', k <= LEN(t)); w = SUBT(t, k); st.assume(z3.And(LEN(w) == LEN(t) - k, LEN(t) >= 0)); e.wrstr(st, r, w); return [(st, ('ret', None))]
    a.contract(r'^std::string::substr\(', sub)
    def at(e, st, c2): t, k = text(st, c2.args[0]), toi(c2.args[1].u()); st.assume(LEN(t) >= 0); e.oblige(st, 'a character inside the text is looked at', k <= LEN(t)); x = CHAR(t, k); st.assume(z3.And(x >= 0, x < 256, z3.Implies(k == LEN(t), x == 0))); p = e.newloc('char'); e.store(st, ir.INT(8), I(x, 8, 0, 255), p); return [(st, ('ret', p))]
    a.contract(r'^std::string::(operator\[\]|at)\(', at); zero = I(0, 64)
    def front(e, st, c2): e.oblige(st, 'the first character of a text that has one', LEN(text(st, c2.args[0])) > 0); c2.args = [c2.args[0], zero]; return at(e, st, c2)
    a.contract(r'^std::string::front\(\)', front)
    def erase(e, st, c2):
        x, k, m = c2.args; t = text(st, x)
        if not (z3.is_int_value(z3.simplify(toi(k.u()))) and z3.simplify(toi(k.u())).as_long() == 0): raise Unsupported('erasing inside a text')
        n2 = toi(m.u()); st.assume(LEN(t) >= 0); n2 = z3.If(n2 <= LEN(t), n2, LEN(t)); w = SUBT(t, n2); st.assume(LEN(w) == LEN(t) - n2); e.wrstr(st, x, w); return [(st, ('ret', x))]
    a.contract(r'^std::string::erase\(unsigned long, unsigned long\)', erase)
    def strip(e, st, c2): y = text(st, c2.args[1]); w = STRIP(y); st.assume(z3.And(LEN(w) >= 0, LEN(w) <= LEN(y), CHAR(w, 0) != 34, CHAR(w, 0) != 39)); e.wrstr(st, c2.args[0], w); return [(st, ('ret', None))]
    a.contract(r'^cmdr::string::strip_quotes\(', strip); a.contract(r'^cmdr::get_app\(', lambda e, st, c2: [(st, ('ret', ap))]); a.anystr(r'^cmdr::opt::bas::dotted_key\(\)'); a.anystr(r'^cmdr::vars::variable::as_string'); a.contract(r'^cmdr::log::', noop)
    def match(e, st, t, ar, c2):
        r = c2.args[0]; ob(st, 'the matcher is asked about the token without its leading characters', z3.And(t == z3.Int('matcher_id'), e.ptreq(st, ar[0], pc), a.str(st, 'title', pc) == T)); ob(st, 'first at its begin, and then behind what was taken, inside the token', z3.Or(z3.And(gi(st, 'selected') == 0, pos(st) == 0), z3.And(pos(st) > 0, pos(st) == gi(st, 'next'), pos(st) < LEN(T))))
        ob(st, 'every flag selected was announced', gi(st, 'announced') == gi(st, 'selected')); m, ab, k, w, o = fresh('found', B_SORT), fresh('abort', I_SORT), fresh('length', I_SORT), fresh('name', S_SORT), fresh('flag', I_SORT)
        st.assume(z3.And(k >= 0, k < big, ab >= 0, ab <= 1, z3.Implies(m, z3.And(o > 0, a.ptr(st, 'default', o) > 0, k > 0, k == LEN(w), pos(st) + k <= LEN(T))))); setg(st, 'selected', gi(st, 'selected') + z3.If(m, 1, 0)); setg(st, 'flag', z3.If(m, o, 0)); setg(st, 'from', idx(st)); setg(st, 'extra', z3.IntVal(0)); setg(st, 'length', k); setg(st, 'taken', z3.IntVal(0))
        e.store(st, ir.INT(8), I(z3.If(m, z3.IntVal(1), z3.IntVal(0)), 8, 0, 1), a.at('amr_matched', r)); e.store(st, ir.INT(8), I(ab, 8, 0, 1), a.at('amr_abort', r)); e.store(st, ir.INT(32), I(k, 32, 0, big), a.at('amr_len', r)); e.wrstr(st, a.at('amr_str', r), w); e.store(st, ir.PTR, Ptr(Ref(z3.If(m, o, 0))), a.at('amr_obj', r)); return [(st, ('ret', None))]
    def act(e, st, c2): r = fresh('rc', I_SORT); lo, hi = -(1 << 31), (1 << 31) - 1; st.assume(z3.And(r >= lo, r <= hi)); return [(st, ('ret', I(r, 32, lo, hi)))]
    fnobj.install(e, lambda e, st, t, ar, c2: match(e, st, t, ar, c2) if 'arg_matching_result' in c2.dem.split('::operator()')[0] else act(e, st, c2))
    isb, isv, ist, isstd = (z3.Function(w, I_SORT, B_SORT) for w in ('takes a boolean', 'takes nothing', 'takes a text', 'as a std::string'))
    a.contract(r'^cmdr::vars::variable::type\(\) const', lambda e, st, c2: [(st, ('ret', Ptr(Ref(z3.Int('type')))))]); st.assume(z3.Int('type') > 0)
    def tcmp(neg):
        def f(e, st, c2):
            g = [p for p in c2.args if isinstance(p, Ptr) and p.b.kind != 'ref']; nm = repr(g[0].b) if g else ''; x = gi(st, 'flag'); k = isb(x) if '_ZTIb' in nm else isv(x) if '_ZTIv' in nm else None
            if k is None and ('_ZTINSt7__cxx1112basic_string' in nm or '_ZTIPKc' in nm): k = z3.And(ist(x), isstd(x) == ('_ZTIN' in nm))
            if k is None: raise Unsupported('types compared with %s' % nm)
            st.assume(z3.AtMost(isb(x), isv(x), ist(x), 1)); return [(st, ('ret', z3.Not(k) if neg else k))]
        return f
    a.contract(r'^std::type_info::operator==', tcmp(False)); a.contract(r'^std::type_info::operator!=', tcmp(True))
    def own(t): x = SUBT(T, t[0] + t[1]); y = z3.If(CHAR(x, 0) == ord('='), SUBT(x, 1), x); return STRIP(y)
    rem = lambda st: SUBT(T, pos(st) + gi(st, 'length'))
    def ends(st, t): st.assume(z3.And(LEN(t) >= 0, z3.Implies(LEN(t) == 0, CHAR(t, 0) == 0)))   # the character behind a text is 0
    def given(st, w):
        """w is taken as the text of the value"""
        ends(st, rem(st)); x = own((pos(st), gi(st, 'length'))); more = z3.And(LEN(x) == 0, gi(st, 'from') + 1 < n); setg(st, 'extra', z3.If(more, 1, 0)); setg(st, 'value', LEN(w)); st.assume(z3.And(LEN(w) >= 0, LEN(w) < big))
        ob(st, 'the value is what follows the name, without = and quotes, or else the next argument', w == z3.If(more, arg(gi(st, 'from') + 1), x)); ob(st, 'which is taken from the command line then', idx(st) == gi(st, 'from') + z3.If(more, 1, 0))
    def stream(e, st, c2): w = text(st, c2.args[1]); given(st, w); ob(st, 'only a quoted text is read as a stream', z3.Or(z3.Not(ist(gi(st, 'flag'))), CHAR(w, 0) == 34, CHAR(w, 0) == 39)); e.store(st, ir.PTR, Ptr(Ref(z3.Int('stream_table'))), c2.args[0]); return [(st, ('ret', None))]
    def whole(e, st, c2): given(st, text(st, c2.args[1])); f = gi(st, 'flag'); ob(st, 'a text is the value of a flag with a text', ist(f)); ob(st, "the text becomes the selected flag's own value", e.ptreq(st, c2.args[0], e.load(st, ir.PTR, a.at('default', Ptr(Ref(f)))))); setg(st, 'taken', z3.IntVal(1)); setg(st, 'read', z3.IntVal(0)); return [(st, ('ret', c2.args[0]))]
    a.contract(r'cmdr::vars::variable::operator=<std::string', whole)
    a.contract(r'^std::basic_stringstream<.*>::basic_stringstream\(std::string const&', stream); a.contract(r'^std::basic_stringstream<.*>::~', noop)
    a.contract(r'::tellg\(\)', lambda e, st, c2: [(st, ('ret', (I(fresh('place', I_SORT), 64), I(0, 64))))])
    def read(e, st, c2): r = fresh('read', I_SORT); st.assume(z3.And(r >= -1, r <= gi(st, 'value'), gi(st, 'value') < big, gi(st, 'extra') >= 0)); setg(st, 'taken', z3.If(r > 0, 1, 0)); setg(st, 'read', r); return [(st, ('ret', I(r, 64, -1, big)))]
    a.contract(r'^std::fpos<.*>::operator-\(', read)
    def eof(e, st, c2): b = fresh('at the end', B_SORT); setg(st, 'taken', z3.If(z3.Or(b, gi(st, 'taken') == 1), 1, 0)); return [(st, ('ret', b))]
    a.contract(r'::eof\(\) const', eof)
    def into(e, st, c2): ob(st, "the value is read into the selected flag's own", e.ptreq(st, c2.args[1], e.load(st, ir.PTR, a.at('default', Ptr(Ref(gi(st, 'flag'))))))); return [(st, ('ret', c2.args[0]))]
    a.contract(r'^cmdr::vars::operator>>\(', into)
    def add2(e, st, c2): q = a.at('matched_flags', pc); k, L = a.list(st, 'matched_flags', pc); e.wr(st, q, 'len', I_SORT, k + 1); e.wr(st, q, 'e.ptr', AI, z3.Store(L, k, toi(e.as_ref(c2.args[1])))); return [(st, ('ret', None))]
    a.contract(r'::add_matched_arg\(cmdr::opt::arg\*, std::shared_ptr', add2)
    def mk(e, st, c2): p = e.alloc(st, 'variable'); v = e.load(st, ir.INT(8), c2.args[1]); e.store(st, ir.PTR, p, c2.args[0]); e.store(st, ir.PTR, NULL, Ptr(c2.args[0].b, c2.args[0].off + 8)); setg(st, 'boolean', toi(v.u())); setg(st, 'value', toi(e.as_ref(p))); return [(st, ('ret', None))]
    a.contract(r'std::make_shared<cmdr::vars::variable, bool', mk); a.contract(r'^std::(__)?shared_ptr<.*>::~', noop)
    def announced(e, st, c2):
        f = gi(st, 'flag'); ob(st, 'the selected flag is announced', z3.And(f > 0, toi(e.as_ref(c2.args[1])) == f, gi(st, 'announced') == gi(st, 'selected') - 1)); setg(st, 'announced', gi(st, 'announced') + 1); v = toi(e.as_ref(e.load(st, ir.PTR, c2.args[2]))); k, L = a.list(st, 'matched_flags', pc)
        ob(st, 'it is the last of the matched flags', z3.And(k == m0 + gi(st, 'selected'), z3.Select(L, k - 1) == f)); ch = CHAR(T, pos(st) + gi(st, 'length')); plain = z3.Not(z3.Or(isb(f), isv(f)))
        ob(st, 'a flag with a value is given its own value', z3.Implies(plain, v == a.ptr(st, 'default', f)))
        ob(st, 'a boolean flag is off when - follows its name, and on otherwise', z3.Implies(isb(f), z3.And(v == gi(st, 'value'), gi(st, 'boolean') == z3.If(ch == ord('-'), 0, 1)))); ob(st, 'a flag without value is on', z3.Implies(isv(f), z3.And(v == gi(st, 'value'), gi(st, 'boolean') == 1)))
        ends(st, rem(st)); st.assume(CHAR(T, LEN(T)) == 0); inside = z3.And(gi(st, 'read') > 0, gi(st, 'extra') == 0, z3.Not(ist(f))); R = rem(st); setg(st, 'next', pos(st) + gi(st, 'length') + z3.If(isb(f), z3.If(z3.Or(ch == ord('-'), ch == ord('+')), 1, 0), z3.If(isv(f), 0, z3.If(inside, z3.If(CHAR(R, 0) == ord('='), 1, 0) + gi(st, 'read'), LEN(R)))))
        e.oblige(st, 'the next argument is used up only by a value it gave', idx(st) == gi(st, 'from') + z3.If(z3.And(plain, gi(st, 'extra') == 1, gi(st, 'taken') == 1), 1, 0)); return [(st, ('ret', None))]
    a.contract(r'^cmdr::app::on_arg_matched\(', announced); LAST = Ptr(Ref(z3.Int('last'))); st.assume(LAST.b.t > 0); a.contract(r'::last_matched_(cmd|flg)\(', lambda e, st, c2: [(st, ('ret', LAST))])
    def remain(e, st, c2):
        e.oblige(st, 'the handler of the flag gets what follows the token', z3.And(e.ptreq(st, c2.args[1], argv), toi(c2.args[2].s()) == idx(st) + 1, toi(c2.args[3].s()) == n)); k = fresh('n', I_SORT); st.assume(k >= 0); e.wr(st, c2.args[0], 'len', I_SORT, k); e.wr(st, c2.args[0], 'e.str', AS, fresh('rest', AS)); return [(st, ('ret', None))]
    a.contract(r'^cmdr::app::remain_args\(', remain); a.contract(r'^cmdr::app::unknown_(short|long)_flag_found\(', act); a.contract(r'^std::exception::', noop); a.contract(r'^cmdr::terminal::colors::colorize::', lambda e, st, c2: noop(e, st, c2) if c2.rty.k == 'void' else [(st, ('ret', c2.args[0]))]); a.contract(r'^cmdr::terminal::colors::operator<<', lambda e, st, c2: [(st, ('ret', c2.args[0]))]); a.contract(r'std::quoted', lambda e, st, c2: [(st, ('ret', e.const(st, c2.rty, ('undef',))))]); a.contract(r'std::operator<< <|operator<<.*_Quoted', lambda e, st, c2: [(st, ('ret', c2.args[0]))])
    def cand(ls):
        s = ls.st; return [('%s off' % nm, toi(x.s()) == 0) for nm, x, _ in ls.ints()] + [('still in the arguments', z3.And(idx(s) >= ix, idx(s) < n)), ('inside the token', z3.And(pos(s) >= 0, z3.Or(z3.And(gi(s, 'selected') == 0, pos(s) == 0), z3.And(pos(s) > 0, pos(s) == gi(s, 'next'), pos(s) < LEN(T))))), ('all announced', z3.And(gi(s, 'selected') >= 0, gi(s, 'selected') == gi(s, 'announced'), gi(s, 'selected') <= pos(s))), ('matched flags', a.list(s, 'matched_flags', pc)[0] == m0 + gi(s, 'selected')), ('token', a.str(s, 'title', pc) == T)]
    e.loopcands.append(cand); e.measures.append(lambda ls: [('what is left of the token', LEN(T) - pos(ls.st))])
    for s1, o in c.call([ap, pc, argc, argv, lead, fn]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        c.reached(s1, 'processed'); u1 = toi(e.rd(s1, a.at('unknown_flags', pc), 'len', I_SORT)); bad = gi(s1, 'flag') == 0
        e.oblige(s1, 'the positional arguments collected stay', z3.And(toi(e.rd(s1, a.at('noncmds', pc), 'len', I_SORT)) == rest0[0], e.rd(s1, a.at('noncmds', pc), 'e.str', AS) == rest0[1])); e.oblige(s1, 'the index stays inside the arguments and never goes back', z3.And(idx(s1) >= ix, idx(s1) < n))
        if tail: continue
        e.oblige(s1, 'every flag selected was announced', gi(s1, 'announced') == gi(s1, 'selected')); e.oblige(s1, 'and is among the matched flags', a.list(s1, 'matched_flags', pc)[0] == m0 + gi(s1, 'selected'))
        e.oblige(s1, 'the token is reported as unknown when a part of it names no flag, and only then', z3.If(bad, z3.Or(u1 == u0 + 1, u1 == u0), u1 == u0))
def kind(matching, leading, mft):
    def go(c):
        a = App(c); e, st = c.e, c.st; ap, pc = Ptr(Ref(z3.Int('app'))), e.newloc('context'); res = e.newloc('result'); st.assume(z3.Int('app') > 0); argc = c.int('argc', 32, 1)[0]; argv, arg = a.argv(toi(argc.s())); title = z3.Const('title', S_SORT); e.wrstr(st, a.at('title', pc), title); call = [n for n in e.m.funcs if re.match(r'std::function<cmdr::app::arg_matching_result \(cmdr::opt::types::parsing_context&\)>::operator\(\)', e.m.dem(n))][0]; ix, pos = a.int(st, 'index', pc), a.int(st, 'pos', pc, 64)
        def asked(name):
            def f(e, st, c2): e.gset(st, 'matcher', name); e.oblige(st, 'the matcher gets the context', e.ptreq(st, c2.args[1], pc)); return [(st, ('ret', None))]
            return f
        for w in ('special', 'long', 'short'): a.contract(r'^cmdr::app::matching_%s_flag\(' % w, asked(w))
        def process(e, st, c2):
            e.gset(st, 'processed', e.gget(st, 'processed', 0) + 1); e.oblige(st, 'the context and the arguments are handed on', z3.And(e.ptreq(st, c2.args[0], ap), e.ptreq(st, c2.args[1], pc), toi(c2.args[2].s()) == toi(argc.s()), e.ptreq(st, c2.args[3], argv))); e.oblige(st, 'the token is handed on as it is', z3.And(a.str(st, 'title', pc) == title, a.int(st, 'index', pc) == ix, a.int(st, 'pos', pc, 64) == pos)); e.oblige(st, 'without its %d leading characters' % leading, toi(c2.args[4].s()) == leading); e.oblige(st, 'the kind of the flag is noted', a.int(st, 'mft', pc) == mft)
            for s2, o2 in e.run(st.copy(), call, [res, c2.args[5], pc]): e.oblige(s2, '%s flags are looked up' % matching, bool(o2[0] == 'ret' and e.gget(s2, 'matcher', '') == matching))
            r = fresh('rc', I_SORT); lo, hi = -(1 << 31), (1 << 31) - 1; st.assume(z3.And(r >= lo, r <= hi)); e.gset(st, 'rc', r); return [(st, ('ret', I(r, 32, lo, hi)))]
        a.contract(r'^cmdr::app::process_flag\(', process)
        for s1, o in c.call([ap, pc, argc, argv]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'processed'); e.oblige(s1, 'processed once', e.gget(s1, 'processed', 0) == 1); e.oblige(s1, 'the result is the one of the processing', toi(o[1].s()) == e.gget(s1, 'rc', z3.IntVal(0)))
    return go
def units(): return [Unit('app::process_flag', 'app', 'dv_process_flag', token, dict(maxpaths=16000)), Unit('app::process_special_flag', 'app', 'dv_process_special', kind('special', 2, 2)), Unit('app::process_long_flag', 'app', 'dv_process_long', kind('long', 2, 1)), Unit('app::process_short_flag', 'app', 'dv_process_short', kind('short', 1, 0))]
HARNESS = 'c21'
HSECS = 24
NOTE = 'process_flag is proved for any number of flags combined in a token with an invariant over its loop (all flags selected so far were announced, the position is right behind what they took); the look-up is used by its contract (C02), the setting of the value by the one of on_arg_matched (C07).'
ASSUME = ['every flag has a value object (arg constructors)', 'reading a value from a stream (operator>> of variable) is used by contract only: it consumes a part of the text and changes that value only; which texts it accepts is arbitrary here (C10 for booleans)', 'parsing_context::add_matched_arg (flag and value) appends the flag to the matched ones', 'handlers do not change the parsing context', 'string::strip_quotes is used by the contract proved for it in C11', 'the token is shorter than 2^30 characters']
