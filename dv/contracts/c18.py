"""C18: help text layout shows every item and all of its description"""
from appx import *
NB = z3.Function('nonblank', S_SORT, S_SORT)                    # the text without its blanks; blank-free parts add up (law used where a text is cut)
E = z3.StringVal(''); AB = z3.ArraySort(S_SORT, B_SORT); AP = z3.ArraySort(S_SORT, I_SORT); NP = z3.ArraySort(S_SORT, AI)
def desc(c):
    a = App(c); e, st = c.e, c.st; pd, D = c.text('description'); st.assume(z3.Length(D) < (1 << 31) - 1); out = e.newloc('result'); OUT, PEND, LINE = e.newloc('laid out'), e.newloc('pending'), e.newloc('line used'); col = Ptr(Ref(z3.Int('colors'))); st.assume(z3.Int('colors') > 0)
    st.assume(NB(E) == E); e.wrstr(st, OUT, E); e.wrstr(st, PEND, E); line = lambda s: toi(e.load(s, ir.INT(32), LINE).s()); setline = lambda s, v: e.store(s, ir.INT(32), I(v, 32), LINE); setline(st, 0)
    tw, TW = c.int('terminal width', 32); wt, WT = c.int('title width', 32, 0, (1 << 31) - 4); R = z3.If(TW <= 0, z3.IntVal(1000), TW) - WT - 2
    def substr(e, st, c2):
        sret = c2.attrs and 'sret' in c2.attrs[0]; o, s = (c2.args[0], c2.args[1]) if sret else (None, c2.args[0]); k = c2.args[2 if sret else 1:]
        t = e.rdstr(st, s); n = z3.Length(t); i = toi(k[0].u()); m = toi(k[1].u()) if len(k) > 1 else n; m = z3.If(m < n - i, m, n - i); cut = lambda f, l: z3.SubString(t, f, l)
        st.assume(z3.Implies(i <= n, z3.And(NB(t) == z3.Concat(NB(cut(0, i)), NB(cut(i, n - i))), NB(cut(i, n - i)) == z3.Concat(NB(cut(i, m)), NB(cut(i + m, n - i - m)))))); return None
    a.contract(r'^std::string::substr\(', substr)
    def trim(e, st, c2):
        sret = c2.attrs and 'sret' in c2.attrs[0]; x = c2.args[1] if sret else c2.args[0]; t = e.rdstr(st, x); r = fresh('trimmed', S_SORT); st.assume(z3.And(NB(r) == NB(t), z3.Length(r) <= z3.Length(t)))
        e.wrstr(st, c2.args[0], r); return [(st, ('ret', None if sret else c2.args[0]))]
    a.contract(r'^cmdr::string::trim_(left|right)?_?(space|whitespaces)?\(', trim)
    def blanks(e, st, c2):
        k = c2.args; t = fresh('run', S_SORT); n = toi(k[1].u()); st.assume(z3.And(z3.Length(t) == n, z3.Implies(toi(k[2].u()) == 32, NB(t) == E))); e.oblige(st, 'a text of a reasonable length', z3.And(n >= 0, n < (1 << 62)), 'safety'); e.wrstr(st, k[0], t); return [(st, ('ret', None))]
    a.contract(r'^std::string::basic_string<std::allocator<char>>\(unsigned long, char', blanks)
    a.contract(r'^cmdr::terminal::colors::colorize::(fg|bg|dim|bold|underline|italic)\(', lambda e, st, c2: [(st, ('ret', c2.args[0]))])
    def seg(e, st, c2): e.wrstr(st, PEND, e.rdstr(st, c2.args[1]) if 'std::string' in c2.dem.split('::s(')[1] else e.ctext(st, c2.args[1])); return [(st, ('ret', c2.args[0]))]
    a.contract(r'^cmdr::terminal::colors::colorize::s\(', seg)
    def put(st, what, t): e.wrstr(st, OUT, z3.Concat(e.rdstr(st, OUT), t))
    def stream(st, p): q = e.gget(st, 'stream'); e.gset(st, 'stream', p) if q is None else e.oblige(st, 'everything goes to one stream', e.ptreq(st, p, q))
    def outcol(e, st, c2):
        stream(st, c2.args[0]); t = e.rdstr(st, PEND); e.oblige(st, 'no more than the available width on a line', z3.Implies(R > 0, z3.And(z3.Length(t) <= R, z3.Or(line(st) == 0, z3.Length(t) == 0)))); put(st, 'text', NB(t)); setline(st, 1); return [(st, ('ret', c2.args[0]))]
    a.contract(r'cmdr::terminal::colors::operator<<\(', outcol)
    def outch(e, st, c2):
        stream(st, c2.args[0]); v = c2.args[1]; x = e.ctext(st, v) if isinstance(v, Ptr) else None
        if x is not None:
            if not z3.is_string_value(x): raise Unsupported('writes an unknown text')
            s = x.as_string(); put(st, 'text', z3.StringVal(s.replace(' ', '').replace('\n', ''))); setline(st, 0) if '\n' in s else None
        elif isinstance(v.t, int) or z3.is_int_value(simp(toi(v.u()))): k = int(str(simp(toi(v.u())))); put(st, 'char', E if k in (10, 32) else z3.StringVal(chr(k))); setline(st, 0) if k == 10 else None
        else: raise Unsupported('writes an unknown character')
        return [(st, ('ret', c2.args[0]))]
    a.contract(r'std::operator<< <std::char_traits<char>>\(', outch)
    def outstr(e, st, c2): stream(st, c2.args[0]); put(st, 'text', NB(e.rdstr(st, c2.args[1]))); return [(st, ('ret', c2.args[0]))]
    a.contract(r'std::operator<< <char, std::char_traits<char>>\(.*std::string const&', outstr)
    def result(e, st, c2): e.oblige(st, 'the text laid out is the one returned', e.ptreq(st, c2.args[1], e.gget(st, 'stream', NULL))); e.wrstr(st, c2.args[0], fresh('help', S_SORT)); e.gset(st, 'returned', 1); return [(st, ('ret', None))]
    a.contract(r'^std::basic_(o)?stringstream<.*::str\(\) const', result)
    mine = lambda p: p.b is OUT.b or p.b is PEND.b or p.b is pd.b
    def cand(ls):
        r = [('the line in use', z3.And(line(ls.st) >= 0, line(ls.st) <= 1))]
        for nm, x, _ in ls.ints(): r += [('pieces', z3.And(x.s() >= 0, (line(ls.st) == 0) == (x.s() == 0))), ('the first piece', (line(ls.st) == 0) == (toi(x.u()) % 2 == 1)), ('no piece yet', (line(ls.st) == 0) == (toi(x.u()) % 2 == 0))]
        for nm, t, _ in ls.strs(): r += [('what was laid out and what is left is the description', z3.Concat(e.rdstr(ls.st, OUT), NB(t)) == NB(D)), ('what is left is no longer', z3.Length(t) <= z3.Length(D))] + [('pieces and what is left %s %s' % (nx, nm), z3.And(x.s() >= 0, x.s() + z3.Length(t) <= z3.Length(D), z3.Or(x.s() == 0, z3.Length(t) > 0))) for nx, x, _ in ls.ints()]
        return r
    e.loopcands.append(cand); e.measures.append(lambda ls: [('what is left', z3.Length(t)) for nm, t, _ in ls.strs()])
    for s1, o in c.call([out, pd, col, I(z3.Int('fg'), 32), z3.Bool('dim'), tw, wt]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        if not e.gget(s1, 'returned'): raise Unsupported('the result is not taken from a string stream')
        c.reached(s1, 'laid out'); e.oblige(s1, 'every non-blank character, in order', e.rdstr(s1, OUT) == NB(D))
def widths(cls):
    def go(c):
        a = App(c); e, st = c.e, c.st; lp, out = e.newloc('items'), e.newloc('widths'); n = toi(e.rd(st, lp, 'len', I_SORT)); L = e.rd(st, lp, 'e.ptr', AI); q, i, j = z3.Int('q'), z3.Int('i'), z3.Int('j'); h = z3.Bool('show hidden')
        for f in ('long', 'short') + (('placeholder',) if cls == 'arg' else ()): a.str(st, f, q)
        p = a.at('aliases', Ptr(Ref(q))); AN = lambda y: toi(e.rd(st0, Ptr(Ref(y), p.off), 'len', I_SORT)); AA = lambda y: e.rd(st0, Ptr(Ref(y), p.off), 'e.str', AS); e.rd(st, p, 'len', I_SORT), e.rd(st, p, 'e.str', AS); a.get(st, 'dv_hidden', q); st0 = st.copy()
        LEN = z3.Function('length of', S_SORT, I_SORT); ln = lambda f, y: LEN(a.str(st0, f, y)); arg = cls == 'arg'; el = lambda k: z3.Select(L, k); vis = lambda y: z3.Or(h, z3.Not(a.get(st0, 'dv_hidden', y)))
        W = [lambda y: ln('long', y) + (2 + z3.If(ln('placeholder', y) == 0, 0, ln('placeholder', y) + 1) if arg else 0), lambda y: ln('short', y) + (1 if arg else 0)]
        SUM = z3.Function('width of the first aliases', I_SORT, I_SORT, I_SORT); W.append(lambda y: SUM(y, AN(y)))
        M = [z3.Function('widest of the first items %d' % k, I_SORT, I_SORT) for k in range(3)]; CNT = z3.Function('visible of the first items', I_SORT, I_SORT); mx = lambda x, y: z3.If(x > y, x, y)
        st.assume(z3.And(n >= 0, n < (1 << 30))); big = 1 << 29
        st.assume(z3.And(*[m(0) == 0 for m in M] + [CNT(0) == 0]))
        def item(i): y = el(i); return z3.Implies(z3.And(0 <= i, i < n), z3.And(y > 0, AN(y) >= 0, AN(y) < big, SUM(y, 0) == 0, SUM(y, AN(y)) >= 0, CNT(i + 1) == CNT(i) + z3.If(vis(y), 1, 0), *[m(i + 1) == z3.If(vis(y), mx(m(i), w(y)), m(i)) for m, w in zip(M, W)] + [z3.And(ln(f, y) >= 0, ln(f, y) < big) for f in ('long', 'short') + (('placeholder',) if arg else ())]))
        def alias(y, j): al = z3.Select(AA(y), j); return z3.Implies(z3.And(0 <= j, j < AN(y)), z3.And(LEN(al) > 0, LEN(al) < big, SUM(y, j + 1) == SUM(y, j) + z3.If(j > 0, 1, 0) + LEN(al) + (2 if arg else 0), SUM(y, j + 1) < big))
        a.contract(r'^std::string::(length|size)\(\)', lambda e, st, c2: [(st, ('ret', I(LEN(e.rdstr(st, c2.args[0])), 64)))])
        a.contract(r'^std::string::empty\(\)', lambda e, st, c2: [(st, ('ret', LEN(e.rdstr(st, c2.args[0])) == 0))])
        def cand(ls):
            r = []
            for nm, p, _ in ls.ptrs():
                if p.b.kind == 'lit':
                    at = toi(p.b.idx); ls.st.assume(item(at)); r += [('position', z3.And(at >= 0, at <= n))]
                    for nm2, x, _ in ls.ints():
                        v = x.s(); r += [('a width so far', v == m(at)) for m in M] + [('visible so far', v == CNT(at)), ('sane', z3.And(v >= 0, v < big)), ('counted', z3.And(v >= 0, v <= at))]
                if p.b.kind == 'elem' and p.b.c.b.kind == 'ref':
                    at, y = toi(p.b.idx), p.b.c.b.t; ls.st.assume(alias(y, at)); r += [('alias position', z3.And(at >= 0, at <= AN(y)))]
                    for nm2, x, _ in ls.ints(): r += [('alias width', x.s() == SUM(y, at)), ('nothing before the first', (x.s() > 0) == (at > 0))]
            return r
        e.loopcands.append(cand); e.measures.append(lambda ls: [('left', (n if p.b.kind == 'lit' else AN(p.b.c.b.t)) - toi(p.b.idx)) for nm, p, _ in ls.ptrs() if p.b.kind == 'lit' or p.b.kind == 'elem' and p.b.c.b.kind == 'ref'])
        for s1, o in c.call([h, lp, out]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'measured'); g = lambda k: toi(e.load(s1, ir.INT(32), Ptr(out.b, out.off + 4 * k)).s())
            for k, nm in enumerate(('long titles', 'short titles', 'aliases')): e.oblige(s1, 'the width of the %s is the largest of a visible item' % nm, g(k) == M[k](n))
            e.oblige(s1, 'the visible items are counted', g(4) == CNT(n))
    return Unit('calc_widths (%s)' % {'arg': 'flags', 'cmd': 'commands'}[cls], 'app', 'dv_calc_' + cls, go)
def sorting(cls):
    def go(c):
        a = App(c); e, st = c.e, c.st; m, out, cnt = e.newloc('groups'), e.newloc('keys'), e.newloc('times listed'); D = e.rd(st, m, 'dom', AB); T = z3.Const('group', S_SORT); n = fresh('count', I_SORT)
        listed = lambda s: toi(e.load(s, ir.INT(32), cnt).s()); e.store(st, ir.INT(32), I(0, 32), cnt); there = e.newloc('in the set'); e.store(st, ir.INT(32), I(0, 32), there)
        for k in ('set', 'multimap'): a.contract(r'^std::%s<std::string.*>::~?%s\(\)' % (k, k), lambda e, st, c2: [(st, ('ret', None))])
        def member(e, st, c2):
            v = e.rdstr(st, c2.args[1]); d = e.gget(st, 'set') or c2.args[0]; e.gset(st, 'set', d); e.oblige(st, 'one set of keys', e.ptreq(st, d, c2.args[0]))
            M = e.load(st, ir.INT(32), there).s(); was = fresh('known before', B_SORT); st.assume(z3.Implies(v == T, was == (toi(M) != 0))); e.store(st, ir.INT(32), I(z3.If(v == T, 1, toi(M)), 32), there); return [(st, ('ret', (NULL, I(z3.If(was, 0, 1), 8))))]
        a.contract(r'^std::set<std::string.*>::insert\(', member)
        a.contract(r'^std::stoi\(', lambda e, st, c2: [(st, ('ret', I(stoi(e, st), 32)))])
        def stoi(e, st): x = fresh('first number', I_SORT); st.assume(z3.And(x >= 0, x < (1 << 30))); return x
        def text(e, st, c2): e.wrstr(st, c2.args[0], fresh('text', S_SORT)); return [(st, ('ret', None))]
        a.contract(r'^std::to_string\(', text)
        def insert(e, st, c2):
            e.oblige(st, 'inserted into the result', e.ptreq(st, c2.args[0], out)); v = e.rdstr(st, Ptr(c2.args[1].b, c2.args[1].off + 32, c2.args[1].idx, c2.args[1].es)); e.store(st, ir.INT(32), I(listed(st) + z3.If(v == T, 1, 0), 32), cnt); return [(st, ('ret', NULL))]
        a.contract(r'^std::multimap<std::string.*>::(insert|emplace)\(', insert)
        def cand(ls):
            r = []
            for nm, p, _ in ls.ptrs():
                if p.b.kind == 'mit':
                    at, en = toi(p.b.idx), p.b.en; ls.st.assume(z3.And(en['n'] >= 0, en['n'] < (1 << 30))); r += [('position', z3.And(at >= 0, at <= en['n'])), ('listed once so far', listed(ls.st) == z3.If(z3.And(z3.Select(D, T), en['pos'](en['dom'], T) < at), 1, 0)), ('in the set so far', toi(e.load(ls.st, ir.INT(32), there).s()) == z3.If(z3.And(z3.Select(D, T), en['pos'](en['dom'], T) < at), 1, 0))]
                    for nx, x, v in ls.ints(): r += [('number', z3.And(x.s() >= 0, x.s() <= toi(v.s()) + at))] if v is not None else []
            return r
        e.loopcands.append(cand); e.measures.append(lambda ls: [('left', p.b.en['n'] - toi(p.b.idx)) for nm, p, _ in ls.ptrs() if p.b.kind == 'mit'])
        for s1, o in c.call([out, m]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'sorted'); e.oblige(s1, 'every group is listed exactly once', listed(s1) == z3.If(z3.Select(D, T), 1, 0))
    return Unit('sort_keys (%s)' % {'arg': 'flags', 'cmd': 'commands'}[cls], 'app', 'dv_sort_%ss' % cls, go)
DESC = z3.Function('description', I_SORT, S_SORT); TITLE = z3.Function('group title', I_SORT, S_SORT); KEYT = z3.Function('sort key', I_SORT, S_SORT); PLACE = z3.Function('place of group', S_SORT, I_SORT); TOTAL = z3.Function('items of the first groups', I_SORT, I_SORT)
def printing(cls):
    """every visible item of every group is titled and described exactly once (sort_keys, calc_widths and _out_desc by their contracts)"""
    def go(c):
        a = App(c); e, st = c.e, c.st; k, y, q = z3.Int('command'), z3.Int('item'), z3.Int('q'); big = 1 << 28; n, j0 = z3.Int('groups'), z3.Int('place in group'); tt = z3.Const('group of the item', S_SORT); SS = Ptr(Ref(z3.Int('stream'))); keys, entry, cnt, tit, wt = e.newloc('sorted groups'), e.newloc('entry'), e.newloc('times described'), e.newloc('times titled'), e.newloc('title width')
        a.str(st, 'long', q), a.get(st, 'dv_hidden', q); p = a.at('grouped_%ss' % {'arg': 'arg', 'cmd': 'command'}[cls], Ptr(Ref(k))); GD, GL, GE = e.rd(st, p, 'dom', AB), e.rd(st, p, 'v.len', AP), e.rd(st, p, 'v.e.ptr', NP)
        a.devirtual(cls); st0 = st.copy(); e.wr(st, keys, 'len', I_SORT, n); get = lambda s, at: toi(e.load(s, ir.INT(32), at).s()); put = lambda s, at, v: e.store(s, ir.INT(32), I(v, 32), at); put(st, cnt, 0), put(st, tit, 0)
        W = z3.Int('title width'); put(st, wt, W); h = z3.Bool('show hidden'); lv = c.int('level', 32, -1, 1 << 20)[0]; vis = z3.Or(h, z3.Not(a.get(st0, 'dv_hidden', y))); el = lambda g, j: z3.Select(z3.Select(GE, g), j)
        st.assume(z3.And(k > 0, y > 0, n >= 0, n < big, W >= 0, W < big, z3.Int('stream') > 0, z3.Int('colors') > 0, z3.Select(GD, tt), TOTAL(0) == 0, PLACE(tt) >= 0, PLACE(tt) < n, TITLE(PLACE(tt)) == tt, 0 <= j0, j0 < z3.Select(GL, tt), el(tt, j0) == y))
        def any32(s, at, lo=-(1 << 31), hi=(1 << 31) - 1): x = fresh('number', I_SORT); s.assume(z3.And(x >= lo, x <= hi)); put(s, at, x); return x
        def outs(s, c2):
            for t, x in zip(models.params(c2), c2.args[1 if c2.attrs and 'sret' in c2.attrs[0] else 0:]):
                if t == 'int&': any32(s, x, 0, big)
        def text(rx):
            def f(e, st, c2): outs(st, c2); e.wrstr(st, c2.args[0], fresh('text', S_SORT)); return [(st, ('ret', None))]
            a.contract(rx, f)
        for f in ('_out_group_name', '_out_comma_space', '_out_placeholder', '_out_title_aliases', '_out_title_short', '_os_env_vars', 'clean_group_name'): text(r'^cmdr::opt::detail::%s\(' % f)
        text(r'^cmdr::util::detect_shell_env\('); text(r'^cmdr::opt::arg::defaults\('); text(r'^cmdr::string::reg_replace\(')
        def size(e, st, c2): any32(st, c2.args[0]), any32(st, Ptr(c2.args[0].b, c2.args[0].off + 4)); return [(st, ('ret', None))]
        def size(e, st, c2):
            if c2.attrs and 'sret' in c2.attrs[0]: any32(st, c2.args[0]), any32(st, Ptr(c2.args[0].b, c2.args[0].off + 4)); return [(st, ('ret', None))]
            raise Unsupported('the size of the terminal is not returned in memory')
        a.contract(r'^cmdr::terminal::terminfo::get_win_size\(', size)
        a.contract(r'^cmdr::opt::detail::sort_keys\(', lambda e, st, c2: [(st, ('ret', None)) for _ in [e.gset(st, 'keys', c2.args[0]), e.oblige(st, 'the groups of this command are sorted', e.ptreq(st, c2.args[1], p))]][:1])
        def tab(e, st, c2): e.oblige(st, 'the groups of this command are measured', e.ptreq(st, c2.args[1], p)); any32(st, c2.args[3], 0, 4 * big); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::detail::populate_tab_stop_width\(', tab)
        a.contract(r'^std::multimap<std::string.*>::~multimap\(\)', lambda e, st, c2: [(st, ('ret', None))])
        it = lambda i: Ptr(LIt(keys, i, 'group'))
        def ends(i):
            def f(e, st, c2): e.oblige(st, 'the sorted groups are walked', e.ptreq(st, c2.args[0], e.gget(st, 'keys', NULL))); return [(st, ('ret', it(i)))]
            return f
        a.contract(r'^std::multimap<std::string.*>::c?begin\(\)', ends(z3.IntVal(0))); a.contract(r'^std::multimap<std::string.*>::c?end\(\)', ends(n))
        def deref(e, st, c2):
            x = e.load(st, ir.PTR, c2.args[0]); i = toi(x.b.idx); e.oblige(st, 'iterator dereferenced in range', z3.And(0 <= i, i < n), 'safety'); e.wrstr(st, entry, KEYT(i)); e.wrstr(st, Ptr(entry.b, entry.off + 32), TITLE(i)); return [(st, ('ret', entry))]
        a.contract(r'^std::_Rb_tree_(const_)?iterator<std::pair<std::string const, std::string.*>::operator(\*|->)\(', deref)
        a.contract(r'^std::_Rb_tree_(const_)?iterator<std::pair<std::string const, std::string.*>::operator\+\+\(', lambda e, st, c2: models.step(e, st, c2, 1, len(c2.args) > 1))
        def widths(e, st, c2):
            lp = c2.args[2]; g = lp.b.k if lp.b.kind == 'mnode' else None
            if g is None: raise Unsupported('widths of an unknown list')
            for i in range(4): any32(st, a.at('width%d' % i, c2.args[0]), 0, big)
            x = any32(st, a.at('width4', c2.args[0]), 0, big); st.assume(z3.Implies(z3.And(g == tt, vis), x > 0)); e.oblige(st, 'counted as it is shown', tob(c2.args[1]) == h); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::detail::calc_widths\(', widths)
        LEN = z3.Function('length of', S_SORT, I_SORT)
        def length(e, st, c2): x = LEN(e.rdstr(st, c2.args[0])); st.assume(z3.And(x >= 0, x < big)); return [(st, ('ret', I(x, 64)))]
        a.contract(r'^std::string::(length|size)\(\)', length); a.contract(r'^std::string::empty\(\)', lambda e, st, c2: [(st, ('ret', LEN(e.rdstr(st, c2.args[0])) == 0))])
        def descr(e, st, c2): r = toi(e.as_ref(c2.args[1])); e.gset(st, 'item', r); e.wrstr(st, c2.args[0], DESC(r)); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::(bas|arg|cmd)::descriptions\(\)', descr)
        def laid(e, st, c2):
            r = e.gget(st, 'item'); e.oblige(st, 'what is laid out holds the description of the item', False if r is None else z3.Contains(e.rdstr(st, c2.args[1]), DESC(r))); e.wrstr(st, c2.args[0], fresh('laid out', S_SORT)); e.gset(st, 'laid', (c2.args[0], r)); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::detail::_out_desc\(', laid)
        def titled(e, st, c2):
            r = toi(e.as_ref(c2.args[2])); e.oblige(st, 'the title printed is that of the item', e.rdstr(st, c2.args[1]) == a.str(st0, 'long', r)); outs(st, c2); e.wrstr(st, c2.args[0], fresh('title', S_SORT)); e.gset(st, 'title', (c2.args[0], r)); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::detail::_out_title_long\(', titled)
        def out(e, st, c2):
            if not (isinstance(c2.args[0], Ptr) and c2.args[0].b.kind == 'ref'): return None
            e.oblige(st, 'written to the stream given', e.ptreq(st, c2.args[0], SS)); x = c2.args[1]
            for what, at in (('laid', cnt), ('title', tit)):
                g = e.gget(st, what)
                if g is not None and isinstance(x, Ptr) and x.b is g[0].b: put(st, at, get(st, at) + z3.If(g[1] == y, 1, 0)); e.gset(st, what, None)
            return [(st, ('ret', c2.args[0]))]
        a.contract(r'std::operator<< <', out); a.contract(r'^std::basic_ostream<.*>::operator<<\(', out)
        a.contract(r'^cmdr::terminal::colors::operator<<\(', out); a.contract(r'^cmdr::terminal::colors::colorize::(fg|bg|dim|s)\(', lambda e, st, c2: [(st, ('ret', c2.args[0]))])
        a.contract(r'^std::set(w|fill)\b|^std::_Setfill<char> std::setfill', lambda e, st, c2: [(st, ('ret', I(fresh('manipulator', I_SORT), 8 if 'fill' in c2.dem else 32)))])
        def blanks(e, st, c2): m = toi(c2.args[1].u()); e.oblige(st, 'a text of a reasonable length', z3.And(m >= 0, m < (1 << 62)), 'safety'); e.wrstr(st, c2.args[0], fresh('blanks', S_SORT)); return [(st, ('ret', None))]
        a.contract(r'^std::string::basic_string<std::allocator<char>>\(unsigned long, char', blanks)
        def self(e, st, c2):
            if not e.gget(st, 'entered'): e.gset(st, 'entered', 1); return None
            any32(st, c2.args[3], 0, 4 * big); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::cmd::print_(commands|flags)\(', self)
        def cand(ls):
            r = []; s = ls.st; C, T = get(s, cnt), get(s, tit)
            for nm, x, _ in ls.ints(): r += [('bounded', z3.And(x.s() >= 0, x.s() <= 4 * big))]
            lng = z3.And(vis, LEN(a.str(st0, 'long', y)) > 0)
            for nm, x, _ in ls.ptrs():
                if x.b.kind != 'lit': continue
                at = toi(x.b.idx)
                if x.b.c.b is keys.b: s.assume(z3.Implies(z3.And(0 <= at, at < n), z3.And(z3.Select(GD, TITLE(at)), PLACE(TITLE(at)) == at, z3.Select(GL, TITLE(at)) >= 0, z3.Select(GL, TITLE(at)) < big, TOTAL(at + 1) == TOTAL(at) + z3.Select(GL, TITLE(at)), TOTAL(at + 1) < big))); r += [('position', z3.And(at >= 0, at <= n))] + [('items so far %s' % nx, z3.And(v.s() >= 0, v.s() <= TOTAL(at))) for nx, v, _ in ls.ints()] + [ ('described so far', C == z3.If(z3.And(vis, PLACE(tt) < at), 1, 0)), ('titled so far', T == z3.If(z3.And(lng, PLACE(tt) < at), 1, 0))]
                elif x.b.c.b.kind == 'mnode':
                    g = x.b.c.b.k; v = el(g, at); m = z3.Select(GL, g); s.assume(z3.Implies(z3.And(0 <= at, at < m), z3.And(v > 0, (v == y) == z3.And(g == tt, at == j0)))); got = lambda w: z3.If(z3.And(w, g == tt, j0 < at), 1, 0)
                    r += [('place', z3.And(at >= 0, at <= m))] + [('items of the group so far %s' % nx, z3.And(v.s() >= 0, v.s() <= v0.s() + at)) for nx, v, v0 in ls.ints() if v0 is not None] + [ ('described in this group', C == get(ls.st0, cnt) + got(vis)), ('titled in this group', T == get(ls.st0, tit) + got(lng))]
            return r
        e.loopcands.append(cand); e.measures.append(lambda ls: [('left', (n if x.b.c.b is keys.b else z3.Select(GL, x.b.c.b.k)) - toi(x.b.idx)) for nm, x, _ in ls.ptrs() if x.b.kind == 'lit' and (x.b.c.b is keys.b or x.b.c.b.kind == 'mnode')])
        for s1, o in c.call([Ptr(Ref(k)), SS, Ptr(Ref(z3.Int('colors'))), wt, h, lv]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'printed'); e.oblige(s1, 'a visible item is described exactly once, a hidden one never', get(s1, cnt) == z3.If(vis, 1, 0)); e.oblige(s1, 'a visible item with a long title is titled exactly once', get(s1, tit) == z3.If(z3.And(vis, LEN(a.str(st0, 'long', y)) > 0), 1, 0))
    return Unit('print_%s' % {'arg': 'flags', 'cmd': 'commands'}[cls], 'app', 'dv_print_%ss' % cls, go, dict(maxpaths=16000))
def title(kind):
    def go(c):
        a = App(c); e, st = c.e, c.st; (pt, T), out, cnt, x, pend = c.text('title'), e.newloc('result'), e.newloc('escaped'), z3.Int('item'), e.newloc('pending'); st.assume(z3.And(x > 0, z3.Int('colors') > 0, z3.Length(T) < (1 << 29))); e.store(st, ir.INT(32), I(z3.Int('escaped before'), 32), cnt); st.assume(z3.And(z3.Int('escaped before') >= 0, z3.Int('escaped before') < (1 << 28))); e.wrstr(st, pend, E)
        a.contract(r'^cmdr::terminal::colors::colorize::(fg|bg|dim|bold|underline|italic)\(', lambda e, st, c2: [(st, ('ret', c2.args[0]))])
        def seg(e, st, c2): e.wrstr(st, pend, e.rdstr(st, c2.args[1]) if 'std::string' in c2.dem.split('::s(')[1] else e.ctext(st, c2.args[1])); return [(st, ('ret', c2.args[0]))]
        a.contract(r'^cmdr::terminal::colors::colorize::s\(', seg)
        def esc(st): r = fresh('escape', S_SORT); st.assume(z3.Length(r) < (1 << 20)); return r
        def color(e, st, c2): models.ssput(e, st, c2.args[0], z3.Concat(esc(st), e.rdstr(st, pend), esc(st))); return [(st, ('ret', c2.args[0]))]
        a.contract(r'cmdr::terminal::colors::operator<<\(', color)
        for s1, o in c.call([out, pt, Ptr(Ref(x)), Ptr(Ref(z3.Int('colors'))), I(z3.Int('fg'), 32), z3.Bool('dim'), z3.Bool('underline'), cnt, z3.Bool('flag')]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'printed'); r = e.rdstr(s1, out); e.oblige(s1, 'the whole title is printed', z3.Contains(r, T))
    return Unit('_out_title_%s' % kind, 'app', 'dv_title_' + kind, go)
def clean(c):
    a = App(c); e, st = c.e, c.st; (pk, K), (pg, G), out = c.text('key'), c.text('group'), e.newloc('result')
    for s1, o in c.call([out, pk, pg]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        c.reached(s1, 'cleaned'); r = e.rdstr(s1, out); pre = z3.Concat(K, z3.StringVal('.')); e.oblige(s1, 'only the sort key and its dot are taken off', z3.If(z3.PrefixOf(pre, G), z3.Concat(pre, r) == G, r == G))
def populating(cls):
    def go(c):
        a = App(c); e, st = c.e, c.st; m, keys, entry, cell = e.newloc('groups'), e.newloc('sorted groups'), e.newloc('entry'), e.newloc('width'); n, W = z3.Int('groups'), z3.Int('width before'); big = 1 << 28; GL = e.rd(st, m, 'v.len', AP); D = e.rd(st, m, 'dom', AB); j = z3.Int('a group'); h = z3.Bool('show hidden')
        st.assume(z3.And(n >= 0, n < big, W >= 0, W < 4 * big, 0 <= j, j < n, z3.Select(D, TITLE(j)))); e.store(st, ir.INT(32), I(W, 32), cell); e.wr(st, keys, 'len', I_SORT, n); it = lambda i: Ptr(LIt(keys, i, 'group')); width = lambda s: toi(e.load(s, ir.INT(32), cell).s())
        WF = [z3.Function('width %d of group' % i, S_SORT, I_SORT) for i in range(5)]; want = lambda g: z3.If(WF[0](g) > 0, WF[0](g) + WF[1](g) + WF[2](g) + 6, 0)
        a.contract(r'^std::multimap<std::string.*>::c?begin\(\)', lambda e, st, c2: [(st, ('ret', it(z3.IntVal(0))))]); a.contract(r'^std::multimap<std::string.*>::c?end\(\)', lambda e, st, c2: [(st, ('ret', it(n)))])
        def deref(e, st, c2):
            x = e.load(st, ir.PTR, c2.args[0]); i = toi(x.b.idx); e.oblige(st, 'iterator dereferenced in range', z3.And(0 <= i, i < n), 'safety'); e.wrstr(st, entry, KEYT(i)); e.wrstr(st, Ptr(entry.b, entry.off + 32), TITLE(i)); return [(st, ('ret', entry))]
        a.contract(r'^std::_Rb_tree_(const_)?iterator<std::pair<std::string const, std::string.*>::operator(\*|->)\(', deref)
        a.contract(r'^std::_Rb_tree_(const_)?iterator<std::pair<std::string const, std::string.*>::operator\+\+\(', lambda e, st, c2: models.step(e, st, c2, 1, len(c2.args) > 1))
        def text(e, st, c2): e.wrstr(st, c2.args[0], fresh('text', S_SORT)); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::detail::clean_group_name\(', text)
        def widths(e, st, c2):
            lp = c2.args[2]
            if lp.b.kind != 'mnode': raise Unsupported('widths of an unknown list')
            e.oblige(st, 'measured as it is shown', tob(c2.args[1]) == h)
            for i in range(5): x = WF[i](lp.b.k); st.assume(z3.And(x >= 0, x < big)); e.store(st, ir.INT(32), I(x, 32), a.at('width%d' % i, c2.args[0]))
            return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::detail::calc_widths\(', widths)
        def cand(ls):
            r = []
            for nm, x, _ in ls.ptrs():
                if x.b.kind == 'lit': at = toi(x.b.idx); r += [('position', z3.And(at >= 0, at <= n)), ('wide enough for the groups so far', z3.And(width(ls.st) >= W, width(ls.st) < 4 * big, z3.Implies(j < at, width(ls.st) >= want(TITLE(j)))))]
            return r
        e.loopcands.append(cand); e.measures.append(lambda ls: [('left', n - toi(x.b.idx)) for nm, x, _ in ls.ptrs() if x.b.kind == 'lit'])
        for s1, o in c.call([keys, m, h, cell]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'measured'); e.oblige(s1, 'the title column is wide enough for every group', z3.And(width(s1) >= W, width(s1) < 4 * big, width(s1) >= want(TITLE(j))))
    return Unit('populate_tab_stop_width (%s)' % {'arg': 'flags', 'cmd': 'commands'}[cls], 'app', 'dv_populate_%ss' % cls, go)
def units(): return [Unit('_out_desc', 'app', 'dv_out_desc', desc), widths('cmd'), widths('arg'), sorting('cmd'), sorting('arg'), printing('cmd'), printing('arg'), populating('cmd'), populating('arg'), title('long'), title('short'), Unit('clean_group_name', 'app', 'dv_clean_group', clean)]
HARNESS = 'c18'
HSECS = 24
NOTE = 'Layout, widths, sorting of groups and the two listing functions are proved for all texts, widths and item sets; the listing functions use the others by contract.'
ASSUME = ['texts are shorter than 2^28 characters and a command has fewer than 2^28 items (int is used for widths)', 'aliases are not empty', 'items are listed once in their group (C04)', 'the text a string stream or a colour sequence adds is not checked beyond containing the text given', 'shell completion mode is not covered', 'sort_keys gives a sequence with each group once (proved as a count; the order is that of the multimap)', 'item objects are of class arg or cmd']
