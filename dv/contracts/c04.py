"""C04: registration makes a flag or command findable under all its names, uniquely"""
from appx import *
from c12 import cells
AB = z3.ArraySort(S_SORT, B_SORT); AP = z3.ArraySort(S_SORT, I_SORT); NP = z3.ArraySort(S_SORT, AI)
TEXTS = ('long', 'short', 'group'); E = z3.StringVal('')
def tab(a, st, field, k): p = a.at(field, Ptr(Ref(k))); return a.e.rd(st, p, 'dom', AB), a.e.rd(st, p, 'v.ptr', AP)
def groups(a, st, field, k): p = a.at(field, Ptr(Ref(k))); return a.e.rd(st, p, 'dom', AB), a.e.rd(st, p, 'v.len', AP), a.e.rd(st, p, 'v.e.ptr', NP)
def names(a, st, x): p = a.at('aliases', Ptr(Ref(x))); return toi(a.e.rd(st, p, 'len', I_SORT)), a.e.rd(st, p, 'e.str', AS)
def setcopy(a, st, p, src, cls):
    """a new object with the same names (contract of the copy constructor, proved below)"""
    e = a.e; v = fresh('vtable', I_SORT); st.assume(v > 0); e.wr(st, p, 'ptr', I_SORT, v)
    for t in TEXTS + (('toggle_group',) if cls == 'arg' else ()): e.wrstr(st, a.at(t, p), e.rdstr(st, a.at(t, src)))
    q, r = a.at('aliases', p), a.at('aliases', src); e.wr(st, q, 'len', I_SORT, e.rd(st, r, 'len', I_SORT)); e.wr(st, q, 'e.str', AS, e.rd(st, r, 'e.str', AS))
    e.store(st, ir.PTR, e.load(st, ir.PTR, a.at('owner', src)), a.at('owner', p))
    if cls == 'arg': e.store(st, ir.PTR, e.load(st, ir.PTR, a.at('default', src)), a.at('default', p))
def world(c, cls):
    """the command, the item and the tables of the command before the call"""
    a = App(c); e, st = c.e, c.st; k, x = z3.Int('command'), z3.Int('item'); q = z3.Int('q'); a.exceptions(); st.assume(z3.And(k > 0, x > 0, k != x))
    for t in TEXTS + (('toggle_group',) if cls == 'arg' else ()): a.str(st, t, q)
    a.ptr(st, 'owner', q); n, al = names(a, st, x); st.assume(z3.And(n >= 0, n < (1 << 60)))
    if cls == 'arg': a.ptr(st, 'default', q)
    return a, k, x, n, al
def gn(a, st, p, cls):
    G = a.str(st, 'group', p); return z3.If(G != E, G, a.str(st, 'toggle_group', p)) if cls == 'arg' else G
def adding(cls):
    what = {'arg': 'args', 'cmd': 'commands'}[cls]
    def go(c):
        a, k, x, n, al = world(c, cls); e, st = c.e, c.st; X = Ptr(Ref(x)); st0 = st.copy(); i = z3.Int('i'); K = Ptr(Ref(k))
        L, S, G = (a.str(st0, t, x) for t in TEXTS)
        LD, LV = tab(a, st, 'long_' + what, k); SD, SV = tab(a, st, 'short_' + what, k); ID, IV = tab(a, st, 'indexed_' + what, k); t = z3.Const('t', S_SORT)
        st.assume(z3.ForAll([t], z3.Implies(z3.Select(ID, t), z3.And(z3.Select(LD, t), z3.Select(LV, t) == z3.Select(IV, t))), patterns=[z3.Select(ID, t)]))
        
        for p in (LV, SV, IV): st.assume(z3.ForAll([t], z3.Select(p, t) >= 0, patterns=[z3.Select(p, t)]))
        gt = 'grouped_' + what; GD, GL, GE = groups(a, st, gt, k); everything = 'allargs' if cls == 'arg' else 'all_commands'; AN, AE = a.list(st, everything, k)
        st.assume(z3.And(AN >= 0, AN < (1 << 60), z3.ForAll([t], z3.And(z3.Select(GL, t) >= 0, z3.Select(GL, t) < (1 << 60)), patterns=[z3.Select(GL, t)])))
        NM, J, GN, P = z3.Const('some_name', S_SORT), z3.Int('some_alias'), z3.Const('some_group', S_SORT), z3.Int('some_position'); alias = lambda j: z3.Select(al, j)
        isnew = z3.Or(NM == L, z3.Not(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), alias(i) != NM), patterns=[alias(i)])))
        def copy(e, st, c2): setcopy(a, st, c2.args[0], c2.args[1], cls); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::%s::%s\(cmdr::opt::%s const&\)' % (cls, cls, cls), copy)
        a.contract(r'^cmdr::opt::%s::~%s\(\)' % (cls, cls), lambda e, st, c2: [(st, ('ret', None))])
        def push(e, st, c2):
            ls = c2.args[0]; e.oblige(st, 'recorded in the list of all items', e.ptreq(st, ls, a.at(everything, K)))
            p = e.alloc(st, 'the added ' + cls); setcopy(a, st, p, c2.args[1], cls); m = toi(e.rd(st, ls, 'len', I_SORT)); e.wr(st, ls, 'e.ptr', AI, z3.Store(e.rd(st, ls, 'e.ptr', AI), m, toi(e.as_ref(p)))); e.wr(st, ls, 'len', I_SORT, m + 1)
            e.gset(st, 'times', e.gget(st, 'times', 0) + 1); e.gset(st, 'new', p); return [(st, ('ret', p if c2.rty.k == 'ptr' else None))]
        a.contract(r'^(cmdr::opt::\w+& )?std::list<cmdr::opt::%s>::(push_back|emplace_back)' % cls, push)
        def back(e, st, c2):
            if e.gget(st, 'new') is None: raise Unsupported('the last item before anything is added')
            return [(st, ('ret', e.gget(st, 'new')))]
        a.contract(r'^std::list<cmdr::opt::%s>::back' % cls, back)
        def gname(e, st, c2): e.wrstr(st, c2.args[0], gn(a, st, c2.args[1], cls)); return [(st, ('ret', None))]
        a.contract(r'^cmdr::opt::%s::group_name\(\) const' % ('arg' if cls == 'arg' else 'bas'), gname); a.anystr(r'^cmdr::opt::\w+::(title_sequences|dotted_key)\('); a.devirtual(cls)
        def added(e, st, c2): e.oblige(st, 'the observers get the added item', e.ptreq(st, c2.args[1], e.gget(st, 'new', NULL))); return [(st, ('ret', None))]
        a.contract(r'^cmdr::app::on_(arg|cmd)_added', added)
        a.contract(r'^cmdr::get_app\(\)', lambda e, st, c2: [(st, ('ret', Ptr(Ref(z3.Int('app')))))]); st.assume(z3.Int('app') > 0)
        if cls == 'arg':
            b, y = z3.Bool('flag is boolean'), z3.Bool('default is true')
            a.contract(r'^cmdr::vars::variable::type\(\) const', lambda e, st, c2: [(st, ('ret', Ptr(Ref(z3.Int('type')))))]); st.assume(z3.Int('type') > 0)
            a.contract(r'^std::type_info::operator==', lambda e, st, c2: [(st, ('ret', b))]); a.contract(r'^std::type_info::operator!=', lambda e, st, c2: [(st, ('ret', z3.Not(b)))])
            def asb(e, st, c2):
                if c2.rty.k == 'ptr': p = e.alloc(st, 'truth'); e.store(st, ir.INT(8), I(z3.If(y, 1, 0), 8, 0, 1), p); return [(st, ('ret', p))]
                return [(st, ('ret', y))]
            a.contract(r'cmdr::vars::variable::as<bool>', asb); a.contract(r'cmdr::vars::variable::variable\(|N4cmdr4vars8variableC[12]|cmdr::vars::variable::~variable', lambda e, st, c2: [(st, ('ret', None))])
            def setdef(e, st, c2): e.store(st, ir.PTR, e.alloc(st, 'default'), a.at('default', c2.args[0])); return [(st, ('ret', c2.args[0]))]
            a.contract(r'^cmdr::opt::arg::default_value\(cmdr::vars::variable const&\)', setdef)
        def same(st):
            LD1, LV1 = tab(a, st, 'long_' + what, k); SD1, SV1 = tab(a, st, 'short_' + what, k); ID1, IV1 = tab(a, st, 'indexed_' + what, k); f = lambda T, U: z3.Select(T, NM) == z3.Select(U, NM)
            return f(LD1, LD), f(LV1, LV), f(SD1, SD), f(SV1, SV), f(ID1, ID), f(IV1, IV)
        def found(st, lim, new):
            LD1, LV1 = tab(a, st, 'long_' + what, k)
            return z3.And(z3.Select(LD1, L), z3.Select(LV1, L) == new), z3.Implies(z3.And(0 <= J, J < lim), z3.And(z3.Select(LD1, alias(J)), z3.Select(LV1, alias(J)) == new)), z3.Implies(z3.And(0 <= J, J < n, z3.Select(LD1, alias(J))), z3.Select(LV1, alias(J)) == new)
        def cand(ls):
            r = []
            for nm, at in positions(ls):
                r += [('alias position', z3.And(at >= 0, at <= n))]; new = e.gget(ls.st, 'new')
                if new is None: r += [('aliases so far are free', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < at), z3.Not(z3.Select(LD, alias(i)))), patterns=[alias(i)]))]
                else:
                    f1, f2, f3 = found(ls.st, at, toi(e.as_ref(new))); s = same(ls.st)
                    r += [('found by its title', f1), ('found by the aliases so far', f2), ('no alias leads elsewhere', f3), ('other names', z3.Implies(z3.Not(isnew), z3.And(s[0], s[1])))]
            return r
        e.loopcands.append(cand); e.measures.append(lambda ls: [('aliases left', n - at) for nm, at in positions(ls)])
        for s1, o in c.call([K, X]):
            sm = same(s1); G1 = groups(a, s1, gt, k); SN, (AN1, AE1) = tab(a, s1, 'short_' + what, k), a.list(s1, everything, k); tk = dict(short=z3.And(S != E, z3.Select(SD, S)), long=z3.Select(LD, L))
            free = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(z3.Select(LD, alias(i)))), patterns=[alias(i)]); new = e.gget(s1, 'new')
            unchanged = z3.And(*sm, AN1 == AN, z3.Select(G1[0], GN) == z3.Select(GD, GN), z3.Select(G1[1], GN) == z3.Select(GL, GN))
            if o[0] != 'ret':
                m = re.search(r'dup_(short|long|alias)_(\w+)_found', o[1].ty or ''); c.reached(s1, 'rejected')
                if not m or m.group(2) != {'arg': 'flag', 'cmd': 'cmd'}[cls]: e.oblige(s1, 'rejected with a duplicate error', False); continue
                if m.group(1) == 'alias': s2 = s1.copy(); s2.assume(free); e.oblige(s2, 'a duplicate alias error means an alias is taken', False)
                else: e.oblige(s1, 'a duplicate %s title error means it is taken' % m.group(1), tk[m.group(1)])
                e.oblige(s1, 'rejecting records nothing', unchanged); continue
            c.reached(s1, 'added' if new is not None else 'invalid')
            if new is None: e.oblige(s1, 'only an item without a title is ignored', L == E); e.oblige(s1, 'ignoring records nothing', unchanged); continue
            nr = toi(e.as_ref(new)); f1, f2, _ = found(s1, n, nr); e.oblige(s1, 'recorded once', e.gget(s1, 'times') == 1)
            e.oblige(s1, 'a taken long title is rejected', z3.Not(tk['long'])); e.oblige(s1, 'a taken short title is rejected', z3.Not(tk['short'])); e.oblige(s1, 'a taken alias is rejected', z3.Implies(z3.And(0 <= J, J < n), z3.Not(z3.Select(LD, alias(J)))))
            e.oblige(s1, 'found by its long title', f1); e.oblige(s1, 'found by each alias', f2); e.oblige(s1, 'found by its short title', z3.Implies(S != E, z3.And(z3.Select(SN[0], S), z3.Select(SN[1], S) == nr)))
            I1 = tab(a, s1, 'indexed_' + what, k); e.oblige(s1, 'indexed by its long title', z3.And(z3.Select(I1[0], L), z3.Select(I1[1], L) == nr))
            e.oblige(s1, 'every other long title and alias resolves as before', z3.Implies(z3.Not(isnew), z3.And(sm[0], sm[1]))); e.oblige(s1, 'every other short title resolves as before', z3.Implies(z3.Or(NM != S, S == E), z3.And(sm[2], sm[3])))
            e.oblige(s1, 'every other title is indexed as before', z3.Implies(NM != L, z3.And(sm[4], sm[5])))
            L1 = tab(a, s1, 'long_' + what, k); e.oblige(s1, 'the index agrees with the names', z3.Implies(z3.Select(I1[0], NM), z3.And(z3.Select(L1[0], NM), z3.Select(L1[1], NM) == z3.Select(I1[1], NM))))
            e.oblige(s1, 'belongs to the adding command', a.ptr(s1, 'owner', new) == k)
            m1, al1 = names(a, s1, nr); e.oblige(s1, 'keeps its names', z3.And(a.str(s1, 'long', new) == L, a.str(s1, 'short', new) == S, m1 == n, z3.Implies(z3.And(0 <= J, J < n), z3.Select(al1, J) == alias(J))))
            ng, og = gn(a, s1, new, cls), gn(a, st0, x, cls); e.oblige(s1, 'keeps its group, or gets one', z3.If(og != E, ng == og, ng != E))
            inv = lambda T, kk: z3.Select(T, kk); old = z3.If(inv(GD, ng), inv(GL, ng), z3.IntVal(0))
            e.oblige(s1, 'listed last in its group', z3.And(inv(G1[0], ng), inv(G1[1], ng) == old + 1, z3.Select(inv(G1[2], ng), old) == nr))
            e.oblige(s1, 'the others of its group stay', z3.Implies(z3.And(0 <= P, P < old), z3.Select(inv(G1[2], ng), P) == z3.Select(inv(GE, ng), P)))
            e.oblige(s1, 'other groups stay', z3.Implies(GN != ng, z3.And(inv(G1[0], GN) == inv(GD, GN), inv(G1[1], GN) == inv(GL, GN), z3.Select(inv(G1[2], GN), P) == z3.Select(inv(GE, GN), P))))
            e.oblige(s1, 'listed last among all items', z3.And(AN1 == AN + 1, z3.Select(AE1, AN) == nr, z3.Implies(z3.And(0 <= P, P < AN), z3.Select(AE1, P) == z3.Select(AE, P))))
    return Unit('cmd::add(%s)' % cls, 'app', 'dv_add_' + cls, go)
def copying(cls):
    def go(c):
        a, k, x, n, al = world(c, cls); e, st = c.e, c.st; st0 = st.copy(); J = z3.Int('some_alias'); to = e.newloc('copy')
        fnobj.install(e, lambda *x: [])
        for s1, o in c.call([to, Ptr(Ref(x))]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'copied'); al1 = a.at('aliases', to)
            for t in TEXTS + (('toggle_group',) if cls == 'arg' else ()): e.oblige(s1, 'a copy has the same ' + t.replace('_', ' '), a.str(s1, t, to) == a.str(st0, t, x))
            e.oblige(s1, 'a copy has the same aliases', z3.And(toi(e.rd(s1, al1, 'len', I_SORT)) == n, z3.Implies(z3.And(0 <= J, J < n), z3.Select(e.rd(s1, al1, 'e.str', AS), J) == z3.Select(al, J))))
            e.oblige(s1, 'a copy has the same owner', a.ptr(s1, 'owner', to) == a.ptr(st0, 'owner', x))
            if cls == 'arg': e.oblige(s1, 'a copy has the same default value', a.ptr(s1, 'default', to) == a.ptr(st0, 'default', x))
    return Unit('copying a %s' % {'arg': 'flag', 'cmd': 'command'}[cls], 'app', 'dv_%s_copy' % cls, go)
def group_name(cls):
    def go(c):
        a = App(c); e, st = c.e, c.st; out = e.newloc('result'); x = z3.Int('item'); st.assume(x > 0); G = gn(a, st, Ptr(Ref(x)), cls)
        for s1, o in c.call([out, Ptr(Ref(x))]):
            if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
            c.reached(s1, 'named'); e.oblige(s1, 'the name of the group', e.rdstr(s1, out) == G)
    return Unit('%s::group_name' % ('arg' if cls == 'arg' else 'bas'), 'app', 'dv_group_name' + ('_arg' if cls == 'arg' else ''), go)
def finding(what, entry, cls, strip, kind):
    """looking an item up by a name: kind 'ptr' answers null, 'ref' answers the shared empty item when nothing has the name"""
    def go(c):
        a = App(c); e, st = c.e, c.st; k, q, j = z3.Int('command'), z3.Int('q'), z3.Int('j'); K = Ptr(Ref(k)); st.assume(k > 0); t = z3.Const('t', S_SORT); ext = z3.Bool('extensive')
        for f in ('long', 'short'): a.str(st, f, q)
        p = a.at('aliases', Ptr(Ref(q))); AN = lambda st, y: toi(e.rd(st, Ptr(Ref(y), p.off), 'len', I_SORT)); AA = lambda st, y: e.rd(st, Ptr(Ref(y), p.off), 'e.str', AS); AN(st, q), AA(st, q)
        if kind == 'ref': pt, text = c.ctext('text')
        else: pt, text = c.text('text')
        D, V = tab(a, st, 'indexed_' + {'flag': 'args', 'command': 'commands'}[cls], k); st.assume(z3.ForAll([t], z3.Implies(z3.Select(D, t), z3.And(z3.Select(V, t) > 0, AN(st, z3.Select(V, t)) >= 0, AN(st, z3.Select(V, t)) < (1 << 60))), patterns=[z3.Select(V, t)]))
        n = z3.Length(text); lead = lambda i: z3.And(n > i, z3.Or(*[CODE(text, z3.IntVal(i)) == ord(x) for x in '-/'])); sub = lambda f, l: z3.SubString(text, f, l)
        s0, s1 = lead(0), lead(1); W = z3.Const('name', S_SORT); st.assume(W == (z3.If(s0, z3.If(s1, sub(2, n - 2), sub(1, n - 1)), text) if strip else text))
        if cls == 'command':
            GD, GL, GE = groups(a, st, 'grouped_commands', k); AT = z3.Function('place_in_group', I_SORT, I_SORT); a.str(st, 'group', q); a.devirtual('cmd'); g = a.str(st, 'group', z3.Select(V, t)); at = AT(z3.Select(V, t))
            st.assume(z3.ForAll([t], z3.Implies(z3.Select(D, t), z3.And(z3.Select(GD, g), 0 <= at, at < z3.Select(GL, g), z3.Select(GL, g) < (1 << 60), z3.Select(z3.Select(GE, g), at) == z3.Select(V, t))), patterns=[z3.Select(V, t)]))
            def gname(e, st, c2): e.wrstr(st, c2.args[0], gn(a, st, c2.args[1], 'cmd')); return [(st, ('ret', None))]
            a.contract(r'^cmdr::opt::bas::group_name\(\) const', gname)
        st0 = st.copy(); NONE = fresh('nothing', I_SORT)
        if kind == 'ref': st.assume(NONE > 0); st.assume(z3.ForAll([t], z3.Implies(z3.Select(D, t), z3.Select(V, t) != NONE), patterns=[z3.Select(V, t)])); a.contract(r'^cmdr::opt::cmd::null_(arg|command)\(\)', lambda e, st, c2: [(st, ('ret', Ptr(Ref(NONE))))])
        else: st.assume(NONE == 0)
        KK, JJ = z3.Const('some_title', S_SORT), z3.Int('some_alias'); nl = lambda y, jj: z3.Implies(z3.And(0 <= jj, jj < AN(st0, y)), z3.Select(AA(st0, y), jj) != W); nomatch = lambda y: z3.And(a.str(st0, 'short', y) != W, nl(y, JJ)); VK = z3.Select(V, KK)
        e.measures.append(lambda ls: [('what is left', x) for nm, p, _ in ls.ptrs() for x in ([p.b.en['n'] - toi(p.b.idx)] if p.b.kind == 'mit' else [toi(vl(ls.st, p)) - toi(p.b.idx)] if p.b.kind == 'elem' else [])])
        def vl(st, p): return e.rd(st, p.b.c, 'len', I_SORT)
        def cand(ls):
            r = []
            for nm, p, _ in ls.ptrs():
                if p.b.kind == 'mit': at, en = toi(p.b.idx), p.b.en; r += [('position', z3.And(at >= 0, at <= en['n'])), ('no item before has the name', z3.Implies(z3.And(z3.Select(D, KK), en['pos'](en['dom'], KK) < at), nomatch(VK)))]
                if p.b.kind == 'lit': r += [('group position', z3.And(toi(p.b.idx) >= 0, toi(p.b.idx) <= AT(z3.Select(V, W))))]
                if p.b.kind == 'elem' and p.b.c.b.kind == 'ref': at = toi(p.b.idx); y = p.b.c.b.t; r += [('alias position', z3.And(at >= 0, at <= AN(st0, y))), ('no alias before is the name', z3.Implies(z3.And(0 <= JJ, JJ < at), z3.Select(AA(st0, y), JJ) != W))]
            return r
        e.loopcands.append(cand)
        args = [K, pt] + ([ext] if not entry.startswith('dv_index_flag') else [])
        for s, o in c.call(args):
            if o[0] != 'ret': e.oblige(s, 'throws', False); continue
            c.reached(s, 'looked up'); r = toi(e.as_ref(o[1])); x = z3.BoolVal(False) if entry == 'dv_index_flag' else ext
            e.oblige(s, 'an item with that title is the one found', z3.Implies(z3.Select(D, W), r == z3.Select(V, W)))
            e.oblige(s, 'nothing else is found unless short titles and aliases count', z3.Implies(z3.And(z3.Not(x), z3.Not(z3.Select(D, W))), r == NONE))
            e.oblige(s, 'nothing is found only if no item has the name', z3.Implies(z3.And(r == NONE, x), z3.Implies(z3.Select(D, KK), nomatch(VK))))
            s2 = s.copy(); s2.assume(z3.And(r != NONE, z3.ForAll([t], z3.Implies(z3.Select(D, t), z3.Select(V, t) != r), patterns=[z3.Select(D, t)]))); e.oblige(s2, 'the item found is one of the command', False)
            s2 = s.copy(); s2.assume(z3.And(r != NONE, z3.Not(z3.Select(D, W)), a.str(st0, 'short', r) != W, z3.ForAll([j], nl(r, j), patterns=[z3.Select(AA(st0, r), j)]))); e.oblige(s2, 'the item found has the name', False)
    return Unit(what, 'app', entry, go)
def units(): return [adding('arg'), adding('cmd'), copying('arg'), copying('cmd'), group_name('arg'), group_name('cmd'), finding('cmd::find_flag', 'dv_find_flag', 'flag', True, 'ref'), finding('cmd::find_flag const', 'dv_find_flag_c', 'flag', True, 'ptr'),
    finding('cmd::find_command', 'dv_find_cmd', 'command', False, 'ref'), finding('cmd::find_command const', 'dv_find_cmd_c', 'command', False, 'ptr'), finding('cmd::operator[]', 'dv_index_flag', 'flag', True, 'ref'), finding('cmd::operator()', 'dv_index_cmd', 'command', False, 'ref')]
HARNESS = 'c04'
HSECS = 24
NOTE = 'Registration is proved for any number of aliases and any tables; what a history of registrations needs from one step to the next (the index agrees with the names, items stay in their groups) is a postcondition of every step.'
ASSUME = ['item objects are of class arg or cmd (no class derived from them overrides group_name or toggle_group_name)', 'observers of added items do not change the tables', 'the index of titles agrees with the table of names before the call and indexed commands are listed in their group (both re-established by every registration)', 'texts hold no NUL (titles are given as C texts)']
