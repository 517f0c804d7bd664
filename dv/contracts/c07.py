"""C07: at most one flag of a toggle group is on, and it is the last one given"""
from appx import *
DK = z3.Function('dotted_key', I_SORT, S_SORT)          # contract of bas::dotted_key (C06): the path of an item
KEY = z3.Function('key', S_SORT, S_SORT, S_SORT)        # contract of the store (C05): the key made of a prefix and a name
TL = z3.Function('name_of_key', S_SORT, S_SORT)
GRP = z3.Function('toggle_group', I_SORT, S_SORT, I_SORT)   # the list of flags of a toggle group of a command
FALSE, TEXT, GIVEN = 1, 2, 3
def matched(c):
    a = App(c); e, st = c.e, c.st; ap, f, v = Ptr(Ref(z3.Int('app'))), z3.Int('flag'), z3.Int('value'); vp = e.newloc('value'); st.assume(z3.And(z3.Int('app') > 0, f > 0, v > 0)); e.store(st, ir.PTR, Ptr(Ref(v)), vp)
    x, i = z3.Int('x'), z3.Int('i'); p, t = z3.Const('p', S_SORT), z3.Const('t', S_SORT); G = e.newloc('store'); e.axioms.append(z3.ForAll([p, t], TL(KEY(p, t)) == t, patterns=[KEY(p, t)])); q = z3.Int('q')
    for n in ('long', 'toggle_group'): a.str(st, n, q)
    a.ptr(st, 'owner', q); AK, AT = z3.ArraySort(S_SORT, I_SORT), z3.ArraySort(S_SORT, S_SORT); K0, T0 = z3.Const('stored', AK), z3.Const('stored_texts', AT); e.wr(st, G, 'v.ptr', AK, K0); e.wr(st, G, 'v.str', AT, T0)
    kinds, texts = lambda st: e.rd(st, G, 'v.ptr', AK), lambda st: e.rd(st, G, 'v.str', AT)
    ow = a.ptr(st, 'owner', f); name = a.str(st, 'toggle_group', f); long_ = lambda o: a.str(st0, 'long', o); L = Ptr(Ref(GRP(ow, name))); n, lst = toi(e.rd(st, L, 'len', I_SORT)), e.rd(st, L, 'e.ptr', AI); st0 = st.copy()
    st.assume(z3.And(ow > 0, GRP(ow, name) > 0, n >= 0, n < (1 << 60), DK(f) == KEY(DK(ow), long_(f))))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(lst, i) > 0, z3.Implies(z3.Select(lst, i) != f, long_(z3.Select(lst, i)) != long_(f)), long_(z3.Select(lst, i)) != name)), patterns=[z3.Select(lst, i)]))     # C04: titles are unique below a command
    st.assume(name != long_(f))
    def dk(e, st, c2): e.wrstr(st, c2.args[0], DK(toi(e.as_ref(c2.args[1])))); return [(st, ('ret', None))]
    a.contract(r'^cmdr::opt::bas::dotted_key\(\) const', dk)
    def put(st, key, kind, text=None):
        e.wr(st, G, 'v.ptr', AK, z3.Store(kinds(st), key, kind))
        if text is not None: e.wr(st, G, 'v.str', AT, z3.Store(texts(st), key, text))
        return [(st, ('ret', None))]
    def value(st, c2, ptr):
        m = re.search(r'set_raw(_p)?I(b|RK|R)', c2.name)
        if not m:
            if 'variable const&' not in c2.dem and 'RKS2_' not in c2.name: raise Unsupported('stored value of ' + c2.dem)
            return z3.If(toi(e.as_ref(ptr)) == v, z3.IntVal(GIVEN), z3.IntVal(0)), None
        if m.group(2) == 'b': return z3.If(toi(e.load(st, ir.INT(8), ptr).u()) == 0, z3.IntVal(FALSE), z3.IntVal(0)), None
        return z3.IntVal(TEXT), e.rdstr(st, ptr)
    def setraw(e, st, c2): k, tx = value(st, c2, c2.args[2]); return put(st, e.ctext(st, c2.args[1]), k, tx)
    def setrawp(e, st, c2): k, tx = value(st, c2, c2.args[3]); return put(st, KEY(e.ctext(st, c2.args[1]), e.ctext(st, c2.args[2])), k, tx)
    a.contract(r'(::set_raw_p\(|9set_raw_p)', setrawp); a.contract(r'(treeT<.*>::set_raw\(|7set_raw)', setraw)
    b = z3.Bool('flag is boolean'); DV = z3.Function('default_value', I_SORT, I_SORT)
    a.contract(r'^cmdr::vars::variable::type\(\) const', lambda e, st, c2: [(st, ('ret', Ptr(Ref(z3.Int('type')))))]); st.assume(z3.Int('type') > 0)
    a.contract(r'^std::type_info::operator==', lambda e, st, c2: [(st, ('ret', b))]); a.contract(r'^std::type_info::operator!=', lambda e, st, c2: [(st, ('ret', z3.Not(b)))])
    a.devirtual('arg')
    def group(e, st, c2): e.oblige(st, "the group is looked up among the owner's toggle groups", e.ptreq(st, c2.args[0], a.at('toggle_groups', Ptr(Ref(ow))))); return [(st, ('ret', Ptr(Ref(GRP(ow, e.rdstr(st, c2.args[1]))))))]
    a.contract(r'^std::unordered_map<std::string, std::list<cmdr::opt::arg\*.*operator\[\]', group)
    def run(e, st, t, ar, c2): e.oblige(st, 'the observers get the matched flag', e.ptreq(st, e.load(st, ir.PTR, ar[0]) if ar[0].b.kind == 'loc' else ar[0], Ptr(Ref(f)))); return [(st, ('ret', None))]
    fnobj.install(e, run); J = z3.Int('some_member'); oth = z3.Select(lst, J); ck = DK(ow); X = z3.Const('some_key', S_SORT)
    st.assume(z3.Implies(z3.And(0 <= J, J < n), oth > 0)); free = z3.And(X != DK(f), X != KEY(ck, name), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), X != KEY(ck, long_(z3.Select(lst, i)))), patterns=[z3.Select(lst, i)]))
    def frame(st): return z3.Implies(free, z3.And(z3.Select(kinds(st), X) == z3.Select(K0, X), z3.Select(texts(st), X) == z3.Select(T0, X)))
    def off(st, lim): return z3.Implies(z3.And(0 <= J, J < lim, oth != f), z3.Select(kinds(st), KEY(ck, long_(oth))) == FALSE)
    def cand(ls):
        r = [('own value', z3.Select(kinds(ls.st), DK(f)) == GIVEN), ('other keys', frame(ls.st)), ('choice', z3.Implies(z3.Select(kinds(ls.st0), KEY(ck, name)) == TEXT, z3.And(z3.Select(kinds(ls.st), KEY(ck, name)) == TEXT, z3.Select(texts(ls.st), KEY(ck, name)) == z3.Select(texts(ls.st0), KEY(ck, name)))))]
        for nm, pt, _ in ls.ptrs():
            if pt.b.kind == 'lit': r += [('position', z3.And(toi(pt.b.idx) >= 0, toi(pt.b.idx) <= n)), ('those before are off', off(ls.st, toi(pt.b.idx)))]
        return r
    e.loopcands.append(cand); hg = a.at('hit_toggle_groups', Ptr(Ref(ow))); AB = z3.ArraySort(S_SORT, B_SORT)
    for s1, o in c.call([ap, Ptr(Ref(f)), vp]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        tog = z3.And(name != z3.StringVal(''), b); k1, t1 = kinds(s1), texts(s1); c.reached(s1, 'recorded')
        e.oblige(s1, "the flag's stored value is the given one", z3.Select(k1, DK(f)) == GIVEN)
        e.oblige(s1, 'every other flag of the group is false', z3.Implies(tog, off(s1, n)))
        e.oblige(s1, "the stored choice is the flag's title", z3.Implies(tog, z3.And(z3.Select(k1, KEY(ck, name)) == TEXT, z3.Select(t1, KEY(ck, name)) == long_(f))))
        e.oblige(s1, "the group's recorded choice is the flag's title", z3.Implies(tog, z3.And(z3.Select(e.rd(s1, hg, 'dom', AB), name), z3.Select(e.rd(s1, hg, 'v.str', AT), name) == long_(f))))
        e.oblige(s1, 'every other stored value stays', frame(s1))
        e.oblige(s1, 'a flag outside every group changes no other value', z3.Implies(z3.And(z3.Not(tog), X != DK(f)), z3.Select(k1, X) == z3.Select(K0, X)))
def setgroup(c):
    a = App(c); e, st = c.e, c.st; cc, f = z3.Int('command'), z3.Int('flag'); k = e.newloc('name'); key = z3.Const('group', S_SORT); e.wrstr(st, k, key); st.assume(z3.And(cc > 0, f > 0)); hg = a.at('hit_toggle_groups', Ptr(Ref(cc))); AB, AT = z3.ArraySort(S_SORT, B_SORT), z3.ArraySort(S_SORT, S_SORT)
    tab = lambda st: (e.rd(st, hg, 'dom', AB), e.rd(st, hg, 'v.str', AT)); d0, v0 = tab(st); t = a.str(st, 'long', f); X = z3.Const('other_group', S_SORT)
    for s1, o in c.call([Ptr(Ref(cc)), k, Ptr(Ref(f))]):
        if o[0] != 'ret': e.oblige(s1, 'throws', False); continue
        c.reached(s1, 'recorded'); d, v = tab(s1); e.oblige(s1, "the group's choice is the flag's title", z3.And(z3.Select(d, key), z3.Select(v, key) == t))
        e.oblige(s1, 'other groups keep their choice', z3.Implies(X != key, z3.And(z3.Select(d, X) == z3.Select(d0, X), z3.Select(v, X) == z3.Select(v0, X))))
def units(): return [Unit('app::on_arg_matched', 'app', 'dv_on_arg_matched', matched), Unit('cmd::toggle_group_set', 'app', 'dv_toggle_group_set', setgroup)]
HARNESS = 'c07'
HSECS = 24
NOTE = 'on_arg_matched is proved for groups of any size with an invariant over the walk of the group; the store is used through its own contract (C05).'
ASSUME = ['set_raw and set_raw_p store the value under the key (C05) and dotted_key is the path (C06)', 'titles are unique below a command (C04) and differ from the name of the toggle group', 'observers do not change the store', 'flags are of class arg (is_toggleable, toggle_group_name not overridden)']
