"""Contracts assumed for the C++ standard library (and C library) calls the verified code makes."""
import re, itertools
import z3
import ir
from engine import *
from engine import _TI
import engine as E

MAXLEN = 1 << 62
REG = {}
def model(*keys):
    def d(f):
        for k in keys: REG[k] = f
        return f
    return d
def ret(st, v=None): return [(st, ('ret', v))]

IGN = re.compile(r'^(std::allocator|std::__new_allocator|std::ios_base::Init|std::_Destroy|std::__allocator)')
SPACES = ' \n\r\t\v\f'

def L(t): return z3.Length(t)
def sizeI(st, t):
    """a container length as size_t"""
    t = simp(toi(t))
    if not isinstance(t, int): st.assume(t <= MAXLEN)
    return I(t, 64, 0, MAXLEN)
def charsre(codes):
    codes = sorted(codes)
    rs = []; i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1: j += 1
        a, b = strval(chr(codes[i])), strval(chr(codes[j]))
        rs.append(z3.Range(a, b) if j > i else z3.Re(a)); i = j + 1
    if not rs: return None
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
NONE_RE = None
def allin(t, codes):
    r = charsre(codes)
    return t == z3.StringVal('') if r is None else z3.InRe(t, z3.Star(r))
def onein(t, codes):
    r = charsre(codes)
    return z3.BoolVal(False) if r is None else z3.InRe(t, r)

def at_in(e, st, t, i, codes): return incodes(e.charat(st, t, i), codes)
def params(c): return split_targs(c.q[3]) if c.q[3] else []

def strarg(e, st, ptext, v):
    """text denoted by an argument of the given C++ type"""
    p = ptext.replace('const', '').strip()
    if isinstance(v, I): return e.chr_of(st, v)
    if re.search(r'char\s*\*\s*&', p): return e.ctext(st, e.load(st, ir.PTR, v))
    if 'char' in p and '*' in p: return e.ctext(st, v)
    if 'char' in p and '&' in p and 'string' not in p: return e.chr_of(st, e.load(st, ir.INT(8), v))
    return e.rdstr(st, v)

def dispatch(e, st, c):
    cls, m, targs, ps, mt = c.q
    n = c.name
    if n.startswith('llvm.'): return llvm(e, st, c)
    h = REG.get((cls, m)) or REG.get(n)
    if h:
        r = h(e, st, c)
        if r is not None:
            e.assumed.add((cls + '::' if cls else '') + m); return r
    if IGN.match(cls): return ret(st)
    if m.startswith('~') and cls.startswith('std::') and cls.split('::')[-1] not in ('unique_lock', 'shared_lock', 'scoped_lock', 'lock_guard', 'optional', '_Optional_base') : return ret(st)
    if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdlPvSt11align_val_t'): return ret(st)
    if n in ('_Znwm', '_Znam'): return ret(st, e.alloc(st))
    return None

def llvm(e, st, c):
    n = c.name
    if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume') or n.startswith('llvm.stack') or n.startswith('llvm.experimental'): return ret(st, NULL)
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
        e.copyobj(st, c.args[1], c.args[0], c.args[2].u()); return ret(st)
    if n.startswith('llvm.memset'):
        p, v, sz = c.args[:3]
        if p.b.kind == 'loc' and isinstance(v.t, int) and v.t == 0:
            for k in [k for k in st.mem if k[0] == p.b.id and p.off <= k[1] < p.off + sz.u()]:
                del st.mem[k]
            st.ghost[('zero', p.b.id, p.off, sz.u())] = True
            z = st.ghost.get('zeros', ()); st.ghost['zeros'] = z + ((p.b.id, p.off, p.off + sz.u()),)
            # materialise words
            o = p.off; end = p.off + sz.u()
            if end - o <= 256:
                while o < end:
                    w = 64 if end - o >= 8 else 32 if end - o >= 4 else 8
                    st.mem[(p.b.id, o, 'i%d' % w)] = I(0, w); st.mem[(p.b.id, o, 'ptr')] = NULL
                    if w == 64: st.mem[(p.b.id, o, 'double')] = z3.RealVal(0)
                    o += w // 8
            return ret(st)
        if p.b.kind == 'ref' and isinstance(v.t, int) and v.t == 0 and isinstance(sz.u(), int) and sz.u() <= 512:
            # zeroed heap object: nothing is assumed about single fields beyond words
            o = p.off; end = p.off + sz.u()
            while o < end:
                e.wr(st, Ptr(p.b, o), 'ptr', I_SORT, z3.IntVal(0))
                for w, st_ in ((64, 8), (32, 4)):
                    if (o - p.off) % st_ == 0: e.wr(st, Ptr(p.b, o), 'i%d' % w, I_SORT, z3.IntVal(0))
                o += 4
            return ret(st)
        raise Unsupported('memset')
    if n.startswith('llvm.eh.typeid'): return ret(st, I(e.tid(fn_target(c)), 32))
    m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
    if m:
        w = int(m.group(3)); a, b = c.args
        if m.group(1) == 's': A, B, lo, hi = a.s(), b.s(), -(1 << (w - 1)), (1 << (w - 1)) - 1
        else: A, B, lo, hi = a.u(), b.u(), 0, (1 << w) - 1
        t = {'add': lambda: toi(A) + toi(B), 'sub': lambda: toi(A) - toi(B), 'mul': lambda: toi(A) * toi(B)}[m.group(2)]()
        ov = z3.Or(t < lo, t > hi)
        big = 1 << (2 * w + 2)
        return ret(st, (I(t, w, -big, big), ov))
    m = re.match(r'llvm\.(s|u)(max|min)\.i(\d+)', n)
    if m:
        w = int(m.group(3)); a, b = c.args; sg = m.group(1) == 's'
        A, B = (a.s(), b.s()) if sg else (a.u(), b.u())
        t = z3.If((toi(A) >= toi(B)) if m.group(2) == 'max' else (toi(A) <= toi(B)), toi(A), toi(B))
        return ret(st, I(t, w, -(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else I(t, w))
    if n.startswith('llvm.abs'):
        a = c.args[0]; t = toi(a.s()); return ret(st, I(z3.If(t < 0, -t, t), a.w, 0, 1 << (a.w - 1)))
    if n.startswith('llvm.trap'): e.oblige(st, 'trap', False, 'safety'); raise PathEnd()
    if n.startswith('llvm.floor') or n.startswith('llvm.fabs') or n.startswith('llvm.ceil'):
        x = c.args[0]
        if 'fabs' in n: return ret(st, z3.If(x < 0, -x, x))
        t = z3.ToReal(z3.ToInt(x))
        return ret(st, t if 'floor' in n else z3.If(t == x, t, t + 1))
    if n.startswith('llvm.fmuladd'): return ret(st, c.args[0] * c.args[1] + c.args[2])
    m = re.match(r'llvm\.fsh(l|r)\.i(\d+)', n)
    if m:
        w = int(m.group(2)); a, b, k = c.args[0].u(), c.args[1].u(), c.args[2].u()
        if not isinstance(k, int): raise Unsupported('variable funnel shift')
        k %= w
        if m.group(1) == 'r': k = (w - k) % w
        if k == 0: return ret(st, c.args[0] if m.group(1) == 'l' else c.args[1])
        return ret(st, I(simp((toi(a) % (1 << (w - k))) * (1 << k) + toi(b) / (1 << (w - k))), w, 0, (1 << w) - 1))
    if n.startswith('llvm.is.constant'): return ret(st, False)
    if n.startswith('llvm.expect'): return ret(st, c.args[0])
    return None
def fn_target(c):
    m = re.search(r'@(_ZTI[\w.]+)', c.line); return m.group(1)

@model('snprintf')
def _(e, st, c):
    """some text that fits the buffer (which must be a local array of that size)"""
    p, n = c.args[0], c.args[1].u()
    if p.b.kind != 'loc': raise Unsupported('snprintf to %r' % p)
    t = fresh('formatted', S_SORT); r = fresh('written', I_SORT); st.assume(z3.And(z3.Length(t) < toi(n), r >= z3.Length(t), r < 1 << 31)); e.wr(st, p, 'ctext', S_SORT, t); e.assumed.add('snprintf stays within the size it is given')
    return ret(st, I(r, 32, 0, (1 << 31) - 1))

# ------------------------------------------------------------------ exceptions
@model('__cxa_allocate_exception')
def _(e, st, c): return ret(st, e.alloc(st, 'exception'))
@model('__cxa_throw')
def _(e, st, c):
    p = c.args[1]; nm = p.b.name if p.b.kind == 'fn' else (p.b.id[1:] if isinstance(p.b.id, str) else '?')
    return [e.throw(st, e.tyname(nm), c.args[0])]
@model('__cxa_begin_catch')
def _(e, st, c):
    st.caught.append(st.exc); return ret(st, c.args[0])
@model('__cxa_end_catch')
def _(e, st, c):
    if st.caught: st.caught.pop()
    return ret(st)
@model('__cxa_rethrow')
def _(e, st, c):
    x = st.caught[-1] if st.caught else st.exc
    return [(st, ('exc', x))]
@model('__cxa_free_exception', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit')
def _(e, st, c): return ret(st, I(0, 32) if c.rty.k == 'int' else None)
@model('__cxa_guard_acquire')
def _(e, st, c): return ret(st, I(0, 32))     # statics are taken as already initialised
@model('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__assert_fail', '_ZSt10unexpectedv')
def _(e, st, c):
    if c.name == '__assert_fail': e.oblige(st, 'assertion', False, 'safety', c.line[:100])
    else: e.oblige(st, 'no-terminate', False, 'safety')
    raise PathEnd()
def _throwfn(ty):
    def f(e, st, c): return [e.throw(st, ty, e.alloc(st))]
    return f
for _n, _t in (('__throw_out_of_range', 'std::out_of_range'), ('__throw_out_of_range_fmt', 'std::out_of_range'), ('__throw_length_error', 'std::length_error'),
               ('__throw_bad_optional_access', 'std::bad_optional_access'), ('__throw_bad_any_cast', 'std::bad_any_cast'), ('__throw_logic_error', 'std::logic_error'),
               ('__throw_bad_function_call', 'std::bad_function_call'), ('__throw_bad_variant_access', 'std::bad_variant_access'), ('__throw_system_error', 'std::system_error')):
    REG[('std', _n)] = _throwfn(_t)

# ------------------------------------------------------------------ C library
@model('strlen')
def _(e, st, c):
    t = e.ctext(st, c.args[0]); return ret(st, sizeI(st, L(t)))
@model('isspace', ('std', 'isspace'))
def _(e, st, c):
    v = c.args[0]; t = toi(v.s() if v.w == 32 else v.u())
    r = simp(z3.Or(t == 32, z3.And(t >= 9, t <= 13)))
    if c.rty.k == 'int' and c.rty.w == 1: return ret(st, r)
    return ret(st, I(1 if r else 0, 32) if isinstance(r, bool) else I(z3.If(r, z3.IntVal(1), z3.IntVal(0)), 32, 0, 1))
def _case(up):
    def f(e, st, c):
        v = c.args[-1] if c.q[0].startswith('std::ctype') else c.args[0]; t = toi(v.u() if v.w == 8 else v.s())
        lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
        r = simp(z3.If(z3.And(t >= lo, t <= hi), t + d, t))
        return ret(st, I(r, v.w, 0, 255) if v.w == 8 else I(r, v.w, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1))
    return f
for _k in ('toupper', ('std', 'toupper'), ('std::ctype', 'toupper')): REG[_k] = _case(True)
for _k in ('tolower', ('std', 'tolower'), ('std::ctype', 'tolower')): REG[_k] = _case(False)
@model('isdigit', ('std', 'isdigit'))
def _(e, st, c):
    t = toi(c.args[0].s()); return ret(st, I(z3.If(z3.And(t >= 48, t <= 57), z3.IntVal(1), z3.IntVal(0)), 32, 0, 1))
@model(('std::locale', 'locale'), ('std::locale', '~locale'), ('std', 'use_facet'))
def _(e, st, c): return ret(st, NULL if c.rty.k == 'ptr' else None)

# ------------------------------------------------------------------ std::string
S_ = 'std::string'
def out_of_range(e, st, cond, k):
    """[outcomes]: cond ? k(st) : std::out_of_range"""
    cond = simp(tob(cond))
    if cond is True: return k(st)
    res = []
    if cond is not False:
        if not e.discover and e.prove(st, cond, 1500)[0] == 'valid': return k(st)
        s1 = st.copy(); s1.assume(cond)
        if e.feasible(s1): res += k(s1)
    s2 = st.copy(); s2.assume(z3.Not(tob(cond)))
    if e.feasible(s2): res.append(e.throw(s2, 'std::out_of_range', e.alloc(s2)))
    return res
def npos_min(e, st, t, pos, n):
    """min(n, len-pos) for a size_t n possibly npos; terms"""
    n = simp(n)
    if isinstance(n, int) and n > MAXLEN: return simp(L(t) - pos)
    r = L(t) - pos
    return e.ite(st, toi(n) <= r, toi(n), r)
def uz(v):
    """size_t as an integer term where huge (negative-lazy) values stay huge"""
    return toi(v.u())

@model((S_, 'basic_string'))
def _(e, st, c):
    p = params(c); a = c.args; d = a[0]
    if len(a) == 1 or (len(a) == 2 and 'allocator' in p[0] and len(p) == 1): t = z3.StringVal('')
    elif len(p) >= 2 and isinstance(a[1], I) and isinstance(a[2], I):
        return rep(e, st, d, a[1], a[2])
    elif 'initializer_list' in c.q[3]: raise Unsupported('string from init list')
    elif len(p) >= 2 and '__normal_iterator' in p[0] or (len(p) >= 2 and 'char' in p[0] and '*' in p[0] and 'char' in p[1] and '*' in p[1]) or (len(p) >= 2 and re.search(r'\*$', p[0]) and re.search(r'\*$', p[1])):
        t = charrange(e, st, a[1], a[2])
    elif len(p) >= 3 and 'std::string' in p[0] and isinstance(a[2], I):
        t0 = e.rdstr(st, a[1]); pos = uz(a[2]); n = uz(a[3]) if isinstance(a[3], I) else L(t0)
        def k(s): e.wrstr(s, d, z3.SubString(t0, pos, npos_min(e, st, t0, pos, n))); return ret(s)
        return out_of_range(e, st, pos <= L(t0), k)
    elif len(p) >= 2 and 'char' in p[0] and '*' in p[0] and isinstance(a[2], I):
        t0 = e.ctext(st, a[1]); n = uz(a[2]); e.oblige(st, 'string(ptr,n) in range', n <= L(t0), 'safety'); t = z3.SubString(t0, 0, n)
    elif 'basic_string_view' in p[0]: raise Unsupported('string from view')
    else:
        if a[1].b.kind == 'ref' and 'char' in p[0] and '*' in p[0]: nonnull_text(e, st, a[1])
        t = strarg(e, st, p[0], a[1])
        if '&&' in p[0]:
            e.wrstr(st, d, t); e.wrstr(st, a[1], fresh('moved', S_SORT)) if a[1].key() != d.key() else None
            return ret(st)
    e.wrstr(st, d, t); return ret(st)
def nonnull_text(e, st, p):
    if isinstance(p.b.t, int):
        if p.b.t == 0: e.oblige(st, 'null text', False, 'safety'); raise PathEnd()
        return
    if not e.discover and not e.quiet: e.nonnull(st, p.b.t)
def rep(e, st, d, n, ch):
    t = fresh('rep', S_SORT); n_ = uz(n); cc = simp(z3.StrFromCode(toi(ch.u())))
    st.assume(L(t) == n_); st.assume(z3.InRe(t, z3.Star(z3.Re(cc)))) if z3.is_string_value(cc) else None
    e.wrstr(st, d, t); return ret(st)
def charrange(e, st, a, b):
    if a.b.kind == 'ref' and isinstance(a.b.t, int) and a.b.t == 0: return z3.StringVal('')
    if a.b.kind == b.b.kind == 'strd' and a.b.c.key() == b.b.c.key(): t = e.rdstr(st, a.b.c)
    elif a.b.kind == b.b.kind == 'cstr': t = a.b.t
    else: raise Unsupported('char range %r %r' % (a, b))
    i, j = toi(a.idx) + a.off, toi(b.idx) + b.off
    e.oblige(st, 'char range valid', z3.And(0 <= i, i <= j, j <= L(t)), 'safety')
    return simp(z3.SubString(t, i, j - i))
@model((S_, '~basic_string'), (S_, 'reserve'), (S_, 'shrink_to_fit'))
def _(e, st, c): return ret(st)
@model((S_, 'operator='), (S_, 'assign'))
def _(e, st, c):
    p = params(c); a = c.args
    if c.q[1] == 'assign' and len(p) == 2 and isinstance(a[1], I) and isinstance(a[2], I):
        rep(e, st, a[0], a[1], a[2]); return ret(st, a[0])
    if c.q[1] == 'assign' and len(p) == 2 and '*' in p[0] and isinstance(a[2], I):
        t = e.ctext(st, a[1]); e.oblige(st, 'assign(ptr,n) in range', uz(a[2]) <= L(t), 'safety'); t = z3.SubString(t, 0, uz(a[2]))
    elif c.q[1] == 'assign' and len(p) > 1: raise Unsupported('assign ' + c.q[3])
    else: t = strarg(e, st, p[0], a[1])
    e.wrstr(st, a[0], t)
    if '&&' in p[0] and a[1].key() != a[0].key(): e.wrstr(st, a[1], fresh('moved', S_SORT))
    return ret(st, a[0])
@model((S_, 'size'), (S_, 'length'))
def _(e, st, c): return ret(st, sizeI(st, e.slen(st, e.rdstr(st, c.args[0]))))
@model((S_, 'empty'))
def _(e, st, c): return ret(st, simp(toi(e.slen(st, e.rdstr(st, c.args[0]))) == 0))
@model((S_, 'clear'))
def _(e, st, c): e.wrstr(st, c.args[0], z3.StringVal('')); return ret(st)
@model((S_, 'c_str'), (S_, 'data'))
def _(e, st, c): return ret(st, Ptr(StrD(c.args[0])))
@model((S_, 'begin'), (S_, 'cbegin'))
def _(e, st, c): return ret(st, Ptr(StrD(c.args[0])))
@model((S_, 'end'), (S_, 'cend'))
def _(e, st, c): return ret(st, Ptr(StrD(c.args[0]), 0, e.slen(st, e.rdstr(st, c.args[0]))))
@model((S_, 'rbegin'), (S_, 'rend'))
def _(e, st, c):
    d, s = c.args
    e.store(st, ir.PTR, Ptr(StrD(s), 0, e.slen(st, e.rdstr(st, s)) if c.q[1] == 'rbegin' else 0), d); return ret(st)
@model((S_, 'operator[]'))
def _(e, st, c): return ret(st, Ptr(StrD(c.args[0]), 0, simp(uz(c.args[1]))))
@model((S_, 'at'))
def _(e, st, c):
    i = uz(c.args[1]); t = e.rdstr(st, c.args[0])
    return out_of_range(e, st, i < L(t), lambda s: ret(s, Ptr(StrD(c.args[0]), 0, simp(i))))
@model((S_, 'front'))
def _(e, st, c):
    e.oblige(st, 'front of non-empty', L(e.rdstr(st, c.args[0])) > 0, 'safety'); return ret(st, Ptr(StrD(c.args[0])))
@model((S_, 'back'))
def _(e, st, c):
    t = e.rdstr(st, c.args[0]); e.oblige(st, 'back of non-empty', L(t) > 0, 'safety'); return ret(st, Ptr(StrD(c.args[0]), 0, simp(L(t) - 1)))
@model((S_, 'pop_back'))
def _(e, st, c):
    t = e.rdstr(st, c.args[0]); e.oblige(st, 'pop_back of non-empty', L(t) > 0, 'safety'); e.wrstr(st, c.args[0], z3.SubString(t, 0, L(t) - 1)); return ret(st)
@model((S_, 'operator+='), (S_, 'append'), (S_, 'push_back'))
def _(e, st, c):
    p = params(c); a = c.args; t = e.rdstr(st, a[0])
    if len(p) == 1: x = strarg(e, st, p[0], a[1])
    elif len(p) == 2 and isinstance(a[1], I) and isinstance(a[2], I):
        tmp = e.newloc('rep'); rep(e, st, tmp, a[1], a[2]); x = e.rdstr(st, tmp)
    elif len(p) == 2 and '*' in p[0] and isinstance(a[2], I):
        x = e.ctext(st, a[1]); e.oblige(st, 'append(ptr,n) in range', uz(a[2]) <= L(x), 'safety'); x = z3.SubString(x, 0, uz(a[2]))
    elif len(p) == 3 and 'string' in p[0]:
        y = e.rdstr(st, a[1]); pos = uz(a[2])
        def k(s): e.wrstr(s, a[0], z3.Concat(t, z3.SubString(y, pos, npos_min(e, st, y, pos, uz(a[3]))))); return ret(s, a[0])
        return out_of_range(e, st, pos <= L(y), k)
    elif len(p) == 2: x = charrange(e, st, a[1], a[2])
    else: raise Unsupported('append ' + c.q[3])
    e.wrstr(st, a[0], e.scat(st, [t, x])); return ret(st, a[0])
@model((S_, 'substr'))
def _(e, st, c):
    d, s, pos, n = c.args; t = e.rdstr(st, s); p_, n_ = uz(pos), uz(n)
    def k(s_): e.wrstr(s_, d, simp(z3.SubString(t, p_, npos_min(e, st, t, p_, n_)))); return ret(s_)
    return out_of_range(e, st, p_ <= L(t), k)
@model((S_, 'erase'))
def _(e, st, c):
    a = c.args; t = e.rdstr(st, a[0]); p = params(c)
    if isinstance(a[1], I):
        pos, n = uz(a[1]), uz(a[2])
        m = npos_min(e, st, t, pos, n)
        def k(s): e.wrstr(s, a[0], simp(z3.Concat(z3.SubString(t, 0, pos), z3.SubString(t, pos + m, L(t) - pos - m)))); return ret(s, a[0])
        return out_of_range(e, st, pos <= L(t), k)
    i = toi(a[1].idx) + a[1].off
    j = toi(a[2].idx) + a[2].off if len(a) > 2 else i + 1
    e.oblige(st, 'erase range valid', z3.And(0 <= i, i <= j, j <= L(t)), 'safety')
    e.wrstr(st, a[0], simp(z3.Concat(z3.SubString(t, 0, i), z3.SubString(t, j, L(t) - j))))
    return ret(st, Ptr(StrD(a[0]), 0, simp(i)))
@model((S_, 'insert'))
def _(e, st, c):
    a = c.args; p = params(c); t = e.rdstr(st, a[0])
    if isinstance(a[1], I) and len(p) == 2:
        pos = uz(a[1]); x = strarg(e, st, p[1], a[2])
    elif isinstance(a[1], I) and len(p) == 3 and isinstance(a[2], I):
        tmp = e.newloc('rep'); rep(e, st, tmp, a[2], a[3]); x = e.rdstr(st, tmp); pos = uz(a[1])
    else: raise Unsupported('string insert ' + c.q[3])
    def k(s): e.wrstr(s, a[0], simp(z3.Concat(z3.SubString(t, 0, pos), x, z3.SubString(t, pos, L(t) - pos)))); return ret(s, a[0])
    return out_of_range(e, st, pos <= L(t), k)
@model((S_, 'replace'))
def _(e, st, c):
    a = c.args; p = params(c); t = e.rdstr(st, a[0])
    if isinstance(a[1], I) and len(p) == 3: pos, n = uz(a[1]), uz(a[2]); x = strarg(e, st, p[2], a[3])
    else: raise Unsupported('string replace ' + c.q[3])
    m = npos_min(e, st, t, pos, n)
    def k(s): e.wrstr(s, a[0], e.scat(s, [e.ssub(s, t, 0, pos), x, e.ssub(s, t, pos + m, e.slen(s, t) - pos - m)])); return ret(s, a[0])
    return out_of_range(e, st, pos <= L(t), k)
@model((S_, 'resize'))
def _(e, st, c):
    a = c.args; t = e.rdstr(st, a[0]); n = uz(a[1])
    st.assume(n <= MAXLEN)
    if e.opts.get('charbuf'):
        k = simp(n)
        if not isinstance(k, int) or k > 64: raise Unsupported('resize to an unknown length')
        us = [fresh('ch', I_SORT) for _ in range(k)]
        for u in us: st.assume(z3.And(u >= 0, u <= 255))
        x = z3.StringVal('') if k == 0 else z3.StrFromCode(us[0]) if k == 1 else z3.Concat(*[z3.StrFromCode(u) for u in us])
        e.wrstr(st, a[0], x); return ret(st)
    pad = fresh('pad', S_SORT); x = fresh('resized', S_SORT)
    st.assume(L(pad) == z3.If(n > L(t), n - L(t), 0)); st.assume(L(x) == n)
    st.assume(x == z3.If(n >= L(t), z3.Concat(t, pad), z3.SubString(t, 0, n)))
    if len(a) > 2 and z3.is_string_value(simp(z3.StrFromCode(toi(a[2].u())))): st.assume(z3.InRe(pad, z3.Star(z3.Re(simp(z3.StrFromCode(toi(a[2].u())))))))
    e.wrstr(st, a[0], x); return ret(st)
@model((S_, 'swap'))
def _(e, st, c):
    x, y = e.rdstr(st, c.args[0]), e.rdstr(st, c.args[1]); e.wrstr(st, c.args[0], y); e.wrstr(st, c.args[1], x); return ret(st)
@model((S_, 'compare'))
def _(e, st, c):
    a = c.args; p = params(c); t = e.rdstr(st, a[0])
    def cmp(s, x, y):
        r = fresh('cmp', I_SORT); s.assume((r == 0) == (x == y)); s.assume((r < 0) == (x < y)); s.assume(z3.And(r >= -(1 << 31), r < 1 << 31))
        return ret(s, I(r, 32, -(1 << 31), (1 << 31) - 1))
    if len(p) == 1: return cmp(st, t, strarg(e, st, p[0], a[1]))
    if len(p) == 3:
        pos, n = uz(a[1]), uz(a[2]); y = strarg(e, st, p[2], a[3])
        return out_of_range(e, st, pos <= L(t), lambda s: cmp(s, simp(z3.SubString(t, pos, npos_min(e, st, t, pos, n))), y))
    if len(p) == 4 and '*' in p[2]:
        pos, n = uz(a[1]), uz(a[2]); y = z3.SubString(e.ctext(st, a[3]), 0, uz(a[4]))
        return out_of_range(e, st, pos <= L(t), lambda s: cmp(s, simp(z3.SubString(t, pos, npos_min(e, st, t, pos, n))), y))
    raise Unsupported('compare ' + c.q[3])
NPOS = (1 << 64) - 1
def split_npos(e, st, r, found, none):
    """two outcomes: found at r (with fact `found`), or npos (with fact `none`)"""
    res = []
    s1 = st.copy(); s1.assume(found); s1.assume(r >= 0)
    s2 = st.copy(); s2.assume(none)
    if e.feasible(s1): res.append((s1, ('ret', I(r, 64, 0, MAXLEN))))
    if e.feasible(s2): res.append((s2, ('ret', I(NPOS, 64))))
    return res
FIND = z3.Function('find_at', S_SORT, S_SORT, I_SORT, I_SORT)    # first occurrence at or after a position, -1 when none
@model((S_, 'find'))
def _(e, st, c):
    a = c.args; p = params(c); t = e.rdstr(st, a[0]); x = strarg(e, st, p[0], a[1]); pos = uz(a[2]) if len(a) > 2 else z3.IntVal(0)
    if len(a) > 3: raise Unsupported('find with count')
    r = fresh('find', I_SORT)
    if e.opts.get('findlemma'):
        return split_npos(e, st, r, z3.And(pos <= toi(e.slen(st, t)), r == FIND(t, x, pos), r >= pos, r + L(x) <= toi(e.slen(st, t))), FIND(t, x, pos) == -1)
    # first occurrence at or after pos
    return split_npos(e, st, r, z3.And(pos <= L(t), r == z3.IndexOf(t, x, pos), r >= pos, r + L(x) <= L(t), z3.SubString(t, r, L(x)) == x),
                      z3.Or(pos > L(t), z3.Not(z3.Contains(z3.SubString(t, pos, L(t) - pos), x))))
@model((S_, 'rfind'))
def _(e, st, c):
    a = c.args; p = params(c); t = e.rdstr(st, a[0]); x = strarg(e, st, p[0], a[1]); pos = uz(a[2])
    r = fresh('rfind', I_SORT)
    top = z3.If(pos + L(x) <= L(t), pos + L(x), L(t))
    sub = z3.SubString(t, 0, top)
    return split_npos(e, st, r, z3.And(r >= 0, r + L(x) <= top, z3.SubString(t, r, L(x)) == x,
              z3.Not(z3.Contains(z3.SubString(t, r + 1, top - r - 1), x))), z3.Not(z3.Contains(sub, x)))
def codeset(e, st, p, v):
    t = simp(strarg(e, st, p, v))
    if z3.is_string_value(t): return [ord(ch) for ch in decode_z3str(t)]
    if z3.is_app(t) and t.decl().name() == 'str.from_code': return t
    return None
def find_set(first, neg):
    def f(e, st, c):
        a = c.args; p = params(c); t = e.rdstr(st, a[0]); cs = codeset(e, st, p[0], a[1]); pos = uz(a[2])
        if not isinstance(cs, list): raise Unsupported('find_*_of a non-constant set')
        stop = [x for x in range(256) if (x in cs) != neg]; skip = [x for x in range(256) if (x in cs) == neg]
        r = fresh('find_of', I_SORT)
        if first:
            none = z3.Or(pos >= L(t), e.allin(t, pos, L(t), skip, st))
            return split_npos(e, st, r, z3.And(r >= pos, r < L(t), e.allin(t, pos, r, skip, st), at_in(e, st, t, r, stop)), none)
        else:
            last = e.ite(st, pos < L(t), pos, L(t) - 1)
            return split_npos(e, st, r, z3.And(r >= 0, r <= last, e.allin(t, r + 1, last + 1, skip, st), at_in(e, st, t, r, stop)), e.allin(t, 0, last + 1, skip, st))
    return f
REG[(S_, 'find_first_of')] = find_set(True, False); REG[(S_, 'find_first_not_of')] = find_set(True, True)
REG[(S_, 'find_last_of')] = find_set(False, False); REG[(S_, 'find_last_not_of')] = find_set(False, True)
@model(('std', 'operator+'))
def _(e, st, c):
    p = params(c)
    if not any('std::string' in x for x in p): return None
    d, x, y = c.args
    e.wrstr(st, d, simp(z3.Concat(strarg(e, st, p[0], x), strarg(e, st, p[1], y)))); return ret(st)
@model(('std', 'operator=='), ('std', 'operator!='), ('std', 'operator<'), ('std', 'operator>'))
def _(e, st, c):
    p = params(c); o = c.q[1]
    if not p: return None
    if any(re.match(r'std::string\b', x) for x in p):
        a, b = strarg(e, st, p[0], c.args[0]), strarg(e, st, p[1], c.args[1])
        r = {'operator==': lambda: EQ(a, b), 'operator!=': lambda: NOT(EQ(a, b)), 'operator<': lambda: a < b, 'operator>': lambda: b < a}[o]()
        return ret(st, simp(r) if not isinstance(r, bool) else r)
    return nodecmp(e, st, c)
def nodecmp(e, st, c):
    """comparison of list / map iterators"""
    p = params(c); o = c.q[1]
    if '_List_iterator' in p[0] or '_List_const_iterator' in p[0] or '_Node_iterator' in p[0] or '_Node_const_iterator' in p[0] or '_Node_iterator_base' in p[0] or '_Rb_tree' in p[0]:
        a, b = (itval(e, st, x) for x in c.args[:2])
        r = e.ptreq(st, a, b); return ret(st, r if o == 'operator==' else simp(NOT(r)))
    return None
def itval(e, st, x):
    """iterator value held in the iterator object at x"""
    return e.load(st, ir.PTR, x)
# iterators of std::string / std::vector are inlined from their real code
# ------------------------------------------------------------------ algorithms over characters
def lambda_fn(e, text, sig):
    r = [n for n in e.m.findre(re.escape(text) + r'::operator\(\)') ]
    if len(r) != 1: raise Unsupported('predicate body of ' + text)
    return r[0]
def charset_of(e, st, text, this):
    fn = lambda_fn(e, text, None); out = []
    e.quiet += 1
    try:
        for ch in range(256):
            r = e.run(st.copy(), fn, [this, I(ch, 8)], 1)
            if len(r) != 1 or r[0][1][0] != 'ret' or not isinstance(r[0][1][1], bool): raise Unsupported('character predicate is not decided')
            if r[0][1][1]: out.append(ch)
    finally: e.quiet -= 1
    return out
@model(('std', 'find_if'))
def _(e, st, c):
    p = params(c); a = c.args
    if 'reverse_iterator' in p[0] and 'std::string' in p[0]:
        d, f, l = a[0], e.load(st, ir.PTR, a[1]), e.load(st, ir.PTR, a[2])
        cs = charset_of(e, st, c.q[4][1], e.newloc('pred'))
        t = e.rdstr(st, f.b.c); hi, lo = toi(f.idx) + f.off, toi(l.idx) + l.off
        e.oblige(st, 'range valid', z3.And(0 <= lo, lo <= hi, hi <= L(t)), 'safety')
        r = fresh('found', I_SORT)
        st.assume(z3.And(lo <= r, r <= hi)); st.assume(e.allin(t, r, hi, [x for x in range(256) if x not in cs], st))
        st.assume(z3.Or(r == lo, at_in(e, st, t, r - 1, cs)))
        e.store(st, ir.PTR, Ptr(StrD(f.b.c), 0, r), d); return ret(st)
    if isinstance(a[0], Ptr) and a[0].b.kind == 'strd':
        f, l = a[0], a[1]; cs = charset_of(e, st, c.q[4][1], e.newloc('pred'))
        t = e.rdstr(st, f.b.c); lo, hi = toi(f.idx) + f.off, toi(l.idx) + l.off
        e.oblige(st, 'range valid', z3.And(0 <= lo, lo <= hi, hi <= L(t)), 'safety')
        r = fresh('found', I_SORT)
        st.assume(z3.And(lo <= r, r <= hi)); st.assume(e.allin(t, lo, r, [x for x in range(256) if x not in cs], st))
        st.assume(z3.Or(r == hi, at_in(e, st, t, r, cs)))
        return ret(st, Ptr(StrD(f.b.c), 0, r))
    return None
@model(('std', 'begin'), ('std', 'end'), ('std', 'rbegin'), ('std', 'rend'), ('std', 'cbegin'), ('std', 'cend'))
def _(e, st, c):
    p = params(c)[0]
    if 'std::string' in p and 'vector' not in p and 'map' not in p:
        a = c.args[-1]; m = c.q[1]
        if m in ('begin', 'cbegin'): return ret(st, Ptr(StrD(a)))
        n = simp(L(e.rdstr(st, a)))
        if m in ('end', 'cend'): return ret(st, Ptr(StrD(a), 0, n))
        e.store(st, ir.PTR, Ptr(StrD(a), 0, n if m == 'rbegin' else 0), c.args[0]); return ret(st)
    return None
# ------------------------------------------------------------------ string streams (output accumulator, unread input)
SS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::stringstream', 'std::ostringstream')
def ssbase(e, st, p):
    """the stream object behind an ostream& / stringstream&: identified by its allocation"""
    return Ptr(p.b, 0)
def ssget(e, st, p): return e.rd(st, ssbase(e, st, p), 'ss', S_SORT)
def ssput(e, st, p, t): e.wr(st, ssbase(e, st, p), 'ss', S_SORT, simp(z3.Concat(ssget(e, st, p), t)))
def _ssctor(e, st, c):
    if c.args[0].b.kind != 'loc': raise Unsupported('heap stream')
    e.wr(st, ssbase(e, st, c.args[0]), 'ss', S_SORT, z3.StringVal(''))
    vp = fresh('vptr', I_SORT); st.assume(vp > 0); e.wr(st, ssbase(e, st, c.args[0]), 'ptr', I_SORT, vp)
    if len(c.args) > 1 and isinstance(c.args[1], Ptr) and 'string' in c.q[3]:
        e.wr(st, ssbase(e, st, c.args[0]), 'in', S_SORT, e.rdstr(st, c.args[1]))
        e.wr(st, ssbase(e, st, c.args[0]), 'inpos', I_SORT, z3.IntVal(0))
        e.wr(st, ssbase(e, st, c.args[0]), 'infail', B_SORT, z3.BoolVal(False))
    return ret(st)
def _ssstr(e, st, c):
    if len(c.args) == 2 and c.sret(): e.wrstr(st, c.args[0], ssget(e, st, c.args[1])); return ret(st)
    if len(c.args) == 2: e.wr(st, ssbase(e, st, c.args[0]), 'ss', S_SORT, e.rdstr(st, c.args[1])); return ret(st)
    raise Unsupported('stream str')
for _cl in SS:
    for _ct in ('basic_stringstream', 'basic_ostringstream'): REG[(_cl, _ct)] = _ssctor
    REG[(_cl, 'str')] = _ssstr
ITOS = z3.Function('int_text', I_SORT, S_SORT)
def itos(t): return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t)))
@model(('std', 'operator<<'))
def _(e, st, c):
    p = params(c)
    if 'ostream' not in p[0]: return None
    if 'std::string' in p[1] or 'char' in p[1]:
        if 'setw' in p[1] or '_Set' in p[1]: raise Unsupported('stream manipulator')
        if '*' in p[1] and c.args[1].b.kind == 'ref': nonnull_text(e, st, c.args[1])
        ssput(e, st, c.args[0], strarg(e, st, p[1], c.args[1])); return ret(st, c.args[0])
    raise Unsupported('stream << ' + p[1])
@model(('std::basic_ostream', 'operator<<'), ('std::ostream', 'operator<<'))
def _(e, st, c):
    v = c.args[1]; p = params(c)
    if isinstance(v, I):
        t = toi(v.s() if p[0] in ('int', 'long', 'short', 'long long') else v.u()); ssput(e, st, c.args[0], itos(t)); return ret(st, c.args[0])
    raise Unsupported('stream << ' + c.q[3])
@model(('std', 'to_string'))
def _(e, st, c):
    v = c.args[1]
    if not isinstance(v, I): return None
    p = params(c)
    t = toi(v.s() if p[0] in ('int', 'long', 'long long') else v.u()); e.wrstr(st, c.args[0], itos(t)); return ret(st)
@model(('std', 'getline'))
def _(e, st, c):
    p = params(c); a = c.args
    s = ssbase(e, st, a[0])
    inp = e.rd(st, s, 'in', S_SORT); fail = tob(e.rd(st, s, 'infail', B_SORT)); pos = toi(e.rd(st, s, 'inpos', I_SORT)); n = L(inp)
    d = toi(a[2].u()) if len(a) > 2 else z3.IntVal(10)
    res = []
    def alt(cond, f):
        s2 = st.copy(); s2.assume(cond)
        if e.feasible(s2): f(s2); res.extend(ret(s2, a[0]))
    def put(s2, text, p2, bad):
        if text is not None: e.wrstr(s2, a[1], text)
        e.wr(s2, s, 'inpos', I_SORT, simp(p2)); e.wr(s2, s, 'infail', B_SORT, z3.BoolVal(bad))
    alt(fail, lambda s2: None)
    alt(z3.And(z3.Not(fail), pos >= n), lambda s2: put(s2, z3.StringVal(''), pos, True))
    r = fresh('line_end', I_SORT)
    c_ = e.charat(st, inp, r)
    alt(z3.And(z3.Not(fail), pos >= 0, pos <= r, r < n, e.allin(inp, pos, r, ('ne', d)), c_ == d), lambda s2: put(s2, z3.SubString(inp, pos, r - pos), r + 1, False))
    alt(z3.And(z3.Not(fail), pos < n, e.allin(inp, pos, n, ('ne', d))), lambda s2: put(s2, z3.SubString(inp, pos, n - pos), n, False))
    return res
@model(('std::basic_ios', 'operator bool'), ('std::ios', 'operator bool'))
def _(e, st, c):
    return ret(st, z3.Not(tob(e.rd(st, ssbase(e, st, c.args[0]), 'infail', B_SORT))))
def _instate(e, st, p):
    s = ssbase(e, st, p)
    inp = e.rd(st, s, 'in', S_SORT); pos = toi(e.rd(st, s, 'inpos', I_SORT)); n = L(inp)
    st.assume(z3.And(pos >= 0, pos <= n))
    return s, inp, pos, n, tob(e.rd(st, s, 'infail', B_SORT)), tob(e.rd(st, s, 'ineof', B_SORT))
def _inalts(e, st, alts):
    """alts: (condition, effect(state) -> value)"""
    res = []
    for cond, f in alts:
        s2 = st.copy(); s2.assume(cond)
        if e.feasible(s2): res.extend(ret(s2, f(s2)))
    return res
def _flag(e, st, s, **kw):
    for k, v in kw.items(): e.wr(st, s, k, B_SORT if k != 'inpos' else I_SORT, v if not isinstance(v, bool) else z3.BoolVal(v))
EOFV = I(-1, 32)
def _peekget(adv):
    def go(e, st, c):
        if len(c.args) > 1: return None
        s, inp, pos, n, fail, eof = _instate(e, st, c.args[0])
        def bad(s2): _flag(e, s2, s, infail=True); return EOFV
        def end(s2): _flag(e, s2, s, ineof=True, **({'infail': True} if adv else {})); return EOFV
        def one(s2):
            ch = e.charat(s2, inp, pos)
            if adv: _flag(e, s2, s, inpos=simp(pos + 1))
            return I(ch, 32, 0, 255)
        return _inalts(e, st, [(z3.Or(fail, eof), bad), (z3.And(z3.Not(fail), z3.Not(eof), pos >= n), end), (z3.And(z3.Not(fail), z3.Not(eof), pos < n), one)])
    return go
REG[('std::basic_istream', 'peek')] = _peekget(False)
REG[('std::basic_istream', 'get')] = _peekget(True)
@model(('std::basic_istream', 'unget'))
def _(e, st, c):
    s, inp, pos, n, fail, eof = _instate(e, st, c.args[0])
    _flag(e, st, s, ineof=False)
    def bad(s2): _flag(e, s2, s, infail=True); return c.args[0]
    def ok(s2): _flag(e, s2, s, inpos=simp(pos - 1)); return c.args[0]
    return _inalts(e, st, [(z3.Or(fail, pos == 0), bad), (z3.And(z3.Not(fail), pos > 0), ok)])
# ------------------------------------------------------------------ vector / list / deque
def vecT(c):
    """element cell type from the class template argument"""
    return celltype(c.q[2][0])
TSIZE = {'str': 32, 'ptr': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8}
def esize(et): return TSIZE.get(et.name, 0)
def elem(e, c, p, i):
    et = vecT(c); return Ptr(Elem(p, i, et, esize(et)))
def vlen(e, st, p):
    n = e.rd(st, p, 'len', I_SORT); n = simp(toi(n) if not isinstance(n, I) else n.t)
    if not isinstance(n, int): st.assume(z3.And(n >= 0, n <= MAXLEN))
    return n
def setlen(e, st, p, n): e.wr(st, p, 'len', I_SORT, n)
def getel(e, st, et, p, i):
    return {n: e.rd(st, Ptr(Elem(p, i, et, esize(et))), n, so) for n, so in et.comps}
def setel(e, st, et, p, i, d):
    for n, so in et.comps: e.wr(st, Ptr(Elem(p, i, et, esize(et))), n, so, d[n])
def argval(e, st, et, pt, v):
    """element value (dict of components) from an argument (reference or value)"""
    n = et.comps[0][0]
    if et.name == 'str': return {'str': strarg(e, st, pt, v)}
    if et.name == 'ptr':
        if pt.rstrip().endswith('&') or pt.rstrip().endswith('&&'): return {'ptr': e.as_ref(e.load(st, ir.PTR, v))}
        return {'ptr': e.as_ref(v)}
    if et.name.startswith('i'):
        w = int(et.name[1:]); x = v if isinstance(v, I) else e.load(st, ir.INT(w), v); return {n: toi(x.canon())}
    if et.name == 'double': return {'double': v if isinstance(v, z3.ExprRef) else e.load(st, ir.DOUBLE, v)}
    if et.name == 'obj': return {'ptr': e.as_ref(v)}
    if isinstance(v, Ptr): return {n: e.rd(st, v, n, so) for n, so in et.comps}
    raise Unsupported('element of type %s' % et.name)
def zero(so):
    if so == S_SORT: return z3.StringVal('')
    if so == R_SORT: return z3.RealVal(0)
    if so == B_SORT: return z3.BoolVal(False)
    if so.kind() == z3.Z3_ARRAY_SORT: return z3.K(so.domain(), zero(so.range()))
    return z3.IntVal(0)
SEQ = ('std::vector', 'std::list', 'std::deque')
def smodel(*ms, cl=SEQ):
    def d(f):
        for k in cl:
            for m in ms: REG[(k, m)] = f
        return f
    return d
def seqit(e, st, it):
    if isinstance(it, Ptr) and it.b.kind == 'loc': it = e.load(st, ir.PTR, it)
    return it if isinstance(it, Ptr) and it.b.kind in ('elem', 'lit') else None
def itrange(e, st, et, x, y):
    """(arrays, first, count) of an iterator range over a sequence with elements of the same kind"""
    x, y = seqit(e, st, x), seqit(e, st, y)
    if x is None or y is None or x.b.c.key() != y.b.c.key() or x.b.et.comps != et.comps: return None
    n = toi(vlen(e, st, x.b.c)); lo, hi = toi(x.b.idx), toi(y.b.idx)
    e.oblige(st, 'valid iterator range', z3.And(0 <= lo, lo <= hi, hi <= n), 'safety'); st.assume(z3.And(0 <= lo, lo <= hi, hi <= n))
    return {nm: e.rd(st, x.b.c, 'e.' + nm, z3.ArraySort(I_SORT, so)) for nm, so in et.comps}, lo, simp(hi - lo)
def splice(e, st, et, d, at, n, src, lo, cnt):
    """contents of d (n elements) after inserting cnt elements of src from lo at `at`"""
    i = z3.Int('bound!i')
    for nm, so in et.comps:
        asr = z3.ArraySort(I_SORT, so)
        if simp(toi(n) == 0) is True and simp(toi(lo) == 0) is True: e.wr(st, d, 'e.' + nm, asr, src[nm]); continue
        old = e.rd(st, d, 'e.' + nm, asr); new = fresh('spliced', asr); k = toi(at)
        st.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(i < k, z3.Select(old, i), z3.If(i < k + toi(cnt), z3.Select(src[nm], i - k + toi(lo)), z3.Select(old, i - toi(cnt)))), patterns=[z3.Select(new, i)]))
        e.wr(st, d, 'e.' + nm, asr, new)
    setlen(e, st, d, simp(toi(n) + toi(cnt)))
@smodel('assign')
def _(e, st, c):
    et = vecT(c); a = c.args
    r = itrange(e, st, et, a[1], a[2]) if len(a) == 3 and isinstance(a[1], Ptr) else None
    if r is None and len(a) == 3 and isinstance(a[1], I) and not isinstance(a[2], I):
        v = argval(e, st, et, params(c)[1], a[2])
        for nm, so in et.comps: e.wr(st, a[0], 'e.' + nm, z3.ArraySort(I_SORT, so), z3.K(I_SORT, v[nm]))
        setlen(e, st, a[0], simp(toi(uz(a[1])))); return ret(st)
    if r is None: raise Unsupported('assign ' + c.q[3])
    splice(e, st, et, a[0], 0, 0, *r); return ret(st)
@smodel('vector', 'list', 'deque')
def _(e, st, c):
    p = params(c); a = c.args; et = vecT(c); d = a[0]
    if len(a) == 1 or re.match(r'std::allocator', p[0]):
        setlen(e, st, d, z3.IntVal(0))
        for nm, so in et.comps: e.wr(st, d, 'e.' + nm, z3.ArraySort(I_SORT, so), z3.K(I_SORT, zero(so)))
        return ret(st)
    if re.match(r'std::(vector|list|deque)<', p[0]):
        t = TVEC(et); e.write(st, d, t, e.read(st, a[1], t))
        if '&&' in p[0]: setlen(e, st, a[1], z3.IntVal(0))
        return ret(st)
    if 'initializer_list' in p[0]: raise Unsupported('sequence from initializer list')
    if isinstance(a[1], I):
        n = uz(a[1]); setlen(e, st, d, n)
        for nm, so in et.comps:
            e.wr(st, d, 'e.' + nm, z3.ArraySort(I_SORT, so), z3.K(I_SORT, {S_SORT: z3.StringVal(''), R_SORT: z3.RealVal(0)}.get(so, z3.IntVal(0)) if len(a) < 3 or isinstance(a[2], Ptr) and 'allocator' in p[1] else argval(e, st, et, p[1], a[2])[nm]))
        return ret(st)
    r = itrange(e, st, et, a[1], a[2]) if len(a) >= 3 and isinstance(a[1], Ptr) else None
    if r is not None:
        for nm, so in et.comps: e.wr(st, d, 'e.' + nm, z3.ArraySort(I_SORT, so), z3.K(I_SORT, zero(so)))
        splice(e, st, et, d, 0, 0, *r); return ret(st)
    raise Unsupported('sequence constructor ' + c.q[3])
@smodel('~vector', '~list', '~deque', 'reserve', 'shrink_to_fit')
def _(e, st, c): return ret(st)
@smodel('size')
def _(e, st, c): return ret(st, sizeI(st, vlen(e, st, c.args[0])))
@smodel('empty')
def _(e, st, c): return ret(st, simp(toi(vlen(e, st, c.args[0])) == 0))
@smodel('clear')
def _(e, st, c): setlen(e, st, c.args[0], z3.IntVal(0)); return ret(st)
@smodel('operator=')
def _(e, st, c):
    t = TVEC(vecT(c)); e.write(st, c.args[0], t, e.read(st, c.args[1], t))
    if '&&' in c.q[3] and c.args[0].key() != c.args[1].key(): setlen(e, st, c.args[1], z3.IntVal(0))
    return ret(st, c.args[0])
@smodel('begin', 'cbegin', cl=('std::vector',))
def _(e, st, c): return ret(st, elem(e, c, c.args[0], 0))
@smodel('end', 'cend', cl=('std::vector',))
def _(e, st, c): return ret(st, elem(e, c, c.args[0], vlen(e, st, c.args[0])))
@smodel('begin', 'cbegin', cl=('std::list',))
def _(e, st, c): return ret(st, Ptr(LIt(c.args[0], 0, vecT(c))))
@smodel('end', 'cend', cl=('std::list',))
def _(e, st, c): return ret(st, Ptr(LIt(c.args[0], vlen(e, st, c.args[0]), vecT(c))))
@smodel('operator[]', 'at')
def _(e, st, c):
    i = simp(uz(c.args[1])); n = toi(vlen(e, st, c.args[0]))
    r = elem(e, c, c.args[0], i)
    if c.q[1] == 'at': return out_of_range(e, st, toi(i) < n, lambda s: ret(s, r))
    e.oblige(st, 'index-in-sequence', toi(i) < n, 'safety'); st.assume(toi(i) < n)
    return ret(st, r)
@smodel('front', 'back')
def _(e, st, c):
    n = toi(vlen(e, st, c.args[0])); e.oblige(st, c.q[1] + ' of non-empty', n > 0, 'safety'); st.assume(n > 0)
    return ret(st, elem(e, c, c.args[0], 0 if c.q[1] == 'front' else simp(n - 1)))
@smodel('push_back', 'emplace_back')
def _(e, st, c):
    p = params(c); a = c.args; et = vecT(c); n = vlen(e, st, a[0])
    if len(a) == 2: d = argval(e, st, et, p[0], a[1])
    elif et.name == 'str' and len(a) == 3:
        x, y = a[1], a[2]
        if '__normal_iterator' in p[0]: x, y = e.load(st, ir.PTR, x), e.load(st, ir.PTR, y)
        d = {'str': charrange(e, st, x, y)}
    elif et.name == 'str' and len(a) == 1: d = {'str': z3.StringVal('')}
    else: raise Unsupported('emplace_back ' + c.q[3])
    setel(e, st, et, a[0], n, d); setlen(e, st, a[0], simp(toi(n) + 1))
    if p and '&&' in p[0] and et.name == 'str' and c.q[1] == 'push_back' and isinstance(a[1], Ptr): e.wrstr(st, a[1], fresh('moved', S_SORT))
    return ret(st, elem(e, c, a[0], n) if c.rty.k == 'ptr' else None)
@smodel('resize')
def _(e, st, c):
    a = c.args; et = vecT(c); n0 = toi(vlen(e, st, a[0])); n = toi(uz(a[1]))
    v = argval(e, st, et, params(c)[1], a[2]) if len(a) > 2 else None
    for nm, so in et.comps:
        asr = z3.ArraySort(I_SORT, so); old = e.rd(st, a[0], 'e.' + nm, asr); d = v[nm] if v else zero(so)
        if z3.is_const_array(old) and not v: continue
        if simp(n0) == 0: new = z3.K(I_SORT, d)
        else:
            i = z3.Int('bound!i'); new = fresh('resized', asr)
            st.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(n0 <= i, i < n), d, z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        e.wr(st, a[0], 'e.' + nm, asr, new)
    setlen(e, st, a[0], simp(n)); return ret(st)
@smodel('pop_back')
def _(e, st, c):
    n = toi(vlen(e, st, c.args[0])); e.oblige(st, 'pop_back of non-empty', n > 0, 'safety'); st.assume(n > 0)
    setlen(e, st, c.args[0], simp(n - 1)); return ret(st)
def shift(e, st, et, p, at, cnt_new, newel):
    """fresh contents after inserting newel at index `at` / removing (cnt_new=-1)"""
    for nm, so in et.comps:
        asr = z3.ArraySort(I_SORT, so)
        old = e.rd(st, p, 'e.' + nm, asr); i = z3.Int('bound!i')
        if cnt_new == 1: new = z3.Lambda([i], z3.If(i < at, z3.Select(old, i), z3.If(i == at, newel[nm], z3.Select(old, i - 1))))
        else: new = z3.Lambda([i], z3.If(i < at, z3.Select(old, i), z3.Select(old, i + 1)))
        e.wr(st, p, 'e.' + nm, asr, new)
@smodel('pop_front')
def _(e, st, c):
    n = toi(vlen(e, st, c.args[0])); e.oblige(st, 'pop_front of non-empty', n > 0, 'safety'); st.assume(n > 0)
    shift(e, st, vecT(c), c.args[0], z3.IntVal(0), -1, None); setlen(e, st, c.args[0], simp(n - 1)); return ret(st)
@smodel('push_front', 'emplace_front')
def _(e, st, c):
    p = params(c); et = vecT(c); n = toi(vlen(e, st, c.args[0]))
    shift(e, st, et, c.args[0], z3.IntVal(0), 1, argval(e, st, et, p[0], c.args[1])); setlen(e, st, c.args[0], simp(n + 1)); return ret(st)
@smodel('erase')
def _(e, st, c):
    a = c.args; et = vecT(c); v = a[0]; it = a[1]
    if len(a) > 2:
        it2 = a[2]
        if it.b.kind == 'loc': it = e.load(st, ir.PTR, it)
        if it2.b.kind == 'loc': it2 = e.load(st, ir.PTR, it2)
        if any(x.b.kind not in ('elem', 'lit') or x.b.c.key() != v.key() for x in (it, it2)): raise Unsupported('erase at foreign iterator')
        n = toi(vlen(e, st, v)); i, j = toi(it.b.idx), toi(it2.b.idx)
        e.oblige(st, 'erase a valid range', z3.And(0 <= i, i <= j, j <= n), 'safety')
        if e.sure(st, j == n): setlen(e, st, v, simp(i)); return ret(st, it)
        q = z3.Int('bound!i')
        for nm, so in et.comps:
            asr = z3.ArraySort(I_SORT, so); old = e.rd(st, v, 'e.' + nm, asr)
            e.wr(st, v, 'e.' + nm, asr, z3.Lambda([q], z3.If(q < i, z3.Select(old, q), z3.Select(old, q + (j - i)))))
        setlen(e, st, v, simp(n - (j - i))); return ret(st, it)
    if it.b.kind == 'loc': it = e.load(st, ir.PTR, it)
    if it.b.kind not in ('elem', 'lit') or it.b.c.key() != v.key(): raise Unsupported('erase at foreign iterator')
    n = toi(vlen(e, st, v)); i = toi(it.b.idx)
    e.oblige(st, 'erase a valid position', z3.And(0 <= i, i < n), 'safety')
    shift(e, st, et, v, i, -1, None); setlen(e, st, v, simp(n - 1))
    return ret(st, it)
@smodel('insert', 'emplace')
def _(e, st, c):
    p = params(c); a = c.args; et = vecT(c); v = a[0]; it = a[1]
    if it.b.kind == 'loc': it = e.load(st, ir.PTR, it)
    if len(p) == 3 and it.b.kind in ('elem', 'lit') and it.b.c.key() == v.key() and isinstance(a[2], Ptr):
        n = toi(vlen(e, st, v)); i = toi(it.b.idx); r = itrange(e, st, et, a[2], a[3])
        if r is None: raise Unsupported('insert ' + c.q[3])
        e.oblige(st, 'insert at a valid position', z3.And(0 <= i, i <= n), 'safety')
        splice(e, st, et, v, i, n, *r); return ret(st, it)
    if len(p) != 2 or it.b.kind not in ('elem', 'lit') or it.b.c.key() != v.key(): raise Unsupported('insert ' + c.q[3])
    n = toi(vlen(e, st, v)); i = toi(it.b.idx)
    e.oblige(st, 'insert at a valid position', z3.And(0 <= i, i <= n), 'safety')
    shift(e, st, et, v, i, 1, argval(e, st, et, p[1], a[2])); setlen(e, st, v, simp(n + 1))
    return ret(st, it)
# list iterators
LI = ('std::_List_iterator', 'std::_List_const_iterator')
@smodel('operator*', 'operator->', cl=LI)
def _(e, st, c):
    it = e.load(st, ir.PTR, c.args[0])
    if it.b.kind != 'lit': raise Unsupported('list iterator %r' % it)
    n = toi(vlen(e, st, it.b.c)); i = toi(it.b.idx)
    e.oblige(st, 'iterator dereferenced in range', z3.And(0 <= i, i < n), 'safety'); st.assume(z3.And(0 <= i, i < n))
    if it.b.et.name == 'obj':
        et = it.b.et
        return ret(st, e.ptr_of(st, simp(e.rd(st, Ptr(Elem(it.b.c, it.b.idx, et)), 'ptr', I_SORT))))
    return ret(st, Ptr(Elem(it.b.c, it.b.idx, it.b.et, esize(it.b.et))))
def step(e, st, c, d, post):
    a = c.args[0]; it = e.load(st, ir.PTR, a)
    nb = LIt(it.b.c, simp(toi(it.b.idx) + d), it.b.et)
    e.store(st, ir.PTR, Ptr(nb), a)
    return ret(st, it if post else a)
@smodel('operator++', cl=LI)
def _(e, st, c): return step(e, st, c, 1, len(c.args) > 1)
@smodel('operator--', cl=LI)
def _(e, st, c): return step(e, st, c, -1, len(c.args) > 1)
@smodel('_List_iterator', '_List_const_iterator', cl=LI)
def _(e, st, c):
    v = c.args[1]
    e.store(st, ir.PTR, e.load(st, ir.PTR, v) if v.b.kind == 'loc' else v, c.args[0]); return ret(st)
# ------------------------------------------------------------------ shared_ptr (one pointer cell; the count is not modelled, objects are never reused)
SP = ('std::shared_ptr', 'std::__shared_ptr')
@smodel('shared_ptr', '__shared_ptr', cl=SP)
def _(e, st, c):
    p = params(c); a = c.args
    if len(a) == 1 or 'nullptr_t' in p[0]: e.store(st, ir.PTR, NULL, a[0])
    elif len(a) == 2 and re.match(r'std::(__)?shared_ptr<', p[0]):
        e.store(st, ir.PTR, e.load(st, ir.PTR, a[1]), a[0])
        if '&&' in p[0]: e.store(st, ir.PTR, NULL, a[1])
    else: return None
    return ret(st)
@smodel('operator=', cl=SP)
def _(e, st, c):
    p = params(c); a = c.args; v = e.load(st, ir.PTR, a[1])
    if '&&' in p[0]: e.store(st, ir.PTR, NULL, a[1])
    e.store(st, ir.PTR, v, a[0]); return ret(st, a[0])
@smodel('get', 'operator->', 'operator*', '_M_get', cl=SP + ('std::__shared_ptr_access',))
def _(e, st, c):
    v = e.load(st, ir.PTR, c.args[0])
    if c.q[1] == 'operator*' and v.b.kind == 'ref' and not isinstance(v.b.t, int): e.nonnull(st, v.b.t)
    return ret(st, v)
@smodel('operator bool', cl=SP)
def _(e, st, c): return ret(st, simp(NOT(e.ptreq(st, e.load(st, ir.PTR, c.args[0]), NULL))))
@smodel('reset', cl=SP)
def _(e, st, c):
    if len(c.args) != 1: return None
    e.store(st, ir.PTR, NULL, c.args[0]); return ret(st)
@smodel('swap', cl=SP)
def _(e, st, c):
    a, b = c.args; x, y = e.load(st, ir.PTR, a), e.load(st, ir.PTR, b); e.store(st, ir.PTR, y, a); e.store(st, ir.PTR, x, b); return ret(st)
@model(('std', 'make_shared'))
def _(e, st, c):
    import vexec
    ta = c.q[4]; d = e.alloc(st, 'made'); ctor = None
    for n in e.m.findre(r'std::_Construct<'):
        q = vexec.demparse(e.m.dem(n))
        if q[1] == '_Construct' and q[4] == ta: ctor = n
    if ctor is None: raise Unsupported('no constructor for ' + c.dem)
    outs = []
    for s2, o in e.run(st, ctor, [d] + c.args[1:], c.depth + 1):
        if o[0] == 'ret': e.store(s2, ir.PTR, d, c.args[0]); outs.append((s2, ('ret', None)))
        else: outs.append((s2, o))
    return outs
# ------------------------------------------------------------------ optional (a flag cell and the value's cells)
OPT = ('std::optional',)
def optset(e, st, p, b): e.wr(st, p, 'opt', B_SORT, tob(b))
@smodel('optional', cl=OPT)
def _(e, st, c):
    p = params(c); a = c.args; et = celltype(c.q[2][0])
    if len(a) == 1 or 'nullopt_t' in p[0]: optset(e, st, a[0], False); return ret(st)
    if re.match(r'std::optional<', p[0]):
        optset(e, st, a[0], e.rd(st, a[1], 'opt', B_SORT)); e.write(st, a[0], et, e.read(st, a[1], et)); return ret(st)
    if len(a) == 2:
        optset(e, st, a[0], True); e.write(st, a[0], et, argval(e, st, et, p[0], a[1])); return ret(st)
    return None
@smodel('emplace', cl=OPT)
def _(e, st, c):
    et = celltype(c.q[2][0]); a = c.args
    if len(a) != 2: return None
    optset(e, st, a[0], True); e.write(st, a[0], et, argval(e, st, et, params(c)[0], a[1])); return ret(st, a[0])
@smodel('operator=', cl=OPT)
def _(e, st, c):
    et = celltype(c.q[2][0]); a = c.args; p = params(c)
    if 'nullopt_t' in p[0]: optset(e, st, a[0], False)
    elif re.match(r'std::optional<', p[0]): optset(e, st, a[0], e.rd(st, a[1], 'opt', B_SORT)); e.write(st, a[0], et, e.read(st, a[1], et))
    else: optset(e, st, a[0], True); e.write(st, a[0], et, argval(e, st, et, p[0], a[1]))
    return ret(st, a[0])
@smodel('reset', cl=OPT)
def _(e, st, c): optset(e, st, c.args[0], False); return ret(st)
@smodel('has_value', 'operator bool', cl=OPT)
def _(e, st, c): return ret(st, simp(e.rd(st, c.args[0], 'opt', B_SORT)))
@smodel('operator*', 'operator->', 'value', cl=OPT)
def _(e, st, c):
    b = e.rd(st, c.args[0], 'opt', B_SORT)
    if c.q[1] == 'value':
        outs = []; s1 = st.copy(); s1.assume(tob(b)); s2 = st.copy(); s2.assume(z3.Not(tob(b)))
        if e.feasible(s1): outs += ret(s1, c.args[0])
        if e.feasible(s2): outs.append(e.throw(s2, 'std::bad_optional_access', e.alloc(s2)))
        return outs
    e.oblige(st, 'value of an optional that has one', b, 'safety'); st.assume(tob(b)); return ret(st, c.args[0])
@smodel('~optional', cl=OPT)
def _(e, st, c): return ret(st)
# ------------------------------------------------------------------ locks: the ghost 'held' lists the mutexes this thread holds; acquiring one lets the other threads change what it guards
def held(e, st): return e.gget(st, 'held', ())
def acquire(e, st, m):
    k = m.key()
    e.oblige(st, 'locking a mutex this thread does not hold', k not in held(e, st), 'lock')
    e.gset(st, 'held', held(e, st) + (k,))
    if getattr(e, 'on_acquire', None): e.on_acquire(st, m)
def release(e, st, m):
    k = m.key(); e.oblige(st, 'unlocking a mutex this thread holds', k in held(e, st), 'lock')
    e.gset(st, 'held', tuple(x for x in held(e, st) if x != k))
@smodel('lock', cl=('std::mutex', 'std::recursive_mutex', 'std::timed_mutex'))
def _(e, st, c): acquire(e, st, c.args[0]); return ret(st)
@smodel('unlock', cl=('std::mutex', 'std::recursive_mutex', 'std::timed_mutex'))
def _(e, st, c): release(e, st, c.args[0]); return ret(st)
@smodel('mutex', '~mutex', cl=('std::mutex',))
def _(e, st, c): return ret(st)
@smodel('condition_variable', '~condition_variable', cl=('std::condition_variable',))
def _(e, st, c): return ret(st)
@smodel('notify_one', 'notify_all', cl=('std::condition_variable',))
def _(e, st, c):
    e.gset(st, 'notified', max(e.gget(st, 'notified', 0), 2 if c.q[1] == 'notify_all' else 1)); return ret(st)
@model(('std::this_thread', 'yield'))
def _(e, st, c): return ret(st)
@smodel('_M_device', cl=('std::unique_lock',))
def _(e, st, c): return None
@smodel('operator()', 'xlog', cl=('cmdr::log::holder',))
def _(e, st, c): return ret(st)      # trace output only
# ------------------------------------------------------------------ weak_ptr (whether the object is still alive is an arbitrary but fixed fact of the object)
ALIVE = z3.Function('alive', I_SORT, B_SORT)
WKP = ('std::weak_ptr', 'std::__weak_ptr')
@smodel('weak_ptr', '__weak_ptr', cl=WKP)
def _(e, st, c):
    p = params(c); a = c.args
    if len(a) == 1: e.store(st, ir.PTR, NULL, a[0])
    else:
        e.store(st, ir.PTR, e.load(st, ir.PTR, a[1]), a[0])
        if '&&' in p[0]: e.store(st, ir.PTR, NULL, a[1])
    return ret(st)
@smodel('operator=', cl=WKP)
def _(e, st, c):
    e.store(st, ir.PTR, e.load(st, ir.PTR, c.args[1]), c.args[0])
    if '&&' in params(c)[0] and c.args[0].key() != c.args[1].key(): e.store(st, ir.PTR, NULL, c.args[1])
    return ret(st, c.args[0])
@smodel('lock', cl=WKP)
def _(e, st, c):
    v = e.load(st, ir.PTR, c.args[1]); r = toi(e.as_ref(v)); live = z3.And(r != 0, ALIVE(r)); outs = []
    for cond, x in ((live, v), (z3.Not(live), NULL)):
        s2 = st.copy(); s2.assume(cond)
        if e.feasible(s2): e.store(s2, ir.PTR, x, c.args[0]); outs.append((s2, ('ret', None)))
    return outs
@smodel('expired', cl=WKP)
def _(e, st, c):
    r = toi(e.as_ref(e.load(st, ir.PTR, c.args[0]))); return ret(st, z3.Not(z3.And(r != 0, ALIVE(r))))
@smodel('swap', cl=('std::vector', 'std::list', 'std::deque'))
def _(e, st, c):
    t = TVEC(vecT(c)); a, b = c.args; x, y = e.read(st, a, t), e.read(st, b, t); e.write(st, a, t, y); e.write(st, b, t, x); return ret(st)

def lambda_param(c):
    """demangled name of the lambda type a call is instantiated with"""
    for a in reversed(c.q[4]):
        if '{lambda' in a: return a
    return None
# ------------------------------------------------------------------ maps: a key set ('dom') and a value per key; iteration follows an arbitrary fixed enumeration of the key set
MAPS = ('std::unordered_map', 'std::map')
def mapT(c): return TMAP(celltype(c.q[2][0]), celltype(c.q[2][1]))
def voff(mt): return {'str': 32, 'i32': 8, 'ptr': 8, 'i64': 8, 'i8': 8}.get(mt.key.name, 32)
def mdom(e, st, m, mt): return e.rd(st, m, 'dom', z3.ArraySort(mt.key.comps[0][1], B_SORT))
def mset_dom(e, st, m, mt, d): e.wr(st, m, 'dom', z3.ArraySort(mt.key.comps[0][1], B_SORT), d)
def mkey(e, st, mt, pt, v): return argval(e, st, mt.key, pt, v)[mt.key.comps[0][0]]
def mnode(m, mt, k, off=0): return Ptr(MNode(m, k, mt, voff(mt)), off)
def mput(e, st, m, mt, k, d, overwrite=False):
    """store value d under k (only if absent unless overwrite); -> condition 'was absent'"""
    dom = mdom(e, st, m, mt); had = simp(z3.Select(dom, k))
    for n, so in mt.val.comps:
        asr = z3.ArraySort(k.sort(), so); old = e.rd(st, m, 'v.' + n, asr)
        v = d[n]; v = toi(v) if isinstance(v, int) and not isinstance(v, bool) else v
        e.wr(st, m, 'v.' + n, asr, z3.Store(old, k, v if overwrite else (z3.If(had, z3.Select(old, k), v) if isinstance(had, z3.ExprRef) else (z3.Select(old, k) if had else v))))
    mset_dom(e, st, m, mt, z3.Store(dom, k, True)); return simp(NOT(had))
def menum(e, st, m, mt):
    """the enumeration of the key set of map m"""
    dom = mdom(e, st, m, mt); ks = mt.key.comps[0][1]; cache = e.__dict__.setdefault('enums', {}); q = dom.get_id()
    if q not in cache:
        nm = mt.key.name
        N = z3.Function('msize_' + nm, dom.sort(), I_SORT); K = z3.Function('mkeys_' + nm, dom.sort(), z3.ArraySort(I_SORT, ks)); P = z3.Function('mpos_' + nm, dom.sort(), ks, I_SORT)
        i = z3.Int('bound!i'); k = z3.Const('mk_' + nm, ks); n, keys = N(dom), K(dom)
        ax = [z3.And(n >= 0, n <= MAXLEN),
              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, z3.Select(keys, i)), P(dom, z3.Select(keys, i)) == i)), patterns=[z3.Select(keys, i)]),
              z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(P(dom, k) >= 0, P(dom, k) < n, z3.Select(keys, P(dom, k)) == k)), patterns=[z3.Select(dom, k)])]
        if z3.is_const_array(dom) and z3.is_false(dom.arg(0)): ax.append(n == 0)
        cache[q] = dict(id=q, n=n, keys=keys, dom=dom, pos=P, ax=ax)
    en = cache[q]
    if not e.gget(st, 'enum%d' % q): 
        for a in en['ax']: st.assume(a)
        st.ghost[('g', 'enum%d' % q)] = 1
    return en
@smodel('unordered_map', 'map', cl=MAPS)
def _(e, st, c):
    p = params(c); a = c.args; mt = mapT(c)
    if len(a) == 1 or not p or re.match(r'std::(allocator|less|hash)', p[0]):
        mset_dom(e, st, a[0], mt, z3.K(mt.key.comps[0][1], z3.BoolVal(False)))
        for n, so in mt.val.comps: asr = z3.ArraySort(mt.key.comps[0][1], so); e.wr(st, a[0], 'v.' + n, asr, zero(asr))
        return ret(st)
    if p[0].startswith('std::initializer_list<') and isinstance(a[2], I) and a[2].u() == 1:
        ks = mt.key.comps[0][1]; k = e.rd(st, a[1], *mt.key.comps[0]); d = e.read(st, Ptr(a[1].b, a[1].off + voff(mt)), mt.val)
        mset_dom(e, st, a[0], mt, z3.Store(z3.K(ks, z3.BoolVal(False)), k, True))
        for n, so in mt.val.comps: asr = z3.ArraySort(ks, so); e.wr(st, a[0], 'v.' + n, asr, z3.Store(zero(asr), k, d[n]))
        return ret(st)
    if re.match(r'std::(unordered_map|map)<', p[0]):
        e.write(st, a[0], mt, e.read(st, a[1], mt))
        if '&&' in p[0]: mset_dom(e, st, a[1], mt, z3.K(mt.key.comps[0][1], z3.BoolVal(False)))
        return ret(st)
    return None
@smodel('operator=', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); a = c.args
    if not re.match(r'std::(unordered_map|map)<', params(c)[0]): return None
    e.write(st, a[0], mt, e.read(st, a[1], mt))
    if '&&' in c.q[3] and a[0].key() != a[1].key(): mset_dom(e, st, a[1], mt, z3.K(mt.key.comps[0][1], z3.BoolVal(False)))
    return ret(st, a[0])
@smodel('clear', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); mset_dom(e, st, c.args[0], mt, z3.K(mt.key.comps[0][1], z3.BoolVal(False))); return ret(st)
@smodel('size', cl=MAPS)
def _(e, st, c): return ret(st, sizeI(st, menum(e, st, c.args[0], mapT(c))['n']))
@smodel('empty', cl=MAPS)
def _(e, st, c): return ret(st, simp(toi(menum(e, st, c.args[0], mapT(c))['n']) == 0))
@smodel('begin', 'cbegin', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); return ret(st, Ptr(MIt(c.args[0], mt, menum(e, st, c.args[0], mt), 0)))
@smodel('end', 'cend', cl=MAPS)
def _(e, st, c): mt = mapT(c); return ret(st, Ptr(MEnd(c.args[0], mt)))
def maplook(e, st, m, mt, k, found, none):
    had = simp(z3.Select(mdom(e, st, m, mt), k)); outs = []
    for cond, f in ((had, found), (simp(NOT(had)), none)):
        s2 = st.copy(); s2.assume(tob(cond))
        if e.feasible(s2): outs += f(s2)
    return outs
@smodel('find', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); m = c.args[0]; k = mkey(e, st, mt, params(c)[0], c.args[1])
    return maplook(e, st, m, mt, k, lambda s: ret(s, mnode(m, mt, k)), lambda s: ret(s, Ptr(MEnd(m, mt))))
@smodel('count', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); k = mkey(e, st, mt, params(c)[0], c.args[1]); return ret(st, I(ITE(simp(z3.Select(mdom(e, st, c.args[0], mt), k)), z3.IntVal(1), z3.IntVal(0)), 64, 0, 1))
@smodel('contains', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); k = mkey(e, st, mt, params(c)[0], c.args[1]); return ret(st, simp(z3.Select(mdom(e, st, c.args[0], mt), k)))
@smodel('at', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); m = c.args[0]; k = mkey(e, st, mt, params(c)[0], c.args[1])
    return maplook(e, st, m, mt, k, lambda s: ret(s, mnode(m, mt, k, voff(mt))), lambda s: [e.throw(s, 'std::out_of_range', e.alloc(s))])
@smodel('operator[]', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); m = c.args[0]; k = mkey(e, st, mt, params(c)[0], c.args[1])
    mput(e, st, m, mt, k, {n: zero(so) for n, so in mt.val.comps}); return ret(st, mnode(m, mt, k, voff(mt)))
@smodel('insert', 'emplace', 'try_emplace', 'insert_or_assign', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); m = c.args[0]; a = c.args[1:]; p = params(c)
    if len(a) == 1 and 'std::pair<' in p[0]:
        if mt.key.name == 'str' and re.match(r'std::pair<(const )?char( const)?\s*\*', p[0]): k = e.ctext(st, e.load(st, ir.PTR, a[0])); d = e.read(st, Ptr(a[0].b, a[0].off + 8), mt.val)
        else: k = e.rd(st, a[0], *mt.key.comps[0]); d = e.read(st, Ptr(a[0].b, a[0].off + voff(mt)), mt.val)
        if isinstance(k, I): k = toi(k.canon())
        for n in d:
            if isinstance(d[n], I): d[n] = toi(d[n].canon())
            if isinstance(d[n], Ptr): d[n] = e.as_ref(d[n])
    elif len(a) == 2:
        k = mkey(e, st, mt, p[0], a[0]); d = argval(e, st, mt.val, p[1], a[1])
    else: return None
    new = mput(e, st, m, mt, k, d, c.q[1] == 'insert_or_assign')
    r = (mnode(m, mt, k), I(ITE(new, z3.IntVal(1), z3.IntVal(0)), 8, 0, 1))
    if c.rty.k == 'void': e.store(st, ir.PTR, r[0], c.args[0]); return None
    return ret(st, r)
@smodel('erase', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); m = c.args[0]; p = params(c); x = c.args[1]
    if 'iterator' in p[0]:
        if x.b.kind == 'loc': x = e.load(st, ir.PTR, x)
        if x.b.kind != 'mnode': return None
        mset_dom(e, st, m, mt, z3.Store(mdom(e, st, m, mt), x.b.k, False)); return None if c.rty.k != 'void' else ret(st)
    k = mkey(e, st, mt, p[0], x); d = mdom(e, st, m, mt); had = simp(z3.Select(d, k)); mset_dom(e, st, m, mt, z3.Store(d, k, False))
    return ret(st, I(ITE(had, z3.IntVal(1), z3.IntVal(0)), 64, 0, 1))
@smodel('swap', cl=MAPS)
def _(e, st, c):
    mt = mapT(c); a, b = c.args; x, y = e.read(st, a, mt), e.read(st, b, mt); e.write(st, a, mt, y); e.write(st, b, mt, x); return ret(st)
MI = ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator')
@smodel('operator*', 'operator->', cl=MI)
def _(e, st, c):
    it = e.load(st, ir.PTR, c.args[0]); b = it.b
    if b.kind == 'mnode': return ret(st, it)
    if b.kind == 'mend': e.oblige(st, 'end iterator dereferenced', False, 'safety'); st.assume(z3.BoolVal(False)); raise PathEnd()
    if b.kind != 'mit': raise Unsupported('map iterator %r' % it)
    i, n = toi(b.idx), toi(b.en['n'])
    e.oblige(st, 'iterator dereferenced in range', z3.And(0 <= i, i < n), 'safety'); st.assume(z3.And(0 <= i, i < n))
    return ret(st, mnode(b.c, b.mt, z3.Select(b.en['keys'], i)))
@smodel('operator++', cl=MI)
def _(e, st, c):
    a = c.args[0]; it = e.load(st, ir.PTR, a); b = it.b
    if b.kind != 'mit': raise Unsupported('increment of a found position')
    e.store(st, ir.PTR, Ptr(MIt(b.c, b.mt, b.en, simp(toi(b.idx) + 1))), a); return ret(st, it if len(c.args) > 1 else a)
@smodel('_Node_iterator', '_Node_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', cl=MI)
def _(e, st, c):
    v = c.args[1]; e.store(st, ir.PTR, e.load(st, ir.PTR, v) if v.b.kind == 'loc' else v, c.args[0]); return ret(st)
@model(('std::__detail', 'operator=='), ('std::__detail', 'operator!='))
def _(e, st, c): return nodecmp(e, st, c)
# ------------------------------------------------------------------ exception_ptr: the identity of the exception it holds
def exc_ref(e, st, x):
    r = toi(e.as_ref(x.ptr)) if x.ptr is not None and isinstance(x.ptr, Ptr) and x.ptr.b.kind == 'ref' and not isinstance(x.ptr.b.t, int) else toi(e.as_ref(e.alloc(st, 'exception')))
    e.__dict__.setdefault('excs', {})[r.get_id()] = x; st.assume(r != 0); return Ptr(Ref(r))
@model(('std', 'current_exception'))
def _(e, st, c):
    x = st.caught[-1] if st.caught else None
    e.store(st, ir.PTR, NULL if x is None else exc_ref(e, st, x), c.args[0]); return ret(st)
XP = ('std::__exception_ptr::exception_ptr',)
@smodel('exception_ptr', cl=XP)
def _(e, st, c):
    p = params(c); a = c.args
    if len(a) == 1 or 'nullptr_t' in p[0]: e.store(st, ir.PTR, NULL, a[0])
    else:
        e.store(st, ir.PTR, e.load(st, ir.PTR, a[1]), a[0])
        if '&&' in p[0]: e.store(st, ir.PTR, NULL, a[1])
    return ret(st)
@smodel('operator=', cl=XP)
def _(e, st, c):
    v = e.load(st, ir.PTR, c.args[1]); e.store(st, ir.PTR, v, c.args[0])
    if '&&' in params(c)[0] and c.args[0].key() != c.args[1].key(): e.store(st, ir.PTR, NULL, c.args[1])
    return ret(st, c.args[0])
@smodel('operator bool', cl=XP)
def _(e, st, c): return ret(st, simp(NOT(e.ptreq(st, e.load(st, ir.PTR, c.args[0]), NULL))))
@smodel('~exception_ptr', '_M_release', '_M_addref', cl=XP)
def _(e, st, c): return ret(st)
@smodel('swap', cl=XP)
def _(e, st, c):
    a, b = c.args; x, y = e.load(st, ir.PTR, a), e.load(st, ir.PTR, b); e.store(st, ir.PTR, y, a); e.store(st, ir.PTR, x, b); return ret(st)
@model(('std', 'rethrow_exception'))
def _(e, st, c):
    v = e.load(st, ir.PTR, c.args[0]); e.oblige(st, 'rethrow of an exception', simp(NOT(e.ptreq(st, v, NULL))), 'safety')
    x = e.__dict__.get('excs', {}).get(v.b.t.get_id()) if v.b.kind == 'ref' and isinstance(v.b.t, z3.ExprRef) else None
    if x is None: raise Unsupported('rethrow of an unknown exception')
    return [(st, ('exc', x))]
@model(('std::__exception_ptr', 'operator=='), ('std::__exception_ptr', 'operator!='))
def _(e, st, c):
    v = [e.load(st, ir.PTR, x) if isinstance(x, Ptr) and x.b.kind == 'loc' else NULL for x in c.args[:2]]; r = e.ptreq(st, *v); return ret(st, r if c.q[1] == 'operator==' else simp(NOT(r)))

@model(('std', 'reverse'))
def _(e, st, c):
    x, y = seqit(e, st, c.args[0]), seqit(e, st, c.args[1])
    if x is None or y is None or x.b.c.key() != y.b.c.key(): raise Unsupported('reverse ' + c.q[3])
    et = x.b.et; src, lo, n = itrange(e, st, et, x, y); i = z3.Int('bound!i')
    for nm, so in et.comps:
        asr = z3.ArraySort(I_SORT, so); new = fresh('reversed', asr); o = src[nm]
        st.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(lo <= i, i < lo + toi(n)), z3.Select(o, lo + lo + toi(n) - 1 - i), z3.Select(o, i)), patterns=[z3.Select(new, i)])); e.wr(st, x.b.c, 'e.' + nm, asr, new)
    return ret(st)
