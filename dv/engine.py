"""VC generator: path-wise symbolic execution of LLVM IR, loops cut by inductive invariants."""
import re, time, itertools
import z3
import ir
from ir import IRError

z3.set_param('memory_max_size', 2500)
I_SORT, S_SORT, B_SORT = z3.IntSort(), z3.StringSort(), z3.BoolSort()
R_SORT = z3.RealSort()

class Unsupported(Exception):
    """the function (as it is now) is outside the verifier's reach"""

class Budget(Unsupported):
    pass

class PathEnd(Exception):
    """this path stops here (undefined behaviour already reported, or unreachable)"""

_cnt = itertools.count()
def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)

def isconc(x): return isinstance(x, (int, bool)) and not isinstance(x, z3.ExprRef)

def AND(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs) if x is not True]
    if any(x is False for x in xs): return False
    if not xs: return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)
def OR(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs) if x is not False]
    if any(x is True for x in xs): return True
    if not xs: return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)
def NOT(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def ITE(c, a, b):
    if c is True: return a
    if c is False: return b
    if isconc(a) and isconc(b) and a == b: return a
    return z3.If(c, a, b)
def tob(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def toi(x): return z3.IntVal(x) if isinstance(x, int) else x
def IMP(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(tob(a), tob(b))
def EQ(a, b):
    if isconc(a) and isconc(b): return a == b
    if not isconc(a) and not isconc(b) and a.eq(b): return True
    return a == b
def simp(t):
    if isinstance(t, z3.ExprRef):
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    return t
def decode_z3str(t):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())
def strval(s):
    """python text -> z3 string constant"""
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))

CODE = z3.Function('code_at', S_SORT, I_SORT, I_SORT)     # code of the character at a position of a text
def incodes(c, codes):
    """c is one of the codes; codes: a list of codes, or ('eq', term) / ('ne', term)"""
    if isinstance(codes, tuple) and codes and codes[0] in ('eq', 'ne'): return (toi(c) == codes[1]) if codes[0] == 'eq' else (toi(c) != codes[1])
    codes = sorted(codes); rs = []; i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1: j += 1
        rs.append(c == codes[i] if i == j else z3.And(c >= codes[i], c <= codes[j])); i = j + 1
    return z3.Or(rs) if rs else z3.BoolVal(False)
class I:
    """machine integer of width w: any mathematical integer `t` (known in [lo,hi]) congruent to it mod 2^w"""
    __slots__ = ('t', 'w', 'lo', 'hi')
    def __init__(s, t, w, lo=None, hi=None):
        if isinstance(t, bool): t = int(t)
        if isinstance(t, int): lo = hi = t
        s.t, s.w = t, w
        s.lo = 0 if lo is None else lo
        s.hi = (1 << w) - 1 if hi is None else hi
    def __repr__(s): return 'I%d(%s)' % (s.w, s.t)
    def u(s):
        M = 1 << s.w
        if s.lo >= 0 and s.hi < M: return s.t
        if isinstance(s.t, int): return s.t % M
        if s.lo >= -M and s.hi < M:
            return z3.If(s.t < 0, s.t + M, s.t)
        if s.lo >= 0 and s.hi < 2 * M:
            return z3.If(s.t >= M, s.t - M, s.t)
        return s.t % M
    def s(s_):
        s = s_; H = 1 << (s.w - 1)
        if s.lo >= -H and s.hi < H: return s.t
        if isinstance(s.t, int): return (s.t + H) % (2 * H) - H
        if s.lo >= 0 and s.hi < 2 * H:
            return z3.If(s.t >= H, s.t - 2 * H, s.t)
        return (s.t + H) % (2 * H) - H
    def U(s):
        t = s.u(); return s if t is s.t else I(t, s.w)
    def S(s):
        t = s.s(); H = 1 << (s.w - 1)
        return s if t is s.t else I(t, s.w, -H, H - 1)
    def canon(s):
        """canonical stored form: i32/i16 signed, others unsigned"""
        return s.s() if s.w in (16, 32) else s.u()

def canon_range(w):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if w in (16, 32) else (0, (1 << w) - 1)

# ------------------------------------------------------------------ cell types
class T:
    """abstract type stored at a location, as named components with z3 sorts"""
    def __init__(s, name, comps): s.name, s.comps = name, comps
    def __repr__(s): return s.name
_TI = {w: T('i%d' % w, [('i%d' % w, I_SORT)]) for w in (1, 8, 16, 32, 64, 128)}
TPTR = T('ptr', [('ptr', I_SORT)])
TDBL = T('double', [('double', R_SORT)])
TSTR = T('str', [('str', S_SORT)])
TOBJ = T('obj', [('ptr', I_SORT)])   # by-value class element: identified by its address
TSS = T('sstream', [('ss', S_SORT), ('sspos', I_SORT)])
_vec, _map = {}, {}
def TVEC(e):
    if e.name not in _vec:
        _vec[e.name] = T('vec:' + e.name, [('len', I_SORT)] + [('e.' + n, z3.ArraySort(I_SORT, s)) for n, s in e.comps])
        _vec[e.name].elem = e
    return _vec[e.name]
def TMAP(k, v):
    key = k.name + ',' + v.name
    if key not in _map:
        ks = k.comps[0][1]
        _map[key] = T('map:' + key, [('dom', z3.ArraySort(ks, B_SORT))] + [('v.' + n, z3.ArraySort(ks, s)) for n, s in v.comps])
        _map[key].key, _map[key].val = k, v
    return _map[key]

def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<({[': d += 1
        if ch in '>)}]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def celltype(s):
    """C++ type text -> T"""
    s = s.strip()
    s = re.sub(r'\s*const$', '', s)
    s = re.sub(r'^const ', '', s)
    if s.endswith('*') or s.endswith('&'): return TPTR
    if s == 'std::string': return TSTR
    m = re.match(r'(std::(?:vector|list|deque|unordered_map|map|set|basic_string|shared_ptr|weak_ptr|function))<(.*)>$', s)
    if m:
        a = split_targs(m.group(2)); c = m.group(1)
        if c in ('std::vector', 'std::list', 'std::deque'): return TVEC(celltype(a[0]))
        if c in ('std::unordered_map', 'std::map'): return TMAP(celltype(a[0]), celltype(a[1]))
        if c == 'std::set': return TMAP(celltype(a[0]), _TI[8])
        if c in ('std::shared_ptr', 'std::weak_ptr'): return TPTR
        if c == 'std::function': return TPTR
    if s in ('int', 'unsigned int', 'cmdr::opt::Action'): return _TI[32]
    if s in ('long', 'unsigned long', 'unsigned long long', 'long long', 'std::size_t'): return _TI[64]
    if s in ('bool', 'char', 'unsigned char', 'signed char'): return _TI[8]
    if s in ('short', 'unsigned short'): return _TI[16]
    if s == 'double': return TDBL
    return TOBJ

# ------------------------------------------------------------------ pointers
class Loc:
    kind = 'loc'
    def __init__(s, id, name, ty=None): s.id, s.name, s.ty = id, name, ty
    def key(s): return ('loc', s.id)
    def __repr__(s): return '&%s#%s' % (s.name, s.id)
class Ref:
    kind = 'ref'
    def __init__(s, t): s.t = t
    def key(s): return ('ref', s.t if isinstance(s.t, int) else s.t.get_id())
    def __repr__(s): return '*%s' % s.t
class Fn:
    kind = 'fn'
    def __init__(s, name): s.name = name
    def key(s): return ('fn', s.name)
    def __repr__(s): return 'fn:' + s.name
class Elem:
    """element slot of the vector/list at `c` (Ptr), index idx"""
    kind = 'elem'
    def __init__(s, c, idx, et, size=0): s.c, s.idx, s.et, s.size = c, idx, et, size
    def key(s): return ('elem', s.c.key(), s.idx if isinstance(s.idx, int) else s.idx.get_id())
    def __repr__(s): return '%r[%s]' % (s.c, s.idx)
class MNode:
    """node of the map at `c` with key k"""
    kind = 'mnode'
    def __init__(s, c, k, mt, voff): s.c, s.k, s.mt, s.voff = c, k, mt, voff
    def key(s): return ('mnode', s.c.key(), s.k.get_id())
    def __repr__(s): return '%r{%s}' % (s.c, s.k)
class MIt:
    """iterator over the map at c: enumeration E, index idx"""
    kind = 'mit'
    def __init__(s, c, mt, en, idx): s.c, s.mt, s.en, s.idx = c, mt, en, idx
    def key(s): return ('mit', s.c.key(), s.en['id'], s.idx if isinstance(s.idx, int) else s.idx.get_id())
class MEnd:
    kind = 'mend'
    def __init__(s, c, mt, en=None): s.c, s.mt, s.en = c, mt, en
    def key(s): return ('mend', s.c.key())
class LIt:
    kind = 'lit'
    def __init__(s, c, idx, et): s.c, s.idx, s.et = c, idx, et
    def key(s): return ('lit', s.c.key(), s.idx if isinstance(s.idx, int) else s.idx.get_id())
class StrD:
    """character data of the std::string at c"""
    kind = 'strd'
    def __init__(s, c): s.c = c
    def key(s): return ('strd', s.c.key())
    def __repr__(s): return 'data(%r)' % s.c
class CStr:
    """NUL-terminated constant text"""
    kind = 'cstr'
    def __init__(s, t): s.t = t
    def key(s): return ('cstr', s.t.get_id())
    def __repr__(s): return 'cstr(%s)' % s.t

class Ptr:
    __slots__ = ('b', 'off', 'idx', 'es')
    def __init__(s, b, off=0, idx=0, es=1):
        s.b, s.off, s.idx, s.es = b, off, idx, es
    def key(s): return (s.b.key(), s.off, s.idx if isinstance(s.idx, int) else s.idx.get_id())
    def __repr__(s):
        return '%r+%s%s' % (s.b, s.off, '' if isinstance(s.idx, int) and s.idx == 0 else '[%s*%s]' % (s.idx, s.es))
NULL = Ptr(Ref(0))

class Exc:
    def __init__(s, ty, ptr=None, sub=None): s.ty, s.ptr, s.sub = ty, ptr, sub
    def __repr__(s): return 'Exc(%s)' % s.ty

class State:
    __slots__ = ('mem', 'heap', 'pc', 'ghost', 'log', 'exc', 'caught', 'path')
    def __init__(s):
        s.mem, s.heap, s.pc, s.ghost, s.log, s.exc, s.caught, s.path = {}, {}, [], {}, None, None, [], 0
    def copy(s):
        n = State(); n.mem = dict(s.mem); n.heap = dict(s.heap); n.pc = list(s.pc); n.ghost = dict(s.ghost)
        n.log = s.log; n.exc = s.exc; n.caught = list(s.caught); n.path = s.path
        return n
    def assume(s, f):
        if f is True: return s
        s.pc.append(tob(f)); return s

class Obl:
    def __init__(s, name, status, ms, backend, model=None, kind='post', detail=''):
        s.name, s.status, s.ms, s.backend, s.model, s.kind, s.detail = name, status, ms, backend, model, kind, detail

class LoopState:
    """what a loop-invariant candidate may talk about"""
    def __init__(s, eng, st, env, k, carried, init, fn, header, vals, st0):
        s.e, s.st, s.env, s.k, s.carried, s.init, s.fn, s.header, s.vals, s.st0 = eng, st, env, k, carried, init, fn, header, vals, st0
    def ints(s): return [(n, v, s.init.get(n)) for n, v in s.vals.items() if isinstance(v, I)]
    def strs(s): return [(n, v, s.init.get(n)) for n, v in s.vals.items() if isinstance(v, z3.ExprRef) and v.sort() == S_SORT]
    def terms(s, sort): return [(n, v, s.init.get(n)) for n, v in s.vals.items() if isinstance(v, z3.ExprRef) and v.sort() == sort]
    def ptrs(s): return [(n, v, s.init.get(n)) for n, v in s.vals.items() if isinstance(v, Ptr)]

class Frame:
    def __init__(s, fn, depth): s.fn, s.depth, s.active, s.allocas = fn, depth, {}, {}

class Engine:
    def __init__(s, mod, models, opts=None):
        s.m, s.models = mod, models
        s.contracts = []          # (regex, handler)
        s.obls = []
        s.opts = dict(feas_ms=300, prove_ms=15000, first_ms=3000, cvc5_ms=10000, cand_ms=2500, maxpaths=4000, inline_depth=40, unroll=0, maxtime=400)
        s.opts.update(opts or {})
        s.loopcands = []          # functions LoopState -> [(label, formula)]
        s.measures = []           # functions LoopState -> [int term]
        s.axioms = []             # always assumed (lemmas, function definitions)
        s.gaxioms = []            # ground facts (formula, names of its constants): used where all their constants occur
        s._cn = {}
        s.assumed = set()         # names of trusted models used
        s.inlined = set()
        s.stats = dict(queries=0, ms=0.0, feas=0)
        s.discover = 0
        s.quiet = 0
        s.locid = itertools.count(1)
        s.t0 = time.time()
        s.mapenum = {}
        s.kdefault = {}
        s.unroll_fns = {}
        s.loopinfo = []
        s.check_terminates = False
        s.safety = True
        s.gcells = {}
        s.addr = {}
        s.alsets = {}
        s.tables = []
        s.pairs = {}
    # ------------------------------------------------------------- solver
    def _solver(s, ms):
        sv = z3.Solver(); sv.set('timeout', int(ms)); return sv
    def feasible(s, st, extra=None):
        if s.discover: return True
        s.stats['feas'] += 1
        if time.time() - s.t0 > s.opts['maxtime']: raise Budget('time budget')
        sv = s._solver(s.opts['feas_ms'])
        for f in st.pc:
            if not z3.is_quantifier(f): sv.add(f)
        if extra is not None: sv.add(tob(extra))
        return sv.check() != z3.unsat
    def prove(s, st, goal, ms=None, use_axioms=True):
        """-> ('valid'|'sat'|'unknown', model, ms, backend)"""
        if goal is True: return 'valid', None, 0.0, 'syntactic'
        t = time.time()
        if t - s.t0 > s.opts['maxtime']: raise Budget('time budget')
        ms = ms or s.opts['prove_ms']
        s.stats['queries'] += 1
        sv = s._solver(ms)
        fs = list(st.pc) + (s.axioms if use_axioms else [])
        if use_axioms and s.gaxioms: fs += s.relevant(fs + [tob(goal)])
        for f in fs: sv.add(f)
        sv.add(z3.Not(tob(goal)))
        r = sv.check(); dt = (time.time() - t) * 1000; s.stats['ms'] += dt
        if r == z3.unsat: return 'valid', None, dt, 'z3'
        if r == z3.sat: return 'sat', sv.model(), dt, 'z3'
        return 'unknown', None, dt, 'z3:' + sv.reason_unknown()
    def constnames(s, f):
        k = f.get_id()
        if k in s._cn: return s._cn[k][1]
        seen = set(); todo = [f]; out = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
        s._cn[k] = (f, out); return out
    def relevant(s, fs):
        names = set()
        for f in fs: names |= s.constnames(f)
        return [f for f, cs in s.gaxioms if cs <= names]
    def prove_multi(s, st, goal, ms=None):
        """z3, then z3 with other settings, then cvc5"""
        r = s.prove(st, goal, s.opts['first_ms'])
        if r[0] != 'unknown': return r
        t = time.time()
        fs = list(st.pc) + s.axioms + [z3.Not(tob(goal))]
        if s.gaxioms: fs += s.relevant(fs)
        import solvers
        r2, be = solvers.cvc5_check(fs, s.opts.get('cvc5_ms', 15000))
        dt = (time.time() - t) * 1000; s.stats['ms'] += dt
        if r2 == 'unsat': return 'valid', None, r[2] + dt, be
        if r2 == 'sat': return 'sat', None, r[2] + dt, be
        r3 = s.prove(st, goal, ms or s.opts['prove_ms'])
        return r3[0], r3[1], r3[2] + r[2] + dt, r3[3]
    def ite(s, st, c, a, b):
        """If(c, a, b) with c decided by the path condition when that is easy"""
        c = simp(tob(c))
        if c is True: return a
        if c is False: return b
        if s.discover: return z3.If(c, toi(a) if isinstance(a, int) else a, toi(b) if isinstance(b, int) else b)
        if not s.feasible(st, z3.Not(c)): return a
        if not s.feasible(st, c): return b
        return z3.If(c, toi(a) if isinstance(a, int) else a, toi(b) if isinstance(b, int) else b)
    def oblige(s, st, name, goal, kind='post', detail=''):
        if s.discover or s.quiet: return True
        goal = simp(goal) if isinstance(goal, z3.ExprRef) else goal
        # split conjunctions for smaller queries
        if isinstance(goal, z3.ExprRef) and z3.is_and(goal):
            ok = True
            for g in goal.children(): ok &= s.oblige(st, name, g, kind, detail)
            return ok
        if isinstance(goal, z3.ExprRef) and z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = goal.children()
            if z3.is_and(a) or z3.is_and(b):
                s1, s2 = st.copy(), st.copy(); s1.assume(c); s2.assume(z3.Not(c)); ok = True
                if s.feasible(s1, z3.BoolVal(True)): ok &= s.oblige(s1, name, a, kind, detail)
                if s.feasible(s2, z3.BoolVal(True)): ok &= s.oblige(s2, name, b, kind, detail)
                return ok
        st0 = st
        st, goal = s.normlen(st, goal)
        r = s.prove_multi(st, goal)
        st = st0
        o = Obl(name, r[0], r[2], r[3], r[1], kind, detail)
        if r[0] != 'valid':
            o.st, o.goal = st, goal
        s.obls.append(o)
        return r[0] == 'valid'
    def normlen(s, st, goal):
        """replace the length of a part of a text by the part's length where the part is within bounds"""
        if not isinstance(goal, z3.ExprRef): return st, goal
        def find(f, acc, seen):
            if f.get_id() in seen: return
            seen.add(f.get_id())
            if z3.is_quantifier(f): return
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SEQ_LENGTH and f.arg(0).decl().kind() == z3.Z3_OP_SEQ_EXTRACT: acc[f.get_id()] = f
            for x in f.children(): find(x, acc, seen)
        acc, seen = {}, set()
        find(goal, acc, seen)
        for f in st.pc: find(f, acc, seen)
        subs = []
        for f in acc.values():
            u, a, n = f.arg(0).children()
            if s.ite(st, z3.And(a >= 0, n >= 0, a + n <= z3.Length(u)), True, False) is True: subs.append((f, toi(n)))
        if not subs: return st, goal
        st2 = st.clone() if hasattr(st, 'clone') else st.copy()
        # keep the definitions, then rewrite every use
        for _ in range(3):
            st2.pc = [tob(simp(z3.substitute(f, *subs))) for f in st2.pc]; goal = simp(z3.substitute(tob(goal), *subs))
        return st2, goal
    # ------------------------------------------------------------- locations
    def newloc(s, name, ty=None): return Ptr(Loc(next(s.locid), name, ty))
    def newref(s, name='new'):
        raise Unsupported('use alloc')
    def alloc(s, st, name='new'):
        """fresh allocation: references count downwards from the allocation clock; every reference already
        stored anywhere is >= the clock"""
        c = s.gget(st, 'clk', 0)
        n = simp(toi(c) - 1); s.gset(st, 'clk', n)
        return Ptr(Ref(n))
    def gget(s, st, name, default=None):
        return st.ghost.get(('g', name), default)
    def gset(s, st, name, v):
        st.ghost[('g', name)] = v
        if st.log is not None: st.log.add(('ghost', name))
    def as_ref(s, p):
        """pointer -> stored integer term"""
        if not isinstance(p, Ptr): raise Unsupported('storing %r as pointer' % (p,))
        if p.b.kind == 'ref' and p.off == 0 and isinstance(p.idx, int) and p.idx == 0: return toi(p.b.t)
        if p.b.kind == 'ref' and isinstance(p.idx, int) and p.idx == 0:
            f = z3.Function('subobj', I_SORT, I_SORT, I_SORT)
            return f(toi(p.b.t), z3.IntVal(p.off))
        if p.b.kind == 'cstr' and p.off == 0 and isinstance(p.idx, int) and p.idx == 0:
            # the address of constant text: remembered through the text function
            r = fresh('lit', I_SORT); s._lit_axiom(r, p.b.t); return r
        if p.b.kind == 'loc':
            n = 'addr_%s_%s_%d' % (p.b.name, p.b.id, p.off); s.addr[n] = p
            return z3.Const(n, I_SORT)
        if p.b.kind == 'fn':
            n = 'fn_' + p.b.name; s.addr[n] = p; return z3.Const(n, I_SORT)
        if p.b.kind in ('elem', 'mnode', 'strd', 'lit', 'mit', 'mend') :
            n = 'addr_x%d' % next(s.locid); s.addr[n] = p; return z3.Const(n, I_SORT)
        raise Unsupported('interior pointer stored: %r' % p)
    TEXT = z3.Function('text_at', I_SORT, S_SORT)   # C string stored at an address (char const*)
    def _lit_axiom(s, r, t):
        s.axioms.append(s.TEXT(r) == t); s.axioms.append(r > 0)
    guard = None                 # called on every access to a cell (lock discipline)
    def rd(s, st, p, cname, sort):
        b = p.b
        if s.guard and b.kind == 'loc': s.guard(st, p, cname, False)
        if not (isinstance(p.idx, int) and p.idx == 0) and b.kind in ('loc', 'ref'):
            arr = s.rd(st, Ptr(b, p.off), 'a%d.%s' % (p.es, cname), z3.ArraySort(I_SORT, sort))
            return z3.Select(arr, toi(p.idx))
        if b.kind == 'loc':
            k = (b.id, p.off, cname)
            if k not in st.mem:
                g = s.gcells.get((b.id, p.off, cname))
                v = fresh('%s_%d_%s' % (b.name, p.off, cname), sort) if g is None else g
                s.gcells[(b.id, p.off, cname)] = v
                st.mem[k] = v
            return st.mem[k]
        if b.kind == 'ref':
            k = (p.off, cname)
            if k not in st.heap:
                if k not in s.kdefault:
                    s.kdefault[k] = z3.Const('H_%d_%s' % k, z3.ArraySort(I_SORT, sort))
                st.heap[k] = s.kdefault[k]
            return z3.Select(st.heap[k], toi(b.t))
        if b.kind == 'elem':
            if p.off: raise Unsupported('field of by-value element')
            arr = s.rd(st, b.c, 'e.' + cname, z3.ArraySort(I_SORT, sort))
            return z3.Select(arr, toi(b.idx))
        if b.kind == 'mnode':
            if p.off == 0: return b.k
            ks = b.k.sort()
            arr = s.rd(st, Ptr(b.c.b, b.c.off), 'v.' + cname, z3.ArraySort(ks, sort))
            return z3.Select(arr, b.k)
        raise Unsupported('read %s through %r' % (cname, p))
    def wr(s, st, p, cname, sort, val):
        b = p.b
        if s.guard and b.kind == 'loc': s.guard(st, p, cname, True)
        val = toi(val) if isinstance(val, int) and not isinstance(val, bool) else tob(val) if isinstance(val, bool) else val
        if not (isinstance(p.idx, int) and p.idx == 0) and b.kind in ('loc', 'ref'):
            n = 'a%d.%s' % (p.es, cname); so = z3.ArraySort(I_SORT, sort)
            arr = s.rd(st, Ptr(b, p.off), n, so)
            return s.wr(st, Ptr(b, p.off), n, so, z3.Store(arr, toi(p.idx), val))
        if b.kind == 'loc':
            st.mem[(b.id, p.off, cname)] = val
            if st.log is not None: st.log.add(('mem', b.id, p.off, cname, sort))
            return
        if b.kind == 'ref':
            if isinstance(b.t, int) and b.t == 0: raise Unsupported('write through null')
            k = (p.off, cname); s.rd(st, p, cname, sort)
            st.heap[k] = z3.Store(st.heap[k], toi(b.t), val)
            if st.log is not None: st.log.add(('heap', p.off, cname, sort))
            return
        if b.kind == 'elem':
            if p.off: raise Unsupported('field write of by-value element')
            so = z3.ArraySort(I_SORT, sort); n = 'e.' + cname
            arr = s.rd(st, b.c, n, so)
            return s.wr(st, b.c, n, so, z3.Store(arr, toi(b.idx), val))
        if b.kind == 'mnode':
            if p.off == 0: raise Unsupported('write to map key')
            so = z3.ArraySort(b.k.sort(), sort); n = 'v.' + cname
            arr = s.rd(st, b.c, n, so)
            return s.wr(st, b.c, n, so, z3.Store(arr, b.k, val))
        raise Unsupported('write %s through %r' % (cname, p))
    def read(s, st, p, t): return {n: s.rd(st, p, n, so) for n, so in t.comps}
    def write(s, st, p, t, d):
        for n, so in t.comps: s.wr(st, p, n, so, d[n])
    def rdstr(s, st, p):
        v = s.rd(st, p, 'str', S_SORT); return v
    def wrstr(s, st, p, v): s.wr(st, p, 'str', S_SORT, v)
    # C strings
    def ctext(s, st, p):
        """content (up to NUL) of a char const* value"""
        if p.b.kind == 'cstr':
            t = p.b.t; o = p.off + p.idx if isinstance(p.idx, int) else toi(p.idx) + p.off
            if isinstance(o, int) and o == 0: return t
            return z3.SubString(t, toi(o), z3.Length(t) - toi(o))
        if p.b.kind == 'strd':
            t = s.rdstr(st, p.b.c); o = p.off + p.idx if isinstance(p.idx, int) else toi(p.idx) + p.off
            s.assumed.add('std::string holds no NUL when used as a C string')
            if isinstance(o, int) and o == 0: return t
            return z3.SubString(t, toi(o), z3.Length(t) - toi(o))
        if p.b.kind == 'ref' and p.off == 0 and isinstance(p.idx, int) and p.idx == 0:
            return s.TEXT(toi(p.b.t))
        if p.b.kind == 'ref':
            o = p.off + p.idx if isinstance(p.idx, int) else toi(p.idx) + p.off
            t = s.TEXT(toi(p.b.t)); return z3.SubString(t, toi(o), z3.Length(t) - toi(o))
        if p.b.kind == 'loc' and (p.b.id, p.off, 'ctext') in st.mem and isinstance(p.idx, int) and p.idx == 0: return st.mem[(p.b.id, p.off, 'ctext')]
        raise Unsupported('C string through %r' % p)
    def units(s, t):
        """codes of a text put together from single characters"""
        ch = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
        out = []
        for x in ch:
            if z3.is_string_value(x): out += [z3.IntVal(ord(c)) for c in decode_z3str(x)]
            elif z3.is_app(x) and x.decl().name() == 'str.from_code': out.append(x.arg(0))
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                r = s.units(x)
                if r is None: return None
                out += r
            else: return None
        return out
    def charat(s, st, t, i):
        """code of t[i], 0 at the end"""
        i = simp(toi(i))
        if z3.is_string_value(t):
            by = [ord(c) for c in decode_z3str(t)]
            if isinstance(i, int): return by[i] if 0 <= i < len(by) else 0
            for f in s.tables:
                # a constant table described by an arithmetic function: checked entry by entry
                if len(by) > 16 and all(simp(f(z3.IntVal(j))) == by[j] for j in range(len(by))):
                    s.oblige(st, 'index-in-table', z3.And(i >= 0, i < len(by)), 'safety'); st.assume(z3.And(i >= 0, i < len(by)))
                    return simp(f(i))
            if len(by) <= 256:
                r = z3.IntVal(0)
                for j in range(len(by) - 1, -1, -1): r = z3.If(i == j, z3.IntVal(by[j]), r)
                return r
        us = s.units(t)
        if us is not None and isinstance(i, int): return us[i] if 0 <= i < len(us) else 0
        i = toi(i)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            u, a, n = t.children()
            if s.ite(st, z3.And(a >= 0, n >= 0, a + n <= z3.Length(u), i >= 0, i < n), True, False) is True: return s.charat(st, u, simp(a + i))
        c = CODE(t, i)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            cu = s.charat(st, u, a + i)
            st.assume(z3.Implies(z3.And(a >= 0, n >= 0, a + n <= z3.Length(u), i >= 0, i < n), c == cu))
        st.assume(z3.And(c >= 0, c <= 255)); st.assume(z3.Implies(i == z3.Length(t), c == 0))
        if s.opts.get('codelink'): st.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(t)), c == z3.StrToCode(z3.SubString(t, i, 1))))
        return c
    def scat(s, st, parts):
        """concatenation; neighbouring parts of the same text are joined"""
        fl = []
        def go(x):
            x = simp(x)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for y in x.children(): go(y)
            elif z3.is_string_value(x) and x.as_string() == '': pass
            else: fl.append(x)
        for x in parts: go(x)
        out = []
        ex = lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT
        for x in fl:
            if out and ex(out[-1]) and ex(x) and out[-1].arg(0).eq(x.arg(0)):
                u, a, n = out[-1].children(); _, b, m = x.children()
                if simp(a + n - b) == 0 and s.ite(st, z3.And(a >= 0, n >= 0, m >= 0, b + m <= z3.Length(u)), True, False) is True:
                    out[-1] = simp(z3.SubString(u, a, n + m)); continue
            out.append(x)
        if not out: return z3.StringVal('')
        return out[0] if len(out) == 1 else z3.Concat(*out)
    def sure(s, st, f):
        f = simp(tob(f)); return f if isinstance(f, bool) else not s.feasible(st, z3.Not(f))
    def ssub(s, st, t, a, n):
        """part [a, a+n) of t, simplified where t is put together from parts"""
        t, a, n = simp(t), toi(simp(a)), toi(simp(n))
        if s.discover or not z3.is_app(t): return z3.SubString(t, a, n)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            x, rest = t.arg(0), t.children()[1:]; rest = rest[0] if len(rest) == 1 else z3.Concat(*rest); l0 = toi(s.slen(st, x))
            if s.sure(st, a >= l0): return s.ssub(st, rest, a - l0, n)
            if s.sure(st, z3.And(a >= 0, n >= 0, a <= l0)):
                if s.sure(st, a + n <= l0): return s.ssub(st, x, a, n)
                if s.sure(st, a + n >= l0): return s.scat(st, [s.ssub(st, x, a, l0 - a), s.ssub(st, rest, 0, n - (l0 - a))])
            return z3.SubString(t, a, n)
        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            u, b, m = t.children()
            if s.sure(st, z3.And(a >= 0, n >= 0, a + n <= m, b >= 0, b + m <= z3.Length(u))): return s.ssub(st, u, b + a, n)
        elif simp(a) == 0 and simp(n - toi(s.slen(st, t))) == 0: return t
        return z3.SubString(t, a, n)
    def chr_of(s, st, v):
        """one-character text of a char value"""
        t = toi(v.u())
        if z3.is_app(t) and t.decl().name() == 'code_at':
            u, i = t.children()
            if not s.discover and not s.feasible(st, z3.Not(z3.And(i >= 0, i < z3.Length(u)))): return z3.SubString(u, i, 1)
        return simp(z3.StrFromCode(t))
    def slen(s, st, t):
        """length of a text, simplified under the path condition"""
        t = simp(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            u, a, n = t.children()
            if s.ite(st, z3.And(a >= 0, n >= 0, a + n <= z3.Length(u)), True, False) is True: return simp(n)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return simp(sum((toi(s.slen(st, x)) for x in t.children()), z3.IntVal(0)))
        return simp(z3.Length(t))
    def allin(s, t, i, j, codes, st=None):
        """every character of t[i..j) has its code in the set"""
        sym = isinstance(codes, tuple) and codes and codes[0] in ('eq', 'ne')
        if not sym: codes = tuple(sorted(codes))
        i, j = toi(i), toi(j)
        t = simp(t)
        if st is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            u, a, n = t.children()
            if s.ite(st, z3.And(a >= 0, n >= 0, a + n <= z3.Length(u), i >= 0, j <= n), True, False) is True: return s.allin(u, simp(a + i), simp(a + j), codes, st)
        if not codes: return i >= j
        key = (codes[0], codes[1].get_id()) if sym else codes
        if key not in s.alsets:
            f = z3.Function('all_in_%d' % len(s.alsets), S_SORT, I_SORT, I_SORT, B_SORT); s.alsets[key] = f
            T = z3.Const('T', S_SORT); a, b, x = z3.Ints('a b x')
            s.axioms += [z3.ForAll([T, a, b], z3.Implies(a >= b, f(T, a, b)), patterns=[f(T, a, b)]),
                         z3.ForAll([T, a, b, x], z3.Implies(z3.And(f(T, a, b), a <= x, x < b), incodes(CODE(T, x), codes)), patterns=[z3.MultiPattern(f(T, a, b), CODE(T, x))]),
                         z3.ForAll([T, a, b, x], z3.Implies(z3.And(f(T, a, b), a <= b, x == b + 1, incodes(CODE(T, b), codes)), f(T, a, x)), patterns=[z3.MultiPattern(f(T, a, b), f(T, a, x))]),
                         z3.ForAll([T, a, b, x], z3.Implies(z3.And(f(T, a, b), a <= b, x == a - 1, incodes(CODE(T, x), codes)), f(T, x, b)), patterns=[z3.MultiPattern(f(T, a, b), f(T, x, b))]),
                         z3.ForAll([T, a, b, x], z3.Implies(z3.And(f(T, a, b), f(T, b, x), a <= b, b <= x), f(T, a, x)), patterns=[z3.MultiPattern(f(T, a, b), f(T, b, x))]),
                         z3.ForAll([T, a, b, x], z3.Implies(z3.And(f(T, a, b), a <= x, x <= b), z3.And(f(T, a, x), f(T, x, b))), patterns=[z3.MultiPattern(f(T, a, b), f(T, a, x)), z3.MultiPattern(f(T, a, b), f(T, x, b))])]
        return s.alsets[key](t, i, j)
    def load(s, st, ty, p):
        if p is None or not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        b = p.b
        if s.guard and b.kind == 'loc': s.guard(st, p, ty.k, False)
        if ty.k == 'int' and ty.w == 8 and b.kind in ('strd', 'cstr'):
            o = p.off + p.idx if isinstance(p.idx, int) else toi(p.idx) + p.off
            t = s.rdstr(st, b.c) if b.kind == 'strd' else b.t
            s.oblige(st, 'index-in-text', AND(toi(o) >= 0, toi(o) <= z3.Length(t)), 'safety')
            return I(s.charat(st, t, o), 8, 0, 255)
        if ty.k == 'int' and ty.w == 16 and b.kind in ('strd', 'cstr'):
            c0 = s.load(st, ir.INT(8), p); c1 = s.load(st, ir.INT(8), Ptr(b, p.off + 1, p.idx, p.es))
            r = toi(c0.u()) + 256 * toi(c1.u()); s.pairs[r.get_id()] = (toi(c0.u()), toi(c1.u()), r)
            return I(r, 16, 0, 65535)
        if b.kind == 'ref' and not isinstance(b.t, int): pass
        elif b.kind == 'ref' and isinstance(b.t, int) and b.t == 0:
            s.oblige(st, 'null-dereference', False, 'safety'); raise PathEnd()
        if b.kind == 'ref' and not s.discover and not s.quiet and not isinstance(b.t, int):
            s.nonnull(st, b.t)
        if ty.k == 'int':
            w = ty.w
            if b.kind == 'loc':
                v = st.mem.get((b.id, p.off, 'i%d' % w)) if isinstance(p.idx, int) and p.idx == 0 else None
                if isinstance(v, I): return v
                g = s.gload(st, ty, p)
                if g is not None: return g
                g = s.overlap(st, b, p, w) if isinstance(p.idx, int) and p.idx == 0 else None
                if g is not None: return g
            lo, hi = canon_range(w)
            if w == 8 and b.kind == 'ref' and (p.off, 'i8') not in st.heap and p.off == 0 and False: pass
            v = s.rd(st, p, 'i%d' % w, I_SORT)
            if isinstance(v, I): return v
            sv = simp(v)
            if isinstance(sv, int): return I(sv, w)
            st.assume(z3.And(v >= lo, v <= hi))
            return I(v, w, lo, hi)
        if ty.k == 'ptr':
            if b.kind == 'loc' and isinstance(p.idx, int) and p.idx == 0:
                v = st.mem.get((b.id, p.off, 'ptr'))
                if isinstance(v, Ptr): return v
                g = s.gload(st, ty, p)
                if g is not None: return g
            if b.kind == 'ref':
                v = st.ghost.get(('ptrcell', p.key()))
            v = s.rd(st, p, 'ptr', I_SORT)
            if isinstance(v, Ptr): return v
            v = simp(v)
            return s.ptr_of(st, v)
        if ty.k == 'double':
            v = s.rd(st, p, 'double', R_SORT); return v
        if ty.k == 'struct' or ty.k == 'named':
            r = s.m.resolve(ty); _, _, offs = s.m.layout(ty)
            return tuple(s.load(st, e, Ptr(b, p.off + o, p.idx, p.es)) for e, o in zip(r.elems, offs))
        raise Unsupported('load of %r' % ty)
    def ptr_of(s, st, v):
        if isinstance(v, int): return NULL if v == 0 else Ptr(Ref(v))
        if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            q = s.addr.get(v.decl().name())
            if q is not None: return q
        elif z3.is_app(v) and v.decl().name() == 'subobj':
            a, o = v.children(); return Ptr(Ref(simp(a)), o.as_long())
        elif s.mentions_addr(v): raise Unsupported('pointer that may be the address of a local: %s' % v)
        st.assume(v >= s.gget(st, 'clk', 0))
        return Ptr(Ref(v))
    def mentions_addr(s, v):
        if not s.addr: return False
        seen = set(); todo = [v]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in s.addr: return True
            todo.extend(x.children())
            if len(seen) > 400: return False
        return False
    def nonnull(s, st, t):
        k = t.get_id()
        if ('nn', k) in st.ghost: return
        if s.safety:
            s.oblige(st, 'null-dereference', t != 0, 'safety')
        st.assume(t != 0); st.ghost[('nn', k)] = t
    def overlap(s, st, b, p, w):
        """assemble / extract an integer from differently sized cells of a local"""
        n = max(w // 8, 1)
        parts = []
        for k, v in st.mem.items():
            if k[0] == b.id and k[2][0] == 'i' and k[2][1:].isdigit() and isinstance(v, I):
                cw = int(k[2][1:]); cn = max(cw // 8, 1)
                if k[1] <= p.off and p.off + n <= k[1] + cn:
                    t = toi(v.u()); sh = (p.off - k[1]) * 8
                    t = simp((t / (1 << sh)) % (1 << w)) if sh else simp(t % (1 << w))
                    return I(t, w)
                if p.off <= k[1] and k[1] + cn <= p.off + n: parts.append((k[1], cn, v))
        if parts and w > 8:
            t = z3.IntVal(0); cov = 0
            for o, cn, v in parts: t = t + toi(v.u()) * (1 << (8 * (o - p.off))); cov += cn
            pos = p.off; rest = z3.IntVal(0)
            for o, cn, v in sorted(parts, key=lambda q: q[0]) + [(p.off + n, 0, None)]:
                if o > pos:
                    g = fresh('pad', I_SORT); st.assume(z3.And(g >= 0, g < (1 << (8 * (o - pos)))))
                    rest = rest + g * (1 << (8 * (pos - p.off)))
                pos = o + cn
            return I(simp(t + rest), w)
        return None
    def clobber(s, st, b, off, w):
        """drop integer cells of other widths that a store of w bits overlaps (keeping the untouched parts)"""
        n = max(w // 8, 1)
        for k in [k for k in st.mem if k[0] == b.id and k[2][0] == 'i' and k[2][1:].isdigit()]:
            cw = int(k[2][1:]); cn = max(cw // 8, 1)
            if (k[1] == off and cn == n) or k[1] + cn <= off or off + n <= k[1]: continue
            v = st.mem.pop(k)
            if not isinstance(v, I): continue
            for j in range(cn):
                if k[1] + j < off or k[1] + j >= off + n:
                    st.mem[(b.id, k[1] + j, 'i8')] = I(simp((toi(v.u()) / (1 << (8 * j))) % 256), 8)
    def gload(s, st, ty, p):
        """scalar of a constant global"""
        b = p.b
        if not (isinstance(b.id, str) and b.id[0] == 'G'): return None
        gi = s.m.ginit(b.id[1:])
        if not gi or not gi[2]: return None
        def at(t, v, off):
            r = s.m.resolve(t)
            if r.k == 'struct':
                offs = s.m.layout(t)[2]
                for e, o, x in zip(r.elems, offs, v[1] if v[0] == 'agg' else [(e, ('zero',)) for e in r.elems]):
                    if o <= off < o + s.m.layout(e)[0]: return at(e, x[1], off - o)
                return None
            if r.k == 'array':
                es = s.m.layout(r.elems[0])[0]; j = off // es
                if v[0] == 'cstr': return I(v[1][off], 8)
                x = v[1][j][1] if v[0] == 'agg' else ('zero',)
                return at(r.elems[0], x, off - j * es)
            if off: return None
            return s.const(st, r, v)
        if isinstance(p.idx, int) and p.idx == 0:
            v = at(gi[0], gi[1], p.off)
            return v if v is None or not isinstance(v, I) or ty.k != 'int' or v.w == ty.w else None
        # symbolic index into a constant table
        n = s.m.layout(gi[0])[0]; i = toi(p.idx); cnt = (n - p.off) // p.es
        if cnt > 300 or ty.k != 'int': return None
        s.oblige(st, 'index-in-table', z3.And(i >= 0, i < cnt), 'safety')
        st.assume(z3.And(i >= 0, i < cnt))
        vs = [at(gi[0], gi[1], p.off + j * p.es) for j in range(cnt)]
        if any(v is None or v.w != ty.w for v in vs): return None
        t = z3.IntVal(vs[-1].canon() if isinstance(vs[-1].canon(), int) else 0)
        for j in range(cnt - 2, -1, -1): t = z3.If(i == j, toi(vs[j].canon()), t)
        lo, hi = canon_range(ty.w); st.assume(z3.And(t >= lo, t <= hi))
        return I(t, ty.w, lo, hi)
    def store(s, st, ty, v, p):
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        b = p.b
        if s.guard and b.kind == 'loc': s.guard(st, p, ty.k, True)
        if ty.k == 'int' and ty.w == 8 and b.kind == 'strd':
            o = p.off + p.idx if isinstance(p.idx, int) else toi(p.idx) + p.off
            o = simp(toi(o))
            t = s.rdstr(st, b.c)
            s.oblige(st, 'index-in-text', AND(toi(o) >= 0, toi(o) < z3.Length(t)), 'safety')
            ch = v.u(); ch = z3.StrFromCode(toi(ch))
            us = s.units(t)
            if us is not None and isinstance(o, int) and 0 <= o < len(us):
                us[o] = toi(v.u()); s.wrstr(st, b.c, z3.Concat(*[z3.StrFromCode(x) for x in us]) if len(us) > 1 else z3.StrFromCode(us[0])); return
            n = z3.Concat(z3.SubString(t, 0, toi(o)), ch, z3.SubString(t, toi(o) + 1, z3.Length(t)))
            s.wrstr(st, b.c, n); return
        if ty.k == 'int' and ty.w == 16 and b.kind == 'strd':
            pr = s.pairs.get(v.t.get_id()) if isinstance(v.t, z3.ExprRef) else None
            if pr is not None:
                s.store(st, ir.INT(8), I(pr[0], 8, 0, 255), p); s.store(st, ir.INT(8), I(pr[1], 8, 0, 255), Ptr(b, p.off + 1, p.idx, p.es)); return
            lo = I(toi(v.u()) % 256, 8, 0, 255); hi = I(toi(v.u()) / 256, 8, 0, 255)
            s.store(st, ir.INT(8), lo, p); s.store(st, ir.INT(8), hi, Ptr(b, p.off + 1, p.idx, p.es)); return
        if b.kind == 'ref' and not isinstance(b.t, int) and not s.discover: s.nonnull(st, b.t)
        if b.kind == 'ref' and isinstance(b.t, int) and b.t == 0:
            s.oblige(st, 'null-dereference', False, 'safety'); raise PathEnd()
        if ty.k == 'int':
            if b.kind == 'loc' and isinstance(p.idx, int) and p.idx == 0:
                s.clobber(st, b, p.off, ty.w)
                st.mem[(b.id, p.off, 'i%d' % ty.w)] = v if isinstance(v, I) else I(ITE(v, 1, 0), ty.w, 0, 1)
                if st.log is not None: st.log.add(('mem', b.id, p.off, 'i%d' % ty.w, I_SORT))
                return
            s.wr(st, p, 'i%d' % ty.w, I_SORT, v.canon() if isinstance(v, I) else ITE(v, z3.IntVal(1), z3.IntVal(0))); return
        if ty.k == 'ptr':
            if b.kind == 'loc' and isinstance(p.idx, int) and p.idx == 0:
                st.mem[(b.id, p.off, 'ptr')] = v
                if st.log is not None: st.log.add(('mem', b.id, p.off, 'ptr', I_SORT))
                return
            s.wr(st, p, 'ptr', I_SORT, s.as_ref(v)); return
        if ty.k == 'double':
            s.wr(st, p, 'double', R_SORT, v); return
        if ty.k in ('struct', 'named'):
            r = s.m.resolve(ty); _, _, offs = s.m.layout(ty)
            for e, o, x in zip(r.elems, offs, v): s.store(st, e, x, Ptr(b, p.off + o, p.idx, p.es))
            return
        raise Unsupported('store of %r' % ty)
    def copyobj(s, st, src, dst, size):
        """memcpy-like copy of all known local cells"""
        if src.b.kind == 'loc' and dst.b.kind == 'loc':
            for k in [k for k in st.mem if k[0] == dst.b.id and dst.off <= k[1] < dst.off + size]: del st.mem[k]
            for k in [k for k in st.mem if k[0] == src.b.id and src.off <= k[1] < src.off + size]:
                nk = (dst.b.id, k[1] - src.off + dst.off, k[2]); st.mem[nk] = st.mem[k]
                if st.log is not None: st.log.add(('mem',) + nk + (None,))
            return
        raise Unsupported('memcpy %r -> %r' % (src, dst))
    # ------------------------------------------------------------- constants
    def gptr(s, st, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.funcs or name in s.m.decls: return Ptr(Fn(name))
        gi = s.m.ginit(name)
        if gi and gi[2] and gi[1][0] == 'cstr':
            by = gi[1][1]
            if by.endswith(b'\0'): by = by[:-1]
            return Ptr(CStr(z3.StringVal(''.join(chr(c) if 32 <= c < 127 and c != 92 else '\\u{%x}' % c for c in by))))
        if gi and gi[2] and gi[1][0] == 'zero' and gi[0].k == 'array' and gi[0].elems[0].k == 'int' and gi[0].elems[0].w == 8:
            return Ptr(CStr(z3.StringVal('')))
        key = ('glob', name)
        if key not in s.gcells:
            s.gcells[key] = Loc('G' + name, 'g_' + name)
        return Ptr(s.gcells[key])
    def const(s, st, ty, v):
        k = v[0]
        if k == 'int': return I(v[1], ty.w)
        if k == 'bool': return v[1]
        if k == 'null': return NULL
        if k == 'global': return s.gptr(st, v[1])
        if k == 'float': return z3.RealVal(repr(v[1])) if v[1] == v[1] else fresh('nan', R_SORT)
        if k == 'undef':
            if ty.k == 'int': return fresh('undef', B_SORT) if ty.w == 1 else I(fresh('undef', I_SORT), ty.w)
            if ty.k == 'ptr': return NULL
            if ty.k in ('struct', 'named'): return tuple(s.const(st, e, ('undef',)) for e in s.m.resolve(ty).elems)
            if ty.k == 'double': return fresh('undef', R_SORT)
            raise Unsupported('undef %r' % ty)
        if k == 'zero':
            if ty.k == 'int': return False if ty.w == 1 else I(0, ty.w)
            if ty.k == 'ptr': return NULL
            if ty.k in ('struct', 'named'): return tuple(s.const(st, e, v) for e in s.m.resolve(ty).elems)
        if k == 'agg':
            return tuple(s.const(st, t, x) for t, x in v[1])
        if k == 'gep':
            return s.gep(st, v[1], s.const(st, ir.PTR, v[2]), [s.const(st, t, x) for t, x in v[3]], v[3])
        if k == 'cast' and v[1] == 'ptrtoint': raise Unsupported('ptrtoint const')
        if k == 'cast' and v[1] == 'inttoptr': return s.const(st, ir.PTR, ('null',))
        raise Unsupported('constant %r' % (v,))
    def gep(s, st, sty, base, idx, raw):
        if not isinstance(base, Ptr): raise Unsupported('gep base %r' % (base,))
        b, off, sidx, es = base.b, base.off, base.idx, base.es
        sz = s.m.layout(sty)[0]
        n = idx[0].s()
        if b.kind == 'elem' and off == 0 and not (isinstance(n, int) and n == 0):
            return Ptr(Elem(b.c, simp(toi(b.idx) + toi(n)), b.et, b.size))
        if isinstance(n, int): off += n * sz
        else:
            if b.kind in ('strd', 'cstr') and sz == 1: sidx = simp(toi(sidx) + n)
            elif isinstance(sidx, int) and sidx == 0 and len(idx) == 1: sidx, es = n, sz
            elif es == sz and len(idx) == 1: sidx = simp(toi(sidx) + n)
            else: raise Unsupported('gep symbolic %r' % base)
        ty = sty
        for k, i in enumerate(idx[1:]):
            r = s.m.resolve(ty)
            if r.k == 'struct':
                offs = s.m.layout(ty)[2]; j = i.u(); off += offs[j]; ty = r.elems[j]
            elif r.k == 'array':
                e = s.m.layout(r.elems[0])[0]; j = i.s()
                if isinstance(j, int): off += j * e
                elif isinstance(sidx, int) and sidx == 0: sidx, es = j, e
                else: raise Unsupported('gep array')
                ty = r.elems[0]
            else: raise Unsupported('gep into %r' % r)
        if b.kind in ('strd', 'cstr') and isinstance(sidx, int):
            return Ptr(b, off + sidx, 0, 1)
        return Ptr(b, off, sidx, es)
    def ptreq(s, st, a, b):
        if a is b: return True
        ka, kb = a.b.kind, b.b.kind
        if ka == 'ref' and kb == 'ref':
            if a.off == b.off and isinstance(a.idx, int) and isinstance(b.idx, int): return EQ(a.b.t, b.b.t)
            if isinstance(a.idx, int) and isinstance(b.idx, int):
                z = (a.b.t == 0 and isinstance(a.b.t, int)) or (b.b.t == 0 and isinstance(b.b.t, int))
                if z: return False
            raise Unsupported('compare interior pointers')
        if ka == kb == 'elem' and a.b.c.key() == b.b.c.key(): return EQ(a.b.idx, b.b.idx)
        if ka == kb == 'lit' and a.b.c.key() == b.b.c.key(): return EQ(a.b.idx, b.b.idx)
        if ka == kb == 'strd' and a.b.c.key() == b.b.c.key():
            return EQ(simp(toi(a.idx) + a.off), simp(toi(b.idx) + b.off))
        if ka == kb == 'cstr': 
            if a.b.t.eq(b.b.t): return EQ(simp(toi(a.idx) + a.off), simp(toi(b.idx) + b.off))
            raise Unsupported('compare text addresses')
        if {ka, kb} == {'mit', 'mend'}:
            it, en = (a.b, b.b) if ka == 'mit' else (b.b, a.b)
            return EQ(it.idx, it.en['n'])
        if ka == kb == 'mit': return EQ(a.b.idx, b.b.idx)
        if ka == kb == 'mend': return True
        if {ka, kb} == {'mnode', 'mend'}: return False
        if ka == kb == 'mnode' and a.b.c.key() == b.b.c.key(): return EQ(a.b.k, b.b.k)
        if ka == kb == 'loc': return a.b.id == b.b.id and a.off == b.off
        if ka == kb == 'fn': return a.b.name == b.b.name
        if (ka == 'ref' and isinstance(a.b.t, int) and a.b.t == 0) or (kb == 'ref' and isinstance(b.b.t, int) and b.b.t == 0): return False
        if {ka, kb} == {'loc', 'ref'}: return False
        if {ka, kb} == {'elem', 'ref'}: return False
        raise Unsupported('compare %r %r' % (a, b))
    # ------------------------------------------------------------- integer ops
    def binop(s, st, op, w, a, b, flags, where=''):
        if w == 1:
            A, Bv = a, b
            if op == 'xor': return simp(NOT(A)) if Bv is True else A if Bv is False else z3.Xor(tob(A), tob(Bv))
            if op == 'and': return AND(A, Bv)
            if op == 'or': return OR(A, Bv)
            raise Unsupported('i1 ' + op)
        M = 1 << w; H = M >> 1
        if op in ('add', 'sub', 'mul'):
            signed = 'nsw' in flags
            def pick(x):
                if signed: return x.s(), *( (x.lo, x.hi) if (x.lo >= -H and x.hi < H) else (-H, H - 1))
                if x.lo < -8 * M or x.hi > 8 * M: y = x.U(); return y.t, y.lo, y.hi
                return x.t, x.lo, x.hi
            ta, la, ha = pick(a); tb, lb, hb = pick(b)
            if op == 'add': t, lo, hi = ta + tb, la + lb, ha + hb
            elif op == 'sub': t, lo, hi = ta - tb, la - hb, ha - lb
            else:
                if not (isinstance(ta, int) or isinstance(tb, int)) and False: pass
                t = ta * tb; c = [la * lb, la * hb, ha * lb, ha * hb]; lo, hi = min(c), max(c)
            if isinstance(t, z3.ExprRef) and op != 'mul': t = simp(t) if t.num_args() < 3 else t
            if isinstance(t, int): lo = hi = t
            if signed:
                if lo < -H or hi >= H:
                    s.oblige(st, 'no-signed-overflow', AND(toi(t) >= -H, toi(t) < H), 'safety', where)
                    if not s.discover: st.assume(z3.And(toi(t) >= -H, toi(t) < H))
                    lo, hi = max(lo, -H), min(hi, H - 1)
            return I(t, w, lo, hi)
        if op in ('udiv', 'urem'):
            ta, tb = a.u(), b.u()
            if isinstance(ta, int) and isinstance(tb, int) and tb: return I(ta // tb if op == 'udiv' else ta % tb, w)
            if not isinstance(tb, int): s.oblige(st, 'division-by-zero', toi(tb) != 0, 'safety', where); st.assume(toi(tb) != 0)
            elif tb == 0: s.oblige(st, 'division-by-zero', False, 'safety', where); raise PathEnd()
            au = a.U()
            if op == 'udiv':
                lo, hi = (au.lo // tb, au.hi // tb) if isinstance(tb, int) else (0, au.hi)
                return I(toi(ta) / toi(tb), w, lo, hi)
            return I(toi(ta) % toi(tb), w, 0, tb - 1 if isinstance(tb, int) else M - 1)
        if op in ('sdiv', 'srem'):
            ta, tb = a.s(), b.s()
            if isinstance(ta, int) and isinstance(tb, int) and tb:
                q = abs(ta) // abs(tb) * (1 if (ta < 0) == (tb < 0) else -1); return I(q if op == 'sdiv' else ta - q * tb, w)
            if not isinstance(tb, int) or tb == 0:
                s.oblige(st, 'division-by-zero', toi(tb) != 0, 'safety', where); st.assume(toi(tb) != 0)
            aS = a.S()
            A, Bt = toi(ta), toi(tb)
            if isinstance(tb, int) and tb > 0:
                if aS.lo >= 0: q = A / Bt; r = A % Bt
                else: q = z3.If(A >= 0, A / Bt, -((-A) / Bt)); r = z3.If(A >= 0, A % Bt, -((-A) % Bt))
                if op == 'sdiv': return I(q, w, -((-aS.lo) // tb) if aS.lo < 0 else aS.lo // tb, aS.hi // tb if aS.hi >= 0 else 0)
                return I(r, w, -(tb - 1) if aS.lo < 0 else 0, tb - 1 if aS.hi > 0 else 0)
            s.oblige(st, 'no-signed-overflow', z3.Not(z3.And(A == -H, Bt == -1)), 'safety', where)
            q0 = fresh('q', I_SORT); r0 = fresh('r', I_SORT)
            absB = z3.If(Bt < 0, -Bt, Bt)
            st.assume(z3.And(A == q0 * Bt + r0, z3.If(A >= 0, z3.And(r0 >= 0, r0 < absB), z3.And(r0 <= 0, -r0 < absB))))
            return I(q0 if op == 'sdiv' else r0, w, -H, H - 1)
        if op == 'shl' and isinstance(b.u(), int):
            return s.binop(st, 'mul', w, a, I(1 << b.u(), w + 1), [f for f in flags if f == 'nsw'], where)
        if op in ('lshr', 'ashr') and isinstance(b.u(), int):
            k = 1 << b.u()
            x = a.U() if op == 'lshr' else a.S()
            return I(x.t // k if isinstance(x.t, int) else x.t / k, w, x.lo // k, x.hi // k)
        if op in ('and', 'or', 'xor'):
            if isinstance(a.t, int) and not isinstance(b.t, int): a, b = b, a
            if isinstance(a.t, int) and isinstance(b.t, int):
                x, y = a.u(), b.u(); return I({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w)
            if isinstance(b.t, int):
                m = b.u(); x = a.U()
                if op == 'xor' and m == M - 1:
                    sx = a.S(); return I(-1 - sx.t, w, -1 - sx.hi, -1 - sx.lo)
                t = s.maskand(toi(x.t), m, w)
                if op == 'and': return I(t, w, 0, m)
                if op == 'or': return I(x.t + m - t, w)
                return I(x.t + m - 2 * t, w)
            # a op ite(c, k1, k2)
            for x, y in ((a, b), (b, a)):
                t = y.t
                if isinstance(t, z3.ExprRef) and z3.is_app_of(t, z3.Z3_OP_ITE):
                    c, k1, k2 = t.children(); k1, k2 = simp(k1), simp(k2)
                    if isinstance(k1, int) and isinstance(k2, int):
                        r1 = s.binop(st, op, w, x, I(k1, w), flags); r2 = s.binop(st, op, w, x, I(k2, w), flags)
                        if w in (16, 32): r1, r2 = r1.S(), r2.S()
                        else: r1, r2 = r1.U(), r2.U()
                        return I(z3.If(c, toi(r1.t), toi(r2.t)), w, min(r1.lo, r2.lo), max(r1.hi, r2.hi))
            # 0/1 valued operands
            if a.lo >= 0 and a.hi <= 1 and b.lo >= 0 and b.hi <= 1:
                A, Bt = toi(a.t) == 1, toi(b.t) == 1
                c = {'and': z3.And(A, Bt), 'or': z3.Or(A, Bt), 'xor': z3.Xor(A, Bt)}[op]
                return I(z3.If(c, z3.IntVal(1), z3.IntVal(0)), w, 0, 1)
            x, y = a.U(), b.U()
            if not (s.pbits(toi(x.t), x.hi) & s.pbits(toi(y.t), y.hi)):       # no bit in common
                return I(0, w) if op == 'and' else I(toi(x.t) + toi(y.t), w, x.lo + y.lo, min(M - 1, x.hi + y.hi))
            ba, bb = z3.Int2BV(toi(x.t), w), z3.Int2BV(toi(y.t), w)
            r = {'and': ba & bb, 'or': ba | bb, 'xor': ba ^ bb}[op]
            return I(z3.BV2Int(r), w)
        raise Unsupported('%s i%d symbolic' % (op, w))
    def pbits(s, t, hi):
        """mask of the bits that can be set in a non-negative term"""
        if z3.is_int_value(t): return t.as_long() if t.as_long() >= 0 else -1
        k = t.decl().kind() if z3.is_app(t) else None; r = (1 << max(hi, 0).bit_length()) - 1
        if k == z3.Z3_OP_ADD:
            m = 0
            for x in t.children():
                b = s.pbits(x, hi)
                if b < 0 or m & b: return r
                m |= b
            return m & r
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            x, y = t.children()
            if not z3.is_int_value(x): x, y = y, x
            if z3.is_int_value(x) and x.as_long() > 0 and x.as_long() & (x.as_long() - 1) == 0: return (s.pbits(y, hi) * x.as_long()) & r
        if k == z3.Z3_OP_ITE: return (s.pbits(t.arg(1), hi) | s.pbits(t.arg(2), hi)) & r
        if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
            m = t.arg(1).as_long()
            if m > 0 and m & (m - 1) == 0: return (m - 1) & r
        return r
    def maskand(s, x, m, w):
        t = z3.IntVal(0); i = 0
        while i < w:
            if m >> i & 1:
                j = i
                while j < w and m >> j & 1: j += 1
                t = t + ((x / (1 << i)) % (1 << (j - i))) * (1 << i) if j < w else t + (x / (1 << i)) * (1 << i)
                i = j
            else: i += 1
        return simp(t) if isinstance(simp(t), int) is False else toi(simp(t))
    def icmp(s, st, pred, ty, a, b):
        if ty.k == 'ptr':
            if pred in ('eq', 'ne'):
                r = s.ptreq(st, a, b); return r if pred == 'eq' else simp(NOT(r))
            raise Unsupported('pointer order')
        if ty.w == 1:
            r = EQ(tob(a), tob(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
            return r if pred == 'eq' else NOT(r)
        if pred in ('eq', 'ne'):
            M = 1 << ty.w
            # choose the cheaper common view
            def inS(x): return x.lo >= -(M >> 1) and x.hi < M >> 1
            if inS(a) and inS(b): r = EQ(a.t, b.t)
            elif inS(a) and a.lo < 0: r = EQ(a.s(), b.s())
            elif inS(b) and b.lo < 0 and not isinstance(b.t, int): r = EQ(a.s(), b.s())
            else: r = EQ(a.u(), b.u())
            r = simp(r) if not isinstance(r, bool) else r
            return r if pred == 'eq' else simp(NOT(r))
        if pred[0] == 'u': A, B = a.u(), b.u()
        else: A, B = a.s(), b.s()
        o = pred[1:]
        r = {'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[o]()
        return simp(r) if isinstance(r, z3.ExprRef) else bool(r)

