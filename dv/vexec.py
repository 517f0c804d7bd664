"""Execution of functions: blocks, calls, exceptions, and loops by inductive invariants (Houdini)."""
import re, time
import z3
import ir
from engine import *
from engine import _TI
import engine as E

class PInt(I):
    """an address held in an integer register"""
    __slots__ = ('p',)
    def __init__(s, p):
        I.__init__(s, z3.Int('addrval'), 64); s.p = p

class Call:
    """one call site"""
    __slots__ = ('name', 'dem', 'args', 'argt', 'attrs', 'rty', 'line', 'depth', 'fn', 'ins', 'q')
    def sret(s): return bool(s.attrs) and 'sret' in s.attrs[0]

# ------------------------------------------------------------------ demangled names
_dc = {}
def demparse(d):
    """-> (class path without template args, method, class targs text list, params text)"""
    if d in _dc: return _dc[d]
    s = d
    s = s.replace('(anonymous namespace)', '@anon')
    # find the parameter list: the last top-level '(' group
    i, n, depth = 0, len(s), 0
    tok = []; start = None
    ops = ('operator()', 'operator<<=', 'operator<<', 'operator>>=', 'operator>>', 'operator<=>', 'operator<=', 'operator>=', 'operator->*', 'operator->', 'operator<', 'operator>')
    parens = []
    while i < n:
        for o in ops:
            if s.startswith(o, i):
                i += len(o); break
        else:
            c = s[i]
            if c in '<[{': depth += 1
            elif c in '>]}': depth -= 1
            elif c == '(':
                if depth == 0: parens.append(i)
                # skip group
                k = 1; j = i + 1
                while k and j < n:
                    if s[j] == '(': k += 1
                    elif s[j] == ')': k -= 1
                    j += 1
                i = j; continue
            i += 1
    # a trailing group (possibly followed by const / & / ::{lambda...}) is the params
    name, params = s, ''
    if parens:
        # params group: last one whose remainder is only qualifiers
        for p in reversed(parens):
            k = 1; j = p + 1
            while k and j < n:
                if s[j] == '(': k += 1
                elif s[j] == ')': k -= 1
                j += 1
            if re.fullmatch(r'\s*(const)?\s*(&|&&)?\s*(\[clone.*\])?', s[j:]):
                name, params = s[:p], s[p + 1:j - 1]; break
    # strip return type: last space at depth 0 not after 'operator'
    depth = 0; cut = -1; i = 0; m = len(name)
    while i < m:
        hit = False
        for o in ops:
            if name.startswith(o, i): i += len(o); hit = True; break
        if hit: continue
        c = name[i]
        if c in '<[{(': depth += 1
        elif c in '>]})': depth -= 1
        elif c == ' ' and depth == 0 and not re.search(r'operator(( \w+)*|[^\w\s(]{1,3})$', name[:i]): cut = i
        i += 1
    if cut >= 0: name = name[cut + 1:]
    # split into components at '::' depth 0
    comps = []; cur = ''; depth = 0; i = 0
    while i < len(name):
        hit = False
        for o in ops:
            if name.startswith(o, i): cur += o; i += len(o); hit = True; break
        if hit: continue
        c = name[i]
        if c in '<[{(': depth += 1
        elif c in '>]})': depth -= 1
        if depth == 0 and name.startswith('::', i):
            comps.append(cur); cur = ''; i += 2; continue
        cur += c; i += 1
    comps.append(cur)
    def strip(c):
        if c.startswith('operator'):
            for o in ops:
                if c.startswith(o): return o
            return c.split('<')[0] if not c.startswith('operator ') else c
        j = c.find('<')
        return c[:j] if j > 0 and c[0] not in '{<' else c
    def targs(c):
        if c.startswith('operator'):
            for o in ops:
                if c.startswith(o): c = c[len(o):]; break
        j = c.find('<')
        return split_targs(c[j + 1:-1]) if j >= 0 and c.endswith('>') else []
    cls = '::'.join(strip(c) for c in comps[:-1])
    r = (cls, strip(comps[-1]), targs(comps[-2]) if len(comps) > 1 else [], params, targs(comps[-1]))
    _dc[d] = r
    return r

class Verifier(Engine):
    def __init__(s, mod, models, opts=None):
        Engine.__init__(s, mod, models, opts)
        s.indirect = None            # handler for calls through unknown function pointers
        s.npaths = 0
        s.hardcands = set()
        s.lenterms = []              # loop-constant lengths usable as bounds in automatic candidates
        s.called = set()
        s.curfn = None
        s.loopcount = 0
        s.hdepth = 0
        s.autocand = True
        s.noinline = []
        s.unsup_log = []
        s.deadline = None
    # ---------------------------------------------------------------- entry
    def run(s, st, fname, args, depth=0):
        """execute function `fname`; -> [(state, ('ret', v)|('exc', Exc))]"""
        f = s.m.func(fname)
        if f is None: raise Unsupported('no body: ' + s.m.dem(fname))
        if depth > s.opts['inline_depth']: raise Unsupported('inlining too deep at ' + s.m.dem(fname))
        fr = Frame(f, depth)
        env = {}
        for (t, n, at), v in zip(f.params, args): env[n] = v
        return s.region(fr, [(f.entry, None, env, st, {})], None)
    def val(s, st, env, ty, v):
        if v[0] == 'local':
            if v[1] not in env: raise Unsupported('undefined register %' + v[1])
            return env[v[1]]
        return s.const(st, ty, v)
    # ---------------------------------------------------------------- region
    def region(s, fr, work, within):
        """explore all paths; `within`: only this set of blocks (others are dropped)"""
        outs = []
        while work:
            blk, prev, env, st, active = work.pop()
            if time.time() - s.t0 > s.opts['maxtime']: raise Budget('time budget')
            try:
                if within is not None and blk not in within: continue
                # loop headers
                if blk in fr.fn.loops:
                    body = fr.fn.loops[blk]
                    if prev is None or prev not in body or blk not in active:
                        if prev is not None and prev not in body:
                            active = {h: r for h, r in active.items() if blk in fr.fn.loops[h]}
                        if prev is not None:
                            un = s.unroll_for(fr, blk)
                            if un:
                                active = dict(active); active[blk] = ('unroll', un, 0)
                            else:
                                for it in s.loop(fr, blk, prev, env, st, active, within): work.append(it)
                                continue
                    else:
                        r = active[blk]
                        if isinstance(r, tuple):
                            if r[2] >= r[1]:
                                s.oblige(st, 'loop-unwinding', False, 'unwind', '%s at most %d times' % (blk, r[1]))
                                continue
                            active = dict(active); active[blk] = ('unroll', r[1], r[2] + 1)
                        else:
                            env2 = s.phis(fr, blk, prev, env, st)
                            r.append((st, env2, dict((n, env2[n]) for n in s.phinames(fr, blk))))
                            continue
                if within is not None and blk not in within: continue
                active = {h: r for h, r in active.items() if blk in fr.fn.loops[h]} if active else active
                if prev is not None: env = s.phis(fr, blk, prev, env, st)
                for item in s.block(fr, blk, env, st, active):
                    if item[0] == 'go': work.append(item[1:])
                    else: outs.append((item[1], item[2]))
            except PathEnd:
                continue
            s.npaths += 1
            if s.npaths > s.opts['maxpaths'] * 10: raise Budget('too many paths')
            if len(outs) > s.opts['maxpaths']: raise Budget('too many paths')
        return outs
    def unroll_for(s, fr, blk):
        d = s.m.dem(fr.fn.name)
        for rx, n in s.unroll_fns.items():
            if re.search(rx, d): return n
        return 0
    def phinames(s, fr, blk):
        return [i.res for i in fr.fn.blocks[blk].ins if i.op == 'phi']
    def phis(s, fr, blk, prev, env, st):
        new = None
        for i in fr.fn.blocks[blk].ins:
            if i.op != 'phi': break
            for v, b in i.a:
                if b == prev:
                    x = s.val(st, env, i.ty, v)
                    if new is None: new = dict(env)
                    new[i.res] = x
                    break
            else: raise Unsupported('phi edge')
        return env if new is None else new
    # ---------------------------------------------------------------- block
    def block(s, fr, blk, env, st, active):
        """execute to the terminator -> items ('go', blk, prev, env, st, active) | ('out', st, outcome)"""
        env = dict(env)
        ins = fr.fn.blocks[blk].ins
        return s.steps(fr, blk, ins, 0, env, st, active)
    def steps(s, fr, blk, ins, k, env, st, active):
        V = lambda ty, v: s.val(st, env, ty, v)
        n = len(ins)
        while k < n:
            i = ins[k]; k += 1; op = i.op
            if op == 'phi': continue
            elif op == 'load':
                p = V(ir.PTR, i.a[0]); env[i.res] = s.load1(st, i.ty, p)
            elif op == 'store':
                s.store(st, i.ty, V(i.ty, i.a[0]), V(ir.PTR, i.a[1]))
            elif op == 'getelementptr':
                env[i.res] = s.gep(st, i.ty, V(ir.PTR, i.a[0]), [V(t, x) for t, x in i.a[1]], i.a[1])
            elif op in ir.BIN:
                a, b = V(i.ty, i.a[0]), V(i.ty, i.a[1])
                env[i.res] = s.bin(st, i, a, b)
            elif op == 'icmp':
                env[i.res] = s.cmp(st, i.x, i.ty, V(i.ty, i.a[0]), V(i.ty, i.a[1]))
            elif op == 'fcmp':
                a, b = V(i.ty, i.a[0]), V(i.ty, i.a[1])
                o = i.x[1:]
                env[i.res] = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'eq': lambda: EQ(a, b), 'ne': lambda: NOT(EQ(a, b))}.get(o, lambda: i.x == 'ord')()
            elif op == 'fneg': env[i.res] = -V(i.ty, i.a[0])
            elif op in ir.CAST: env[i.res] = s.cast(st, op, i.a[0], i.ty, V(i.a[0], i.a[1]))
            elif op == 'alloca':
                p = fr.allocas.get((i.res, id(env)))
                env[i.res] = s.newloc(i.res, i.ty)
            elif op == 'select':
                c = V(ir.INT(1), i.a[0]); a, b = V(i.ty, i.a[1]), V(i.ty, i.a[2])
                if isinstance(c, bool): env[i.res] = a if c else b
                elif i.ty.k == 'int' and i.ty.w == 1: env[i.res] = z3.If(c, tob(a), tob(b))
                elif i.ty.k == 'int' and type(a) is I and type(b) is I:
                    env[i.res] = I(z3.If(c, toi(a.t), toi(b.t)), i.ty.w, min(a.lo, b.lo), max(a.hi, b.hi))
                elif i.ty.k == 'double': env[i.res] = z3.If(c, a, b)
                elif i.ty.k == 'ptr' and a.b.kind == b.b.kind == 'ref' and a.off == b.off and a.idx is b.idx or (i.ty.k == 'ptr' and a.key() == b.key()):
                    env[i.res] = a if a.key() == b.key() else Ptr(Ref(simp(z3.If(c, toi(a.b.t), toi(b.b.t)))), a.off)
                else:
                    res = []
                    for cond, v in ((c, a), (z3.Not(c), b)):
                        st2 = st.copy(); st2.assume(cond)
                        if not s.feasible(st2): continue
                        e2 = dict(env); e2[i.res] = v
                        res += s.steps(fr, blk, ins, k, e2, st2, active)
                    return res
            elif op == 'extractvalue':
                v = V(i.ty, i.a[0])
                for j in i.a[1]: v = v[j]
                env[i.res] = v
            elif op == 'insertvalue':
                v = V(i.ty, i.a[0]); e = V(ir.PTR, i.a[1]) if i.a[1][0] != 'int' else I(i.a[1][1], 32)
                def ins_(t, ix):
                    t = list(t)
                    t[ix[0]] = e if len(ix) == 1 else ins_(t[ix[0]], ix[1:])
                    return tuple(t)
                env[i.res] = ins_(v, i.a[2])
            elif op == 'freeze': env[i.res] = V(i.ty, i.a[0])
            elif op == 'fence': pass
            elif op == 'atomicrmw':
                o, a, v = i.a; p = V(ir.PTR, a); x = V(i.ty, v); old = s.load(st, i.ty, p)
                env[i.res] = old
                s.store(st, i.ty, x if o == 'xchg' else s.binop(st, o, i.ty.w, old, x, ()), p)
            elif op in ('call', 'invoke'):
                outs = s.callsite(fr, i, env, st)
                if op == 'call' and len(outs) == 1 and outs[0][1][0] == 'ret' and outs[0][0] is st:
                    if i.res is not None: env[i.res] = outs[0][1][1]
                    continue
                res = []
                for st2, o in outs:
                    if o[0] == 'ret':
                        e2 = dict(env)
                        if i.res is not None: e2[i.res] = o[1]
                        if op == 'call':
                            try: res += s.steps(fr, blk, ins, k, e2, st2, active)
                            except PathEnd: pass
                        else: res.append(('go', i.flags[0], blk, e2, st2, active))
                    else:
                        if op == 'call': res.append(('out', st2, o))
                        else:
                            st2.exc = o[1]; res.append(('go', i.flags[1], blk, dict(env), st2, active))
                return res
            elif op == 'landingpad':
                res = s.landing(fr, i, env, st, blk, ins, k, active)
                return res
            elif op == 'br':
                if len(i.a) == 1: return [('go', i.a[0], blk, env, st, active)]
                c = V(ir.INT(1), i.a[0])
                c = simp(c)
                if isinstance(c, bool): return [('go', i.a[1 if c else 2], blk, env, st, active)]
                return s.fork(fr, blk, env, st, active, [(c, i.a[1]), (z3.Not(c), i.a[2])])
            elif op == 'switch':
                v = V(i.ty, i.a[0]); alts = []; rest = []
                for cv, b in i.a[2]:
                    c = s.icmp(st, 'eq', i.ty, v, s.const(st, i.ty, cv)) if i.ty.w > 1 else EQ(tob(v), z3.BoolVal(bool(cv[1])))
                    c = simp(c)
                    if c is True: return [('go', b, blk, env, st, active)]
                    if c is False: continue
                    alts.append((c, b)); rest.append(z3.Not(c))
                alts.append((AND(rest), i.a[1]))
                return s.fork(fr, blk, env, st, active, alts)
            elif op == 'ret':
                v = None if i.a is None else V(i.ty, i.a)
                return [('out', st, ('ret', v))]
            elif op == 'resume':
                x = V(None, i.a[0]); e = st.exc
                return [('out', st, ('exc', st.ghost.get(('lp', x[1].t if isinstance(x, tuple) and isinstance(x[1], I) and False else 0), e) or e))]
            elif op == 'unreachable':
                return []
            else: raise Unsupported('instruction ' + i.line[:80])
        raise Unsupported('fell off block')
    def fork(s, fr, blk, env, st, active, alts):
        res = []; live = []
        for c, b in alts:
            st2 = st.copy(); st2.assume(c)
            if s.feasible(st2): live.append((st2, b))
        for st2, b in live: res.append(('go', b, blk, env, st2, active))
        return res
    def load1(s, st, ty, p):
        if ty.k == 'int' and ty.w == 1: 
            v = s.load(st, ir.INT(8), p); return simp(toi(v.t) != 0) if isinstance(v, I) else v
        v = s.load(st, ty, p)
        return v
    def bin(s, st, i, a, b):
        op = i.op
        if op[0] == 'f':
            if i.ty.k not in ('double', 'float'): raise Unsupported('float op')
            s.assumed.add('IEEE double arithmetic treated as real arithmetic')
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                return a / b
            raise Unsupported(op)
        if isinstance(a, PInt) and isinstance(b, PInt) and op == 'sub': return s.ptrdiff(st, a.p, b.p)
        if isinstance(a, PInt) or isinstance(b, PInt): raise Unsupported('arithmetic on addresses')
        return s.binop(st, op, i.ty.w, a, b, i.flags, i.line[:60])
    def cmp(s, st, pred, ty, a, b):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): return s.icmp(st, pred, ir.PTR, a.p, b.p)
            raise Unsupported('address compared with a number')
        if ty.k == 'ptr' and pred not in ('eq', 'ne'):
            d = s.ptrdiff(st, a, b); z = I(0, 64)
            return s.icmp(st, 's' + pred[1:], ir.INT(64), d, z)
        r = s.icmp(st, pred, ty, a, b)
        if s.opts.get('decide') and not isinstance(r, bool) and not s.discover:
            if not s.feasible(st, r): return False
            if not s.feasible(st, z3.Not(r)): return True
        return r
    def ptrdiff(s, st, a, b):
        if a.b.kind == b.b.kind == 'ref' and isinstance(a.b.t, int) and a.b.t == 0 and isinstance(b.b.t, int) and b.b.t == 0: return I(0, 64)
        ka, kb = a.b.kind, b.b.kind
        if ka == kb == 'elem' and a.b.c.key() == b.b.c.key():
            return I(simp((toi(a.b.idx) - toi(b.b.idx)) * s.elemsize(a.b)), 64, -(1 << 62), 1 << 62)
        if ka == kb and a.b.key() == b.b.key() and ka in ('strd', 'cstr', 'loc', 'ref'):
            if a.es != b.es and not (isinstance(a.idx, int) and a.idx == 0) and not (isinstance(b.idx, int) and b.idx == 0): raise Unsupported('ptrdiff strides')
            es = a.es if not (isinstance(a.idx, int) and a.idx == 0) else b.es
            return I(simp((toi(a.idx) - toi(b.idx)) * es + (a.off - b.off)), 64, -(1 << 62), 1 << 62)
        raise Unsupported('difference of unrelated pointers %r %r' % (a, b))
    def elemsize(s, e):
        return e.size or 8
    def cast(s, st, op, fty, tty, v):
        if op in ('zext', 'sext', 'trunc') and fty.k == 'int':
            if fty.w == 1:
                if op == 'trunc': return v
                if isinstance(v, bool): return I((1 if op == 'zext' else -1) if v else 0, tty.w)
                return I(z3.If(v, z3.IntVal(1 if op == 'zext' else -1), z3.IntVal(0)), tty.w, *((0, 1) if op == 'zext' else (-1, 0)))
            if isinstance(v, PInt): raise Unsupported('truncated address')
            if tty.w == 1:
                if v.lo >= 0 and v.hi <= 1: return simp(toi(v.t) == 1)
                return simp(toi(v.u()) % 2 == 1)
            if op == 'zext': x = v.U(); return I(x.t, tty.w, x.lo, x.hi)
            if op == 'sext': x = v.S(); return I(x.t, tty.w, x.lo, x.hi)
            return I(v.t, tty.w, v.lo, v.hi)
        if op == 'ptrtoint':
            if v.b.kind == 'ref' and isinstance(v.b.t, int) and v.b.t == 0 and v.off == 0: return I(0, 64)
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            raise Unsupported('inttoptr')
        if op == 'bitcast': return v
        if op in ('sitofp', 'uitofp'):
            s.assumed.add('IEEE double arithmetic treated as real arithmetic')
            x = v.s() if op == 'sitofp' else v.u()
            return z3.RealVal(x) if isinstance(x, int) else z3.ToReal(x)
        if op in ('fpext', 'fptrunc'): return v
        if op in ('fptosi', 'fptoui'):
            t = fresh('f2i', I_SORT)
            st.assume(z3.If(v >= 0, z3.And(z3.ToReal(t) <= v, v < z3.ToReal(t) + 1), z3.And(z3.ToReal(t) >= v, v > z3.ToReal(t) - 1)))
            h = 1 << (tty.w - 1)
            return I(t, tty.w, -h, h - 1) if op == 'fptosi' else I(t, tty.w)
        raise Unsupported(op)
    # ---------------------------------------------------------------- exceptions
    def throw(s, st, ty, ptr=None): return (st, ('exc', Exc(ty, ptr)))
    def tyname(s, g):
        d = s.m.dem(g); return d[len('typeinfo for '):] if d.startswith('typeinfo for ') else d
    STDBASE = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error',
               'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::bad_alloc': 'std::exception',
               'std::bad_cast': 'std::exception', 'std::bad_any_cast': 'std::bad_cast', 'std::bad_variant_access': 'std::exception', 'std::bad_optional_access': 'std::exception',
               'std::bad_function_call': 'std::exception', 'std::system_error': 'std::runtime_error', 'std::domain_error': 'std::logic_error'}
    def subtype(s, a, b):
        """is exception type a (or a base of it) b?"""
        seen = set(); todo = [a]
        while todo:
            x = todo.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x)
            if x in s.STDBASE: todo.append(s.STDBASE[x])
            for g in s.m.globals:
                if g.startswith('_ZTI') and s.tyname(g) == x:
                    for bb in re.findall(r'ptr @(_ZTI[\w.]+)', s.m.globals[g]): todo.append(s.tyname(bb))
        return False
    def landing(s, fr, i, env, st, blk, ins, k, active):
        cleanup, cl = i.a; e = st.exc
        res = []
        def go(st2, sel, exc):
            e2 = dict(env); st2.exc = exc
            p = exc.ptr if exc.ptr is not None else NULL
            if i.res: e2[i.res] = (p, I(sel, 32))
            try: res.extend(s.steps(fr, blk, ins, k, e2, st2, active))
            except PathEnd: pass
        if e.ty is None:
            # unknown exception: every clause possible, or none
            st0 = st
            for c in cl:
                if c == 'filter': raise Unsupported('exception filter')
                x = Exc(s.tyname(c) if c != 'null' else 'unknown', e.ptr)
                go(st0.copy(), s.tid(c), x)
                if c == 'null': return res
            if cleanup: go(st0.copy(), 0, e)
            else: res.append(('out', st0.copy(), ('exc', e)))
            return res
        for c in cl:
            if c == 'null' or s.subtype(e.ty, s.tyname(c)):
                go(st, s.tid(c), e); return res
        if cleanup: go(st, 0, e); return res
        return [('out', st, ('exc', e))]
    def tid(s, c):
        if c == 'null': return 1
        return 2 + (sorted(g for g in s.m.globals if g.startswith('_ZTI')).index(c) if c in s.m.globals else hash(c) % 10 ** 6)
    # ---------------------------------------------------------------- calls
    def callsite(s, fr, i, env, st):
        c = Call()
        c.args = [None if t.k == 'metadata' else s.val(st, env, t, v) for t, v, at in i.a]
        c.argt = [t for t, v, at in i.a]; c.attrs = [at for t, v, at in i.a]
        c.rty = i.ty; c.line = i.line; c.depth = fr.depth; c.fn = fr.fn; c.ins = i
        cal = i.x
        if cal[0] == 'global': f = Ptr(Fn(s.m.aliases.get(cal[1], cal[1])))
        else: f = s.val(st, env, ir.PTR, cal)
        return s.call(st, f, c)
    def call(s, st, f, c):
        if f.b.kind != 'fn':
            if s.indirect:
                r = s.indirect(s, st, c, f)
                if r is not None: return r
            raise Unsupported('call through %r in %s' % (f, s.m.dem(c.fn.name)[:100]))
        c.name = f.b.name; c.dem = s.m.dem(c.name); c.q = demparse(c.dem)
        for rx, h in s.contracts:
            if rx.search(c.dem):
                r = h(s, st, c)
                if r is not None:
                    s.called.add(c.dem); return r
        r = s.models.dispatch(s, st, c)
        if r is not None: return r
        fn = s.m.func(c.name)
        if fn is None: raise Unsupported('no model for ' + c.dem)
        for rx in s.noinline:
            if rx.search(c.dem): raise Unsupported('no contract for ' + c.dem)
        s.inlined.add(c.dem)
        return s.run(st, c.name, c.args, c.depth + 1)
    # ---------------------------------------------------------------- loops
    def havoc_like(s, st, v, name='h'):
        if isinstance(v, PInt): raise Unsupported('loop-carried address value')
        if isinstance(v, I):
            lo, hi = canon_range(v.w); t = fresh(name, I_SORT)
            st.assume(z3.And(t >= lo, t <= hi)); return I(t, v.w, lo, hi)
        if isinstance(v, bool): return fresh(name, B_SORT)
        if isinstance(v, z3.ExprRef): return fresh(name, v.sort())
        if isinstance(v, tuple): return tuple(s.havoc_like(st, x, name) for x in v)
        if isinstance(v, Ptr):
            b = v.b
            if b.kind == 'ref':
                t = fresh(name, I_SORT); st.assume(t >= s.gget(st, 'clk', 0)); return Ptr(Ref(t), v.off)
            if b.kind == 'elem':
                t = fresh(name, I_SORT); return Ptr(Elem(b.c, t, b.et, b.size), v.off)
            if b.kind in ('strd', 'cstr'): return Ptr(b, 0, fresh(name, I_SORT), 1)
            if b.kind == 'lit': return Ptr(LIt(b.c, fresh(name, I_SORT), b.et), v.off)
            if b.kind == 'mit': return Ptr(MIt(b.c, b.mt, b.en, fresh(name, I_SORT)), v.off)
            if b.kind in ('loc', 'fn', 'mend'): return v
            raise Unsupported('loop-carried pointer %r' % v)
        if v is None: return None
        raise Unsupported('loop-carried %r' % (v,))
    def same_shape(s, a, b):
        """loop-carried value b (after an iteration) fits the havoced shape a"""
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr): return False
            if a.b.kind != b.b.kind: return False
            if a.b.kind == 'ref': return a.off == b.off
            if a.b.kind in ('elem', 'lit', 'mit'):
                return a.b.c.key() == b.b.c.key() and a.off == b.off and (a.b.kind != 'mit' or a.b.en is b.b.en)
            if a.b.kind == 'strd': return a.b.c.key() == b.b.c.key()
            if a.b.kind == 'cstr': return a.b.t.eq(b.b.t)
            return a.key() == b.key()
        if isinstance(a, tuple): return isinstance(b, tuple) and all(s.same_shape(x, y) for x, y in zip(a, b))
        return True
    def apply_havoc(s, st, env, wr, fr, header, ienv, st0, tag):
        """havoc phis (from ienv) and written cells wr in state st; -> (env, vals)"""
        vals = {}
        if ('ghost', 'clk') in wr:
            c0 = s.gget(st0, 'clk', 0); c = fresh('clk', I_SORT); s.gset(st, 'clk', c); st.assume(c <= toi(c0))
        env = dict(env)
        for n in s.phinames(fr, header):
            env[n] = s.havoc_like(st, ienv[n], n); vals['phi:' + n] = env[n]
        for w in sorted(wr, key=str):
            if w[0] == 'mem':
                k = w[1:4]
                if k in st0.mem:
                    st.mem[k] = s.havoc_like(st, st0.mem[k], 'c%s_%s' % (k[1], k[2])); vals['cell:%s' % (k,)] = st.mem[k]
                elif k in st.mem: del st.mem[k]
            elif w[0] == 'heap':
                k = w[1:3]
                if k in st0.heap or k in st.heap or k in s.kdefault:
                    so = (st0.heap.get(k) if k in st0.heap else s.kdefault.get(k)).sort()
                    st.heap[k] = fresh('H_%d_%s' % k, so); vals['heap:%s' % (k,)] = st.heap[k]
            elif w[0] == 'ghost' and w[1] != 'clk':
                g = ('g', w[1])
                if g in st0.ghost:
                    st.ghost[g] = s.havoc_like(st, st0.ghost[g] if not isinstance(st0.ghost[g], int) else z3.IntVal(st0.ghost[g]), 'g_' + w[1]); vals['ghost:' + w[1]] = st.ghost[g]
        # facts about loaded terms are keyed by term: still valid
        return env, vals
    def cur_vals(s, st, env, vals, fr, header):
        r = {}
        for n in vals:
            if n.startswith('phi:'): r[n] = env[n[4:]]
            elif n.startswith('cell:'): r[n] = st.mem.get(eval(n[5:]))
            elif n.startswith('heap:'):
                k = eval(n[5:]); r[n] = st.heap.get(k, s.kdefault.get(k))
            elif n.startswith('ghost:'):
                v = st.ghost.get(('g', n[6:])); r[n] = z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v
        return r
    def auto(s, ls):
        out = []
        ints = [(n, v) for n, v in ls.vals.items() if isinstance(v, I)]
        def C(v): return toi(v.canon())
        for n, v in ls.vals.items():
            i0 = ls.init.get(n)
            if isinstance(v, I) and isinstance(i0, I):
                a, b = C(v), C(i0)
                out += [('%s == init' % n, a == b), ('%s == init+k' % n, a == b + ls.k), ('%s == init-k' % n, a == b - ls.k),
                        ('%s >= init' % n, a >= b), ('%s <= init' % n, a <= b)]
                for ln, t in s.lenterms: out += [('%s <= %s' % (n, ln), a <= t), ('%s < %s' % (n, ln), a < t)]
            elif isinstance(v, Ptr) and isinstance(i0, Ptr):
                if v.b.kind in ('elem', 'lit', 'mit'):
                    a = toi(v.b.idx); b = toi(i0.b.idx) if i0.b.kind == v.b.kind else z3.IntVal(0)
                    out += [('%s.i == init' % n, a == b), ('%s.i == init+k' % n, a == b + ls.k), ('%s.i == init-k' % n, a == b - ls.k), ('%s.i >= init' % n, a >= b)]
                    if v.b.kind == 'mit': out.append(('%s.i <= n' % n, a <= toi(v.b.en['n'])))
                    else: out.append(('%s.i <= len' % n, a <= s.clen(ls.st, v.b.c)))
                elif v.b.kind in ('strd', 'cstr'):
                    a = toi(v.idx) + v.off; b = toi(i0.idx) + i0.off
                    t = s.rdstr(ls.st, v.b.c) if v.b.kind == 'strd' else v.b.t
                    out += [('%s.i == init+k' % n, a == b + ls.k), ('%s.i == init-k' % n, a == b - ls.k), ('%s.i >= init' % n, a >= b), ('%s.i <= len' % n, a <= z3.Length(t)), ('%s.i >= 0' % n, a >= 0)]
                elif v.b.kind == 'ref' and i0.b.kind == 'ref':
                    a, b = toi(v.b.t), toi(i0.b.t)
                    out += [('%s == init' % n, a == b), ('%s != 0' % n, a != 0)]
            elif isinstance(v, (z3.ExprRef, bool)) and i0 is not None and isinstance(i0, (z3.ExprRef, bool)):
                a, b = tob(v), tob(i0)
                if a.sort() == b.sort(): out.append(('%s == init' % n, a == b))
        # pairs of integers moving together
        for x in range(len(ints)):
            for y in range(x + 1, len(ints)):
                (n1, v1), (n2, v2) = ints[x], ints[y]
                if v1.w == v2.w:
                    out += [('%s <= %s' % (n1, n2), C(v1) <= C(v2)), ('%s >= %s' % (n1, n2), C(v1) >= C(v2))]
        return out
    def clen(s, st, c): return toi(s.rd(st, c, 'len', I_SORT))
    def cands(s, ls):
        out = s.auto(ls) if s.autocand else []
        nauto = len(out)
        for f in s.loopcands:
            try: r = f(ls)
            except Unsupported: raise
            out += r or []
        d = {}
        for q, (l, f) in enumerate(out):
            while l in d: l = l + "'"
            d[l] = tob(f)
            if q >= nauto and not s.opts.get('softcands'): s.hardcands.add(l)
        return d
    def loop(s, fr, header, prev, env, st, active, within):
        """-> work items continuing from the loop header in an arbitrary iteration"""
        body = fr.fn.loops[header]
        ienv = s.phis(fr, header, prev, env, st)
        s.loopcount += 1
        fresh_log = st.log
        # 1. discovery of the written cells
        wr = set(); shapes = {}; mark = next(s.locid)
        save = (s.discover, s.quiet)
        init_env = dict(ienv)
        for rnd in range(8):
            st1 = st.copy(); st1.log = set(wr)
            henv, vals = s.apply_havoc(st1, ienv, wr, fr, header, init_env, st, 'd')
            st1.log = set(wr)
            backs = []
            s.discover += 1
            try:
                act = dict(active); act[header] = backs
                s.region_body(fr, header, henv, st1, act, body)
            finally: s.discover = save[0]
            nw = set(wr)
            for b in backs: nw |= b[0].log or set()
            nw |= st1.log
            nw = {w for w in nw if not (w[0] == 'mem' and isinstance(w[1], int) and w[1] > mark)}     # objects made inside an iteration do not outlive it
            nw = {(w[0], w[1], w[2], w[3], None) if w[0] == 'mem' else (w[0], w[1], w[2]) if w[0] == 'heap' else w for w in nw}
            # generalise null-initialised pointers
            changed = False
            for bst, benv, ph in backs:
                for n, v in ph.items():
                    if not s.same_shape(henv[n], v):
                        g = s.generalise(init_env[n], v)
                        if g is None: raise Unsupported('loop-carried %s changes shape %r -> %r in %s' % (n, henv[n], v, s.m.dem(fr.fn.name)[:80]))
                        init_env[n] = g; changed = True
            if nw == wr and not changed: break
            if rnd > 5 and s.opts.get('dbg'): print('UNSETTLED', sorted(map(str, nw ^ wr))[:10])
            wr = nw
        else: raise Unsupported('write set does not settle')
        s.normal_log(fresh_log, wr)
        if s.discover:
            # inside an outer discovery: continue from the havoced header
            st1 = st.copy(); st1.log = fresh_log
            henv, vals = s.apply_havoc(st1, ienv, wr, fr, header, init_env, st, 'd')
            act = dict(active); act[header] = []
            return s.body_item(fr, header, henv, st1, act)
        # 2. candidates
        k = fresh('k', I_SORT)
        st1 = st.copy(); st1.log = None
        henv, vals = s.apply_havoc(st1, ienv, wr, fr, header, init_env, st, 'l')
        vals0 = s.cur_vals(st, ienv, vals, fr, header)
        ls0 = LoopState(s, st, ienv, z3.IntVal(0), None, vals0, fr.fn, header, vals0, st)
        c0 = s.cands(ls0)
        lsh = LoopState(s, st1, henv, k, None, vals0, fr.fn, header, vals, st)
        ch = s.cands(lsh)
        names = [n for n in ch if n in c0]
        t1 = time.time()
        if len(names) > 0:
            names = s.filter_valid(st, [(n, c0[n]) for n in names])
        bst0 = st1
        rounds = 0
        while True:
            rounds += 1
            stx = st1.copy(); stx.log = None
            stx.assume(k >= 0)
            for n in names: stx.assume(ch[n])
            xenv = s.direct(stx, henv, names, ch, vals)
            backs = []
            s.quiet += 1
            try:
                act = dict(active); act[header] = backs
                s.region_body(fr, header, xenv, stx, act, body)
            finally: s.quiet -= 1
            alive = list(names)
            for bst, benv, ph in backs:
                for n, v in ph.items():
                    if not s.same_shape(henv[n], v): raise Unsupported('loop-carried pointer changes shape')
                valsb = s.cur_vals(bst, benv, vals, fr, header)
                lsb = LoopState(s, bst, benv, k + 1, None, vals0, fr.fn, header, valsb, st)
                cb = s.cands(lsb)
                alive = s.filter_valid(bst, [(n, cb[n]) for n in alive if n in cb])
            if len(alive) == len(names): break
            names = alive
            if rounds > 40: raise Unsupported('invariant inference does not settle')
        info = dict(fn=s.m.dem(fr.fn.name), header=header, invariants=names, rounds=rounds, backedges=len(backs), secs=round(time.time() - t1, 2))
        s.loopinfo.append(info)
        if not s.quiet:
            for n in names:
                o = Obl('loop invariant kept: ' + n, 'valid', 0.0, 'z3', None, 'invariant'); s.obls.append(o)
        # termination
        if s.check_terminates and not s.quiet and backs: s.terminates(fr, header, ls0, lsh, backs, vals, vals0, k, st)
        stf = st1; stf.log = fresh_log
        stf.assume(k >= 0)
        for n in names: stf.assume(ch[n])
        xenv = s.direct(stf, henv, names, ch, vals)
        act = dict(active); act[header] = []
        return s.body_item(fr, header, xenv, stf, act)
    def direct(s, st, henv, names, ch, vals):
        """invariants labelled 'DEF ...' of the form value == term: use the term in place of the (equal) value"""
        env = dict(henv)
        for n in names:
            if not n.startswith('DEF ') or not z3.is_eq(ch[n]): continue
            l, r = ch[n].children()
            for vn, v in vals.items():
                t = v.t if isinstance(v, I) else v
                if isinstance(t, z3.ExprRef) and t.eq(l):
                    nv = I(r, v.w, v.lo, v.hi) if isinstance(v, I) else r
                    if vn.startswith('phi:'): env[vn[4:]] = nv
                    elif vn.startswith('cell:'): st.mem[eval(vn[5:])] = nv
                    break
        return env
    def terminates(s, fr, header, ls0, lsh, backs, vals, vals0, k, st):
        """some integer measure, non-negative, decreases on every iteration"""
        def meas(ls):
            r = {}
            for n, v in ls.vals.items():
                if isinstance(v, I):
                    a = toi(v.canon()); r[n] = a
                    for ln, t in s.lenterms: r['%s-%s' % (ln, n)] = t - a
                elif isinstance(v, Ptr) and v.b.kind in ('elem', 'lit'):
                    r['len-%s' % n] = s.clen(ls.st, v.b.c) - toi(v.b.idx); r[n] = toi(v.b.idx)
                elif isinstance(v, Ptr) and v.b.kind == 'mit': r['n-%s' % n] = toi(v.b.en['n']) - toi(v.b.idx)
                elif isinstance(v, Ptr) and v.b.kind in ('strd', 'cstr'):
                    t = s.rdstr(ls.st, v.b.c) if v.b.kind == 'strd' else v.b.t
                    r['len-%s' % n] = z3.Length(t) - toi(v.idx) - v.off; r[n] = toi(v.idx) + v.off
                elif isinstance(v, z3.ExprRef) and v.sort() == S_SORT: r['|%s|' % n] = z3.Length(v)
            for f in s.measures:
                for ln, t in f(ls): r[ln] = t
            return r
        mh = meas(lsh); best = None; good = set(mh)
        for bst, benv, ph in backs:
            lsb = LoopState(s, bst, benv, k + 1, None, vals0, fr.fn, header, s.cur_vals(bst, benv, vals, fr, header), st)
            mb = meas(lsb)
            good = {n for n in good if n in mb and s.prove(bst, z3.And(mh[n] >= 0, mb[n] < mh[n]), 2000)[0] == 'valid'}
        ok = bool(good)
        if ok: s.obls.append(Obl('loop terminates: %s decreases' % sorted(good)[0], 'valid', 0.0, 'z3', None, 'termination'))
        else: s.obls.append(Obl('loop terminates', 'unknown', 0.0, 'none', None, 'termination', s.m.dem(fr.fn.name)[:80]))
    def generalise(s, a, b):
        """a pointer initialised to null that later points elsewhere"""
        return None
    def preexists(s, st, w):
        return True
    def normal_log(s, log, wr):
        if log is not None: log |= wr
    def body_item(s, fr, header, henv, st, act):
        """items after executing the header block (its phis are already bound)"""
        items = []
        try:
            for it in s.block(fr, header, henv, st, act):
                if it[0] == 'go': items.append(it[1:])
                else: raise Unsupported('loop header leaves the function')
        except PathEnd: pass
        return items
    def region_body(s, fr, header, henv, st, act, body):
        work = []
        try:
            for it in s.block(fr, header, henv, st, act):
                if it[0] == 'go': work.append(it[1:])
        except PathEnd: pass
        return s.region(fr, work, body)
    def filter_valid(s, st, nf):
        """names of the formulas valid in st (drops by counter-model)"""
        nf = list(nf)
        out = []
        r = s.prove(st, AND([f for n, f in nf]), s.opts['cand_ms']) if len(nf) > 1 else ('unknown', None)
        if r[0] == 'valid': return [n for n, f in nf]
        rest = nf
        it = 0
        while r[0] == 'sat' and it < 25 and len(rest) > 1:
            m = r[1]; keep = []
            for n, f in rest:
                try: v = m.eval(f, model_completion=True)
                except z3.Z3Exception: v = None
                if v is not None and z3.is_false(v):
                    if s.opts.get('dbgcand') and s.opts['dbgcand'] in n: print('REFUTED', n, '\n   PC', [str(simp(p))[:160] for p in st.pc[-14:]], '\n  ', str(simp(f))[:900], '\n', [(str(g)[:300], m.eval(g, model_completion=True)) for g in f.children()])
                    continue
                keep.append((n, f))
            if len(keep) == len(rest): break
            rest = keep; it += 1
            r = s.prove(st, AND([f for n, f in rest]), s.opts['cand_ms'])
            if r[0] == 'valid': return [n for n, f in rest]
        for n, f in rest:
            if n in s.hardcands: ok = s.prove_cand(st, f)
            else: ok = s.prove(st, f, s.opts['cand_ms'])[0] == 'valid'
            if ok: out.append(n)
            elif s.opts.get('dbgcand') and s.opts['dbgcand'] in n:
                r = s.prove(st, f, 5000); print('DROPPED', n, r[0], '\n   PC', [str(simp(p))[:160] for p in st.pc[-14:]], '\n  ', str(simp(f))[:900])
        return out
    def prove_cand(s, st, f):
        f = simp(f)
        if f is True: return True
        if f is False: return False
        if z3.is_and(f): return all(s.prove_cand(st, x) for x in f.children())
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = f.children(); s1, s2 = st.copy(), st.copy(); s1.assume(c); s2.assume(z3.Not(c))
            return s.prove_cand(s1, a) and s.prove_cand(s2, b)
        st, f = s.normlen(st, f)
        r = s.prove(st, f, s.opts['cand_ms'])
        if r[0] == 'sat': return False
        if r[0] == 'valid': return True
        import solvers
        qf = [x for x in st.pc if not z3.is_quantifier(x)] + [z3.Not(tob(f))]
        t = time.time(); r = solvers.cvc5_check(qf, s.opts.get('cand_cvc5', 3000))[0]
        if r != 'unsat' and r != 'sat' or (r == 'sat' and (s.axioms or len(qf) <= len(st.pc))): r = solvers.cvc5_check(list(st.pc) + s.axioms + [z3.Not(tob(f))], s.opts.get('cand_cvc5', 3000) * 2)[0]
        s.stats['ms'] += (time.time() - t) * 1000; s.stats['queries'] += 1
        return r == 'unsat'
