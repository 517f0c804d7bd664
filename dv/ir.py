"""Lazy parser for the textual LLVM IR (clang-18) subset emitted for /repo's headers."""
import re, subprocess, functools

class IRError(Exception):
    pass

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'elems', 'n', 'name', 'packed')
    def __init__(s, k, w=0, elems=None, n=0, name=None, packed=False):
        s.k, s.w, s.elems, s.n, s.name, s.packed = k, w, elems, n, name, packed
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'named': return '%' + s.name
        if s.k == 'array': return '[%d x %r]' % (s.n, s.elems[0])
        if s.k == 'struct': return '{' + ', '.join(map(repr, s.elems)) + '}'
        return s.k

VOID, PTR, DOUBLE, FLOAT = Ty('void'), Ty('ptr'), Ty('double'), Ty('float')
_INT = {}
def INT(w):
    if w not in _INT: _INT[w] = Ty('int', w)
    return _INT[w]

class P:
    """cursor over a line"""
    def __init__(s, t): s.t, s.i = t, 0
    def ws(s):
        t = s.t
        while s.i < len(t) and t[s.i] in ' \t': s.i += 1
    def peek(s, lit):
        s.ws(); return s.t.startswith(lit, s.i)
    def eat(s, lit):
        s.ws()
        if s.t.startswith(lit, s.i):
            s.i += len(lit); return True
        return False
    def need(s, lit):
        if not s.eat(lit): raise IRError('expected %r at %r' % (lit, s.t[s.i:s.i+60]))
    _word = re.compile(r'[A-Za-z_][\w.]*')
    def word(s):
        s.ws(); m = P._word.match(s.t, s.i)
        if not m: return None
        s.i = m.end(); return m.group()
    def peekword(s):
        i = s.i; w = s.word(); s.i = i; return w
    _name = re.compile(r'"((?:[^"\\]|\\.)*)"|([-\w.$]+)')
    def name(s):
        m = P._name.match(s.t, s.i)
        if not m: raise IRError('name at %r' % s.t[s.i:s.i+40])
        s.i = m.end(); return m.group(1) if m.group(1) is not None else m.group(2)
    def end(s):
        s.ws(); return s.i >= len(s.t)

ATTR = {'noundef','nonnull','noalias','zeroext','signext','dead_on_unwind','writable','nocapture','readonly',
        'writeonly','returned','nounwind','immarg','inreg','readnone','nofree','swiftself','noreturn','nest'}
ATTRP = {'align','dereferenceable','dereferenceable_or_null','sret','byval','captures','range','initializes','elementtype','nofpclass','memory','allocsize'}

def parse_type(p):
    p.ws(); t, i = p.t, p.i
    c = t[i]
    if c == '%':
        p.i += 1; r = Ty('named', name=p.name())
    elif c == '{':
        p.i += 1; el = []
        if not p.eat('}'):
            while True:
                el.append(parse_type(p))
                if p.eat('}'): break
                p.need(',')
        r = Ty('struct', elems=el)
    elif c == '<':
        p.i += 1
        if p.eat('{'):
            el = []
            if not p.eat('}'):
                while True:
                    el.append(parse_type(p))
                    if p.eat('}'): break
                    p.need(',')
            p.need('>')
            r = Ty('struct', elems=el, packed=True)
        else:
            m = re.compile(r'\s*(\d+) x ').match(t, p.i); p.i = m.end()
            e = parse_type(p); p.need('>')
            r = Ty('vector', elems=[e], n=int(m.group(1)))
    elif c == '[':
        m = re.compile(r'\[\s*(\d+) x ').match(t, i); p.i = m.end()
        e = parse_type(p); p.need(']')
        r = Ty('array', elems=[e], n=int(m.group(1)))
    else:
        w = p.word()
        if w is None: raise IRError('type at %r' % t[i:i+40])
        if w[0] == 'i' and w[1:].isdigit(): r = INT(int(w[1:]))
        elif w == 'ptr': r = PTR
        elif w == 'void': r = VOID
        elif w == 'double': r = DOUBLE
        elif w == 'float': r = FLOAT
        elif w in ('opaque','x86_fp80','label','metadata','token','half'): r = Ty(w)
        else: raise IRError('type word %r in %r' % (w, t[max(0,i-30):i+40]))
    # function type suffix:  ret (args...)
    p.ws()
    if p.i < len(p.t) and p.t[p.i] == '(' and r.k in ('void','int','ptr','double','float','named','struct'):
        # function type
        j = p.i; depth = 0
        while True:
            ch = p.t[j]
            if ch == '"':
                j = p.t.index('"', j+1)
            elif ch == '(': depth += 1
            elif ch == ')':
                depth -= 1
                if depth == 0: break
            j += 1
        p.i = j + 1
        return Ty('func', elems=[r])
    return r

def skip_attrs(p):
    got = {}
    while True:
        w = p.peekword()
        if w in ATTR:
            p.word(); got[w] = True
        elif w in ATTRP:
            p.word()
            if p.eat('('):
                d = 1; st = p.i
                while d:
                    ch = p.t[p.i]
                    if ch == '"': p.i = p.t.index('"', p.i+1)
                    elif ch == '(': d += 1
                    elif ch == ')': d -= 1
                    p.i += 1
                got[w] = p.t[st:p.i-1]
            else:
                m = re.compile(r'\s*\d+').match(p.t, p.i)
                if m: p.i = m.end()
                got[w] = True
        else:
            return got

# ------------------------------------------------------------------ values
# ('local', name) ('int', n) ('null',) ('undef',) ('zero',) ('global', name) ('float', x) ('gep', srcty, base, idxs)
# ('agg',[(ty,val)]) ('cstr', bytes) ('cast', op, ty, val, toty) ('bool', b) ('bin',op,..)
def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def parse_value(p, ty):
    p.ws(); c = p.t[p.i]
    if c == '%':
        p.i += 1; return ('local', p.name())
    if c == '@':
        p.i += 1; return ('global', p.name())
    m = re.compile(r'-?\d+\.\d+(e[+-]?\d+)?|0x[0-9A-FKLMH]+|-?\d+').match(p.t, p.i)
    if m:
        p.i = m.end(); s = m.group()
        if ty.k in ('double', 'float'):
            if s.startswith('0x'):
                import struct
                return ('float', struct.unpack('>d', int(s[2:], 16).to_bytes(8, 'big'))[0])
            return ('float', float(s))
        return ('int', int(s))
    if c == 'c' and p.t.startswith('c"', p.i):
        j = p.t.index('"', p.i+2); s = p.t[p.i+2:j]; p.i = j+1
        return ('cstr', unescape(s))
    if c in '{[<':
        close = {'{': '}', '[': ']', '<': '>'}[c]
        p.i += 1
        if c == '<' and p.eat('{'): close = '}'
        el = []
        if not p.eat(close):
            while True:
                t = parse_type(p); skip_attrs(p); el.append((t, parse_value(p, t)))
                if p.eat(close): break
                p.need(',')
        if c == '<' and close == '}': p.need('>')
        return ('agg', el)
    w = p.word()
    if w == 'true': return ('bool', True)
    if w == 'false': return ('bool', False)
    if w in ('null', 'none'): return ('null',)
    if w in ('undef', 'poison'): return ('undef',)
    if w == 'zeroinitializer': return ('zero',)
    if w == 'getelementptr':
        for x in ('inbounds', 'nuw', 'nusw'): p.eat(x)
        p.need('(')
        st = parse_type(p); p.need(',')
        t = parse_type(p); base = parse_value(p, t); idx = []
        while p.eat(','):
            p.eat('inrange')
            if p.peek('('):
                pass
            t = parse_type(p); idx.append((t, parse_value(p, t)))
        p.need(')')
        return ('gep', st, base, idx)
    if w in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.need('('); t = parse_type(p); v = parse_value(p, t); p.need('to'); t2 = parse_type(p); p.need(')')
        return ('cast', w, t, v, t2)
    if w in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'icmp'):
        for x in ('nuw', 'nsw'): p.eat(x)
        pred = p.word() if w == 'icmp' else None
        p.need('('); t = parse_type(p); a = parse_value(p, t); p.need(','); t2 = parse_type(p); b = parse_value(p, t2); p.need(')')
        return ('bin', w, t, a, b, pred)
    raise IRError('value %r in %r' % (w, p.t[:200]))

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'flags', 'x')
    def __init__(s, op, res, line): s.op, s.res, s.line = op, res, line; s.ty = None; s.a = None; s.flags = (); s.x = None
    def __repr__(s): return s.line

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast'}
FAST = {'nuw','nsw','exact','disjoint','nneg','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign','inbounds','nusw'}

def parse_call(p, ins):
    while True:
        w = p.peekword()
        if w in ('tail','musttail','notail','fastcc','coldcc') or w in FAST: p.word()
        else: break
    skip_attrs(p)
    rt = parse_type(p)
    if rt.k == 'func': rt = rt.elems[0]
    # possibly function type already swallowed for varargs
    callee = parse_value(p, PTR)
    p.need('(')
    args = []
    if not p.eat(')'):
        while True:
            t = parse_type(p); at = skip_attrs(p)
            if t.k == 'metadata':
                # skip metadata operand
                d = 0
                while p.t[p.i] not in ',)' or d:
                    if p.t[p.i] == '(': d += 1
                    if p.t[p.i] == ')': d -= 1
                    p.i += 1
                args.append((t, ('undef',), at))
            else:
                args.append((t, parse_value(p, t), at))
            if p.eat(')'): break
            p.need(',')
    ins.ty = rt; ins.a = args; ins.x = callee

def parse_ins(line):
    p = P(line); p.ws(); res = None
    if p.t[p.i] == '%':
        p.i += 1; res = p.name(); p.need('=')
    w = p.word()
    while w in ('tail', 'musttail', 'notail'): w = p.word()
    ins = Ins(w, res, line.strip())
    if w in BIN:
        fl = []
        while p.peekword() in FAST: fl.append(p.word())
        ins.flags = tuple(fl); ins.ty = parse_type(p); a = parse_value(p, ins.ty); p.need(','); b = parse_value(p, ins.ty)
        ins.a = (a, b)
    elif w == 'fneg':
        while p.peekword() in FAST: p.word()
        ins.ty = parse_type(p); ins.a = (parse_value(p, ins.ty),)
    elif w in CAST:
        fl = []
        while p.peekword() in FAST: fl.append(p.word())
        ins.flags = tuple(fl); t = parse_type(p); v = parse_value(p, t); p.need('to'); ins.ty = parse_type(p); ins.a = (t, v)
    elif w in ('icmp', 'fcmp'):
        while p.peekword() in FAST: p.word()
        pred = p.word(); t = parse_type(p); a = parse_value(p, t); p.need(','); b = parse_value(p, t)
        ins.x = pred; ins.ty = t; ins.a = (a, b)
    elif w == 'alloca':
        ins.ty = parse_type(p)
        ins.x = None
        if p.eat(','):
            if not p.peek('align') and not p.peek('addrspace'):
                t = parse_type(p); ins.x = parse_value(p, t)
    elif w == 'load':
        p.eat('atomic'); p.eat('volatile')
        ins.ty = parse_type(p); p.need(','); parse_type(p); ins.a = (parse_value(p, PTR),)
    elif w == 'store':
        p.eat('atomic'); p.eat('volatile')
        t = parse_type(p); v = parse_value(p, t); p.need(','); parse_type(p); a = parse_value(p, PTR)
        ins.ty = t; ins.a = (v, a)
    elif w == 'getelementptr':
        while p.peekword() in FAST: p.word()
        ins.ty = parse_type(p); p.need(','); parse_type(p); base = parse_value(p, PTR); idx = []
        while p.eat(','):
            t = parse_type(p); idx.append((t, parse_value(p, t)))
        ins.a = (base, idx)
    elif w == 'call':
        parse_call(p, ins)
    elif w == 'invoke':
        parse_call(p, ins)
        m = re.search(r'to label %("(?:[^"])*"|[-\w.$]+)\s+unwind label %("(?:[^"])*"|[-\w.$]+)', line[p.i:] if False else line)
        if not m: raise IRError('invoke ' + line)
        ins.flags = (m.group(1).strip('"'), m.group(2).strip('"'))
    elif w == 'br':
        if p.eat('label'):
            p.need('%'); ins.a = (p.name(),)
        else:
            t = parse_type(p); c = parse_value(p, t); p.need(','); p.need('label'); p.need('%'); a = p.name(); p.need(','); p.need('label'); p.need('%'); b = p.name()
            ins.a = (c, a, b)
    elif w == 'switch':
        t = parse_type(p); v = parse_value(p, t); p.need(','); p.need('label'); p.need('%'); d = p.name(); p.need('[')
        cases = []
        while not p.eat(']'):
            tt = parse_type(p); cv = parse_value(p, tt); p.need(','); p.need('label'); p.need('%'); cases.append((cv, p.name()))
        ins.ty = t; ins.a = (v, d, cases)
    elif w == 'ret':
        ins.ty = parse_type(p)
        ins.a = None if ins.ty.k == 'void' else parse_value(p, ins.ty)
    elif w == 'phi':
        while p.peekword() in FAST: p.word()
        ins.ty = parse_type(p); inc = []
        while True:
            p.need('['); v = parse_value(p, ins.ty); p.need(','); p.need('%'); b = p.name(); p.need(']'); inc.append((v, b))
            if not p.eat(','): break
        ins.a = inc
    elif w == 'select':
        while p.peekword() in FAST: p.word()
        t = parse_type(p); c = parse_value(p, t); p.need(','); t1 = parse_type(p); a = parse_value(p, t1); p.need(','); t2 = parse_type(p); b = parse_value(p, t2)
        ins.ty = t1; ins.a = (c, a, b)
    elif w == 'extractvalue':
        ins.ty = parse_type(p); v = parse_value(p, ins.ty); ix = []
        while p.eat(','):
            m = re.compile(r'\s*(\d+)').match(p.t, p.i); p.i = m.end(); ix.append(int(m.group(1)))
        ins.a = (v, ix)
    elif w == 'insertvalue':
        ins.ty = parse_type(p); v = parse_value(p, ins.ty); p.need(','); t = parse_type(p); e = parse_value(p, t); ix = []
        while p.eat(','):
            m = re.compile(r'\s*(\d+)').match(p.t, p.i); p.i = m.end(); ix.append(int(m.group(1)))
        ins.a = (v, e, ix)
    elif w == 'landingpad':
        ins.ty = parse_type(p)
        cl = []; cleanup = False
        rest = p.t[p.i:]
        for m in re.finditer(r'\bcleanup\b|catch ptr (null|@[-\w.$]+)|filter', rest):
            if m.group(0) == 'cleanup': cleanup = True
            elif m.group(0) == 'filter': cl.append('filter')
            else: cl.append(m.group(1).lstrip('@'))
        ins.a = (cleanup, cl)
    elif w == 'resume':
        t = parse_type(p); ins.a = (parse_value(p, t),)
    elif w == 'unreachable':
        pass
    elif w == 'freeze':
        ins.ty = parse_type(p); ins.a = (parse_value(p, ins.ty),)
    elif w in ('atomicrmw', 'cmpxchg', 'fence'):
        ins.a = None
        if w == 'atomicrmw':
            p.eat('volatile'); op = p.word(); parse_type(p); a = parse_value(p, PTR); p.need(','); t = parse_type(p); v = parse_value(p, t)
            ins.ty = t; ins.a = (op, a, v)
    else:
        raise IRError('instruction %r' % line)
    return ins

class Block:
    __slots__ = ('name', 'ins', 'succ')
    def __init__(s, n): s.name, s.ins, s.succ = n, [], []

class Func:
    def __init__(s, mod, name, header, lines):
        s.mod, s.name, s.header, s.lines = mod, name, header, lines
        s._parsed = False
    def parse(s):
        if s._parsed: return s
        h = s.header
        p = P(h); p.need('define')
        # return type: skip linkage words
        while True:
            w = p.peekword()
            if w in ('linkonce_odr','dso_local','internal','weak_odr','hidden','available_externally','private','weak','external','linkonce','unnamed_addr','local_unnamed_addr','comdat'): p.word()
            else: break
        s.retattrs = skip_attrs(p)
        s.ret = parse_type(p) if not p.peek('@') else VOID
        p.need('@'); p.name(); p.need('(')
        s.params = []  # (ty, name, attrs)
        if not p.eat(')'):
            n = 0
            while True:
                if p.eat('...'):
                    p.need(')'); break
                t = parse_type(p); at = skip_attrs(p); nm = None
                if p.eat('%'): nm = p.name()
                else: nm = str(n)
                s.params.append((t, nm, at)); n += 1
                if p.eat(')'): break
                p.need(',')
        s.blocks = {}; s.order = []
        cur = None
        unn = [0]
        i = 0; L = s.lines
        lab = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):')
        while i < len(L):
            ln = L[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            m = lab.match(ln)
            if m:
                nm = m.group(1).strip('"'); cur = Block(nm); s.blocks[nm] = cur; s.order.append(nm); continue
            if cur is None:
                nm = str(len(s.params)) if any(re.fullmatch(r'\d+', q[1]) for q in s.params) else '0'
                cur = Block(nm); s.blocks[nm] = cur; s.order.append(nm)
            st = ln.rstrip()
            # multi-line constructs
            if re.match(r'\s*(%\S+ = )?invoke ', st) and 'unwind label' not in st:
                st += ' ' + L[i].strip(); i += 1
            if st.lstrip().startswith('switch ') and st.rstrip().endswith('['):
                while not L[i].strip().startswith(']'):
                    st += ' ' + L[i].strip(); i += 1
                st += ' ]'; i += 1
            if ' landingpad ' in st or st.lstrip().startswith('landingpad'):
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)', L[i]):
                    st += ' ' + L[i].strip(); i += 1
            # strip metadata
            st = re.sub(r', !\w[\w.]* ![\w]+', '', st)
            cur.ins.append(st)
        for b in s.blocks.values():
            b.ins = [parse_ins(x) for x in b.ins]
            t = b.ins[-1]
            if t.op == 'br': b.succ = list(t.a[-2:]) if len(t.a) == 3 else [t.a[0]]
            elif t.op == 'switch': b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke': b.succ = list(t.flags)
        s.entry = s.order[0]
        # entry label for unnamed
        s._loops()
        s._parsed = True
        s.lines = None
        return s
    def _loops(s):
        # dominators (iterative), natural loops
        preds = {b: [] for b in s.blocks}
        for b in s.blocks.values():
            for t in b.succ: preds[t].append(b.name)
        order = []; seen = set()
        stack = [(s.entry, iter(s.blocks[s.entry].succ))]; seen.add(s.entry)
        while stack:
            n, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); stack.append((t, iter(s.blocks[t].succ))); break
            else:
                order.append(n); stack.pop()
        rpo = order[::-1]
        dom = {n: None for n in rpo}; dom[s.entry] = {s.entry}
        ch = True
        while ch:
            ch = False
            for n in rpo:
                if n == s.entry: continue
                ps = [dom[q] for q in preds[n] if q in dom and dom[q] is not None]
                nd = set.intersection(*ps) | {n} if ps else {n}
                if nd != dom[n]: dom[n] = nd; ch = True
        s.loops = {}  # header -> set(body)
        rp = {n: i for i, n in enumerate(rpo)}
        for n in rpo:
            for t in s.blocks[n].succ:
                if t in dom[n]:
                    body = s.loops.setdefault(t, {t})
                    st = [n]
                    while st:
                        q = st.pop()
                        if q in body: continue
                        body.add(q)
                        st.extend(x for x in preds[q] if x in dom)
                elif rp.get(t, 1 << 30) <= rp[n]:
                    raise IRError('irreducible control flow in ' + s.name)

class Module:
    def __init__(s, text):
        s.types, s.globals, s.funcs, s.decls, s.aliases = {}, {}, {}, {}, {}
        s._rawtypes = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', ln); nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}': j += 1
                s.funcs[nm] = Func(s, nm, ln, lines[i+1:j]); i = j + 1; continue
            if ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', ln)
                if m: s._rawtypes[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln); s.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('declare '):
                m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', ln)
                if m: s.decls[m.group(1).strip('"')] = ln
            i += 1
        for k, v in s.globals.items():
            m = re.search(r'\balias [^,]*, ptr @([-\w.$]+)', v)
            if m: s.aliases[k] = m.group(1)
        s._dem = None; s._lay = {}; s._gl = {}
    def dem(s, name):
        if s._dem is None:
            names = list(s.funcs) + list(s.decls) + list(s.globals)
            r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            s._dem = {n: canon(d) for n, d in zip(names, r)}
        return s._dem.get(name, name)
    def find(s, dem):
        s.dem('')
        r = [n for n, d in s._dem.items() if d == dem and n in s.funcs]
        return r
    def findre(s, rx):
        s.dem(''); r = re.compile(rx)
        return [n for n, d in s._dem.items() if n in s.funcs and r.search(d)]
    def func(s, name):
        name = s.aliases.get(name, name)
        f = s.funcs.get(name)
        return f.parse() if f else None
    def named(s, nm):
        if nm not in s.types:
            raw = s._rawtypes[nm]
            s.types[nm] = parse_type(P(raw))
        return s.types[nm]
    # -------- layout
    def layout(s, ty):
        """(size, align, field offsets)"""
        if ty.k == 'int':
            b = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.w, (ty.w + 7) // 8)
            return b, min(b, 16), None
        if ty.k == 'ptr': return 8, 8, None
        if ty.k == 'double': return 8, 8, None
        if ty.k == 'float': return 4, 4, None
        if ty.k == 'x86_fp80': return 16, 16, None
        if ty.k == 'named':
            if ty.name not in s._lay: s._lay[ty.name] = s.layout(s.named(ty.name))
            return s._lay[ty.name]
        if ty.k == 'array':
            sz, al, _ = s.layout(ty.elems[0]); return sz * ty.n, al, None
        if ty.k == 'struct':
            off = 0; al = 1; offs = []
            for e in ty.elems:
                sz, a, _ = s.layout(e)
                if ty.packed: a = 1
                off = (off + a - 1) // a * a; offs.append(off); off += sz; al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        raise IRError('layout of %r' % ty)
    def resolve(s, ty):
        return s.named(ty.name) if ty.k == 'named' else ty
    def ginit(s, name):
        """(type, value, constant?) of a global, or None"""
        if name in s._gl: return s._gl[name]
        raw = s.globals.get(name); r = None
        if raw is not None:
            m = re.search(r'\b(constant|global) ', raw)
            if m and not re.match(r'external', raw):
                p = P(raw); p.i = m.end()
                try:
                    t = parse_type(p); v = parse_value(p, t); r = (t, v, m.group(1) == 'constant')
                except (IRError, IndexError):
                    r = None
        s._gl[name] = r
        return r

def canon(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = d.replace('[abi:cxx11]', '')
    d = d.replace('std::__cxx11::', 'std::')
    # drop default allocators
    for _ in range(6):
        d2 = re.sub(r', std::allocator<([^<>]|<[^<>]*>)*>( ?)>', r'>', d)
        if d2 == d: break
        d = d2
    d = d.replace('> >', '>>').replace('> >', '>>')
    return d
