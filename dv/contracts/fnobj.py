"""std::function values: one pointer cell holding the identity of the callable (0 = empty)"""
import re
from unit import *
def install(e, call, unknown=True):
    """call(e, st, token term, args, c) -> outcomes"""
    def tok(st, p): v = e.load(st, ir.PTR, p); return toi(e.as_ref(v))
    def isset(e, st, c): return [(st, ('ret', simp(tok(st, c.args[0]) != 0)))]
    def invoke(e, st, c):
        sret = c.rty.k == 'void' and c.attrs and 'sret' in c.attrs[0]; a = c.args[1:] if sret else c.args
        t = tok(st, a[0]); outs = []; s1 = st.copy(); s1.assume(t == 0)
        if e.feasible(s1): outs.append(e.throw(s1, 'std::bad_function_call', e.alloc(s1)))
        s2 = st.copy(); s2.assume(t != 0)
        if e.feasible(s2): outs += call(e, s2, t, a[1:], c)
        return outs
    def ctor(e, st, c):
        p = split_targs(c.q[3]) if c.q[3] else []
        if len(c.args) == 1 or 'nullptr_t' in p[0]: e.store(st, ir.PTR, NULL, c.args[0])
        elif re.match(r'std::function<', p[0]):
            e.store(st, ir.PTR, e.load(st, ir.PTR, c.args[1]), c.args[0])
            if '&&' in p[0]: e.store(st, ir.PTR, NULL, c.args[1])
        else: return None
        return [(st, ('ret', None))]
    def assign(e, st, c):
        p = split_targs(c.q[3])
        if 'nullptr_t' in p[0]: e.store(st, ir.PTR, NULL, c.args[0])
        elif re.match(r'std::function<', p[0]): e.store(st, ir.PTR, e.load(st, ir.PTR, c.args[1]), c.args[0])
        else: return None
        return [(st, ('ret', c.args[0]))]
    def cmpn(e, st, c):
        x = [a for a in c.args if isinstance(a, Ptr) and a.b.kind != 'fn'][0]; r = tok(st, x) == 0
        return [(st, ('ret', simp(r if c.q[1] == 'operator==' else z3.Not(r))))]
    e.contracts += [(re.compile(r'^std::function<.*>::operator bool'), isset), (re.compile(r'(^|[^:\w])std::function<.*>::operator\(\)'), invoke),
                    (re.compile(r'^std::function<.*>::function'), ctor), (re.compile(r'^std::function<.*>::operator='), assign),
                    (re.compile(r'^std::function<.*>::~function|^std::_Function_base::~'), lambda e, st, c: [(st, ('ret', None))]),
                    (re.compile(r'std::operator(==|!=)<.*std::function<.*nullptr_t'), cmpn)]
def offset(c, fn, obj):
    (st, o), = c.e.run(c.st.copy(), fn, [obj]); return o[1].off
