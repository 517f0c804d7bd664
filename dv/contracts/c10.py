"""C10: boolean texts (variable::parse_bool)"""
from unit import *
L = z3.Length
TRUE = ['1', 't', 'true', 'y', 'yes', 'on']; FALSE = ['0', 'f', 'false', 'n', 'no', 'off']
def parse_bool(c):
    e = c.e
    isp = e.newloc('is'); inp = z3.Const('text', S_SORT); p0 = z3.Int('start'); c.inputs['text'] = inp; c.inputs['start'] = p0
    c.st.assume(z3.And(p0 >= 0, p0 <= L(inp), L(inp) <= models.MAXLEN))
    e.wr(c.st, isp, 'in', S_SORT, inp); e.wr(c.st, isp, 'inpos', I_SORT, p0)
    e.wr(c.st, isp, 'infail', B_SORT, z3.BoolVal(False)); e.wr(c.st, isp, 'ineof', B_SORT, z3.BoolVal(False))
    xp = e.newloc('x'); x0 = z3.Int('x_before'); c.st.assume(z3.Or(x0 == 0, x0 == 1)); e.wr(c.st, xp, 'i8', I_SORT, x0)
    outs = c.call([isp, xp])
    def ch(st, i): return e.charat(st, inp, i)
    def eqc(st, i, k):
        cs = {ord(k), ord(k.upper())}
        return z3.Or(*[ch(st, i) == v for v in cs])
    def spelled(st, w): return z3.And(p0 + len(w) <= L(inp), *[eqc(st, p0 + i, k) for i, k in enumerate(w)])
    def letter(st, i): v = ch(st, i); return z3.Or(z3.And(v >= 65, v <= 90), z3.And(v >= 97, v <= 122))
    def val(st): return toi(e.load(st, ir.INT(8), xp).u())
    def pos(st): return toi(e.rd(st, isp, 'inpos', I_SORT))
    def ok(v): return tob(v)
    for st, o in outs:
        if o[0] != 'ret': e.oblige(st, 'does not throw', False); continue
        c.reached(st, 'return'); r = ok(o[1]); k = pos(st) - p0
        e.oblige(st, 'what is accepted as true is a documented true spelling and exactly that is consumed', z3.Implies(z3.And(r, val(st) != 0), z3.Or(*[z3.And(k == len(w), spelled(st, w)) for w in TRUE])))
        e.oblige(st, 'what is accepted as false is a documented false spelling and exactly that is consumed', z3.Implies(z3.And(r, val(st) == 0), z3.Or(*[z3.And(k == len(w), spelled(st, w)) for w in FALSE])))
        e.oblige(st, 'a rejected text leaves value and stream position unchanged', z3.Implies(z3.Not(r), z3.And(k == 0, val(st) == x0)))
        for ws, v in ((TRUE, 1), (FALSE, 0)):
            for w in ws:
                e.oblige(st, 'the complete word %s is accepted as %s' % (w, bool(v)), z3.Implies(z3.And(spelled(st, w), z3.Or(p0 + len(w) == L(inp), z3.Not(letter(st, p0 + len(w))))), z3.And(r, val(st) == v, k == len(w))))
def units():
    return [Unit('parse_bool', 'vars', 'dv_parse_bool', parse_bool, dict(maxtime=300))]
HARNESS = 'c10'
NOTE = 'proof of parse_bool for every text and start position over contracts of istream peek/get/unget; reading a bool variable through the parser registry is only covered by the bounded harness'
ASSUME = ['istream::peek / get / unget behave as the C++ standard says on a stream over a text']
