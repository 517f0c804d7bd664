"""C13: integers to text (conv::itoa)"""
from unit import *
L = z3.Length
def pairs(i): return 48 + z3.If(i % 2 == 0, (i / 2) / 10, (i / 2) % 10)
def pairs0(i): return z3.If(i == 200, z3.IntVal(0), pairs(i))
def itoa(signed, neg=False, digits=None):
    def go(c):
        e = c.e; e.tables += [pairs, pairs0]; out = c.outtext()
        m = z3.Int('magnitude'); lo, hi = (10 ** (digits - 1) if digits > 1 else 0), 10 ** digits - 1
        hi = min(hi, (1 << 31) if neg else (1 << 31) - 1 if signed else (1 << 32) - 1)
        if neg: lo = max(lo, 1)
        ds = [z3.Int('d%d' % j) for j in range(digits)]     # decimal digits, least significant first: every magnitude has exactly one such list
        for d in ds: c.st.assume(z3.And(d >= 0, d <= 9))
        c.st.assume(m == sum(d * 10 ** j for j, d in enumerate(ds)))
        c.st.assume(z3.And(m >= lo, m <= hi)); c.inputs['n'] = -m if neg else m
        n = I(-m, 32, -hi, -lo) if neg else I(m, 32, lo, hi)
        e.unroll_fns["itoa"] = 12
        outs = c.call([n, out])
        def post(st, v):
            t = simp(e.rdstr(st, out)); us = e.units(t)
            if us is None: raise Unsupported('result text is not built character by character')
            want = ([z3.IntVal(45)] if neg else []) + [48 + ds[digits - 1 - j] for j in range(digits)]
            if len(us) != len(want): return z3.BoolVal(False)
            return z3.And(*[a == b for a, b in zip(us, want)])
        c.post(outs, 'the text is the decimal representation', post)
    return go
def units():
    U = []
    for d in range(1, 11):
        o = dict(charbuf=True, decide=True)
        U.append(Unit('itoa(int) %d digits' % d, 'strings', 'dv_itoa_i', itoa(True, False, d), o))
        U.append(Unit('itoa(int) negative, %d digits' % d, 'strings', 'dv_itoa_i', itoa(True, True, d), o))
        U.append(Unit('itoa(unsigned) %d digits' % d, 'strings', 'dv_itoa_u', itoa(False, False, d), o))
    return U
HARNESS = 'c13'
NOTE = 'proof for all 2^33 inputs, split by number of digits; the digit loops run at most 11 times for every input (shown by the path conditions), so full unrolling is exact; trusts clang IR, std::string::resize, z3/cvc5'
ASSUME = ['the unaligned 16-bit copies of digit pairs behave as on x86-64 (little-endian, unaligned access allowed)']
