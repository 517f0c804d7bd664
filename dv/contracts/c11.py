"""C11: affix tests, stripping, trimming (cmdr_string.hh)"""
from unit import *
L = z3.Length
BLANK = [ord(c) for c in ' \n\r\t\v\f']; QUOTE = [34, 39]
def affix(pre, cstr):
    def go(c):
        p, s = c.text('s'); q, a = (c.ctext('affix') if cstr else c.text('affix'))
        outs = c.call([p, q])
        spec = z3.PrefixOf(a, s) if pre else z3.SuffixOf(a, s)
        c.post(outs, 'answers exactly whether the text %s the affix' % ('starts with' if pre else 'ends with'), lambda st, v: z3.And(tob(v) == spec, c.e.rdstr(st, p) == s))
    return go
def strip(c):
    p, s = c.text('s'); a_, a = c.ctext('pre'); b_, b = c.ctext('post'); out = c.outtext()
    # a text shorter than prefix plus suffix carries both affixes only by overlapping: not specified
    c.st.assume(z3.Not(z3.And(z3.PrefixOf(a, s), z3.SuffixOf(b, s), L(s) < L(a) + L(b))))
    outs = c.call([out, p, a_, b_])
    i = z3.If(z3.PrefixOf(a, s), L(a), 0); j = z3.If(z3.SuffixOf(b, s), L(s) - L(b), L(s))
    c.post(outs, 'removes exactly the given prefix and suffix', lambda st, v: c.e.rdstr(st, out) == z3.SubString(s, i, j - i))
def kept(c, s, out, codes, left, right, what):
    """the text left in `out` is s without exactly the runs of `codes` at the named ends"""
    def post(st, v):
        r = c.e.rdstr(st, out); sp = c.span(st, r, s)
        if sp is None: raise Unsupported('result is not a part of the text: %s' % str(simp(r))[:300])
        i, n = sp
        at = lambda k: incodes(c.e.charat(st, s, k), codes)
        cl = [0 <= i, 0 <= n, i + n <= L(s)]
        # what is cut off is strippable, what stays is not
        cut_l, cut_r = c.e.allin(s, 0, i, codes), c.e.allin(s, i + n, L(s), codes)
        if left and right: cl.append(z3.If(n > 0, z3.And(cut_l, cut_r, z3.Not(at(i)), z3.Not(at(i + n - 1))), c.e.allin(s, 0, L(s), codes)))
        elif left: cl.append(z3.If(n > 0, z3.And(cut_l, i + n == L(s), z3.Not(at(i))), c.e.allin(s, 0, L(s), codes)))
        else: cl.append(z3.If(n > 0, z3.And(cut_r, i == 0, z3.Not(at(n - 1))), c.e.allin(s, 0, L(s), codes)))
        return z3.And(*cl)
    return post
def scan(c, s, codes):
    """loop-invariant candidates: the text up to / from a position is strippable"""
    c.e.lenterms.append(('|s|', L(s)))
    def cand(ls):
        r = []
        for n, v in ls.vals.items():
            if isinstance(v, I): i = toi(v.canon())
            elif isinstance(v, Ptr) and v.b.kind == 'strd': i = toi(v.idx) + v.off
            else: continue
            r += [('strippable before ' + n, c.e.allin(s, 0, i, codes)), ('strippable from ' + n, c.e.allin(s, i, L(s), codes))]
        return r
    c.e.loopcands.append(cand)
def strips(codes, left, right, inplace=False):
    def go(c):
        p, s = c.text('s'); out = p if inplace else c.outtext(); scan(c, s, codes)
        outs = c.call([p] if inplace else [out, p])
        c.post(outs, 'removes exactly the run of %s' % ('quotes' if codes is QUOTE else 'blanks'), kept(c, s, out, codes, left, right, ''))
    return go
def trim(left, right, inplace=False): return strips(BLANK, left, right, inplace)
def units():
    U = []
    for n, pre, cs in (('has_prefix(text)', 1, 1), ('has_prefix(string)', 1, 0), ('has_suffix(text)', 0, 1), ('has_suffix(string)', 0, 0)):
        U.append(Unit(n, 'strings', 'dv_has_%s_%s' % ('prefix' if pre else 'suffix', 'c' if cs else 's'), affix(pre, cs)))
    U.append(Unit('strip', 'strings', 'dv_strip', strip))
    U.append(Unit('trim', 'strings', 'dv_trim', trim(1, 1)))
    U.append(Unit('trim_left', 'strings', 'dv_trim_left', trim(1, 0)))
    U.append(Unit('trim_right', 'strings', 'dv_trim_right', trim(0, 1)))
    U.append(Unit('trim_left_space', 'strings', 'dv_trim_left_space', trim(1, 0, True)))
    U.append(Unit('trim_right_space', 'strings', 'dv_trim_right_space', trim(0, 1, True)))
    U.append(Unit('trim_left_space(rvalue)', 'strings', 'dv_trim_left_space_r', trim(1, 0)))
    U.append(Unit('trim_right_space(rvalue)', 'strings', 'dv_trim_right_space_r', trim(0, 1)))
    U.append(Unit('strip_quotes', 'strings', 'dv_strip_quotes', strips(QUOTE, 1, 1)))
    return U
HARNESS = 'c11'
NOTE = 'unbounded proof per function over all texts; trusts std::string contracts, clang IR, z3/cvc5; a bounded concrete harness runs beside it only to produce failing inputs'
ASSUME = ['strip: a text shorter than the given prefix and suffix together, carrying both by overlap, is left unspecified',
          'constant text arguments (char const*) are valid NUL-terminated texts']
