"""second opinion: cvc5 on the same query, through SMT-LIB text"""
import subprocess, tempfile, os, re, z3
def cvc5_check(fs, ms):
    sv = z3.Solver()
    for f in fs: sv.add(f)
    txt = sv.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    txt = txt.replace('(int_to_str', '(str.from_int')
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as h: h.write(txt)
        try:
            r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % ms, fn], capture_output=True, text=True, timeout=ms / 1000 + 5)
        except subprocess.TimeoutExpired:
            return 'unknown', 'cvc5:timeout'
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        if o in ('sat', 'unsat'): return o, 'cvc5'
        return 'unknown', 'cvc5:' + (o or r.stderr[:80])
    finally: os.unlink(fn)
