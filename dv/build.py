"""Extraction: compile a translation unit that includes /repo's real headers to LLVM IR, on every run."""
import os, subprocess, hashlib, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('DV_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
INC = ['-I' + REPO + '/libs/cmdr11/include', '-I' + VERIF + '/gen']
DEF = ['-DENABLE_ASSERTS=1']
CXX = ['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-std=c++17']
class BuildError(Exception): pass
def _run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode: raise BuildError(' '.join(cmd[:3]) + ': ' + r.stderr[-2000:])
    return r.stdout
def includes():
    return INC
def ir_text(tu, extra=()):
    """IR of dv/tu/<tu>.cc against the current /repo; cached by preprocessed text"""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(HERE, 'tu', tu + '.cc')
    base = CXX + INC + DEF + list(extra)
    pp = _run(base + ['-E', '-P', src])
    key = hashlib.sha256((pp + '|v3|' + ' '.join(extra)).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, tu + '-' + key + '.ll')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        _run(base + ['-O0', '-w', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-Xclang', '-fno-access-control', '-S', '-emit-llvm', src, '-o', tmp])
        _run(['opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt', '-passes=sroa,simplifycfg', '-S', tmp, '-o', tmp + '2'])
        os.rename(tmp + '2', out); os.unlink(tmp)
    return open(out).read()
def harness(name, sanitize=True, extra=()):
    """compile dv/replay/<name>.cc against the current /repo -> executable path"""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(HERE, 'replay', name + '.cc')
    base = ['g++', '-std=c++17', '-fno-access-control'] + INC + DEF + list(extra)
    pp = _run(base + ['-E', '-P', src])
    thread = open(src).readline().startswith('// flags: thread')
    fl = ['-O1', '-g0', '-w'] + (['-fsanitize=thread'] if thread else ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'] if sanitize else [])
    key = hashlib.sha256((pp + '|h2|' + ' '.join(fl)).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, 'h-' + name + '-' + key)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        _run(base + fl + [src, '-o', tmp, '-lpthread'])
        os.rename(tmp, out)
    return out
