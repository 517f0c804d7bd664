#!/usr/bin/env python3-vt
"""check.py <ID> : decide one property of hedzr/cmdr-cxx on /repo's current tree (see ../DESIGN.md)."""
import sys, os, time, json, importlib, subprocess, threading, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(HERE, 'contracts')]
sys.setrecursionlimit(20000)
import build, ir, unit as unitmod
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                f = dict(x.split('=', 1) for x in l[7:].split('\t')[0].split(' ', 2)[:1])
                parts = l.split('\t')
                out.append((parts[1], parts[2] if len(parts) > 2 else '', parts[3] if len(parts) > 3 else ''))   # family, case text, what fails
    except FileNotFoundError: pass
    return out

_mods = {}
SCALE = 1
def scaled(o): return dict(o, maxtime=o.get('maxtime', 400) * min(SCALE, 3), prove_ms=o.get('prove_ms', 15000) * SCALE, cvc5_ms=o.get('cvc5_ms', 10000) * SCALE)
def worker(q, name, idx, pid):
    try:
        import z3
        c = importlib.import_module(name)
        u = c.units()[idx]
        if SCALE > 1: u.opts = scaled(u.opts)
        r = unitmod.run_unit(u, _mods[u.tu])
    except BaseException as x:
        r = dict(unit='#%d' % idx, fn='', what='', status='undecided', reason='engine error: ' + traceback.format_exc()[-600:], obls=[], reach=[], loops=[], assumed=[], contracts_used=[], inlined=0, inlined_repo=[], queries=0, solver_ms=0, secs=0)
    q.put((idx, r))

def run_units(name, us, budget, jobs=7, only=None):
    """each unit in its own process, with a time limit"""
    ctx = mp.get_context('fork'); q = ctx.Queue(); res = {}; run = {}; todo = list(range(len(us))) if only is None else only
    end = time.time() + budget
    order = sorted(todo, key=lambda i: -us[i].opts.get('weight', 1)); 
    while len(res) < len(todo):
        while order and len(run) < jobs and time.time() < end:
            i = order.pop(0); p = ctx.Process(target=worker, args=(q, name, i, '')); p.start(); run[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5); res[i] = r
            p = run.pop(i, None)
            if p: p[0].join(5)
        except Exception: pass
        for i, (p, t) in list(run.items()):
            lim = us[i].opts.get('maxtime', 400) * min(SCALE, 3) * 1.3 + 60
            if i not in res and (not p.is_alive() and q.empty() and time.time() - t > 2 or time.time() - t > lim or time.time() > end + 5):
                why = 'time limit' if p.is_alive() else 'verifier process died'
                if p.is_alive(): p.kill()
                p.join(5); run.pop(i)
                if i not in res: res[i] = blank(us[i], why)
        if time.time() > end and order:
            for i in order: res[i] = blank(us[i], 'time limit (not started)')
            order = []
    return [res[i] for i in todo]
def blank(u, why):
    return dict(unit=u.name, fn=u.fn, what=u.what, status='undecided', reason=why, obls=[], reach=[], loops=[], assumed=[], contracts_used=[], inlined=0, inlined_repo=[], queries=0, solver_ms=0, secs=0)

def run_harness(name, secs, casefile, out, seed=SEED):
    try:
        exe = build.harness(name)
    except build.BuildError as x:
        out['error'] = 'harness does not build: ' + str(x)[-800:]; return
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
    scratch = os.path.join(build.CACHE, 'scratch-%d' % os.getpid()); os.makedirs(scratch, exist_ok=True)
    cmd = [exe, '--seed', str(seed), '--secs', str(secs)] + (['--case', casefile] if casefile else [])
    try:
        r = subprocess.run(cmd, capture_output=True, env=env, cwd=scratch, timeout=max(30, min(secs * 2 + 240, (870 if os.environ.get('VERIF_TIER', 'quick') == 'quick' and '--thorough' not in sys.argv else 9e9) - (time.time() - T0))), stdin=subprocess.DEVNULL)
        txt = r.stdout.decode('latin-1')
    except subprocess.TimeoutExpired as x:
        txt = (x.stdout or b'').decode('latin-1'); out['error'] = 'harness time limit'
    finally:
        subprocess.run(['rm', '-rf', scratch])
    for l in txt.split('\n'):
        f = l.split('\t')
        if f[0] == 'FAIL' and len(f) >= 4: out['fails'].append((f[1], f[2], f[3]))
        elif f[0] == 'FAMILY' and len(f) >= 4: out['families'].append((f[1], int(f[2]), int(f[3])))
        elif f[0] == 'SAMPLE': out['samples'].append(f[1])

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    name = pid.lower(); c = importlib.import_module(name)
    budget = 560 if tier == 'quick' else 3000
    us = c.units()
    # extraction of the real code, harness build in parallel
    hout = dict(fails=[], families=[], samples=[])
    hsecs = getattr(c, 'HSECS', 25) * (1 if tier == 'quick' else 8)
    ht = threading.Thread(target=run_harness, args=(getattr(c, 'HARNESS', name), hsecs, None, hout)); ht.start()
    builderr = {}
    def prep(tu):
        try: _mods[tu] = ir.Module(build.ir_text(tu)); _mods[tu].dem('')
        except build.BuildError as x: builderr[tu] = str(x)[-600:]
        except ir.IRError as x: builderr[tu] = str(x)[-600:]
    ts = [threading.Thread(target=prep, args=(tu,)) for tu in sorted({u.tu for u in us})]
    for t in ts: t.start()
    for t in ts: t.join()
    global SCALE
    if tier == 'thorough': SCALE = 4
    ok = [u for u in us if u.tu not in builderr]
    ht.join(0)
    res = []
    if ok:
        # workers re-import the contract module: keep the index of the full list
        idx = [i for i, u in enumerate(us) if u.tu not in builderr]
        full = run_units(name, us, budget) if len(idx) == len(us) else [blank(u, 'extraction failed: ' + builderr[u.tu]) for u in us]
        res = full
        # a second attempt, with longer limits and less load, at what the solvers left open
        ht.join(); left = min(300, budget + 60 - (time.time() - T0)); again = [i for i, r in enumerate(res) if r['status'] == 'undecided' and r['reason'].startswith('not discharged')]
        if tier == 'quick' and again and not hout['fails'] and left > 60 and len(idx) == len(us):
            SCALE = 4
            for i, r in zip(again, run_units(name, us, left, jobs=4, only=again)):
                if r['status'] != 'undecided': res[i] = r
            SCALE = 1
    else: res = [blank(u, 'extraction failed: ' + builderr.get(u.tu, '')) for u in us]
    ht.join()
    failed = [r for r in res if r['status'] == 'failed']
    # replay the verifier's counter-models on the real code
    models = []
    for r in failed:
        for o in r['obls']:
            if o.get('model'): models.append((r['unit'], o))
    if models and 'error' not in hout:
        cf = os.path.join(build.CACHE, 'case-%s-%d.txt' % (pid, os.getpid()))
        with open(cf, 'w') as f:
            for un, o in models:
                for k, v in o['model'].items(): f.write('%s=%s\n' % (k, v[1:-1] if v.startswith('"') else v))
                f.write('\n')
        h2 = dict(fails=[], families=[], samples=[]); run_harness(getattr(c, 'HARNESS', name), max(10, hsecs / 2), cf, h2)
        os.unlink(cf)
        hout['fails'] = h2['fails'] + hout['fails']
        hout['families'] = h2['families'] if not hout['families'] else hout['families']
    # an obligation that failed or could not be decided: look longer for a failing input, with other seeds
    if not hout['fails'] and any(r['status'] != 'proved' for r in res):
        spare = (830 if tier == 'quick' else 3400) - (time.time() - T0)
        if 'error' not in hout and spare > 60:
            h3 = dict(fails=[], families=[], samples=[]); run_harness(getattr(c, 'HARNESS', name), min(100, spare / 2 - 10) if tier == 'quick' else min(600, spare / 2), None, h3, SEED + 1000)
            hout['fails'] = h3['fails']
            more = {a: (b, n) for a, b, n in h3['families']}
            hout['families'] = [(a, b + more.get(a, (0, 0))[0], n + more.get(a, (0, 0))[1]) for a, b, n in hout['families']]
    kn = known(pid); hit = set(); viol = []
    for f in hout['fails']:
        m = [k for k in kn if k[0] == f[0] and (k[1] == f[1])]
        if m: hit.add(m[0])
        else: viol.append(f)
    # known findings of obligations
    kob = [k for k in kn if k[0] == 'obligation']
    newfailed = []
    for r in failed:
        bad = sorted({o['name'] for o in r['obls'] if o['status'] == 'sat'})
        left = [b for b in bad if not any(k[1] == r['unit'] + ': ' + b for k in kob)]
        for k in kob:
            if any(k[1] == r['unit'] + ': ' + b for b in bad): hit.add(k)
        if left: newfailed.append((r, left))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2] or k[1]))
    exitcode = 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    rp = os.path.join(VERIF, 'replays', '%s.txt' % pid)
    if viol or newfailed:
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            for fam, case, why in viol[:20]: f.write('failing input [%s]: %s\n    %s\n' % (fam, case, why))
            for r, left in newfailed:
                f.write('failed obligation in %s (%s): %s\n' % (r['unit'], r['fn'], '; '.join(left)))
                for o in r['obls']:
                    if o['status'] != 'valid': f.write('    %s: %s by %s\n      model: %s\n      goal: %s\n' % (o['name'], o['status'], o['backend'], o.get('model'), o.get('goal')))
            if viol: f.write('re-run: VERIF_SEED=%d python3-vt dv/check.py %s\n' % (SEED, pid))
        tail = '' if viol else ' no-failing-input-found'
        for fam, case, why in viol[:5]: print('failing input [%s]: %s -- %s' % (fam, case[:300], why[:300]))
        for r, left in newfailed: print('failed obligation: %s: %s' % (r['unit'], '; '.join(left)[:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail)); exitcode = 1
    elif os.path.exists(rp): os.unlink(rp)
    # evidence
    obl = [o for r in res for o in r['obls']]; dis = [o for o in obl if o['status'] == 'valid']
    be = {}
    for o in dis: k = o['backend'].split(':')[0]; be[k] = be.get(k, 0) + 1
    trusted = sorted({a for r in res for a in r['assumed']})
    und = [dict(unit=r['unit'], reason=r['reason'][:400]) for r in res if r['status'] == 'undecided']
    level = c.LEVEL if hasattr(c, 'LEVEL') else 'proof'
    cov = dict(obligations=len(obl), discharged=len(dis), checker_cmd='python3-vt dv/check.py %s' % pid, trusted_base=trusted,
               functions_under_contract=[dict(unit=r['unit'], entry=r['fn'], status=r['status'], obligations=len(r['obls']), discharged=sum(o['status'] == 'valid' for o in r['obls']),
                                              repo_functions_executed=r['inlined_repo'], callee_contracts=r['contracts_used'], loops=len(r['loops']), secs=r['secs'], reachable=[x[1] for x in r['reach']]) for r in res],
               back_ends=be, solver_queries=sum(r['queries'] for r in res), solver_ms=sum(r['solver_ms'] for r in res),
               undecided=und, loop_invariants={r['unit']: [dict(fn=l['fn'][:120], invariants=l['invariants']) for l in r['loops']] for r in res if r['loops']},
               bounded=dict(note='concrete replay harness on the real code (bounded, never counted as proved)', families=[dict(name=a, cases=b, nontrivial=n) for a, b, n in hout['families']], error=hout.get('error', ''), functions=getattr(c, 'BOUNDED', [])),
               evaluations=sum(b for _, b, _ in hout['families']), distinct_nontrivial=sum(n for _, _, n in hout['families']),
               rule='bounded harness: enumerated small inputs plus seeded random ones; non-trivial as marked by each family', samples=hout['samples'][:6],
               explanation=getattr(c, 'EXPLAIN', ''))
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=getattr(c, 'ASSUME', []) + COMMON, wall_s=round(time.time() - T0, 1), violations=1 if exitcode else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d/%d functions proved, %d undecided; %d concrete cases; %.0f s' % (pid, len(obl), len(dis), sum(r['status'] == 'proved' for r in res), len(res), len(und), cov['evaluations'], time.time() - T0))
    for u in und: print('  undecided: %s: %s' % (u['unit'], u['reason'][:200]))
    if hout.get('error'): print('  harness: ' + hout['error'][:300])
    sys.stdout.flush()
    os._exit(exitcode)
COMMON = ['clang-18 -O0 IR (SROA, simplifycfg) of the headers represents the code the project builds with g++',
          'standard library functions satisfy the contracts in dv/models.py (listed in trusted_base)',
          'container and text lengths stay below 2^62; memory allocation succeeds',
          'distinct by-value objects do not overlap in memory (typed, byte-offset memory model)',
          'the VC generator dv/*.py and the solvers z3 / cvc5 are trusted']
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.stdout.flush(); os._exit(2)
