import sys, importlib, time, json
sys.path.insert(0, '/verif/dv'); sys.path.insert(0, '/verif/dv/contracts'); sys.setrecursionlimit(20000)
import build, ir, unit
mod = importlib.import_module(sys.argv[1]); pat = sys.argv[2] if len(sys.argv) > 2 else ''
mods = {}
for u in mod.units():
    if pat not in u.name: continue
    if u.tu not in mods: mods[u.tu] = ir.Module(build.ir_text(u.tu))
    r = unit.run_unit(u, mods[u.tu])
    print('==', r['unit'], r['status'], r['reason'][:1500], 'obls', len(r['obls']), 'secs', r['secs'], 'q', r['queries'], r['reach'])
    seen = set()
    for o in r['obls']:
        if o['status'] != 'valid' and (o['name'], o['status']) not in seen: seen.add((o['name'], o['status'])); print('    ', o['name'], o['status'], o['detail'], o['backend'], o.get('model'), ' '.join(o.get('goal','').split())[:260])
    if '-v' in sys.argv:
        for l in r['loops']: print('   loop', l)
        print('   assumed', r['assumed']); print('   contracts', r['contracts_used']); print('   inlined', r['inlined_repo'])
