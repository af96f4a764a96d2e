"""python3 -m mc.main <ID> : runs one check, writes evidence/<ID>.json, exits 0/1 (2: error of the check)."""
import sys, os, json, time, importlib, traceback
from . import core
def load_known():
    p = os.path.join(core.VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}
def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return str(x)
def main():
    pid = core.PROPERTY = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = importlib.import_module('mc.checks.' + pid.lower())
    t0 = time.time()
    ev_path = os.path.join(core.VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        r, cov = m.run(tier, seed)
    except Exception:
        text = traceback.format_exc()
        if 'mc.clj.Gap: ' not in text:
            print(text, file=sys.stderr)
            sys.exit(2)
        # the interpreter cannot run these sources: nothing was explored, and nothing is claimed
        why = text.split('mc.clj.Gap: ')[-1].split('\n')[0]
        print('INCOMPLETE: property=%s not explored, the interpreter in clj lacks something: %s' % (pid, why))
        r, cov = core.Result(), dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=False, not_explored=why)
    wall = time.time() - t0
    known = {f['key']: f for f in load_known()['findings'] if f['property'] == pid}
    new, seen_known = [], {}
    for v in r.viol:
        if v.get('key') in known: seen_known[v['key']] = v
        else: new.append(v)
    for k in r.known: seen_known[k] = None
    coverage = dict(cov)
    coverage.setdefault('samples', r.samples or ['(none)'])
    coverage['distinct_outcomes'] = len(r.outcomes)
    coverage['counters'] = r.n
    json.dump(jsonable(dict(property=pid, tier=tier, seed=seed, level=m.LEVEL, coverage=coverage,
         assumptions=getattr(m, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(new))), open(ev_path, 'w'), indent=1)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what'] if k in known else k))
    print('%s %s: %s (%.1fs)' % (pid, tier, ', '.join('%s=%s' % kv for kv in sorted(r.n.items())), wall))
    if new:
        d = os.path.join(core.VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(d, '%s-%d.json' % (pid, i))
            json.dump(jsonable(dict(property=pid, **v)), open(path, 'w'), indent=1)
            if i == 0: first = path
            print('  ' + v['message'][:600].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (pid, first))
        sys.exit(1)
    sys.exit(0)
if __name__ == '__main__': main()
