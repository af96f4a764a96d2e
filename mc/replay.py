"""python3 -m mc.replay FILE : runs the case of a replay file again on the built binaries and prints what is answered."""
import sys
from .core import *

def main():
    v = json.load(open(sys.argv[1]))
    print(v['property'] + ': ' + v['message'] + '\n')
    c = v.get('case') or v.get('replay') or v
    if isinstance(c, dict) and c.get('clj') and c.get('cases'):
        from .clj import call, PATH, CLJ
        for x, a in zip(c['cases'], call(c['clj'], c['cases'], path=PATH + ':' + CLJ + '/plugins')): print('>', dumps(x)); print('<', a)
        return
    if not isinstance(c, dict): print(c); return
    d = tempfile.mkdtemp(prefix='replay', dir=tmpdir())
    files = c.get('files') or [['main.beancount', c.get('bean') or '']]
    for n, t in files:
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb').write(t.encode('utf-8', 'surrogateescape'))
        print('--- %s\n%s' % (p, t))
    if c.get('stdin') is not None or c.get('cell') is not None:
        data = (c.get('stdin') if c.get('stdin') is not None else c['cell']).encode('latin-1', 'replace'); args = [POD, 'tabulate']
    elif c.get('lines') is not None:
        data = b''.join(l.encode() + b'\n' for l in c['lines']); args = [POD, 'serve', os.path.join(d, files[0][0])]
    else: print('the case (run by hand):', json.dumps(c, indent=1)); return
    env = dict(CLEAN_ENV, **{k: x for k, x in (c.get('env') or {}).items() if x is not None})
    p = subprocess.run(args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d)
    out = p.stdout.decode('utf-8', 'replace').split('\n')
    if args[1] == 'tabulate': print('\n'.join(out))
    else:
        for l, a in itertools.zip_longest(c['lines'], out[:-1]): print('> %s\n< %s' % (l, a))
    print('exit status %s; stderr %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')))
main()
