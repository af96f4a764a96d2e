"""helpers of the demonstrations: run the built binaries of /repo (the current directory) on scratch files"""
import json, os, shutil, subprocess, sys, tempfile
BIN = os.path.join(os.getcwd(), 'rust', 'target', 'debug')
ENV = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}
D = tempfile.mkdtemp(prefix='demo')
class Num(str):
    def __repr__(self): return 'Num(%s)' % str(self)
def loads(s): return json.loads(s, parse_float=Num, parse_int=Num)
def done(ok, *what):
    shutil.rmtree(D, ignore_errors=True)
    if not ok: print('WRONG:', *what)
    sys.exit(0 if ok else 1)
def write(files):
    for n, x in files.items():
        p = os.path.join(D, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb').write(x if isinstance(x, bytes) else x.encode())
def run(args, data=b'', env=None, binary='limabean-pod', cwd=None):
    return subprocess.run([os.path.join(BIN, binary)] + list(args), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(ENV, **(env or {})), cwd=cwd or D, timeout=60)
def lines(text, raw, name='x.beancount'):
    """raw bytes of requests; answers as values"""
    write({name: text})
    r = run(['serve', os.path.join(D, name)], raw)
    return [loads(l) for l in r.stdout.decode().splitlines()], r
def req(method, params=None, id=1):
    r = dict(jsonrpc='2.0', id=id, method=method)
    if params is not None: r['params'] = params
    return r
def ask(text, *reqs):
    return lines(text, b''.join(json.dumps(r, ensure_ascii=False).encode() + b'\n' for r in reqs))[0]
def book(text):
    """outcome of booking a ledger: ('ok', directives) or ('errors', reports)"""
    a = ask(text, req('book'))[0]
    return ('ok', a['result']['directives']) if 'result' in a else ('errors', a['error']['data'])
def errors(text):
    """[(first line of the ledger a report points at, reason)], sorted"""
    k, x = book(text)
    if k == 'ok': return []
    b = text.encode()
    return sorted((b[:int(r['span'][1])].count(b'\n') + 1, r['reason']) for r in x)
def error_lines(text): return [l for l, _ in errors(text)]
STUB = '''#!/bin/sh
{ for a in "$@"; do printf '<%s>' "$a"; done; echo; } >> "$DEMO_LOG"
eval "${DEMO_DO:-exit 0}"
'''
def launch(args, env=None, stubs=('java', 'clojure'), do='exit 0', bodies={}):
    """runs the launcher: (exit status, [(program, args text)], stderr, stdout)"""
    p = os.path.join(D, 'path'); shutil.rmtree(p, ignore_errors=True); os.makedirs(p)
    logs = {}
    for s in stubs:
        log = os.path.join(D, s + '.log')
        if os.path.exists(log): os.unlink(log)
        logs[s] = log
        open(os.path.join(p, s), 'w').write('#!/bin/sh\nDEMO_LOG=%s\n' % log + (bodies.get(s) or STUB.split('\n', 1)[1])); os.chmod(os.path.join(p, s), 0o755)
    r = run(args, env=dict({'PATH': p + ':/usr/bin:/bin', 'DEMO_DO': do}, **(env or {})), binary='limabean')
    return r.returncode, [(s, open(l, encoding='utf-8', errors='surrogateescape').read()) for s, l in logs.items() if os.path.exists(l)], r.stderr.decode(), r.stdout.decode()
# -- the Clojure half, on an interpreter (clj.tgz) ----------------------------------------------------------------
import atexit
def clj(script, files={}, env={}, cwd=None, stdin=''):
    """stdout of a Clojure script using the sources below clj/ of the current directory; {D} is a scratch directory"""
    here, k = os.path.dirname(os.path.abspath(__file__)), os.path.join(D, 'clj')
    if not os.path.exists(k):
        os.makedirs(k + '/out')
        subprocess.run(['tar', 'xzf', here + '/clj.tgz', '-C', k], check=True)
        s = k + '/src/clojure/lang'
        subprocess.run(['javac', '-nowarn', '-Xlint:none', '-d', k + '/out'] + [s + '/' + f for f in os.listdir(s)], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    write(files); write({'t.clj': script.replace('{D}', D)})
    src = os.path.join(os.getcwd(), 'clj')
    r = subprocess.run(['java', '-Xss64m', '-XX:+UseSerialGC', '-Dfile.encoding=UTF-8', '-Dclj.path=' + ':'.join([k + '/lib', src + '/src', src + '/resources', D]), '-cp', k + '/out', 'clojure.lang.Main', D + '/t.clj'], input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict({k_: v for k_, v in ENV.items()}, PATH=BIN + ':' + os.environ.get('PATH', '/usr/bin:/bin'), **{a: b.replace('{D}', D) for a, b in env.items()}), cwd=cwd or D, timeout=120)
    sys.stderr.write(r.stderr.decode()[-2000:])
    return r.stdout.decode()
LOAD = '''(require 'limabean 'limabean.user '[limabean.core.filters :as f] '[limabean.adapter.show :refer [show]])
(binding [*err* (java.io.StringWriter.)] (limabean.user/load-beanfile "{D}/x.beancount"))
(def beans limabean.user/*beans*)
'''
def loaded(text, script, files={}, env={}):
    """stdout of a script with a ledger loaded as beans"""
    return clj(LOAD + script, dict({'x.beancount': text}, **files), env)
OPEN = '2018-01-01 open Assets:A\n2018-01-01 open Assets:B\n2018-01-01 open Equity:X\n'
def txn(*postings, date='2020-01-02', head='*'): return '%s %s\n' % (date, head) + ''.join('  %s\n' % p for p in postings)
