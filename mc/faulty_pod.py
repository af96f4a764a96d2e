#!/usr/bin/python3 -SE
"""Stands before limabean-pod and does with its answers what PATH.plan (serve) or $MC_TABULATE (tabulate) says.
A plan is a JSON list of [request, what, argument]: the request numbered from 1."""
import sys, os, json, subprocess, time, signal
real, args = os.environ['MC_POD'], sys.argv[1:]
def die(how): os.kill(os.getpid(), signal.SIGKILL) if how == 'kill' else os._exit(how or 0)
def put(b):
    while b: b = b[os.write(1, b):]
if args[:1] == ['tabulate']:
    try: plan = json.load(open(os.environ['MC_TABULATE']))
    except OSError: plan = None
    if plan is None: os.execv(real, [real] + args)
    what, arg = plan
    if what == 'die': die(arg)
    text = sys.stdin.buffer.read()
    if what == 'read': die(arg)
    p = subprocess.run([real] + args, input=text, stdout=subprocess.PIPE)
    if what == 'part': put(p.stdout[:len(p.stdout) // 2]); os.write(2, b'out of paper\n'); die(arg)
    if what == 'all': put(p.stdout); os.write(2, b'out of paper\n'); die(arg)
    if what == 'pieces':
        for i in range(0, len(p.stdout), arg): put(p.stdout[i:i + arg])
        die(p.returncode)
    raise SystemExit('plan?')
try: plan = json.load(open(args[1] + '.plan'))
except OSError: os.execv(real, [real] + args)
p = subprocess.Popen([real] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
at = {n: (what, arg) for n, what, arg in plan}
def end(how): p.kill(); p.wait(); die(how)
n = 0
inp = os.fdopen(0, 'rb')
while True:
    n += 1
    what, arg = at.get(n, at.get(0, (None, None)))
    if what == 'before': end(arg)
    l = inp.readline()
    if not l:
        if at.get(-1): time.sleep(60)
        if at.get(-2): open(args[1] + '.n', 'w').write(str(n - 1))
        p.stdin.close(); p.wait(); break
    if what == 'read': end(arg)
    p.stdin.write(l); p.stdin.flush()
    a = p.stdout.readline()
    if what == 'cut': put(a[:arg if arg >= 0 else len(a) + 1 + arg]); end(0)
    elif what == 'pieces':
        i, size = 0, max(arg, len(a) // 12)
        while i < len(a): put(a[i:i + size]); i += size; time.sleep(0.001)
    elif what == 'chat':
        os.write(2, b'limabean-pod: x' * 5000); put(a)
    else: put(a)
