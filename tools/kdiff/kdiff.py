#!/usr/bin/env python3
"""kdiff.py [COUNT [SEED]]: random changes, shown to the real kernel and to the simulated one, whose notification records are compared.
A tool for whoever changes sim/kernel.cpp; no check uses it. It works in a directory of its own under /dev/shm, as root."""
import difflib, os, random, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, V)
import mk
d = tempfile.mkdtemp(prefix='kdiff.'); real = tempfile.mkdtemp(prefix='kdiff.', dir='/dev/shm')
n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
mk.run(['g++', '-std=c++17', '-g', '-include', 'cstdarg', f'{H}/raw.cpp', f'{H}/raw_real.cpp', '-o', f'{d}/real'])
sim = mk.build_sim(d)
objs = []
for f in ('raw', 'raw_glue'):
    mk.run(['g++', '-std=c++17', '-g', '-U_FORTIFY_SOURCE', '-include', 'cstdarg', '-c', f'{H}/{f}.cpp', '-o', f'{d}/{f}.o']); objs.append(f'{d}/{f}.o')
mk.link(sim, objs, f'{d}/sim')
def plan():
    names = ['a', 'b', 'c', 'd', 'e'][:rnd.randint(2, 5)]
    def path():
        root = rnd.choice(['/w/b'] * 4 + ['/w/o'])
        if rnd.random() < .03: return root
        return root + ''.join('/' + rnd.choice(names) for _ in range(rnd.choice([1, 1, 2, 2, 3])))
    ops = ['op 0 setup /w/b', 'op 0 setup /w/o']
    for _ in range(rnd.randint(0, 6)): ops.append('op 0 mkdir ' + path())
    for _ in range(rnd.randint(0, 6)): ops.append('op 0 create ' + path())
    ops.append('op 0 open 0 /w/b')
    verbs = ['mkdir', 'create', 'write', 'write', 'unlink', 'rmdir', 'rename', 'rename', 'rename', 'xchg', 'link', 'symlink', 'fifo', 'chmod', 'read', 'mark', 'look', 'look', 'many', 'hold', 'unhold', 'unhold']
    some = [path() for _ in range(6)]
    p = lambda: rnd.choice(some) if rnd.random() < .6 else path()
    for _ in range(rnd.randint(1, 40)):
        v = rnd.choice(verbs)
        if v in ('rename', 'xchg', 'link'):
            a, b = p(), p()
            if '/w/b' not in (a, b): ops.append(f'op 0 {v} {a} {b}') # what is watched stays where it is
        elif v == 'many': ops.append(f'op 0 many {rnd.choice([3, 3, 30, 6000, 9000]) if rnd.random() < .2 else 2} {p()}')
        elif v == 'symlink': ops.append(f"op 0 {v} {rnd.choice(['/w/nowhere', p(), p(), '../a', 'b'])} {p()}")
        else: ops.append(f'op 0 {v} {p()}')
        if rnd.random() < .08: ops.append('op 0 drain')
    return ops + ['op 0 drain end']
def simulated(ops, order):
    t = f'simreplay 1\nprop X\nprofile basic\nglue cpp\nseed 1\ncfg watchers 1\ncfg euid 0\ncfg readdir_order 0\ncfg selfdel_order {order}\ncfg step_cap 10000000\nthread 0\n' + '\n'.join(ops) + '\nreplay 0\n'
    open(f'{d}/plan', 'w').write(t)
    r = subprocess.run([f'{d}/sim', 'replay', '--file', f'{d}/plan', '--known', '/dev/null', '--tmp', d], capture_output=True, text=True, errors='replace', env={**os.environ, 'SIM_STDOUT': '1'})
    return [l for l in r.stdout.splitlines() if l[:2] in ('I ', 'F ', '--') or l.startswith(('mark', 'fmark', 'look'))], r
bad = 0
for k in range(n):
    ops = plan()
    def asked(ops):
        w = f'{real}/{os.urandom(4).hex()}'; os.mkdir(w)
        r = subprocess.run([f'{d}/real', w], input='\n'.join(ops) + '\n', capture_output=True, text=True, errors='replace').stdout.splitlines()
        shutil.rmtree(w)
        return r
    differs = lambda ops: asked(ops) != simulated(ops, 0)[0]
    if not differs(ops): continue
    bad += 1
    i = 0
    while i < len(ops) - 1: # cut it down
        c = ops[:i] + ops[i + 1:]
        if 'open' not in ops[i] and 'setup' not in ops[i] and differs(c): ops = c
        else: i += 1
    if 0: print(simulated(ops, 0)[1])
    print(f'--- {k}\n' + '\n'.join(ops))
    print('\n'.join([l for l in difflib.unified_diff(asked(ops), simulated(ops, 0)[0], 'real', 'simulated', n=3, lineterm='')][:60]))
    sys.stdout.flush()
    if bad >= 8: break
print(f'{k + 1} lists of changes, {bad} differ')
shutil.rmtree(d); shutil.rmtree(real)
sys.exit(bad > 0)
