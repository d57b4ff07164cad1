#!/usr/bin/env python3
"""check.py PID            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE     build what FILE was found with, and run it again
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
import concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import mk
from lanes import CHECKS, REAL, STUB

KNOWN = f'{V}/known_findings.txt'
CPUS = max(2, min(8, os.cpu_count() or 8))

def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

def findings():
    out = []
    for l in open(KNOWN):
        l = l.strip()
        if not l.startswith('finding:'):
            continue
        m = re.match(r'finding: property=(\S+) signature=(\S+) replay=(\S+) (.*)', l)
        if m:
            out.append(dict(props=m[1].split(','), sig=m[2], replay=m[3], what=m[4]))
    return out

def header(f):
    h = {}
    for l in open(f, errors='replace'):
        m = re.match(r'# (\w+): (.*)', l)
        if m: h[m[1]] = m[2].strip()
    return h

def unesc(s):
    return re.sub(r'\\u([0-9a-f]{4})', lambda m: chr(int(m[1], 16)), s).replace('\\"', '"').replace('\\\\', '\\')

def build_all(d, wanted):
    sim = mk.build_sim(d)
    with cf.ThreadPoolExecutor(CPUS) as ex:
        bins = dict(zip(wanted, ex.map(lambda w: mk.build(*w, d, sim), wanted)))
    return bins

def main(pid):
    t0 = time.time()
    C = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    d = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    try:
        return go(pid, C, seed, tier, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def go(pid, C, seed, tier, d, t0):
    lanes = C['lanes']
    own = [f for f in findings() if pid in f['props']]
    wanted = sorted({(l['glue'], l['tree'], l['san']) for l in lanes} | {('cpp', 'devel', 'plain') for f in own if header(f'{V}/{f["replay"]}').get('build', 'cpp-devel-plain') == 'cpp-devel-plain'})
    try:
        bins = build_all(d, wanted)
    except mk.BuildError as e:
        print(f'check {pid}: the code under test could not be built\n{e}', file=sys.stderr)
        return 2
    t_build = time.time() - t0
    tmp, out = f'{d}/tmp', f'{d}/out'
    os.makedirs(tmp); os.makedirs(out)

    def args(l, i):
        return ['--prop', pid, '--profile', l['profile'], '--glue', l['glue'], '--known', KNOWN, '--tmp', tmp]
    # one seed is one execution: run some twice, and once more from their recording
    def gate(x):
        i, l = x
        rc, o, e = sh([bins[l['glue'], l['tree'], l['san']], 'gate', *args(l, i), '--seed', str(seed * 1000003 + i * 100000), '--count', '6' if tier == 'quick' else '40'], 300)
        return rc, o
    with cf.ThreadPoolExecutor(CPUS) as ex:
        gates = list(ex.map(gate, enumerate(lanes)))
    gate_n = sum(int(m[2]) for _, o in gates for m in [re.search(r'GATE (\d+) of (\d+)', o)] if m)
    gate_ok = sum(int(m[1]) for _, o in gates for m in [re.search(r'GATE (\d+) of (\d+)', o)] if m)

    t1 = time.time()
    limit = C.get('seconds', 25) if tier == 'quick' else C.get('thorough_seconds', 600)
    def explore(x):
        i, l = x
        n = l['count'] if tier == 'quick' else 10**9
        first = seed * 1000000007 + i * 10000019
        return sh([bins[l['glue'], l['tree'], l['san']], 'explore', *args(l, i), '--seed', str(first % (1 << 62)), '--stride', '1',
                   '--count', str(n), '--time', str(limit), '--max-violations', '6', '--classes', ','.join(C['classes']),
                   '--out', out, '--tag', str(i), '--hashes', f'{out}/h{i}', '--cpu', str(l.get('cpu', 20))], limit + 200)
    with cf.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(explore, enumerate(lanes)))
    t_expl = time.time() - t1

    tot, found, errors = {}, {}, []
    def add(a, b):
        for k, v in b.items():
            if isinstance(v, dict): add(a.setdefault(k, {}), v)
            elif isinstance(v, (int, float)): a[k] = a.get(k, 0) + v
    per_lane = []
    for i, (rc, o, e) in enumerate(res):
        m = re.search(r'^STATS (.*)$', o, re.M)
        if not m or rc not in (0, 1, 2):
            errors.append(f'lane {i}: exit {rc}: {e[-400:]}')
            continue
        st = json.loads(m[1])
        add(tot, st)
        per_lane.append({'lane': f"{lanes[i]['glue']}-{lanes[i]['tree']}-{lanes[i]['san']}/{lanes[i]['profile']}", 'runs': st['runs'], 'distinct': st['distinct']})
        if st.get('unsupported'):
            errors.append(f'lane {i}: the code made a call the simulator does not model: {e[-300:]}')
        for l in o.splitlines():
            if l.startswith('FOUND '):
                _, cls, f, msg = l.split(' ', 3)
                found.setdefault(cls, []).append((i, f, msg))
    hashes = set()
    for i in range(len(lanes)):
        if os.path.exists(f'{out}/h{i}'):
            b = open(f'{out}/h{i}', 'rb').read()
            hashes.update(struct.unpack(f'<{len(b)//8}Q', b))

    # each kind of violation: see it again in a fresh process, cut it down, write it out
    viols, unrepro = [], 0
    rdir = f'{V}/replays'
    def confirm(item):
        cls, hits = item
        for i, f, msg in hits[:4]:
            l = lanes[i]
            b = bins[l['glue'], l['tree'], l['san']]
            rc, o, e = sh([b, 'replay', '--file', f, '--known', KNOWN, '--tmp', tmp, '--quiet', '1'], 120)
            if not re.search(rf'^RESULT {re.escape(cls)} ', o, re.M):
                continue
            m = f'{f}.min'
            sh([b, 'minimise', '--file', f, '--class', cls, '--to', m, '--time', '15' if tier == 'quick' else '60', '--known', KNOWN, '--tmp', tmp], 200)
            if not os.path.exists(m):
                m = f
            rc, o, e = sh([b, 'replay', '--file', m, '--known', KNOWN, '--tmp', tmp], 120)
            k = re.search(rf'^RESULT {re.escape(cls)} (.*)$', o, re.M)
            if not k:
                m = f
                rc, o, e = sh([b, 'replay', '--file', m, '--known', KNOWN, '--tmp', tmp], 120)
                k = re.search(rf'^RESULT {re.escape(cls)} (.*)$', o, re.M)
            os.makedirs(rdir, exist_ok=True)
            to = f'{rdir}/{pid}-{cls}.replay'
            with open(to, 'w') as w:
                w.write(f"# build: {l['glue']}-{l['tree']}-{l['san']}\n# property: {pid}\n# class: {cls}\n# says: {k[1] if k else msg}\n")
                w.write(open(m, errors='replace').read())
                w.write('# --- the execution:\n' + ''.join(f'# | {x}\n' for x in o.splitlines()[-400:]))
            return cls, to, (k[1] if k else msg)
        return None
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(confirm, list(found.items())[:8]):
            if r: viols.append(r)
            else: unrepro += 1

    # findings which are recorded
    shown = []
    for f in own:
        h = header(f'{V}/{f["replay"]}')
        b = bins.get(tuple(h.get('build', 'cpp-devel-plain').split('-')))
        hit = tot.get('known', {}).get(f['sig'], 0)
        if b and not hit:
            rc, o, e = sh([b, 'replay', '--file', f'{V}/{f["replay"]}', '--known', KNOWN, '--tmp', tmp, '--quiet', '1'], 60)
            hit = f'KNOWN {f["sig"]}\n' in o
        if hit:
            shown.append(f)

    wall = time.time() - t0
    samples = []
    for i, l in list(enumerate(lanes))[:2]:
        b = bins[l['glue'], l['tree'], l['san']]
        s = str((seed * 1000000007 + i * 10000019) % (1 << 62))
        _, plan, _ = sh([b, 'gen', *args(l, i), '--seed', s], 20)
        fn = f'{out}/sample{i}'
        open(fn, 'w').write(plan)
        _, o, _ = sh([b, 'replay', '--file', fn, '--known', KNOWN, '--tmp', tmp], 60)
        samples.append({'lane': per_lane[i]['lane'] if i < len(per_lane) else '', 'seed': int(s), 'plan': plan[:2500], 'execution_tail': o[-2500:]})
    runs = int(tot.get('runs', 0))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(viols),
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(hashes),
            'rule': 'One evaluation is one simulated execution: a plan (operations of users and of other processes, configuration, faults) and every scheduling and environment choice derived from one seed. '
                    'It counts as non-trivial if the code under test handed out at least one report besides its live and die messages, or met an injected fault; '
                    'distinct means a different hash over the whole history: every scheduling decision, simulated system call and its result, change and report.',
            'samples': samples,
            'simulated_runs': runs,
            'runs_per_hour': round(runs / max(t_expl, 1e-6) * 3600),
            'seeds_per_hour': round(runs / max(t_expl, 1e-6) * 3600),
            'simulated_seconds': round(tot.get('sim_ns', 0) / 1e9, 1),
            'simulated_calls': int(tot.get('steps', 0)),
            'task_switches': int(tot.get('switches', 0)),
            'changes_made_to_the_tree': int(tot.get('changes', 0)),
            'reports_checked': int(tot.get('reports', 0)),
            'read_batches': int(tot.get('batches', 0)),
            'distinct_report_sequences': int(tot.get('distinct_reports', 0)),
            'faults_injected': tot.get('faults', {}),
            'rare_conditions_reached': tot.get('probes', {}),
            'known_findings_met': tot.get('known', {}),
            'other_violations_seen': tot.get('other', {}),
            'determinism_gate': {'seeds_run_three_times': gate_n, 'identical': gate_ok},
            'not_reproduced': unrepro,
            'lanes': per_lane,
            'build_s': round(t_build, 1), 'explore_s': round(t_expl, 1),
            'real_code': REAL[C.get('real', 'cpp')], 'stubs': STUB[C.get('real', 'cpp')],
        },
        'assumptions': C.get('assumptions', []) + [
            'The simulated kernel answers as Linux documents and as was compared with the real one (DESIGN.md); a behaviour of the real kernel it does not model is not covered.',
            'Sampling: seeds which were not run may hold violations.'],
    }
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for f in shown:
        print(f'KNOWN-FINDING: property={pid} {f["what"]} (signature {f["sig"]}, {f["replay"]})')
    print(f'{pid} {tier} seed {seed}: {runs} runs, {len(hashes)} distinct, {tot.get("sim_ns", 0)/1e9:.0f} simulated s, gate {gate_ok}/{gate_n}, wall {wall:.1f} s')
    for cls, f, msg in viols:
        print(f'VIOLATION property={pid} replay={f} {cls}: {unesc(msg)[:600]}')
    if viols:
        return 1
    if errors or gate_ok != gate_n or not runs:
        print('\n'.join(errors) or f'determinism gate: {gate_ok} of {gate_n}\n' + '\n'.join(o for _, o in gates), file=sys.stderr)
        return 2
    return 0

def replay(f):
    h = header(f)
    b = tuple(h.get('build', 'cpp-devel-plain').split('-'))
    d = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        os.makedirs(f'{d}/tmp')
        x = mk.build(*b, d, mk.build_sim(d))
        rc, o, e = sh([x, 'replay', '--file', f, '--known', KNOWN, '--tmp', f'{d}/tmp'], 300)
        print(o, end='')
        return 1 if re.search('^RESULT ', o, re.M) else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print(__doc__, file=sys.stderr)
        sys.exit(2)
    sys.exit(main(sys.argv[1]))
