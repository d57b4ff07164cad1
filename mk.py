#!/usr/bin/env python3
"""Builds the simulator around the code under test. Everything goes to a scratch directory."""
import os, re, shutil, subprocess, sys, sysconfig, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
SIMOBJ = ['core', 'kernel', 'wrap', 'oracle', 'poll', 'interp', 'gen', 'main']
FAST = ['-std=c++17', '-fno-gnu-unique', '-g1', '-O1', '-Wno-unused-result']

def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout

class BuildError(Exception):
    pass

def wraps():
    t = open(f'{V}/sim/wrap.cpp').read()
    return sorted(set(re.findall(r'\bWRAP\([\w \*]+?\*?, *(\w+),', t)) | set(re.findall(r'__wrap_(\w+)', t)) - {'name'})

def build_sim(d, jobs=8, extra=()):
    """the simulator itself, never instrumented, as one relocatable object with few visible names"""
    os.makedirs(d, exist_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda n: run(['g++', *FAST, *extra, '-c', f'{V}/sim/{n}.cpp', '-o', f'{d}/{n}.o']), SIMOBJ))
    run(['ld', '-r', '--force-group-allocation', *[f'{d}/{n}.o' for n in SIMOBJ], '-o', f'{d}/sim0.o'])
    keep = ['main', 'sim_event', 'sim_event_n', 'sim_fail', 'sim_cfg', 'sim_cfg_ll', 'sim_now', 'sim_wait', 'sim_probe', 'sim_quiet', 'sim_close_now', 'sim_close_begins', 'sim_closing', 'sim_for', 'sim_forgotten', 'sim_stdin_end', 'sim_thread_host', 'sim_no_watch', '__cyg_profile_func_enter', '__cyg_profile_func_exit'] + ['__wrap_' + w for w in wraps()]
    open(f'{d}/keep', 'w').write('\n'.join(keep) + '\n')
    run(['objcopy', f'--keep-global-symbols={d}/keep', f'{d}/sim0.o', f'{d}/sim.o'])
    return f'{d}/sim.o'

SAN = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-fsanitize=thread'],
}
HOOK = ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/,bits/,/sut/']

def trees():
    return {'devel': f'{R}/devel/include', 'hone': f'{R}/include'}

TAPPED = ('rust', 'node', 'py')

def glue_cmds(glue, tree, san, d):
    inc = trees()[tree]
    base = ['g++', '-g1', '-U_FORTIFY_SOURCE', *SAN[san], *HOOK, '-I' + inc]
    out = []
    if glue == 'cpp':
        out.append((base + ['-std=c++17', '-c', f'{V}/sut/cpp.cpp'], 'sut.o'))
    if glue in ('warthog', 'warthogp'):
        out.append((base + ['-std=c++17', '-c', f'{V}/sut/warthog.cpp'] + (['-DSUT_PORTABLE'] if glue == 'warthogp' else []), 'sut.o'))
    if glue == 'c':
        cinc = ['-I' + f'{R}/watcher-c/include']
        out.append((base + cinc + ['-std=c++17', '-c', f'{R}/watcher-c/src/watcher-c.cpp'], 'watcher-c.o'))
        out.append((['gcc' if x == 'g++' else x for x in base] + cinc + ['-std=c11', '-c', f'{V}/sut/c.c'], 'sut.o'))
    if glue == 'rust':
        out.append((base + ['-I' + f'{R}/watcher-c/include', '-std=c++17', '-c', f'{R}/watcher-c/src/watcher-c.cpp'], 'watcher-c.o'))
        out.append((base + ['-std=c++17', '-c', f'{V}/sut/rust.cpp'], 'sut.o'))
    if glue == 'node':
        cinc = ['-I' + f'{R}/watcher-c/include', '-I/usr/include/node', '-std=c++17']
        out.append((base + cinc + ['-c', f'{R}/watcher-c/src/watcher-c.cpp'], 'watcher-c.o'))
        out.append((base + cinc + ['-include', f'{V}/sut/node_mem.hpp', '-c', f'{R}/watcher-nodejs/lib/watcher-napi.cpp'], 'napi.o'))
        out.append((base + cinc + ['-c', f'{V}/sut/node.cpp'], 'sut.o'))
    if glue == 'py':
        cinc = ['-I' + f'{R}/watcher-c/include', '-I' + sysconfig.get_paths()['include'], '-std=c++17']
        out.append((base + cinc + ['-c', f'{R}/watcher-c/src/watcher-c.cpp'], 'watcher-c.o'))
        out.append((base + cinc + ['-c', f'{V}/sut/py.cpp'], 'sut.o'))
    if glue in TAPPED:
        out.append((base + ['-I' + f'{R}/watcher-c/include', '-std=c++17', '-c', f'{V}/sut/tap.cpp'], 'tap.o'))
    if glue == 'cli':
        out.append((base + ['-std=c++17', '-Dmain=cli_main', '-c', f'{R}/src/wtr/watcher/main.cpp'], 'cli.o'))
        out.append((base + ['-std=c++17', '-c', f'{V}/sut/cli.cpp'], 'sut.o'))
    return out

def rust_lib(sub):
    """the crate's lib.rs as shipped, below a small user program, as a static library"""
    c = f'{sub}/crate'
    shutil.copytree(f'{V}/sut/rust', c, dirs_exist_ok=True)
    shutil.copy(f'{R}/watcher-rs/src/lib.rs', f'{c}/src/watcher.rs')
    t = 'x86_64-unknown-linux-gnu'
    run(['cargo', 'build', '--offline', '-q', '--target', t], cwd=c, env={**os.environ, 'CARGO_TARGET_DIR': f'{c}/target',
        'SUT_C_HEADER': f'{R}/watcher-c/include/wtr/watcher-c.h', 'RUSTC_BOOTSTRAP': '1', 'RUSTFLAGS': '-Zinstrument-mcount'})
    return f'{c}/target/{t}/debug/libsutrs.a'

def node_js(sub):
    """lib/watcher.ts as shipped, its types taken away"""
    os.makedirs(f'{sub}/js/lib', exist_ok=True)
    os.makedirs(f'{sub}/js/build/Release', exist_ok=True)
    open(f'{sub}/js/build/Release/watcher-napi.node', 'w').close()
    shutil.copy(f'{V}/sut/node/boot.mjs', f'{sub}/js/boot.mjs')
    run(['node', '-e', '''
const ts = require('/opt/veriftools/node/node_modules/typescript'), fs = require('fs');
const o = ts.transpileModule(fs.readFileSync(process.argv[1], 'utf8'), {compilerOptions: {target: 'es2022', module: 'es2022'}, reportDiagnostics: true});
if (o.diagnostics.length) { console.log(o.diagnostics.map((d) => d.messageText)); process.exit(1); }
fs.writeFileSync(process.argv[2], o.outputText);
''', f'{R}/watcher-nodejs/lib/watcher.ts', f'{sub}/js/lib/watcher.mjs'])

def py_tree(sub):
    """watcher.py as shipped, beside a shared library whose two functions lead back into the simulation"""
    os.makedirs(f'{sub}/py/.wtr_watcher.mesonpy.libs', exist_ok=True)
    shutil.copy(f'{R}/watcher-py/watcher/watcher.py', f'{sub}/py/watcher.py')
    shutil.copy(f'{V}/sut/py/user.py', f'{sub}/py/user.py')
    open(f'{sub}/py/lead.c', 'w').write('''#include <stdbool.h>
#include "wtr/watcher-c.h"
void* sut_py_open(char const*, wtr_watcher_callback, void*);
bool sut_py_close(void*);
void* wtr_watcher_open(char const* const p, wtr_watcher_callback cb, void* cx) { return sut_py_open(p, cb, cx); }
bool wtr_watcher_close(void* h) { return sut_py_close(h); }
''')
    name = re.search(r'version = "([0-9.]+)"', open(f'{sub}/py/watcher.py').read())
    run(['gcc', '-shared', '-fPIC', '-I' + f'{R}/watcher-c/include', f'{sub}/py/lead.c', '-o',
         f'{sub}/py/.wtr_watcher.mesonpy.libs/libwatcher-c.so.{name.group(1) if name else open(f"{R}/.version").read().strip()}'])

def link(sim, objs, out, san='plain', libs=()):
    w = [f'-Wl,--wrap={x}' for x in wraps()]
    s = [f for f in SAN[san] if f.startswith('-fsanitize')]
    run(['g++', '-o', out, *objs, sim, *s, *w, '-static-libstdc++', '-static-libgcc', '-pthread', *libs])

def build(glue, tree, san, d, sim):
    sub = f'{d}/{glue}-{tree}-{san}'
    os.makedirs(sub, exist_ok=True)
    objs = []
    for cmd, o in glue_cmds(glue, tree, san, sub):
        run(cmd + ['-o', f'{sub}/{o}'])
        objs.append(f'{sub}/{o}')
    if glue == 'rust':
        objs.append(rust_lib(sub))
    if glue == 'node':
        node_js(sub)
    if glue == 'py':
        py_tree(sub)
    libs = ['-Wl,--wrap=wtr_watcher_open,--wrap=wtr_watcher_close'] if glue in TAPPED else []
    if glue == 'py':
        libs += ['-Wl,--export-dynamic-symbol=sut_py_open,--export-dynamic-symbol=sut_py_close', f'-lpython{sys.version_info[0]}.{sys.version_info[1]}']
    link(sim, objs, f'{sub}/sim', san, libs)
    return f'{sub}/sim'

if __name__ == '__main__':
    d = sys.argv[1]
    sim = build_sim(d)
    for g in sys.argv[2:]:
        glue, tree, san = g.split('-')
        print(build(glue, tree, san, d, sim))
