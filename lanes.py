"""What each check explores: (glue, tree, sanitizer, profile) lanes, and which kinds of violation decide the property."""
def L(profile, n=4000, glue='cpp', tree='devel', san='plain', **k):
    return dict(profile=profile, count=n, glue=glue, tree=tree, san=san, **k)
def both(*profiles, n=4000, **k):
    """each profile on the sources in devel/ and on the single header generated from them"""
    return [L(p, n, tree=t, **k) for p in profiles for t in ('devel', 'hone')]

ALWAYS = ['crash', 'hang', 'san']
LIFE = ['life', 'cb']
EVENTS = ['report', 'pair', 'path', 'msg']
FD = ['leak', 'fd']
CHECKS = {
    'C01': dict(lanes=both('life', 'fail', 'close') + [L('basic'), L('fallback', tree='hone')], classes=LIFE + ALWAYS + ['close.result']),
    'C02': dict(lanes=both('life', 'close', 'fail') + [L('multi'), L('fallback', tree='hone')], classes=['close', 'life', 'cb'] + ALWAYS),
    'C03': dict(lanes=both('close', 'life', 'multi') + [L('basic'), L('fail', tree='hone')], classes=['cb', 'life', 'leak.thread'] + ALWAYS),
    'C04': dict(lanes=both('close') + both('close') + both('life') + [L('multi'), L('intr', tree='hone')], classes=['close', 'life', 'cb'] + ALWAYS),
    'C05': dict(lanes=both('intr', 'intr', 'intr', 'intr'), classes=LIFE + EVENTS + FD + ['close', 'watch', 'overflow', 'fault'] + ALWAYS),
    'C06': dict(lanes=both('fail', 'fail', 'fail', 'leak'), classes=LIFE + EVENTS + ['close', 'watch', 'fault', 'fd'] + ALWAYS),
    'C07': dict(lanes=both('leak', 'fail', 'leak', 'multi'), classes=FD + ALWAYS),
    'C08': dict(lanes=both('basic', 'rename', 'grow') + [L('mem'), L('basic', tree='hone')], classes=EVENTS + ['watch', 'overflow'] + ALWAYS),
    'C09': dict(lanes=both('basic', 'rename', 'grow') + [L('multi'), L('fallback', tree='hone')], classes=EVENTS + ['overflow'] + ALWAYS),
    'C10': dict(lanes=both('rename', 'rename', 'grow') + [L('basic'), L('basic', tree='hone')], classes=EVENTS + ['watch'] + ALWAYS),
    'C11': dict(lanes=both('rename', 'rename', 'basic') + [L('overflow'), L('grow', tree='hone')], classes=EVENTS + ALWAYS),
    'C12': dict(lanes=both('grow', 'grow', 'grow', 'rename'), classes=EVENTS + ['watch', 'fault'] + ALWAYS),
    'C13': dict(lanes=both('overflow', 'overflow', 'overflow', 'overflow'), classes=EVENTS + LIFE + ['overflow', 'watch', 'fault'] + ALWAYS),
    'C14': dict(lanes=both('multi', 'multi', 'multi', 'multi'), classes=LIFE + EVENTS + FD + ['close', 'watch', 'fault', 'overflow'] + ALWAYS),
    'C15': dict(lanes=both('fallback', 'fallback', 'fallback', 'fallback'), classes=LIFE + EVENTS + FD + ['close', 'watch', 'fault'] + ALWAYS),
    'C16': dict(lanes=both('time', 'time', 'time') + [L('basic'), L('intr', tree='hone')], classes=['time'] + ALWAYS),
    'C17': dict(lanes=both('cbasic', 'clife', glue='c') + [L('cfail', glue='c'), L('cmulti', glue='c', tree='hone')] + [L(p, 1500, glue='c', tree='hone', san='asan') for p in ('cbasic', 'clife')], real='c',
                classes=['c.', 'close', 'leak', 'fd', 'report.twice', 'time'] + LIFE + EVENTS + ALWAYS),
    'C18': dict(lanes=both('cli', 'cli', 'cli', glue='cli') + [L('cli', 1500, glue='cli', tree='hone', san='asan')], real='cli',
                classes=['cli.', 'close', 'leak', 'fd', 'time'] + LIFE + EVENTS + ALWAYS),
    'C19': dict(lanes=[L(p, 1500, glue='node', tree='hone') for p in ('bindbasic', 'bindlife', 'bindclose', 'bindmulti', 'bindfail', 'bindbasic', 'bindlife', 'bindclose')], real='node',
                classes=['bind', 'napi', 'close', 'leak', 'fd', 'c.', 'time'] + LIFE + EVENTS + ALWAYS),
    'C20': dict(lanes=[L(p, 1500, glue='py', tree='hone') for p in ('bindbasic', 'bindlife', 'bindclose', 'bindmulti', 'bindfail', 'bindbasic', 'bindmulti', 'bindmulti')], real='py',
                classes=['bind', 'json', 'close', 'leak', 'fd', 'c.', 'time'] + LIFE + EVENTS + ALWAYS),
    'C21': dict(lanes=[L(p, glue='rust', tree='hone') for p in ('bindbasic', 'bindlife', 'bindclose', 'bindmulti', 'bindfail', 'bindbasic', 'bindlife', 'bindclose')], real='rust',
                classes=['bind', 'close', 'leak', 'fd', 'c.', 'time'] + LIFE + EVENTS + ALWAYS),
    'C22': dict(lanes=[L('mem', 1500, san='asan', tree=t) for t in ('devel', 'hone')] * 3 + [L('overflow', 1500, san='asan'), L('rename', 1500, san='asan', tree='hone')], classes=['fd'] + ALWAYS),
    'C23': dict(lanes=[L('race', 1500, san='tsan', tree=t) for t in ('devel', 'hone')] * 3 + [L('close', 1500, san='tsan'), L('multi', 1500, san='tsan', tree='hone')], classes=['cb'] + ALWAYS),
    'C24': dict(lanes=both('cwd', 'cwd', 'cwd', 'cwd', n=3000), classes=LIFE + EVENTS + ['watch'] + ALWAYS),
    'C25': dict(lanes=[L(p, 3000, glue=g) for g in ('warthog', 'warthogp') for p in ('warthog', 'warthog', 'life', 'multi')]
                + [L('warthog', 3000, glue='warthog', tree='hone'), L('close', 3000, glue='warthog', tree='hone'), L('cwd', 3000, glue='warthogp', tree='hone'), L('fail', 3000, glue='warthog'), L('fail', 3000, glue='warthogp', tree='hone')], real='warthog',
                classes=['report', 'path', 'pair', 'close', 'leak', 'fd'] + LIFE + ALWAYS),
    'C28': dict(lanes=both('json', 'json', 'json') + [L('cli', glue='cli'), L('cli', glue='cli', tree='hone'), L('bindbasic', 1000, glue='py', tree='hone'), L('bindbasic', 2000, glue='rust', tree='hone')], classes=['json', 'cli.line', 'time.text'] + ALWAYS),
    'C29': dict(lanes=[L('bindodd', 1200, glue=g, tree='hone') for g in ('node', 'py', 'rust')] * 2 + [L('bindodd', 1200, glue='node', tree='hone')], classes=['bind', 'napi'] + ALWAYS),
}
REAL = {
    'cpp': ['wtr::watch, wtr::event and their text forms', 'the inotify and fanotify adapters, the choice between them, the wake-up of the watching thread',
            'std::future/std::async/std::filesystem of libstdc++ above the intercepted calls'],
}
STUB = {
    'cpp': ['the kernel: file system, inotify, fanotify, epoll, eventfd, descriptors, signals (simulated)', 'threads: real threads of which the simulator lets exactly one run at a time',
            'clocks and sleeping (simulated)', 'the users of the library and the processes which change the tree (generated)'],
}
for g, real, stub in (
    ('c', ['watcher-c.cpp (compiled as shipped) under a callback written in C'], []),
    ('cli', ['main.cpp of wtr.watcher (compiled as shipped, as a thread of the simulation; its options, its reading of time, its waiting, its output)'],
            ['standard output and standard input (recorded and fed by the simulator)']),
    ('node', ['watcher-napi.cpp (compiled as shipped)', 'lib/watcher.ts (its types taken away, in a real node which runs only while the simulation waits for its answer)', 'watcher-c.cpp'],
             ['Node-API and the JavaScript thread\'s event loop (handles, references, thread-safe functions, exceptions, garbage collection: simulated, its turns decided by the scheduler)']),
    ('py', ['watcher.py (as shipped, in a real CPython interpreter; other threads may run between any two of its lines)', 'watcher-c.cpp'],
            ['the dynamic library\'s entry points (two functions which lead into the simulation)', 'the garbage collector\'s timing (decided by the simulator)']),
    ('warthog', ['the polling adapter and wtr::watch above it, built as a user of it builds them (asked for by name, and as on a system with no other adapter)', 'std::filesystem of libstdc++'], []),
    ('rust', ['watcher-rs/src/lib.rs (compiled as shipped, with a scheduling point at the entry of every function) and the futures channel below it', 'watcher-c.cpp'],
            ['bindgen (the declarations are derived from watcher-c.h by our own build script)', 'the async executor (the stream is polled when it has been woken)']),
):
    REAL[g] = real + REAL['cpp']
    STUB[g] = stub + STUB['cpp']
NA = {}
