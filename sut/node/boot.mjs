// The JavaScript side of the simulation: lib/watcher.ts as shipped, in a real node. It runs only
// while the simulator waits for its answer, so it is a part of one deterministic execution.
import fs from 'node:fs';
import Module from 'node:module';
const fd = Number(process.argv[2]);
class Reset extends Error {}
let buf = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function recv() {
  for (;;) {
    const i = buf.indexOf(10);
    if (i >= 0) {
      const m = JSON.parse(buf.toString('utf8', 0, i));
      buf = buf.subarray(i + 1);
      return m;
    }
    let n = 0;
    try { n = fs.readSync(fd, chunk); } catch (e) { if (e.code === 'EAGAIN' || e.code === 'EINTR') continue; process.exit(0); }
    if (!n) process.exit(0);
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
  }
}
function send(m) {
  const b = Buffer.from(JSON.stringify(m) + '\n');
  for (let o = 0; o < b.length;) o += fs.writeSync(fd, b, o);
}
let fns, ids, watches;
function fresh() { fns = new Map(); ids = new Map(); watches = new Map(); }
function out(v) {
  if (v === undefined) return { $u: 1 };
  if (typeof v === 'function') {
    if (!ids.has(v)) { ids.set(v, ids.size + 1); fns.set(ids.get(v), v); }
    return { $js: ids.get(v) };
  }
  return v;
}
function into(v) {
  if (v === null || typeof v !== 'object') return v;
  if ('$u' in v) return undefined;
  if ('$js' in v) return fns.get(v.$js);
  if ('$nf' in v) return (...a) => native(v.$nf, a);
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, into(x)]));
}
// serve requests until the answer to ours comes
function ask(m) {
  send(m);
  for (;;) {
    const r = recv();
    if (r.t === 'ret') return into(r.v);
    if (r.t === 'threw') throw new Error(r.m);
    serve(r);
  }
}
function native(k, a) {
  const m = { t: 'native', k, n: a.length };
  a.forEach((x, i) => { m['a' + i] = out(x); });
  return ask(m);
}
function serve(r) {
  if (r.t === 'reset') { const e = new Reset(); e.n = r.n; throw e; }
  let v;
  try {
    if (r.t === 'watch') { v = undefined; watches.set(r.w, lib.watch(into(r.path), (e) => { ask({ t: 'user', w: r.w, e: out(e), keys: Object.keys(e).join() }); })); }
    else if (r.t === 'close') v = watches.get(r.w).close();
    else if (r.t === 'drop') { watches.delete(r.w); v = undefined; }
    else if (r.t === 'call') v = fns.get(r.f)(...(r.n > 0 ? [into(r.a0)] : []));
  } catch (e) {
    if (e instanceof Reset) throw e;
    send({ t: 'threw', m: String(e && e.message) });
    return;
  }
  send({ t: 'ret', v: out(v) });
}
fresh();
// what the shipped module asks for is the addon in the simulation
Module._extensions['.node'] = (m) => { m.exports = { watch: (...a) => native(0, a) }; };
const lib = await import('./lib/watcher.mjs');
for (;;) {
  try { for (;;) serve(recv()); }
  catch (e) {
    if (!(e instanceof Reset)) { process.stderr.write(String(e.stack) + '\n'); process.exit(3); }
    fresh();
    send({ t: 'reset', n: e.n });
  }
}
