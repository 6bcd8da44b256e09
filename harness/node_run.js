// C26: runs scripts of operations over the add-on; writes what happens to
// descriptor 3. Script: operations separated by ';', fields by ','.
'use strict';
const fs = require('fs'), net = require('net'), readline = require('readline');
const { EventEmitter } = require('events');
const connect = require(process.argv[2]);
function put(l) { // the pipe may be full
  const b = Buffer.from(l + '\n');
  for (let i = 0; i < b.length;)
    try { i += fs.writeSync(3, b, i); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
}
const tick = () => new Promise((r) => setImmediate(r));
const hex = (s) => 'x' + Buffer.from(s, 'utf8').toString('hex');
const left = new Set();
const registry = new FinalizationRegistry((k) => left.delete(k));
let conns = new Map();
let gcIn = false;
function attempt(f) {
  try { f(); } catch (e) { put((e instanceof TypeError ? 'T ' : 'E ') + String(e && e.message).replace(/\n/g, ' ')); }
}
function open(c, plan, how) {
  const em = new EventEmitter();
  em.setMaxListeners(0);
  const send = (...d) => put(`S ${c} ${d.length}${typeof d[0]} ${hex(d[0])}`);
  const on = (e, f) => {
    em.on(e, function (...a) { f.apply(this, a); if (gcIn) global.gc(); });
  };
  left.add(c); registry.register(send, c);
  process.env.BCL_PLAN = plan;
  const conn = connect(send, on);
  if (how === '1') global.gc();
  conn.startServer();
  conns.set(c, { em, conn });
}
const badData = [() => ['text'], () => [], () => [undefined], () => [null], () => [5], () => [{ length: 1, 0: 65 }], () => [[65]],
  () => [new Uint16Array([65])], () => [new DataView(new ArrayBuffer(2))], () => [new ArrayBuffer(2)], () => [() => 1]];
const badFlag = [() => [], () => [undefined], () => [0], () => ['false'], () => [null], () => [{}]];
const badArgs = [[], [1], [() => 1], [1, () => 1], [() => 1, 1], [null, null], [undefined, () => 1], ['a', 'b'], [{}, () => 1], [() => 1, []]];
async function step(f) {
  const c = f[1];
  switch (f[0]) {
  case 'O': open(c, f[2], f[3]); break;
  case 'D': {
    let d = Buffer.from(f[3], 'hex');
    if (f[2] === '1') d = new Uint8Array(d);
    else if (f[2] === '2') { const b = new Uint8Array(d.length + 9).fill(66); b.set(d, 5); d = b.subarray(5, 5 + d.length); }
    else if (f[2] === '3') { const b = Buffer.alloc(d.length + 3, 67); d.copy(b, 1); d = b.subarray(1, 1 + d.length); }
    conns.get(c).em.emit('data', d);
    break;
  }
  case 'B': attempt(() => conns.get(c).em.emit('data', ...badData[f[2] % badData.length]())); break;
  case 'b': attempt(() => conns.get(c).em.emit('close', ...badFlag[f[2] % badFlag.length]())); break;
  case 'X': gcIn = f[3] === '1'; conns.get(c).em.emit('close', f[2] === '1'); gcIn = false; break;
  case 'G': global.gc(); break;
  case 'A': await tick(); break;
  case 'P': conns.get(c).conn = null; break;
  case 'Y': conns.delete(c); break;
  case 'W': attempt(() => connect(...badArgs[f[1] % badArgs.length])); break;
  case 'H': { // memory: the same data many times
    const b = Buffer.alloc(+f[2], 65), em = conns.get(c).em;
    global.gc();
    const before = process.memoryUsage().rss;
    for (let i = 0; i < +f[3]; ++i) em.emit('data', b);
    global.gc();
    put(`M ${process.memoryUsage().rss - before}`);
    break;
  }
  case 'N': await real(f); break;
  }
}
// N,plan,chunk,chunk...: over a connection of the loop-back interface
function real(f) {
  return new Promise((done) => {
    let n = 2;
    const server = net.createServer((socket) => {
      process.env.BCL_PLAN = f[1];
      const connection = connect((d) => { put(`S ${f[1].split(':')[0]} 1${typeof d} ${hex(d)}`); socket.write(d); },
        (e, cb) => { socket.on(e, cb); });
      connection.startServer();
      socket.on('close', () => { server.close(); if (!--n) done(); });
      socket.on('error', (e) => put('E ' + e.message));
    });
    server.listen(0, '127.0.0.1', async () => {
      const got = [];
      const cl = net.connect(server.address().port, '127.0.0.1');
      cl.on('data', (d) => got.push(d));
      cl.on('error', (e) => put('E ' + e.message));
      cl.on('close', () => { put('L ' + 'x' + Buffer.concat(got).toString('hex')); if (!--n) done(); });
      for (const x of f.slice(2)) {
        if (x === 'w') await tick();
        else cl.write(Buffer.from(x, 'hex'));
      }
      cl.end();
    });
  });
}
async function run(line) {
  for (const op of line.split(';')) await step(op.split(','));
  conns = new Map();
}
(async () => {
  put('ready');
  for await (const line of readline.createInterface({ input: process.stdin })) {
    await run(line);
    for (let i = 0; i < 30 && (left.size || i < 2); ++i) { await tick(); global.gc(); await tick(); }
    put(`done ${left.size}`);
    left.clear();
  }
})();
