// C28: the VS Code extension, run against stand-ins of the editor and of the language client, together with the real server.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm'), crypto = require('crypto'), cp = require('child_process');
const NM = process.env.NODE_MODULES || '/opt/veriftools/node/node_modules';
const esbuild = require(path.join(NM, 'esbuild'));
const fc = require(path.join(NM, 'fast-check'));
const V = path.resolve(__dirname, '..');
const arg = n => { const i = process.argv.indexOf(n); return i < 0 ? undefined : process.argv[i + 1]; };
const EXT = arg('--ext') || '/repo/vscode-extension';
const BIN = arg('--bin'), OUT = arg('--out') || path.join(V, 'evidence');
const SEED = parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const CASES = parseInt(arg('--cases') || (TIER === 'thorough' ? '60000' : '6000'), 10);
const PREVIEW = 'graphviz-interactive-preview.preview.beside';

const LANG = JSON.parse(fs.readFileSync(path.join(EXT, 'package.json'), 'utf8')).contributes.languages[0].id;
const CODE = esbuild.buildSync({
  entryPoints: [path.join(EXT, 'src', 'extension.ts')], bundle: true, write: false, platform: 'node', format: 'cjs', target: 'node18',
  external: ['vscode', 'vscode-languageclient', 'vscode-languageclient/*'], logLevel: 'silent', tsconfigRaw: '{}',
}).outputFiles[0].text;
const SCRIPT = new vm.Script(CODE, { filename: 'extension.js' });

class Violation extends Error { }
const fail = m => { throw new Violation(m); };
const show = x => { const t = JSON.stringify(x); return t === undefined ? String(x) : t.length > 300 ? t.slice(0, 300) + '...' : t; };
const tick = async () => { for (let i = 0; i < 12; i++) await new Promise(r => setImmediate(r)); };

/** Something that can be used in any way and does nothing. */
function anything() {
  const f = function () { };
  const p = new Proxy(f, {
    get: (t, k) => k === 'then' ? undefined : k === Symbol.toPrimitive ? () => '' : k === Symbol.iterator ? function* () { } : p,
    apply: () => p, construct: () => p, set: () => true, has: () => true,
  });
  return p;
}
function lenient(o) {
  return new Proxy(o, { get: (t, k) => k in t ? t[k] : k === '__esModule' || k === 'then' ? undefined : anything(), has: () => true });
}

/** A stand-in of the editor. Calls are settled when `settle` says so. */
class Editor {
  constructor(env) {
    this.calls = []; this.clients = []; this.env = env; this.subscriptions = [];
    const ed = this;
    const call = (kind, data) => {
      const c = { kind, data, state: 'pending' };
      c.promise = new Promise((ok, no) => { c.ok = v => { c.state = 'ok'; ok(v); }; c.no = e => { c.state = 'failed'; no(e); }; });
      c.promise.catch(() => { });
      ed.calls.push(c);
      return c.promise;
    };
    const note = (kind, data) => { ed.calls.push({ kind, data, state: 'ok' }); return Promise.resolve(undefined); };
    class LanguageClient {
      constructor(...a) {
        // (id, name, serverOptions, clientOptions, forceDebug) or (name, serverOptions, clientOptions, forceDebug)
        const [server, client] = typeof a[1] === 'string' ? [a[2], a[3]] : [a[1], a[2]];
        Object.assign(this, { server, clientOptions: client, handlers: new Map(), starts: 0, stops: 0 });
        ed.clients.push(this);
        return new Proxy(this, { get: (t, k) => k in t ? t[k] : k === 'then' ? undefined : anything() });
      }
      onRequest(m, h) { this.handlers.set(typeof m === 'string' ? m : m.method, h); return { dispose() { } }; }
      onNotification() { return { dispose() { } }; }
      start() { this.starts++; return Promise.resolve(); }
      stop() { this.stops++; return (this.stopped = Promise.resolve('stopped')); }
      dispose() { this.stops++; return Promise.resolve(); }
    }
    class Kind { constructor(method) { this.method = method; } }
    const vscode = lenient({
      commands: lenient({ executeCommand: (id, ...a) => call('command', { id, args: a }), registerCommand: () => ({ dispose() { } }) }),
      window: lenient({
        showTextDocument: (d, ...a) => call('show', { document: d }),
        showErrorMessage: m => note('error', m), showWarningMessage: m => note('warning', m), showInformationMessage: m => note('info', m),
      }),
      workspace: lenient({ openTextDocument: o => call('open', o) }),
    });
    const lc = lenient({ LanguageClient, RequestType: Kind, RequestType0: Kind, RequestType1: Kind, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 } });
    const module = { exports: {} };
    const proc = new Proxy(process, { get: (t, k) => k === 'env' ? env : t[k] });
    const req = n => n === 'vscode' ? vscode : n.startsWith('vscode-languageclient') ? lc : n.replace(/^node:/, '') === 'process' ? proc : require(n);
    const ctx = vm.createContext({ module, exports: module.exports, require: req, process: proc, console: { log() { }, error() { }, warn() { }, info() { }, debug() { } }, setTimeout, clearTimeout, setImmediate, queueMicrotask, Buffer, URL, global: {} });
    SCRIPT.runInContext(ctx);
    this.ext = module.exports.default && module.exports.default.activate ? module.exports.default : module.exports;
  }
  /** the calls which display something */
  content(c) { return c.kind === 'command' ? c.data.args.map(a => a && a.content).find(x => x !== undefined) : undefined; }
}

function requestOf(client, params) {
  const h = client.handlers.get('hyperir/showDot');
  if (!h) fail(`the extension does not handle hyperir/showDot, only ${[...client.handlers.keys()]}`);
  const r = { state: 'pending' };
  let p;
  try { p = Promise.resolve(h(params, {})); } catch (e) { p = Promise.reject(e); }
  p.then(v => { r.state = 'answered'; r.value = v; }, e => { r.state = 'failed'; r.error = e; });
  return r;
}

const text = fc.oneof(fc.string({ unit: 'binary', maxLength: 30 }), fc.constantFrom('', 'strict digraph {\n"a" -> "b"\n}\n', 'x'.repeat(70000), '${1}', 'null'), fc.string({ maxLength: 10 }));
const title = fc.oneof(fc.string({ maxLength: 12 }), fc.constantFrom('CFG for @f', ''), fc.string({ unit: 'binary', maxLength: 8 }));
const bad = fc.oneof(fc.constantFrom(null, 0, 1, true, false), fc.array(fc.string(), { maxLength: 2 }), fc.record({ dotGraph: fc.string() }), fc.constant('missing'));
const op = fc.oneof(
  { weight: 5, arbitrary: fc.record({ op: fc.constant('show'), dot: text, title }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('bad'), value: bad, title }) },
  { weight: 8, arbitrary: fc.record({ op: fc.constant('settle'), which: fc.nat(5), ok: fc.boolean() }) });
const session = fc.record({
  server: fc.option(fc.oneof(fc.constantFrom('/opt/x/server', 'server', './a b/é'), fc.string({ minLength: 1, maxLength: 8 })), { nil: undefined }),
  env: fc.dictionary(fc.stringMatching(/^[A-Z][A-Z_]{0,5}$/), fc.string({ maxLength: 5 }), { maxKeys: 3 }),
  dir: fc.constantFrom('/ext', '/home/u/.vscode/extensions/a b', 'C:\\ext'),
  early: fc.boolean(),
  ops: fc.array(op, { maxLength: 14 }),
  rest: fc.boolean(),
  stop: fc.boolean(),
});

async function activated(s) {
  const env = { ...s.env };
  for (const k of ['SERVER_PATH', 'RUST_LOG', 'RUST_BACKTRACE']) delete env[k];
  if (s.server !== undefined) env.SERVER_PATH = s.server;
  const ed = new Editor(env);
  if (s.early) {
    const r = ed.ext.deactivate();
    if (r !== undefined && !(r && typeof r.then === 'function')) fail(`deactivate before activate returned ${show(r)}`);
    await r;
  }
  const context = lenient({ asAbsolutePath: p => s.dir + '/' + p, extensionPath: s.dir, subscriptions: ed.subscriptions });
  await ed.ext.activate(context);
  await tick();
  if (ed.clients.length !== 1) fail(`${ed.clients.length} language clients were created`);
  const client = ed.clients[0];
  if (client.starts !== 1) fail(`the language client was started ${client.starts} times`);
  let so = client.server;
  if (typeof so === 'function') so = await so();
  for (const mode of ['run', 'debug']) {
    const e = so && so.run ? so[mode] : so;
    const want = s.server !== undefined ? s.server : s.dir + '/hyper-ir-lsp';
    if (!e || e.command !== want) fail(`the server is started as ${show(e && e.command)} (${mode}) instead of ${want}`);
    if (e.args && e.args.length) fail(`the server is started with arguments ${show(e.args)}`);
    if (e.transport !== undefined && e.transport !== 0) fail('the server is not started with stdio');
    const got = e.options && e.options.env;
    if (got) for (const k of Object.keys(env)) if (got[k] !== env[k]) fail(`the server is started with ${k}=${show(got[k])} instead of ${show(env[k])}`);
  }
  const sel = client.clientOptions && client.clientOptions.documentSelector;
  const langs = [].concat(sel || []).map(x => typeof x === 'string' ? x : x.scheme === undefined && x.pattern === undefined ? x.language : show(x));
  if (langs.length !== 1 || langs[0] !== LANG) fail(`the server is used for ${show(sel)}, but the language is ${LANG}`);
  return { ed, client };
}

/** One session: new calls to the editor are looked at after each step, so that it is clear to which request they belong. */
async function run(s, stats) {
  const { ed, client } = await activated(s);
  const reqs = [];
  const seen = { calls: 0 };
  // assigns new calls to the requests and checks that they are the right ones
  const look = () => {
    for (; seen.calls < ed.calls.length; seen.calls++) {
      const c = ed.calls[seen.calls];
      // the same graph may be requested several times: a call belongs to the first request which lacks it
      const mine = (k, lacks) => { const m = reqs.filter(r => r.dot !== undefined && r.dot === k); return m.find(lacks) || m[0]; };
      if (c.kind === 'command') {
        const cont = ed.content(c), t = c.data.args.map(a => a && a.title).find(x => x !== undefined);
        const r = mine(cont, r => !r.preview && r.title === t);
        if (!r) { if (c.data.id === PREVIEW || cont !== undefined) fail(`a preview of ${show(cont)}, which was never sent`); c.ok(undefined); continue; }
        if (c.data.id !== PREVIEW) fail(`the graph is given to the command ${show(c.data.id)}`);
        if (t !== r.title) fail(`the preview is titled ${show(t)} instead of ${show(r.title)}`);
        if (r.preview) fail(`the graph ${show(r.dot)} is previewed twice`);
        r.preview = c;
      } else if (c.kind === 'open') {
        const cont = typeof c.data === 'object' && c.data ? c.data.content : c.data;
        const r = mine(cont, r => r.preview && r.preview.state === 'failed' && !r.open);
        if (!r) fail(`a document with ${show(cont)} is opened, which was never sent`);
        if (!r.preview || r.preview.state !== 'failed') fail(`the graph ${show(r.dot)} is opened as text although its preview did not fail`);
        if (r.open) fail(`the graph ${show(r.dot)} is opened twice`);
        r.open = c; c.result = { documentOf: r };
      } else if (c.kind === 'show') {
        const r = c.data.document && c.data.document.documentOf;
        if (!r) fail(`something else than a graph is shown: ${show(c.data.document)}`);
        if (r.shown) fail(`the graph ${show(r.dot)} is shown twice`);
        r.shown = c;
      } else if (c.kind === 'error') {
        const r = reqs.find(r => r.bad && !r.reported);
        if (r) r.reported = true;
      }
    }
    for (const r of reqs) {
      const a = r.answer.state;
      if (r.bad) {
        if (!r.reported) fail(`no error message for a graph which is ${show(r.params)}`);
        if (a !== 'answered') fail(`the request ${show(r.params)} was not answered (${a})`);
      } else {
        if (!r.preview) fail(`the graph ${show(r.dot)} is not displayed`);
        if (r.preview.state === 'failed' && !r.open) fail(`no preview was possible, but ${show(r.dot)} is not opened as text`);
        if (r.open && r.open.state === 'ok' && !r.shown) fail(`the document with ${show(r.dot)} is opened, but not shown`);
        const chain = [r.preview, r.open, r.shown];
        const want = r.preview.state === 'ok' || (r.shown && r.shown.state === 'ok') ? 'answered' : chain.some(c => c && c.state === 'pending') ? 'pending' : 'failed';
        if (a !== want) fail(`the request to show ${show(r.dot)} is ${a} instead of ${want}; preview ${r.preview.state}, text document ${r.open ? r.open.state : '-'}, shown ${r.shown ? r.shown.state : '-'}`);
      }
      if (a === 'answered' && (typeof r.answer.value !== 'object' || r.answer.value === null || Array.isArray(r.answer.value))) fail(`the answer is ${show(r.answer.value)} and not an object`);
    }
  };
  const settle = async (which, ok) => {
    const open = ed.calls.filter(c => c.state === 'pending');
    if (!open.length) return false;
    const c = open[which % open.length];
    if (ok) { c.ok(c.result); stats.ok++; } else { c.no(new Error('no such command')); stats.failed++; }
    await tick(); look();
    return true;
  };
  for (const o of s.ops) {
    if (o.op === 'settle') { await settle(o.which, o.ok); continue; }
    if (o.op === 'show') {
      const dot = o.dot;
      const params = { title: o.title, dotGraph: dot };
      reqs.push({ dot, title: o.title, params, answer: requestOf(client, params) });
      stats.shows++;
    } else {
      const params = o.value === 'missing' ? { title: o.title } : { title: o.title, dotGraph: o.value };
      reqs.push({ bad: true, params, answer: requestOf(client, params) });
      stats.bad++;
    }
    await tick(); look();
  }
  while (await settle(0, s.rest)) { }
  if (s.stop) {
    const r = ed.ext.deactivate();
    await r;
    if (client.stops !== 1) fail(`deactivating the extension stopped the client ${client.stops} times`);
    if (!r || typeof r.then !== 'function') fail('deactivate does not wait for the client to stop');
  } else if (client.stops) fail('the client is stopped although the extension is active');
}

// ---- together with the real server -----------------------------------------------------------------------------
class Lsp {
  constructor(bin) {
    this.p = cp.spawn(bin, [], { stdio: ['pipe', 'pipe', 'ignore'], env: { ...process.env, RUST_LOG: 'debug', RUST_BACKTRACE: '1' } });
    this.buf = Buffer.alloc(0); this.wait = new Map(); this.n = 0; this.onRequest = () => null; this.dead = new Promise(r => this.p.on('exit', r));
    this.p.stdin.on('error', () => { });
    this.p.stdout.on('data', d => {
      this.buf = Buffer.concat([this.buf, d]);
      for (; ;) {
        const h = this.buf.indexOf('\r\n\r\n');
        if (h < 0) return;
        const n = parseInt(/content-length: *(\d+)/i.exec(this.buf.toString('latin1', 0, h))[1], 10);
        if (this.buf.length < h + 4 + n) return;
        const m = JSON.parse(this.buf.toString('utf8', h + 4, h + 4 + n));
        this.buf = this.buf.subarray(h + 4 + n);
        if (m.method !== undefined) { if (m.id !== undefined) this.onRequest(m); } else { const f = this.wait.get(m.id); if (f) f(m); }
      }
    });
  }
  send(m) { const b = Buffer.from(JSON.stringify({ jsonrpc: '2.0', ...m })); this.p.stdin.write(`Content-Length: ${b.length}\r\n\r\n`); this.p.stdin.write(b); }
  request(method, params) {
    const id = ++this.n;
    const r = new Promise(ok => this.wait.set(id, ok));
    this.send({ id, method, params });
    return Promise.race([r, this.dead.then(() => fail(`the server ended during ${method}`))]);
  }
  stop() { this.p.stdin.end(); }
}
const name = fc.stringMatching(/^[a-z_é][a-z0-9_]{0,6}$/);
const both = fc.record({
  fn: name, blocks: fc.uniqueArray(name, { minLength: 1, maxLength: 4 }), jumps: fc.array(fc.nat(3), { minLength: 4, maxLength: 4 }), preview: fc.boolean(), open: fc.boolean(), shown: fc.boolean(),
}).filter(x => !['void', 'declare', 'define', 'pure', 'ptr', 'async', 'int1', 'int8', 'int16', 'int32', 'int64', 'data128', 'float32', 'float64', 'exported'].some(k => x.fn === k || x.blocks.includes(k)));
async function together(x, lsp, stats) {
  const { ed, client } = await activated({ env: {}, dir: '/ext' });
  const uri = `file:///w/${++stats.docs}.hir`;
  const src = `define void @${x.fn}() {\n` + x.blocks.map((b, i) => `${b}:\n    br ${x.blocks[x.jumps[i] % x.blocks.length]}\n`).join('') + '}\n';
  lsp.send({ method: 'textDocument/didOpen', params: { textDocument: { uri, languageId: LANG, version: 1, text: src } } });
  const lens = (await lsp.request('textDocument/codeLens', { textDocument: { uri } })).result;
  if (!lens || lens.length !== 1) fail(`code lenses ${show(lens)} for ${show(src)}`);
  let got = null;
  lsp.onRequest = m => {
    got = m;
    const h = client.handlers.get(m.method);
    if (!h) { lsp.send({ id: m.id, error: { code: -32601, message: `Unhandled method ${m.method}` } }); return; }
    Promise.resolve(h(m.params, {})).then(v => lsp.send({ id: m.id, result: v === undefined ? null : v }), e => lsp.send({ id: m.id, error: { code: -32603, message: String(e) } }));
  };
  let done = null;
  const c = lens[0].command;
  lsp.request('workspace/executeCommand', { command: c.command, arguments: c.arguments }).then(r => { done = r; }, e => { done = { dead: e }; });
  const edges = x.blocks.map((b, i) => [b, x.blocks[x.jumps[i] % x.blocks.length]]);
  const okay = cont => { const g = String(cont); return edges.every(([a, b]) => g.includes(a) && g.includes(b)) && /digraph/.test(g) && (g.match(/->/g) || []).length === edges.length; };
  let n = 0, displayed = false;
  for (let i = 0; done === null; i++) {
    if (i > 200000) fail(`the command is never finished; the server asked ${show(got)}`);
    await new Promise(r => setImmediate(r));
    for (; n < ed.calls.length; n++) {
      const k = ed.calls[n];
      const ok = k.kind === 'command' ? x.preview : k.kind === 'open' ? x.open : x.shown;
      if (k.kind === 'command') {
        if (!okay(ed.content(k))) fail(`the preview shows ${show(ed.content(k))} for ${show(src)}`);
        const t = k.data.args.map(a => a && a.title).find(y => y !== undefined);
        if (!String(t).includes('@' + x.fn)) fail(`the preview of @${x.fn} is titled ${show(t)}`);
        displayed = displayed || ok;
      } else if (k.kind === 'open') { if (!okay(k.data && k.data.content)) fail(`the document shows ${show(k.data)} for ${show(src)}`); }
      else if (k.kind === 'show') displayed = displayed || ok;
      if (k.state === 'pending') if (ok) k.ok({ document: 1 }); else k.no(new Error('not possible'));
    }
  }
  if (done.dead) throw done.dead;
  if (displayed !== !done.error) fail(`the graph is ${displayed ? '' : 'not '}displayed, but the command is answered ${show(done)}; the server asked ${show(got)}`);
  if (displayed !== (x.preview || (x.open && x.shown))) fail(`the graph is ${displayed ? '' : 'not '}displayed; preview possible: ${x.preview}, text document possible: ${x.open && x.shown}`);
}

process.on('unhandledRejection', () => { });
async function main() {
  const t0 = Date.now();
  const replay = arg('--replay') ? JSON.parse(fs.readFileSync(arg('--replay'), 'utf8')) : null;
  const stats = { shows: 0, bad: 0, ok: 0, failed: 0, docs: 0 };
  const distinct = new Set(), samples = [];
  let evals = 0;
  const count = (x, nontrivial) => {
    evals++;
    if (!nontrivial) return;
    const h = crypto.createHash('sha1').update(JSON.stringify(x)).digest('hex');
    if (!distinct.has(h) && samples.length < 4 && distinct.size % 7 === 3) samples.push(JSON.parse(JSON.stringify(x, (k, v) => typeof v === 'string' && v.length > 200 ? v.slice(0, 200) + '...' : v)));
    distinct.add(h);
  };
  let lsp = null;
  const server = async () => { if (lsp) return lsp; lsp = new Lsp(BIN); const r = await lsp.request('initialize', { processId: null, rootUri: null, capabilities: {} }); if (!r.result) fail(`initialize: ${show(r)}`); lsp.send({ method: 'initialized', params: {} }); return lsp; };
  const parts = [
    { name: 'editor', arb: session, runs: CASES, prop: async s => { count(s, s.ops.filter(o => o.op === 'show').length > 0 && s.ops.some(o => o.op === 'settle')); await run(s, stats); } },
    { name: 'server', arb: both, runs: Math.max(20, CASES / 12 | 0), prop: async x => { count(x, true); try { await together(x, await server(), stats); } catch (e) { if (lsp) lsp.stop(); lsp = null; throw e; } } },
  ];
  let failed = null;
  for (const p of parts) {
    if (p.name === 'server' && !BIN) continue;
    if (replay) {
      if (replay.part !== p.name) continue;
      try { await p.prop(replay.case); console.log('the case passes'); } catch (e) { failed = { part: p.name, case: replay.case, message: String(e.message) }; }
      break;
    }
    const r = await fc.check(fc.asyncProperty(p.arb, p.prop), { seed: SEED * 2654435761 | 0, numRuns: p.runs, interruptAfterTimeLimit: TIER === 'quick' ? 240000 : 1500000, markInterruptAsFailure: false });
    if (r.failed) { failed = { part: p.name, case: r.counterexample[0], message: String(r.errorInstance && (r.errorInstance instanceof Violation ? r.errorInstance.message : r.errorInstance.stack)), shrinks: r.numShrinks, seed: SEED, path: r.counterexamplePath }; break; }
  }
  if (lsp) lsp.stop();
  fs.mkdirSync(OUT, { recursive: true });
  const wall = (Date.now() - t0) / 1000;
  if (!replay) fs.writeFileSync(path.join(OUT, 'C28.json'), JSON.stringify({
    property: 'C28', tier: TIER, seed: SEED, level: 'exploration', wall_s: wall, violations: failed ? 1 : 0,
    coverage: {
      evaluations: evals, distinct_nontrivial: distinct.size,
      rule: 'sessions of the extension (environment, requests to show graphs, success or failure of each call to the editor in generated order), and graphs requested by the real server; non-trivial = at least one graph shown and one call settled explicitly, or a run with the server; distinct by content',
      samples, counters: stats,
    },
  }, null, 1) + '\n');
  if (failed) {
    let f = arg('--replay');
    if (!f) { f = path.join(OUT, 'replay', `C28-${SEED}.json`); fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, JSON.stringify({ property: 'C28', ...failed }, null, 1) + '\n'); }
    console.log(failed.message);
    console.log(`VIOLATION property=C28 replay=${f}`);
    process.exit(1);
  }
  console.log(`C28 ${TIER}: ${evals} cases, ${distinct.size} distinct non-trivial, ${wall} s, exit 0`);
  process.exit(0);
}
main().catch(e => { console.error(e); process.exit(3); });
