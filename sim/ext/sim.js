'use strict';
// sim.js worker x | one FILE | plan PROP SEED: the editor extension (editors/code) under simulation; same protocol as simlsp
const fs = require('fs'), path = require('path'), readline = require('readline');
const { World, Rng, hash32 } = require('./world'); const { Host, STORE, Uri, substituted, versionOf } = require('./host');
const BUNDLE = process.env.SIM_EXT || path.join(__dirname, '..', '..', 'target', 'ext', 'ext.cjs');
let fn; const bundle = (...a) => (fn ||= new Function('require', 'module', 'exports', 'process', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'Date', 'Math', 'console', fs.readFileSync(BUNDLE, 'utf8')))(...a);

const SPEED = { fast: [1, 5], mid: [10, 80], slow: [200, 1500] };
const PATHS = [null, null, null, '/opt/als', '~/bin/als', 'rel/als'];
const ENVS = [null, null, { X_A: 'plain' }, { X_A: '${env:X_HOST}/a', X_N: 7 }, { X_A: '${env:X_B}!', X_B: 'b${workspaceFolder}' }, { X_A: '${workspaceFolderBasename}-${unknown}', X_B: '${env:X_NONE}' }, { X_C: '${foo:bar}', X_A: '${userHome}' }, { X_HOST: 'own', X_A: '${env:X_HOST}' }];
const VALUES = ['aptos', '${workspaceFolder}/bin/aptos', '${userHome}/x', '${nope}', '', null, '/a${pathSeparator}b'];
function setting(r) {
  switch (r.int(9)) {
    case 0: return ['server.path', r.pick(PATHS)]; case 1: return ['server.extraEnv', r.pick(ENVS)]; case 2: return ['showSyntaxTree', r.p(0.6)];
    case 3: return ['aptosPath', r.pick(VALUES)]; case 4: return ['diagnostics.disabled', r.pick([[], ['a', '${workspaceFolder}'], ['x']])]; case 5: return ['statusBar.clickAction', r.pick(['stopServer', 'openLogs'])];
    case 6: return ['statusBar.showStatusBar', r.pick(['always', 'never', { documentSelector: [{ language: 'move' }, { pattern: '**/Move.toml' }] }])]; case 7: return ['movefmt.path', r.pick(VALUES)]; default: return ['dap.extraArgs', r.pick([[], ['--x']])];
  }
}
function generate(prop, seed) {
  const r = new Rng(hash32(prop, seed) + 1); const dap = prop === 'C19' ? r.p(0.4) : r.p(0.1), settings = prop === 'C24' || r.p(0.2), editing = r.p(prop === 'C24' ? 0.3 : 0.05);
  const lat = {};
  for (const l of ['spawn', 'client.start', 'prompt', 'setContext', 'net.release', 'net.asset', 'fs.createDirectory', 'fs.stat', 'fs.async', 'listen', 'connect', 'request', 'status', 'update']) lat[l] = SPEED[r.pick(['fast', 'mid', 'slow'])];
  lat['client.stop'] = r.pick([[1, 20], [20, 99], [60, 200], [150, 3000]]);
  const faults = {}, nf = r.p(0.35) ? 0 : r.range(1, 4);
  for (let i = 0; i < nf; i++) {
    const k = dap ? r.pick(['net.release', 'net.asset', 'net.bytes', 'fs', 'fs', 'fs', 'fs', 'fs', 'fs.createDirectory', 'listen', 'connect', 'client.start']) : r.pick(['client.start', 'client.start', 'client.start', 'client.stop', 'spawn', 'spawn', 'setContext', 'request']);
    const v = { 'client.start': ['fail', 'fail', 'spawn', 'hang'], 'client.stop': ['error', 'hang'], spawn: ['ENOENT', 'exit'], 'net.bytes': ['short', 'empty', 'page'], fs: ['kill', 'kill', 'kill', 'ENOSPC', 'EACCES', 'EIO'] }[k] || ['error'];
    faults[`${k}#${r.range(1, k === 'fs' ? 30 : k === 'client.start' ? 4 : 3)}`] = r.pick(v);
  }
  const config = {}; if (settings || r.p(0.3)) for (let i = r.range(1, 4); i > 0; i--) { const [k, v] = setting(r); config['move-on-aptos.' + k] = v; }
  if (editing && r.p(0.8)) config['move-on-aptos.showSyntaxTree'] = true;
  if (r.p(0.1)) config['move-on-aptos.initializeStopped'] = true;
  if (dap && r.p(0.1)) config['move-on-aptos.dap.path'] = '/opt/my-dap';
  const ops = [], gap = () => r.pick([0, 0, 1, r.range(1, 10), r.range(1, 100), r.range(50, 2000)]);
  for (let i = r.range(2, prop === 'C24' ? 14 : 12); i > 0; i--) {
    const x = r.next(), g = gap();
    if (dap && x < 0.75) ops.push(r.pick([{ op: 'debug', type: r.pick(['aptos-move-test', 'aptos-move-replay']), gap: g }, { op: 'debug', type: 'aptos-move-test', gap: g }, { op: 'debug', type: 'aptos-move-test', gap: g }, { op: 'release', gap: g }, { op: 'skew', ms: r.pick([7200000, -7200000, 60000]), gap: g }, { op: 'kill', gap: g }, { op: 'wait', gap: g }, { op: 'reload', gap: g }, { op: 'lose', gap: g }]));
    else if (editing && x < 0.7) ops.push(r.pick([{ op: 'editor', what: r.pick(['move', 'move', 'move2', 'toml', 'other', null]), gap: g }, { op: 'type', gap: g }, { op: 'type', gap: g }, { op: 'command', name: 'organizeImports', gap: g }, { op: 'wait', gap: g }]));
    else if (settings && x < 0.4) { const set = {}; for (let j = r.range(1, 2); j > 0; j--) { const [k, v] = setting(r); set['move-on-aptos.' + k] = v; } ops.push({ op: 'config', set, gap: g }); }
    else if (x < 0.8) ops.push({ op: 'command', name: r.pick(['startServer', 'startServer', 'stopServer', 'stopServer', 'restartServer', 'restartServer', 'restartServer']), gap: g });
    else ops.push(r.pick([{ op: 'crash', gap: g }, { op: 'crash', gap: g }, { op: 'folders', folders: r.pick([[], ['/w'], ['/w', '/w2']]), gap: g }, { op: 'config', set: { 'move-on-aptos.server.path': r.pick(PATHS) }, gap: g }, { op: 'wait', gap: g }, { op: 'wait', gap: g }, { op: 'editor', what: r.pick(['move', 'toml', 'other', null]), gap: g }, { op: 'type', gap: g }, { op: 'command', name: r.pick(['serverVersion', 'openLogs', 'analyzerStatus', 'organizeImports', 'toggleLSPLogs']), gap: g }, { op: 'kill', gap: g }, { op: 'reload', gap: g }, { op: 'watched', gap: g }]));
  }
  // an update of the debug adapter that something interrupts
  const story = dap && r.p(0.4);
  if (story) {
    const g = () => r.pick([0, 1, r.range(1, 100), r.range(50, 2000)]);
    ops.splice(0, ops.length, { op: 'debug', type: 'aptos-move-test', gap: g() }, { op: 'wait', gap: g() }, { op: 'release', gap: g() }, { op: 'skew', ms: 7200000, gap: g() }, { op: 'debug', type: 'aptos-move-replay', gap: g() });
    for (let i = r.int(4); i > 0; i--) ops.push(r.pick([{ op: 'kill', gap: g() }, { op: 'reload', gap: g() }, { op: 'debug', type: 'aptos-move-test', gap: g() }, { op: 'release', gap: g() }, { op: 'skew', ms: 7200000, gap: g() }, { op: 'wait', gap: g() }]));
    for (const k of Object.keys(faults)) delete faults[k];
    for (let i = r.range(1, 2); i > 0; i--) faults[`fs#${r.range(12, 34)}`] = r.pick(['kill', 'kill', 'ENOSPC', 'EIO']);
    delete config['move-on-aptos.dap.path'];
  }
  const statuses = [{ health: 'ok', quiescent: true }, { health: r.pick(['warning', 'error', 'ok']), quiescent: r.p(0.8), message: r.pick(['bad manifest', 'reload failed', undefined]) }];
  return { prop, seed, mode: 'ext', policy: 'latencies', ops, faults, lat, config, answers: story ? [0] : Array.from({ length: 4 }, () => r.pick([0, 0, 0, 1, -1])), statuses, needsEnv: r.p(0.2), folders: r.p(0.05) ? [] : r.pick([['/w'], ['/w', '/w2']]), releaseTag: r.pick([null, 'v1']), bundled: r.p(0.95), platform: story ? 'linux' : r.pick(['linux', 'linux', 'darwin']), arch: story ? 'x64' : r.pick(['x64', 'x64', 'x64', 'arm64']), editor: r.pick(['move', 'move', 'toml', 'other', null]), dap };
}
const DOC = (k, w) => k === null ? undefined : { document: { languageId: { move: 'move', move2: 'move', toml: 'plaintext', other: 'rust' }[k], fileName: { move: '/w/a.move', move2: '/w/b.move', toml: '/w/Move.toml', other: '/w/a.rs' }[k], uri: Uri.file({ move: '/w/a.move', move2: '/w/b.move', toml: '/w/Move.toml', other: '/w/a.rs' }[k]), getText: () => '', get version() { return w.versions[this.uri.toString()] || 0; } }, selections: [] };

async function run(plan, trace) {
  const t0 = Date.now();
  const w = new World(plan, trace); const ops = {};
  Object.assign(w, { config: { ...plan.config }, configs: [{ at: 0, cfg: { ...plan.config }, folders: plan.folders }], folders: plan.folders, editor: DOC(plan.editor, w), env: { HOME: '/home/user', PATH: '/bin', X_HOST: 'host' }, epoch: 1.8e12, skew: 0, releases: [], versions: {} });
  w.release = () => w.releases.at(-1);
  const addRelease = () => { const id = w.releases.length, s = []; for (let i = 0; i < 60; i++) s.push(`#!elf ${id}.${i}`); w.releases.push({ id, tag: `v0.${id + 1}`, assets: ['linux-x64', 'darwin-arm64', 'darwin-x64'].map(a => ({ name: `aptos-dap-${a}.gz`, data: Buffer.from(`${a} ${s.join('\n')}`) })) }); };
  addRelease(); w.disk.dirs.add('/ext').add('/ext/server').add('/store'); if (plan.bundled) w.disk.files.set('/ext/server/aptos-language-server', { data: Buffer.from('x'), mode: 0o755 });
  let host;
  const fresh = () => { host = w.host = new Host(w, bundle); host.activate(); };
  const onRej = e => { w.rejections++; }; process.removeAllListeners('unhandledRejection'); process.on('unhandledRejection', onRej);
  const settle = async (phase, strict) => { await w.run(w.now + 400000); if (w.hostDied) { w.hostDied = false; fresh(); await w.run(w.now + 400000); } host.rest(phase, strict); await host.checkTree(phase); };
  const step = async (gap) => { await w.run(w.now + gap); if (w.hostDied) { w.hostDied = false; fresh(); } };
  try {
    fresh();
    for (const o of plan.ops) {
      await step(o.gap); ops[o.op] = (ops[o.op] || 0) + 1; w.note(`op ${JSON.stringify(o)}`);
      if (o.op === 'command') host.command('move-on-aptos.' + o.name).catch(() => {});
      else if (o.op === 'config') { w.config = { ...w.config, ...o.set }; w.configs.push({ at: w.now, cfg: w.config, folders: w.folders }); host.configAt = w.now; host.fire('configuration', { affectsConfiguration: s => Object.keys(o.set).some(k => k === s || k.startsWith(s + '.') || s.startsWith(k + '.')) }); }
      else if (o.op === 'folders') { w.folders = o.folders; w.configs.push({ at: w.now, cfg: w.config, folders: w.folders }); if (!o.folders.length) host.request('stop'); host.fire('folders', { added: [], removed: [] }); }
      else if (o.op === 'crash') { const c = host.clients.find(c => c.isRunning()); if (c && c.server) { w.faultAt = w.now; w.injected['server crash'] = (w.injected['server crash'] || 0) + 1; c.server.alive = false; c.closed(); } }
      else if (o.op === 'editor') { w.editor = DOC(o.what, w); host.fire('activeEditor', w.editor); host.checkVisible(); }
      else if (o.op === 'type') { if (w.editor) { const u = w.editor.document.uri.toString(); w.versions[u] = (w.versions[u] || 0) + 1; host.fire('textDocument', { document: w.editor.document, contentChanges: [{}] }); host.fire('selection', { textEditor: w.editor, selections: [{}] }); } }
      else if (o.op === 'watched') { const c = host.clients.find(c => c.isRunning()); if (c) { const mw = c.middleware.workspace && c.middleware.workspace.didChangeWatchedFile; let got = 0; if (mw) await mw({ type: 2, uri: '/w/a.move' }, async () => { got++; }); if (mw && got !== 1) w.violation(['C24'], 'watch-lost', `a file changed while client ${c.num} was running, and the change was passed on ${got} times`); else w.saw('file events passed on'); } }
      else if (o.op === 'release') addRelease();
      else if (o.op === 'lose') { if (w.disk.files.delete(`${STORE}/aptos-dap`)) w.injected['executable lost'] = (w.injected['executable lost'] || 0) + 1; }
      else if (o.op === 'skew') { w.skew += o.ms; w.injected['clock jump'] = (w.injected['clock jump'] || 0) + 1; }
      else if (o.op === 'kill') { w.injected['host killed'] = (w.injected['host killed'] || 0) + 1; host.kill(); w.hostDied = false; fresh(); }
      else if (o.op === 'reload') { host.dispose(); await w.run(w.now + 400000); if (w.hostDied) w.hostDied = false; else { host.rest('after disposal'); host.afterDispose(); } host.dead = true; fresh(); }
      else if (o.op === 'wait') await settle('at rest');
      else if (o.op === 'debug') debug(o.type);
    }
    function debug(type) { const f = host.factories && host.factories[type]; if (!f) { w.saw('no debug factory'); return; } const h = host; w.saw('debug sessions'); h.call(() => f.createDebugAdapterDescriptor({ type, name: 'd', configuration: type === 'aptos-move-test' ? { testFilter: 't', packagePath: '/w/p' } : { txnId: 7, network: 'testnet', useLocalPackages: ['/w/p'], namedAddresses: { a: '0x1' } } }, undefined).then(d => { w.saw('debug sessions connected'); if (!h.launched.some(x => new RegExp(`--port ${d.port}\\b`).test(x) && x.includes(type === 'aptos-move-replay' ? ' replay ' : ' test '))) w.violation(['C24'], 'debug-port', `the ${type} session is connected to port ${d.port}, launched were ${JSON.stringify(h.launched)}`); const l = h.launched.find(x => new RegExp(`--port ${d.port}\\b`).test(x)) || ''; const want = type === 'aptos-move-test' ? ['--filter "t"', '--package-path "/w/p"'] : ['--txn-id 7', '--network "testnet"', '--use-local-package "/w/p"', '--named-address a=0x1']; const lack = want.filter(x => !l.includes(x)); if (l && lack.length) w.violation(['C24'], 'debug-port', `the ${type} session is to run ${want.join(' ')}, launched is ${l}`); }, e => { w.saw('debug sessions refused'); w.note('debug: ' + e.message); })); }
    await settle('at the end');
    w.faultsOn = false; w.plan = { ...plan, answers: [0] };
    if (plan.dap) { for (let i = 0; i < 3; i++) { w.skew += 7200000; debug('aptos-move-test'); await settle('debugging after the faults'); } if (host.factories && !w.config['move-on-aptos.dap.path'] && plan.platform + plan.arch !== 'linuxarm64') { const f = w.disk.files.get(`${STORE}/aptos-dap`); if (!f || !(f.mode & 0o111) || !w.releases.some(r => r.assets.some(a => a.data.equals(f.data)))) w.violation(['C19'], 'no-debugger', `faults are over and the user agreed to download, yet the debug adapter is ${!f ? 'missing' : 'not a released executable'}`); else { const name = `aptos-dap-${plan.platform}-${plan.arch}.gz`; if (!w.release().assets.some(a => a.name === name && a.data.equals(f.data))) w.violation(['C19'], 'no-update', 'faults are over and the user agreed to update, yet the debug adapter is not the current release'); else w.saw('current debug adapters'); } } }
    const able = !host.emptyStart && !host.unable(w.config);
    if (able && host.commands.size) {
      for (const [name, what] of [['restartServer', 'running'], ['startServer', 'running'], ['restartServer', 'fresh'], ['stopServer', 'none'], ['stopServer', 'none'], ['startServer', 'running']]) {
        const before = host.clients.find(c => c.isRunning()), at = w.now;
        host.command('move-on-aptos.' + name).catch(() => {}); await settle(`recovery: ${name}`, true);
        const c = host.clients.find(c => c.isRunning());
        if (what === 'fresh' && c && c === before && !(host.lastRunningStart.get(c) > at)) w.violation(['C19'], 'not-restarted', `restartServer left client ${c.num} running, which was started before the request`);
        if (what === 'running') { host.messages = []; host.command('move-on-aptos.serverVersion').catch(() => {}); await w.run(w.now + 5000); const m = host.messages.at(-1); if (c && (!m || m.kind !== 'info')) w.violation(['C24'], 'commands-stale', `a client is running, yet serverVersion answers ${m ? JSON.stringify(m.message) : 'nothing'}`); else w.saw('commands asked');
          if (c && m && m.kind === 'info' && !c.crashes.length) { const cmd = (c.serverOptions.run || c.serverOptions).command, other = (/1\.2\.\d+/.exec(m.message) || [])[0]; if (!m.message.includes(cmd) || (other && other !== versionOf(cmd))) w.violation(['C24'], 'version-wrong', `the running server is ${cmd} ${versionOf(cmd)}, serverVersion says ${JSON.stringify(m.message)}`); else if (other) w.saw('versions checked'); } }
        if (what === 'none') { host.messages = []; host.command('move-on-aptos.serverVersion').catch(() => {}); await w.run(w.now + 5000); const m = host.messages.at(-1); if (!m || m.kind === 'info') w.violation(['C24'], 'commands-stale', `no client is running, yet serverVersion answers ${m ? JSON.stringify(m.message) : 'nothing'}`);
          for (const n of ['analyzerStatus', 'organizeImports', 'toggleLSPLogs', 'openLogs', 'syntaxTreeHideWhitespace', 'debugTest']) { host.messages = []; let err; host.command('move-on-aptos.' + n, [{ label: 'x', args: { args: ['--filter', 'f'], packageRoot: '/w' } }]).catch(e => { err = e; }); await w.run(w.now + 5000); if (err || !host.messages.length) w.violation(['C24'], 'commands-stale', `no client is running, yet ${n} ${err ? 'fails: ' + err.message : 'says nothing'}`); }
        }
        else if (what === 'running' && c) {
          const shown = host.shown, tasks = host.tasks.length; w.editor = DOC('move', w); host.fire('activeEditor', w.editor); host.command('move-on-aptos.openLogs').catch(() => {});
          const args = ['move', 'test', '--filter', 'f']; let err; host.command('move-on-aptos.runTest', [{ label: 'test f', args: { packageRoot: '/w/p', args } }]).catch(e => { err = e; }); await w.run(w.now + 5000);
          if (host.shown === shown) w.violation(['C24'], 'commands-stale', 'a client is running, yet openLogs shows nothing');
          const t = host.tasks[tasks], program = substituted(host.settings()['move-on-aptos.aptosPath'] ?? 'aptos', w);
          if (!t || t.execution.process !== program || JSON.stringify(t.execution.args) !== JSON.stringify(args) || t.execution.options.cwd !== '/w/p') w.violation(['C24'], 'task-wrong', `runTest of "aptos move test --filter f" in /w/p with aptosPath ${JSON.stringify(program)} runs ${t ? JSON.stringify([t.execution.process, t.execution.args, t.execution.options.cwd]) : 'nothing'} ${err || ''}`); else w.saw('tasks checked');
          const dbg = (host.debugged || []).length; host.command('move-on-aptos.debugTest', [{ label: 'test f', args: { packageRoot: '/w/p', args } }]).catch(e => { err = e; }); await w.run(w.now + 5000);
          const d = (host.debugged || [])[dbg]; if (!d || d.type !== 'aptos-move-test' || d.testFilter !== 'f' || d.packagePath !== '/w/p') w.violation(['C24'], 'task-wrong', `debugTest of the test f of /w/p starts ${JSON.stringify(d)} ${err || ''}`);
          const docs = (host.shownDocs || []).length, sel = new (host.vscode().Range)(3, 1, 3, 9); sel.with = () => sel; host.command('move-on-aptos.gotoLocation', [{ targetUri: 'file:///w/b.move', targetRange: null, targetSelectionRange: sel }]).catch(e => { err = e; }); await w.run(w.now + 5000);
          const g = (host.shownDocs || [])[docs]; if (!g || String(g[0]) !== 'file:///w/b.move' || !g[1] || g[1].selection !== sel) w.violation(['C24'], 'task-wrong', `gotoLocation to 3:1 of /w/b.move shows ${JSON.stringify(g)} ${err || ''}`);
        }
      }
    }
    host.dispose(); await w.run(w.now + 400000); host.rest('after disposal'); host.afterDispose();
  } catch (e) { w.unsupported.push('simulator: ' + (e && e.stack || e)); }
  const un = [...new Set(w.unsupported)];
  return { prop: plan.prop, seed: plan.seed, mode: 'ext', policy: 'latencies', violations: un.length ? [] : w.violations, inconclusive: un.slice(0, 3), hash: w.h.digest('hex').slice(0, 16), steps: w.steps, switches: w.steps, preemptions: 0, time_jumps: w.steps, sim_ns: Math.round(w.now * 1e6), ops, faults: w.injected, seen: w.seen, counters: { clients: w.nth('client.start') - 1, 'file system calls': w.nth('fs') - 1, 'rejections nobody handled': w.rejections }, ending: 'dispose', refs: 0, compared: 0, ms: Date.now() - t0, panics: [], stderr: '', trace: trace ? w.log : undefined };
}
async function main() {
  const [, , cmd, a, b] = process.argv;
  if (cmd === 'plan') return console.log(JSON.stringify({ plan: generate(a, +b) }));
  const file = async f => { const d = JSON.parse(fs.readFileSync(f, 'utf8')); return run(d.plan, d.trace); };
  if (cmd === 'one') return console.log(JSON.stringify(await file(a)));
  for await (const l of readline.createInterface({ input: process.stdin })) {
    const x = l.trim().split(/\s+/); if (!x[0]) continue;
    console.log(JSON.stringify(x[0] === 'seed' ? await run(generate(x[1], +x[2])) : await file(l.trim().slice(5))));
  }
}
main().then(() => { if (process.argv[2] !== 'worker') process.exitCode = 0; });
