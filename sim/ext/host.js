'use strict';
// One extension host: the editor's API, node's modules, and the monitors that watch what the extension does with them.
const path = require('path'), os = require('os'), zlib = require('zlib'), util = require('util'), assert = require('assert');
const { Crash } = require('./world');

// what the extension's manifest declares: the defaults of its settings and its commands
let MANIFEST = {}; try { MANIFEST = JSON.parse(require('fs').readFileSync(path.join(process.env.SIM_REPO || '/repo', 'editors/code/package.json'), 'utf8')); } catch (e) { /* none */ }
const DEFAULTS = {}; for (const g of [].concat((MANIFEST.contributes || {}).configuration || [])) for (const [k, v] of Object.entries(g.properties || {})) if (k.startsWith('move-on-aptos.') && 'default' in v) DEFAULTS[k] = v.default;
const DECLARED = ((MANIFEST.contributes || {}).commands || []).map(c => c.command);
const STORE = '/store/aptoslabs.move-on-aptos';
class Uri {
  constructor(scheme, p) { this.scheme = scheme; this.path = p; this.fsPath = p; }
  static file(p) { return new Uri('file', p); }
  static parse(s) { const m = /^(\w[\w-]*):(?:\/\/)?(.*)$/.exec(s); return new Uri(m ? m[1] : 'file', m ? m[2] : s); }
  static joinPath(u, ...xs) { return new Uri(u.scheme, path.posix.join(u.path, ...xs)); }
  toString() { return `${this.scheme}://${this.path}`; }
  with(c) { return new Uri(c.scheme || this.scheme, c.path || this.path); }
}
const range = class { constructor(a, b, c, d) { this.start = { line: a, character: b }; this.end = { line: c, character: d }; } isEqual() { return false; } contains() { return true; } get isEmpty() { return true; } with() { return this; } };

class Host {
  constructor(world, bundle) {
    this.world = world; this.bundle = bundle; this.dead = false; this.clients = []; this.clientNo = 0; this.servers = []; this.disposedClients = new Set(); this.commands = new Map(); this.names = null;
    this.counts = new Map(); this.listeners = new Map(); this.subscriptions = []; this.lifecycle = []; this.statusBars = []; this.status = null; this.disposed = false; this.messages = []; this.configAt = -1; this.launched = [];
    this.lastRunningStart = new Map(); this.context = {}; this.tasks = []; this.tree = null; this.shown = 0;
    this.lc = require('./lc')(this);
  }
  note(what) { this.lastEvent = what; }
  held(kind, d) { this.counts.set(kind, (this.counts.get(kind) || 0) + d); }
  disposable(kind, f) { let on = true; this.held(kind, 1); return { dispose: () => { if (on) { on = false; this.held(kind, -1); f && f(); } } }; }
  event(name) {
    const h = this; h.listeners.set(name, []);
    return (f, self, ds) => { const e = { f: self ? f.bind(self) : f }; h.listeners.get(name).push(e); const d = h.disposable(`listener ${name}`, () => h.listeners.set(name, h.listeners.get(name).filter(x => x !== e))); if (ds) ds.push(d); return d; };
  }
  fire(name, ev) { for (const e of this.listeners.get(name) || []) this.call(() => e.f(ev)); }
  call(f) { if (this.dead) return; try { const r = f(); if (r && r.then) r.then(() => {}, e => this.world.note('listener failed: ' + (e && e.message))); return r; } catch (e) { this.world.note('listener threw: ' + (e && e.message)); } }
  // something that completes later
  later(label, ok, fail) {
    const w = this.world; if (this.dead) return new Promise(() => {});
    const n = w.nth(label), f = w.fault(label, n);
    return new Promise((res, rej) => { if (f === 'never') return; w.at(w.latency(label, n), `${label}#${n}`, () => { try { if (f) rej(fail ? fail(f) : new Error(`${label} failed`)); else res(ok ? ok() : undefined); } catch (e) { rej(e); } }); });
  }
  prompt(kind, message, items) {
    const w = this.world; this.messages.push({ kind, message, at: w.now }); w.note(`message ${kind}: ${String(message).slice(0, 120)} ${JSON.stringify(items)}`);
    if (this.dead) return new Promise(() => {});
    const n = w.nth('prompt'), a = this.plan().answers[(n - 1) % this.plan().answers.length];
    const opts = items.filter(x => typeof x === 'string');
    return new Promise(res => w.at(w.latency('prompt', n), `the user answers a message`, () => { const x = a < 0 || !opts.length ? undefined : opts[a % opts.length]; w.note(`answer ${x}`); if (x) this.answered(message, x); if (opts.includes('Restart now') && x) this.restartsAgreed = (this.restartsAgreed || 0) + 1; res(x); }));
  }
  answered(message, x) { if (x === 'Download' || x === 'Update') this.agreed = (this.agreed || 0) + 1; }
  plan() { return this.world.plan; }
  // edits the extension applies; those a server computed carry the version they were computed for
  edited(uri, edits) {
    const w = this.world, d = w.editor && w.editor.document;
    for (const e of edits || []) if (e.computedFor !== undefined) { const now = w.versions[uri.toString()] || 0; w.saw('edits applied'); if (e.computedFor !== now) w.violation(['C24'], 'stale-edit', `an edit computed for version ${e.computedFor} of ${uri} was applied to version ${now}`); }
  }
  // ------------------------------------------------------------------ settings
  settings() { return { ...DEFAULTS, ...this.world.config }; }
  configuration(section) { return this.configurationOf(this.settings(), section); }
  configurationOf(all, section) {
    const under = section ? section + '.' : '';
    const get = (k, d) => { const key = under + k; if (key in all) return all[key]; const o = {}; let any = false; for (const x in all) if (x.startsWith(key + '.')) { any = true; put(o, x.slice(key.length + 1), all[x]); } return any ? o : d; };
    const put = (o, k, v) => { const ps = k.split('.'); let c = o; for (const p of ps.slice(0, -1)) c = c[p] ||= {}; c[ps.at(-1)] = v; };
    const r = {}; for (const x in all) if (x.startsWith(under)) put(r, x.slice(under.length), all[x]);
    Object.assign(r, { get, has: k => get(k) !== undefined, update: (k, v) => this.later('update', () => { const w = this.world, c = { ...w.config, [under + k]: v }; if (v === undefined) delete c[under + k]; w.config = c; w.configs.push({ at: w.now, cfg: c, folders: w.folders }); this.configAt = w.now; this.fire('configuration', { affectsConfiguration: s => (under + k).startsWith(s) || s.startsWith(under + k) }); }), inspect: () => undefined });
    return r;
  }
  // ------------------------------------------------------------------ the editor's API
  vscode() {
    const h = this, w = this.world;
    const ch = () => { let closed = false; const d = h.disposable('output channel', () => { closed = true; }), open = () => { if (closed) throw new Error('Channel has been closed'); }; return { append: open, appendLine: open, replace: open, clear: open, show() { open(); h.shown++; }, hide() {}, trace() {}, debug() {}, info(s) { w.note('log ' + String(s).slice(0, 100).replace(/\n.*/s, '')); }, warn() {}, error() {}, dispose: d.dispose }; };
    class EventEmitter { constructor() { this.l = []; this.event = f => { this.l.push(f); return { dispose: () => { this.l = this.l.filter(x => x !== f); } }; }; } fire(x) { for (const f of this.l) h.call(() => f(x)); } dispose() { this.l = []; } }
    class MarkdownString { constructor(v = '') { this.value = v; } appendMarkdown(s) { this.value += s; return this; } appendText(s) { this.value += s; return this; } appendCodeblock(s) { this.value += s; return this; } }
    const v = {
      Uri, Range: range, Position: class { constructor(a, b) { this.line = a; this.character = b; } }, Selection: class {}, EventEmitter, MarkdownString,
      ThemeColor: class { constructor(id) { this.id = id; } }, ThemeIcon: class {}, TreeItem: class {}, WorkspaceEdit: class { constructor() { this.sets = []; } set(u, e) { this.sets.push([u, e]); } replace(u, r, t) { this.sets.push([u, [{ range: r, newText: t }]]); } entries() { return this.sets; } }, Task: class { constructor(definition, scope, name, source, execution) { this.presentationOptions = {}; Object.assign(this, { definition, scope, name, source, execution }); } }, ProcessExecution: class { constructor(process, args, options) { Object.assign(this, { process, args, options }); } }, ShellExecution: class { constructor(...a) { this.process = a[0]; this.args = a[1]; this.options = a[2]; } },
      Disposable: class { constructor(f) { this.dispose = f; } static from(...ds) { return { dispose: () => ds.forEach(d => d.dispose()) }; } },
      DebugAdapterServer: class { constructor(p) { this.port = p; } }, CancellationTokenSource: class { constructor() { this.token = {}; } cancel() {} dispose() {} }, RelativePattern: class {},
      StatusBarAlignment: { Left: 1, Right: 2 }, ViewColumn: { One: 1, Two: 2 }, ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 }, ProgressLocation: { Notification: 15, Window: 10 }, TaskScope: { Global: 1, Workspace: 2 }, TaskGroup: { Test: 1 }, TaskRevealKind: { Always: 1 }, TaskPanelKind: { Dedicated: 2 }, TreeItemCollapsibleState: { None: 0, Collapsed: 1, Expanded: 2 }, TextEditorRevealType: { InCenter: 1 }, IndentAction: { None: 0, Indent: 1, IndentOutdent: 2, Outdent: 3 },
      window: {
        get activeTextEditor() { return w.editor; }, get visibleTextEditors() { return w.editor ? [w.editor] : []; },
        createOutputChannel: () => ch(),
        createStatusBarItem: () => { const d = h.disposable('status bar'); const s = { text: '', tooltip: undefined, command: undefined, visible: false, show() { s.visible = true; }, hide() { s.visible = false; }, dispose: d.dispose }; h.statusBars.push(s); return s; },
        showInformationMessage: (m, ...i) => h.prompt('info', m, i), showWarningMessage: (m, ...i) => h.prompt('warning', m, i), showErrorMessage: (m, ...i) => h.prompt('error', m, i),
        showQuickPick: async xs => (await xs)[0], showInputBox: async () => '1', showTextDocument: async (u, o) => { (h.shownDocs ||= []).push([u, o]); return w.editor; },
        createTerminal: o => { const d = h.disposable('terminal'); d.dispose(); return { name: typeof o === 'string' ? o : o && o.name, show() {}, hide() {}, sendText(s) { h.terminal(s); }, dispose() {} }; },
        createTreeView: (id, o) => { const d = h.disposable(`tree view ${id}`); h.tree = o && o.treeDataProvider; return { visible: true, onDidChangeVisibility: h.event(`treeVisibility`), reveal: async () => {}, dispose: d.dispose }; },
        withProgress: async (o, f) => f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: h.event('progressCancel') }),
        onDidChangeActiveTextEditor: h.event('activeEditor'), onDidChangeTextEditorSelection: h.event('selection'), onDidChangeVisibleTextEditors: h.event('visibleEditors'), onDidCloseTerminal: h.event('closeTerminal'), setStatusBarMessage: () => ({ dispose() {} }),
        registerTreeDataProvider: () => h.disposable('tree provider'),
      },
      workspace: {
        get workspaceFolders() { return w.folders.length ? w.folders.map((f, i) => ({ uri: Uri.file(f), name: path.basename(f), index: i })) : undefined; }, get textDocuments() { return w.editor ? [w.editor.document] : []; },
        getConfiguration: s => h.configuration(s),
        onDidChangeConfiguration: h.event('configuration'), onDidChangeWorkspaceFolders: h.event('folders'), onDidChangeTextDocument: h.event('textDocument'), onDidOpenTextDocument: h.event('openDocument'), onDidCloseTextDocument: h.event('closeDocument'), onDidSaveTextDocument: h.event('saveDocument'),
        registerTextDocumentContentProvider: s => h.disposable(`content provider ${s}`), openTextDocument: async () => ({ uri: Uri.file('/x'), getText: () => '', positionAt: () => ({}) }), applyEdit: async e => { for (const [u, es] of e.sets) h.edited(u, es); return true; }, createFileSystemWatcher: () => h.disposable('file watcher'),
        fs: { createDirectory: u => h.later('fs.createDirectory', () => { h.fs().mkdirSync(u.fsPath, { recursive: true }); }), stat: u => h.later('fs.stat', () => h.fs().statSync(u.fsPath)), readFile: u => h.later('fs.readFile', () => h.fs().readFileSync(u.fsPath)), writeFile: (u, d) => h.later('fs.writeFile', () => h.fs().writeFileSync(u.fsPath, d)), delete: u => h.later('fs.delete', () => h.fs().rmSync(u.fsPath, { recursive: true, force: true })), rename: (a, b) => h.later('fs.rename', () => h.fs().renameSync(a.fsPath, b.fsPath)) },
      },
      commands: {
        registerCommand: (n, f) => { if (h.commands.has(n)) { w.violation(['C24'], 'command-twice', `${n} is registered twice`); throw new Error(`command '${n}' already exists`); } h.commands.set(n, f); return h.disposable('command', () => { if (h.commands.get(n) === f) h.commands.delete(n); }); },
        executeCommand: (n, ...a) => { if (h.dead) return new Promise(() => {}); if (n === 'setContext') return h.later('setContext', () => { h.context[a[0]] = a[1]; }); if (n.startsWith('move-on-aptos.')) { if (n === 'move-on-aptos.restartServer') h.restartsRun = (h.restartsRun || 0) + 1; return h.command(n, a, true); } return Promise.resolve(undefined); },
        getCommands: async () => [...h.commands.keys()],
      },
      languages: { setLanguageConfiguration: () => h.disposable('language configuration'), match: (sel, d) => ([].concat(sel)).some(s => typeof s === 'string' ? s === d.languageId : s.language ? s.language === d.languageId : s.pattern && d.fileName.endsWith('Move.toml')) ? 10 : 0, createDiagnosticCollection: () => h.disposable('diagnostics') },
      debug: { registerDebugAdapterDescriptorFactory: (t, f) => { (h.factories ||= {})[t] = f; return h.disposable(`debug factory ${t}`); }, startDebugging: async (f, c) => { (h.debugged ||= []).push(c); return true; }, onDidStartDebugSession: h.event('debugStart'), onDidTerminateDebugSession: h.event('debugEnd') },
      tasks: { executeTask: async t => { h.tasks.push(t); return {}; }, registerTaskProvider: () => h.disposable('task provider') },
      extensions: { getExtension: id => id.startsWith('aptoslabs') ? { packageJSON: { version: '0.1.0' }, id } : undefined, all: [] },
      env: { openExternal: async () => true, clipboard: { writeText: async () => {} }, machineId: 'm' },
      version: '1.100.0',
    };
    return v;
  }
  // ------------------------------------------------------------------ node's modules
  fs() {
    if (this._fs) return this._fs;
    const h = this, w = this.world, D = () => w.disk;
    const err = (c, p) => Object.assign(new Error(`${c}: ${p}`), { code: c, path: p });
    // every step of every call can fail or be the last thing this host does
    const step = (label, p) => {
      if (h.dead) throw new Crash();
      const n = w.nth('fs'), f = w.fault('fs', n); w.note(`fs#${n} ${label} ${p}`);
      if (f === 'kill') { h.kill(); throw new Crash(); }
      if (f && label !== 'exists') throw err(typeof f === 'string' ? f : 'EIO', p);
    };
    const P = p => path.posix.normalize(p instanceof Uri ? p.fsPath : typeof p === 'object' && p && p.pathname ? p.pathname : String(p));
    const parent = p => { if (!D().dirs.has(path.posix.dirname(p))) throw err('ENOENT', p); };
    const file = p => { const f = D().files.get(p); if (!f) throw err(D().dirs.has(p) ? 'EISDIR' : 'ENOENT', p); return f; };
    let fds = new Map(), fdn = 10, tmpn = 0;
    const stat = p => { const f = D().files.get(p), d = D().dirs.has(p); return { isFile: () => !!f, isDirectory: () => d, size: f ? f.data.length : 0, mode: f ? 0o100000 | f.mode : 0o40755, mtimeMs: 0 }; };
    const fs = {
      constants: { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1, COPYFILE_EXCL: 1, O_CREAT: 64, O_WRONLY: 1 },
      existsSync(p) { p = P(p); step('exists', p); return D().files.has(p) || D().dirs.has(p); },
      accessSync(p, m = 0) { p = P(p); step('access', p); const f = file(p); if (m & 1 && !(f.mode & 0o111)) throw err('EACCES', p); },
      statSync(p, o) { p = P(p); step('stat', p); if (!D().files.has(p) && !D().dirs.has(p)) { if (o && o.throwIfNoEntry === false) return undefined; throw err('ENOENT', p); } return stat(p); },
      readFileSync(p, e) { p = P(p); step('read', p); const b = Buffer.from(file(p).data); return e ? b.toString(typeof e === 'string' ? e : e.encoding || 'utf8') : b; },
      writeFileSync(p, d, o) {
        if (fds.has(p)) { const x = fds.get(p); step('write', x.p); x.f.data = Buffer.concat([x.f.data, Buffer.from(d)]); return; }
        p = P(p); step('open', p); parent(p);
        if (o && typeof o === 'object' && o.flag && o.flag.includes('x') && D().files.has(p)) throw err('EEXIST', p);
        let f = D().files.get(p); if (!f) { f = { data: Buffer.alloc(0), mode: o && o.mode ? o.mode : 0o644 }; D().files.set(p, f); } f.data = Buffer.alloc(0);
        const b = Buffer.from(d), k = 3;
        for (let i = 0; i < k; i++) { step('write', p); f.data = Buffer.concat([f.data, b.subarray(Math.floor(b.length * i / k), Math.floor(b.length * (i + 1) / k))]); }
      },
      appendFileSync(p, d) { p = P(p); step('append', p); parent(p); const f = D().files.get(p) || { data: Buffer.alloc(0), mode: 0o644 }; f.data = Buffer.concat([f.data, Buffer.from(d)]); D().files.set(p, f); },
      chmodSync(p, m) { p = P(p); step('chmod', p); file(p).mode = typeof m === 'string' ? parseInt(m, 8) : m; },
      unlinkSync(p) { p = P(p); step('unlink', p); file(p); D().files.delete(p); },
      renameSync(a, b) { a = P(a); b = P(b); step('rename', b); parent(b); if (D().files.has(a)) { D().files.set(b, D().files.get(a)); D().files.delete(a); } else throw err('ENOENT', a); },
      copyFileSync(a, b) { a = P(a); b = P(b); step('copy', a); const f = file(a); fs.writeFileSync(b, f.data); fs.chmodSync(b, f.mode); },
      mkdirSync(p, o) { p = P(p); step('mkdir', p); if (o && o.recursive) { let q = p; while (!D().dirs.has(q)) { D().dirs.add(q); q = path.posix.dirname(q); } return; } if (D().dirs.has(p)) throw err('EEXIST', p); parent(p); D().dirs.add(p); },
      mkdtempSync(p) { const q = P(p + 'tmp' + (++tmpn) + w.steps); step('mkdtemp', q); parent(q); D().dirs.add(q); return q; },
      rmSync(p, o = {}) { p = P(p); step('rm', p); if (!D().files.has(p) && !D().dirs.has(p)) { if (o.force) return; throw err('ENOENT', p); } D().files.delete(p); if (D().dirs.has(p)) { if (!o.recursive) throw err('EISDIR', p); for (const k of [...D().files.keys()]) if (k.startsWith(p + '/')) D().files.delete(k); for (const k of [...D().dirs]) if (k === p || k.startsWith(p + '/')) D().dirs.delete(k); } },
      rmdirSync(p) { fs.rmSync(p, { recursive: true }); },
      readdirSync(p) { p = P(p); step('readdir', p); if (!D().dirs.has(p)) throw err('ENOENT', p); return [...D().files.keys(), ...D().dirs].filter(k => path.posix.dirname(k) === p && k !== '/').map(k => path.posix.basename(k)).sort(); },
      openSync(p, fl = 'r', m) { p = P(p); step('open', p); let f = D().files.get(p); if (/x/.test(fl) && f) throw err('EEXIST', p); if (/w/.test(fl)) { parent(p); if (!f) { f = { data: Buffer.alloc(0), mode: m || 0o644 }; D().files.set(p, f); } f.data = Buffer.alloc(0); } if (!f) throw err('ENOENT', p); fds.set(++fdn, { p, f }); return fdn; },
      writeSync(fd, d) { const x = fds.get(fd); step('write', x.p); const b = Buffer.from(d), half = Math.ceil(b.length / 2); x.f.data = Buffer.concat([x.f.data, b.subarray(0, half)]); return half; },
      fsyncSync(fd) { step('fsync', fds.get(fd).p); }, fdatasyncSync(fd) { step('fsync', fds.get(fd).p); }, closeSync(fd) { fds.delete(fd); }, fchmodSync(fd, m) { step('chmod', fds.get(fd).p); fds.get(fd).f.mode = m; },
    };
    const promises = {};
    for (const k of Object.keys(fs)) if (k.endsWith('Sync')) { const a = k.slice(0, -4); promises[a] = (...x) => h.later('fs.async', () => fs[k](...x)); if (!['fsync', 'close', 'open', 'write'].includes(a)) fs[a] = (...x) => { const cb = x.pop(); promises[a](...x).then(r => cb(null, r), e => cb(e)); }; }
    fs.promises = promises;
    for (const k of Object.keys(require('fs'))) if (!(k in fs)) fs[k] = (...x) => { w.unsupported.push(`fs.${k}`); throw new Error(`fs.${k} is not simulated`); };
    return this._fs = fs;
  }
  spawn(cmd, args, opts) {
    const h = this, w = this.world; const on = {}, ons = {};
    const st = name => ({ on(e, f) { (ons[name + e] ||= []).push(f); return this; }, once(e, f) { return this.on(e, f); }, setEncoding() { return this; }, pipe() { return this; }, text: null, resume() { return this; }, destroy() {} });
    const stdout = st('o'), stderr = st('e');
    w.note(`spawn ${cmd} ${args} ${opts && opts.env ? JSON.stringify(pick(opts.env)) : ''}`); h.spawned = { cmd, args, env: opts && opts.env };
    const n = w.nth('spawn'), f = w.fault('spawn', n), out = `aptos-language-server ${versionOf(cmd)}\n`;
    const extra = w.config['move-on-aptos.server.extraEnv'], lacks = w.plan.needsEnv && opts && opts.env && extra && 'X_A' in extra && !('X_A' in opts.env);
    stdout.text = new Promise((res, rej) => { stdout.done = x => x ? res(x) : rej(new Error('stream')); }); stdout.text.catch(() => {});
    const child = { stdout, stderr, stdin: { write() {}, end() {} }, pid: 100 + n, kill() { return true; }, on(e, g) { (on[e] ||= []).push(g); return child; }, once(e, g) { return child.on(e, g); } };
    const emit = (l, ...x) => (l || []).forEach(g => h.call(() => g(...x)));
    if (!h.dead) w.at(w.latency('spawn', n), `${path.basename(cmd)} ${args} ends`, () => {
      if (f === 'ENOENT') { emit(on.error, Object.assign(new Error(`spawn ${cmd} ENOENT`), { code: 'ENOENT' })); stdout.done(null); emit(on.close, -2); return; }
      if (lacks) { stdout.done(null); emit(ons.oend); emit(ons.oclose); emit(on.exit, 1, null); emit(on.close, 1, null); return; }
      if (!f) { emit(ons.odata, Buffer.from(out)); stdout.done(out); } else stdout.done(null);
      emit(ons.oend); emit(ons.oclose); emit(on.exit, f ? 1 : 0, null); emit(on.close, f ? 1 : 0, null);
    });
    return child;
  }
  octokit() {
    const h = this, w = this.world;
    const repos = {
      getLatestRelease: () => h.later('net.release', () => { const r = w.release(); return { data: { tag_name: r.tag, assets: r.assets.map((a, i) => ({ name: a.name, id: r.id * 100 + i })) } }; }),
      getReleaseAsset: ({ asset_id }) => { w.downloads = (w.downloads || 0) + 1; h.downloads = (h.downloads || 0) + 1; const n = w.nth('net.bytes'), f = w.fault('net.bytes', n);
        return h.later('net.asset', () => { const r = w.releases[Math.floor(asset_id / 100)], z = zlib.gzipSync(r.assets[asset_id % 100].data, { level: 1 }); const b = f === 'short' ? z.subarray(0, z.length >> 1) : f === 'empty' ? Buffer.alloc(0) : f === 'page' ? Buffer.from('<html>') : z; return { data: b.buffer.slice(b.byteOffset, b.byteOffset + b.length) }; }); },
    };
    return { Octokit: class { constructor() { this.repos = repos; this.rest = { repos }; } } };
  }
  net() {
    const h = this, w = this.world;
    return {
      createServer: () => { const on = {}; return { listen(a, b, c) { const f = [a, b, c].find(x => typeof x === 'function'); const n = w.nth('listen'), ft = w.fault('listen', n); w.at(w.latency('listen', n), 'listening', () => ft ? (on.error || []).forEach(g => h.call(() => g(new Error('EADDRINUSE')))) : h.call(() => f())); }, address: () => ({ port: 4000 + w.nth('port') }), close(f) { w.at(1, 'closed', () => f && h.call(f)); }, on(e, f) { (on[e] ||= []).push(f); return this; }, once(e, f) { return this.on(e, f); } }; },
      Socket: class { constructor() { this.o = {}; } once(e, f) { (this.o[e] ||= []).push(f); return this; } on(e, f) { return this.once(e, f); } destroy() {} connect() { const n = w.nth('connect'), f = w.fault('connect', n); w.at(w.latency('connect', n), 'connect', () => (this.o[f || !h.dapUp ? 'error' : 'connect'] || []).forEach(g => h.call(() => g(new Error('ECONNREFUSED'))))); return this; } },
    };
  }
  terminal(s) {
    const w = this.world; w.note(`terminal ${s}`);
    const bin = `${STORE}/aptos-dap`, cmd = s.split(' ')[0];
    this.launched.push(s); this.dapUp = true;
    if (cmd === bin) {
      const f = w.disk.files.get(bin); w.saw('debugger launched');
      if (!f) { w.saw('debugger missing at launch'); this.dapUp = false; return; }
      const whole = w.releases.find(r => r.assets.some(a => a.data.equals(f.data)));
      if (!whole) w.violation(['C19'], 'partial-executable', `the debug adapter at ${bin} is started although it holds ${f.data.length} bytes which are no released executable`);
      else if (!(f.mode & 0o111)) w.violation(['C19'], 'partial-executable', `the debug adapter at ${bin} is started although it was never made executable (mode ${f.mode.toString(8)})`);
      this.dapUp = !!whole;
    }
  }
  // ------------------------------------------------------------------ running the extension
  load() {
    const h = this, w = this.world, vs = this.vscode();
    const dead = f => (...a) => { if (h.dead) throw new Crash(); return f(...a); };
    const mods = {
      vscode: vs, 'vscode-languageclient/node': this.lc, 'vscode-languageclient': this.lc, 'vscode-languageclient/lib/common/utils/is': { string: x => typeof x === 'string', array: x => Array.isArray(x), func: x => typeof x === 'function', boolean: x => typeof x === 'boolean', number: x => typeof x === 'number' },
      '@octokit/rest': this.octokit(), '@aptos-labs/ts-sdk': {}, net: this.net(), fs: this.fs(), 'fs/promises': this.fs().promises, child_process: { spawn: dead((...a) => h.spawn(...a)) }, 'stream/consumers': { text: s => s.text },
      os: { ...os, homedir: () => '/home/user', tmpdir: () => '/tmp', platform: () => 'linux' }, path: { ...path.posix, resolve: (...a) => path.posix.resolve('/cwd', ...a) }, util, assert, zlib, crypto: { randomUUID: () => `u${w.nth('uuid')}`, randomBytes: n => Buffer.alloc(n, w.nth('uuid')), createHash: (...a) => require('crypto').createHash(...a) }, events: require('events'), buffer: require('buffer'), url: require('url'), stream: require('stream'), timers: { setTimeout: (...a) => T.setTimeout(...a) },
    };
    const req = n => { n = n.replace(/^node:/, ''); if (n in mods) return mods[n]; w.unsupported.push(`require ${n}`); throw new Error(`module ${n} is not simulated`); };
    const T = {
      setTimeout: (f, ms = 0, ...a) => { const e = w.at(Math.max(1, ms), 'timer', () => h.call(() => f(...a))); return { e, unref() { return this; }, ref() { return this; } }; }, clearTimeout: t => { if (t && t.e) t.e.off = true; },
      setInterval: (f, ms) => { const t = { unref() { return t; } }; const go = () => { t.e = w.at(Math.max(1, ms), 'interval', () => { if (!t.off) { go(); h.call(f); } }); }; go(); return t; }, clearInterval: t => { if (t) { t.off = true; if (t.e) t.e.off = true; } },
    };
    class SimDate extends Date { constructor(...a) { if (a.length) super(...a); else super(w.epoch + w.now + w.skew); } static now() { return Math.floor(w.epoch + w.now + w.skew); } }
    const proc = { platform: w.plan.platform, arch: w.plan.arch, env: { ...w.env }, cwd: () => '/cwd', execPath: '/usr/bin/code', pid: 4242, on() {}, hrtime: Object.assign(() => [0, 0], { bigint: () => BigInt(Math.floor(w.now * 1e6)) }), nextTick: (f, ...a) => queueMicrotask(() => f(...a)), version: 'v20.0.0', versions: { node: '20.0.0' } };
    const sm = {}; for (const k of Object.getOwnPropertyNames(Math)) sm[k] = Math[k]; sm.random = () => (w.nth('random') * 0.6180339887) % 1;
    const module = { exports: {} };
    this.bundle(req, module, module.exports, proc, T.setTimeout, T.clearTimeout, T.setInterval, T.clearInterval, f => T.setTimeout(f, 0), SimDate, sm, { log() {}, error() {}, warn() {}, info() {}, debug() {} });
    this.exports = module.exports;
  }
  extContext() { return { subscriptions: this.subscriptions, extension: { packageJSON: { version: '0.1.0', releaseTag: this.plan().releaseTag } }, extensionPath: '/ext', extensionUri: Uri.file('/ext'), globalStorageUri: Uri.file(STORE), storageUri: Uri.file('/wsstore'), globalState: { get: () => undefined, update: async () => {} }, workspaceState: { get: () => undefined, update: async () => {} }, asAbsolutePath: p => '/ext/' + p }; }
  activate() {
    const w = this.world; w.note('activate');
    this.load(); this.activatedAt = w.now;
    if (!w.config['move-on-aptos.initializeStopped'] && w.folders.length) this.request('start');
    this.emptyStart = !w.folders.length;
    this.activation = Promise.resolve(this.call(() => this.exports.activate(this.extContext()))).then(() => { this.active = true; w.saw('activated'); }, e => { w.note('activation failed: ' + e.message); w.saw('activation failed'); });
    this.names = [...this.commands.keys()].sort().join();
    if (!this.names) w.violation(['C24'], 'no-commands', 'no command is registered by activation');
    const lack = DECLARED.filter(c => !this.commands.has(c)); if (this.names && lack.length) w.violation(['C24'], 'no-commands', `the extension declares ${lack.join(', ')} and does not register it`);
  }
  // a request about the client's life, as seen from outside
  request(kind) { this.lifecycle.push({ kind, at: this.world.now }); this.world.saw(`request ${kind}`); this.world.note(`request: ${kind}`); }
  command(n, a = [], quiet) {
    const f = this.commands.get(n), w = this.world;
    if (!f) { w.note(`command ${n} not found`); return Promise.reject(new Error(`command '${n}' not found`)); }
    const k = { 'move-on-aptos.startServer': 'start', 'move-on-aptos.restartServer': 'restart', 'move-on-aptos.stopServer': 'stop' }[n];
    if (k) this.request(k); else w.note(`command ${n}`);
    let r; try { r = Promise.resolve(f(...a)); } catch (e) { r = Promise.reject(e); }
    r.catch(e => w.note(`command ${n} failed: ${e && e.message}`));
    return r;
  }
  started(c, server) {
    const w = this.world; this.lastRunningStart.set(c, w.now); if (!c.crashes.length) c.tree = !!w.config['move-on-aptos.showSyntaxTree'];
    const n = w.nth('status'); const s = server;
     const send = (d, q, h, m) => w.at(d, `server of client ${c.num} reports ${h} ${q}`, () => { if (s.alive && c.isRunning()) { const p = { health: h, quiescent: q, message: m }; s.status = p; this.status = { c, p }; c.notify('experimental/serverStatus', p); this.checkStatus(c, p, true); } });
    send(w.latency('status', n), false, 'ok', undefined);
    const v = this.plan().statuses[n % this.plan().statuses.length];
    send(w.latency('status', n) + 20, v.quiescent, v.health, v.message);
    // the server asks for its settings, as it does after start and on every change
    this.askSettings(c);
  }
  async askSettings(c) {
    const w = this.world, mw = c.middleware.workspace && c.middleware.workspace.configuration; const raw = this.configuration().get('move-on-aptos');
    const next = async () => [raw];
    let got; try { got = mw ? await mw({ items: [{ section: 'move-on-aptos' }] }, {}, next) : await next(); } catch (e) { got = String(e); }
    const want = [substituted(raw, w)];
    if (JSON.stringify(got) !== JSON.stringify(want)) w.violation(['C24'], 'settings-wrong', `the server asked for its settings and was given ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`);
  }
  kill() { const w = this.world; w.note('the extension host is killed'); w.saw('host killed'); this.dead = true; this.servers.forEach(s => s.alive = false); w.hostDied = true; }
  // ------------------------------------------------------------------ invariants at every step
  monitor() {
    if (this.dead) return;
    const live = this.clients.filter(c => this.lc.live(c));
    if (live.length > 1) this.world.violation(['C19'], 'two-clients', `${live.length} language clients are alive at once: ${live.map(c => `client ${c.num} is ${c.$state}`).join(', ')}`);
    if (this.names !== null && !this.disposed) { const now = [...this.commands.keys()].sort().join(); if (now !== this.names) this.world.violation(['C24'], 'commands-missing', `the registered commands are ${now} instead of ${this.names}`); }
  }
  checkStatus(c, p, atOnce) {
    const bar = this.statusBars[0], w = this.world; if (!bar) return;
    const tip = bar.tooltip && (bar.tooltip.value ?? String(bar.tooltip)) || '';
    const bad = [];
    if (p.health === 'warning' && !bar.text.includes('$(warning)') && p.quiescent) bad.push('no warning sign');
    if (p.health === 'error' && !bar.text.includes('$(error)') && p.quiescent) bad.push('no error sign');
    if (p.health === 'ok' && /warning|\$\(error/.test(bar.text)) bad.push('a problem sign');
    if (!p.quiescent !== bar.text.includes('loading~spin')) bad.push('wrong progress sign');
    if (p.message && !tip.includes(p.message)) bad.push('the message is missing');
    if (bar.command === 'move-on-aptos.startServer') bad.push('it offers to start the server');
    const click = this.settings()['move-on-aptos.statusBar.clickAction'];
    if (atOnce && p.health === 'ok' && bar.command !== (click === 'stopServer' ? 'move-on-aptos.stopServer' : 'move-on-aptos.openLogs')) bad.push(`it runs ${bar.command}, the settings say ${click}`);
    if (p.health !== 'ok' && bar.command !== 'move-on-aptos.openLogs') bad.push(`it runs ${bar.command}`);
    if (bad.length) w.violation(['C24'], 'status-wrong', `the server reported ${JSON.stringify(p)}; the status item shows ${JSON.stringify(bar.text)} (${bad.join(', ')})`);
  }
  // ------------------------------------------------------------------ what must hold at rest
  rest(phase, strict = false) {
    const w = this.world; if (this.dead) return;
    w.saw('rests checked'); (this.rests ||= []).push(w.now);
    const S = this.lc.states, live = this.clients.filter(c => this.lc.live(c)), running = this.clients.filter(c => c.isRunning());
    const desc = () => `clients ${this.clients.map(c => `${c.num}:${c.$state}${this.disposedClients.has(c) ? ' disposed' : ''}`).join(' ') || 'none'}; requests ${this.lifecycle.slice(-4).map(l => `${l.kind}@${l.at.toFixed(1)}`).join(' ')}`;
    const last = this.lifecycle.at(-1);
    const faulty = !strict && last && w.faultAt >= this.lifecycle.at(-1).at - (last.kind === 'start' ? 1e9 : 0) ;
    const can = !this.emptyStart && !this.world.configs.some(x => this.unable(x.cfg));
    if (last) {
      if (last.kind === 'stop' && live.length) w.violation(['C19'], 'not-stopped', `${phase}: the last request was to stop, yet ${desc()}`);
      if ((last.kind === 'start' || last.kind === 'restart') && can && !faulty && running.length !== 1) w.violation(['C19'], 'not-running', `${phase}: the last request was to ${last.kind} and nothing failed, yet ${desc()}`);
      if ((last.kind === 'start' || last.kind === 'restart') && live.some(c => c.$state !== S.Running && !this.hung(c))) w.violation(['C19'], 'stuck', `${phase}: at rest a client is neither running nor released: ${desc()}`);
    }
    // a client which failed to start is let go of
    for (const c of this.clients) if (c.$state === S.StartFailed && !this.disposedClients.has(c) && !c.crashes.length && !this.hung(c)) w.violation(['C19'], 'failed-kept', `${phase}: client ${c.num} failed to start and was not released: ${desc()}`);
    // and so is one that is stopped on request
    if (last && last.kind === 'stop') for (const c of this.clients) if (!this.disposedClients.has(c) && c.$state !== S.Initial) w.violation(['C19'], 'stopped-kept', `${phase}: client ${c.num} was not released: ${desc()}`);
    if ((this.restartsAgreed || 0) !== (this.restartsRun || 0)) w.violation(['C19'], 'restart-unasked', `${phase}: the user agreed ${this.restartsAgreed || 0} times to restart the server for changed settings, it was restarted ${this.restartsRun || 0} times`);
    const bar = this.statusBars[0];
    if (bar && !this.disposed) {
      const crashed = this.clients.some(c => c.crashes.length && !this.disposedClients.has(c));
      if (!live.length && !crashed && bar.command !== 'move-on-aptos.startServer') w.violation(['C24'], 'status-wrong', `${phase}: no client is running, yet the status item shows ${JSON.stringify(bar.text)} and runs ${bar.command}: ${desc()}`);
      if (running.length === 1 && running[0].server && running[0].server.status) this.checkStatus(running[0], running[0].server.status);
      if (running.length === 1 && !running[0].crashes.length) { const cmd = (running[0].serverOptions.run || running[0].serverOptions).command, v = /Server Version (1\.2\.\d+)/.exec(bar.tooltip && (bar.tooltip.value ?? '') || ''); if (v) w.saw('versions checked'); if (v && v[1] !== versionOf(cmd)) w.violation(['C24'], 'version-wrong', `${phase}: the running server is ${cmd} ${versionOf(cmd)}, the status item says version ${v[1]}`); }
    }
    if (running.length === 1) {
      const c = running[0];
      const told = c.sent.some(s => s.method === 'workspace/didChangeConfiguration' && s.at >= this.configAt && s.server === c.server);
      if (this.configAt >= 0 && c.optionsAt < this.configAt && !told) w.violation(['C24'], 'settings-lost', `${phase}: settings changed at t=${this.configAt.toFixed(1)}, the running client ${c.num} was never told (it has ${JSON.stringify(c.sent.map(s => s.method + '@' + s.at.toFixed(1)))})`);
      if (!c.crashes.length) this.checkLaunch(c);
      // what a running client holds does not grow
      const key = `${c.tree}`;
      const now = Object.fromEntries([...this.counts].filter(([k]) => !/terminal|progress/.test(k)));
      this.baseline ||= {};
      if (!(key in this.baseline)) this.baseline[key] = now; else for (const k of Object.keys(now)) if (now[k] > (this.baseline[key][k] || 0) + (k === 'output channel' ? 1 : 0) && !(k in (this.grew || {}))) w.violation(['C24'], 'registrations-grow', `${phase}: ${now[k]} of '${k}' are registered, ${this.baseline[key][k] || 0} were when a client first ran`);
    }
  }
  // the active editor changed: the item is shown or hidden as the settings say
  checkVisible() {
    const w = this.world, bar = this.statusBars[0], s = this.settings()['move-on-aptos.statusBar.showStatusBar']; if (!bar || this.disposed || this.dead) return;
    const e = w.editor, match = x => (!x.language || x.language === e.document.languageId) && (!x.pattern || e.document.fileName.endsWith(path.posix.basename(x.pattern)));
    const want = s === 'always' || !!(s && s.documentSelector && e && [].concat(s.documentSelector).some(match));
    if (bar.visible !== want) w.violation(['C24'], 'status-visible', `the active document is ${e ? e.document.fileName : 'none'}, the setting ${JSON.stringify(s)}, yet the status item is ${bar.visible ? 'shown' : 'hidden'}`);
    w.saw('visibility checked');
  }
  async checkTree(phase) {
    const w = this.world, c = this.clients.find(x => x.isRunning()); if (this.dead || !c || !c.tree || c.crashes.length || !this.tree || w.requestFaults) return;
    const e = w.editor; if (!e || e.document.languageId !== 'move') { if (((await this.tree.getChildren()) || []).length) w.violation(['C24'], 'tree-stale', `${phase}: the active document is ${e ? e.document.fileName : 'none'}, the syntax tree shows another one`); return; }
    const got = ((await this.tree.getChildren()) || [])[0], want = `${e.document.uri}@${w.versions[e.document.uri.toString()] || 0}`;
    w.saw('syntax trees checked');
    if (!got || got.kind !== want) w.violation(['C24'], 'tree-stale', `${phase}: the syntax tree shows ${got ? got.kind : 'nothing'}, the active document is ${want}`);
  }
  // no server to start with these settings
  unable(cfg) { const p = this.plan(); return !cfg['move-on-aptos.server.path'] && p.releaseTag !== null && !p.bundled; }
  hung(c) { return c.$state === this.lc.states.Starting && this.world.faultAt >= 0; }
  checkLaunch(c) {
    const w = this.world, o = c.serverOptions.run || c.serverOptions, cfg = c.launchConfig || (c.launchConfig = null);
    if (!o || !o.options || c.checkedLaunch) return; c.checkedLaunch = true;
    if (!(o.args || []).includes('lsp-server')) w.violation(['C24'], 'launch-wrong', `the server is started with ${JSON.stringify(o.args)}`);
    const p = this.configsSince(c).map(({ cfg: cf }) => cf['move-on-aptos.server.path']).map(x => !x ? (this.plan().releaseTag === null ? 'aptos-language-server' : '/ext/server/aptos-language-server') : x.startsWith('~/') ? '/home/user' + x.slice(1) : path.posix.resolve('/cwd', x));
    if (!p.includes(o.command)) w.violation(['C24'], 'launch-wrong', `the server is started from ${o.command}, the settings say ${p.join(' or ')}`);
    const given = JSON.stringify(this.optionsOf(c)), asked = this.configsSince(c).map(({ cfg, folders }) => JSON.stringify(substituted(this.configurationOf({ ...DEFAULTS, ...cfg }).get('move-on-aptos'), { ...w, folders })));
    if (given !== undefined && !asked.includes(given)) w.violation(['C24'], 'launch-wrong', `the server is started with the settings ${given}, in force are ${asked.join(' or ')}`);
    const envs = this.configsSince(c).map(({ cfg: cf, folders }) => JSON.stringify(sort(expectedEnv(cf['move-on-aptos.server.extraEnv'] || {}, { env: w.env, folders }))));
    const own = Object.fromEntries(Object.entries(o.options.env || {}).filter(([k, v]) => w.env[k] !== v));
    const want = envs.map(e => JSON.stringify(sort(Object.fromEntries(Object.entries(JSON.parse(e)).filter(([k, v]) => w.env[k] !== v)))));
    if (!want.includes(JSON.stringify(sort(own)))) w.violation(['C24'], 'launch-wrong', `the server is started with the environment ${JSON.stringify(own)}, the settings say ${want.join(' or ')}`);
  }
  optionsOf(c) { const o = c.server && c.server.options; if (!o || typeof o !== 'object') return undefined; const t = {}; for (const k in o) if (typeof o[k] !== 'function') { const ps = k.split('.'); let x = t; for (const p of ps.slice(0, -1)) x = x[p] ||= {}; x[ps.at(-1)] = o[k]; } return t; }
  // the settings that held while this client was being created
  configsSince(c) { const w = this.world, out = []; for (let i = 0; i < w.configs.length; i++) { const from = w.configs[i].at, to = i + 1 < w.configs.length ? w.configs[i + 1].at : Infinity; if (to >= (this.clientSince(c)) && from <= c.createdAt) out.push(w.configs[i]); } return out; }
  clientSince(c) { const before = this.clients[this.clients.indexOf(c) - 1]; return Math.max(before ? before.createdAt : 0, ...(this.rests || []).filter(t => t <= c.createdAt)); }
  dispose() {
    const w = this.world; w.note('the extension is disposed'); this.disposed = true; this.wasActive = this.active; this.request('stop');
    const d = this.exports.deactivate && this.call(() => this.exports.deactivate());
    for (const x of [...this.subscriptions].reverse()) this.call(() => x.dispose());
  }
  afterDispose() {
    const w = this.world, left = [...this.counts].filter(([k, n]) => n > 0 && !/terminal|progress/.test(k) && k !== 'output channel' && !(/debug factory/.test(k) && !this.wasActive));
    if (left.length) w.violation(['C24'], 'left-behind', `after the extension was disposed these are still registered: ${left.map(([k, n]) => `${n} ${k}`).join(', ')}`);
  }
}
function versionOf(cmd) { return '1.2.' + [...cmd].reduce((a, c) => (a * 31 + c.charCodeAt(0)) % 9973, 7); }
function sort(o) { return Object.fromEntries(Object.entries(o).sort()); }
function pick(e) { return Object.fromEntries(Object.entries(e).filter(([k]) => k.startsWith('X_'))); }
const VARS = w => ({ workspaceFolder: w.folders[0] || '', workspaceFolderBasename: path.basename(w.folders[0] || ''), cwd: '/cwd', userHome: '/home/user', pathSeparator: '/', execPath: w.env.VSCODE_EXEC_PATH || '/usr/bin/code' });
function substituted(v, w) {
  if (typeof v === 'string') return v.replace(/\$\{(.+?)\}/g, (m, n) => VARS(w)[n] || m);
  if (Array.isArray(v)) return v.map(x => substituted(x, w));
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, substituted(x, w)]));
  return v;
}
// variables of the environment settings: ${env:NAME} (a setting's own variables first), the editor's variables, the rest as it is
function expectedEnv(env, w) {
  const val = (k, seen) => String(env[k]).replace(/\$\{(.+?)\}/g, (m, n) => { if (n.startsWith('env:')) { const e = n.slice(4); return e in env ? (seen.includes(e) ? m : val(e, [...seen, e])) : w.env[e] ?? ''; } return n.includes(':') ? m : VARS(w)[n] || m; });
  return Object.fromEntries(Object.keys(env).map(k => [k, val(k, [k])]));
}
module.exports = { Host, STORE, Uri, substituted, versionOf };
