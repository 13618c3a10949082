'use strict';
// The language client library (vscode-languageclient 9.0.1) as a state machine: what start, stop, dispose, a lost connection and
// messages do in which state.  The server behind it is a few latencies and faults.
const Initial = 'initial', Starting = 'starting', StartFailed = 'startFailed', Running = 'running', Stopping = 'stopping', Stopped = 'stopped';
module.exports = function (host) {
  const w = host.world;
  class LanguageClient {
    constructor(id, name, serverOptions, clientOptions) {
      this.num = ++host.clientNo; this.serverOptions = serverOptions; this.clientOptions = clientOptions; this.$state = Initial; this._disposed = undefined;
      this.handlers = new Map(); this.features = []; this.sent = []; this.server = null; this.crashes = []; this.createdAt = w.now; this.optionsAt = w.now;
      this.code2ProtocolConverter = { asTextDocumentIdentifier: d => ({ uri: d.uri.toString() }) };
      this.protocol2CodeConverter = { asPosition: x => x, asRange: x => x, asLocation: x => x, asUri: x => x, asTextEdits: async x => x };
      host.clients.push(this); w.note(`client ${this.num} created`);
    }
    get outputChannel() { return this.clientOptions.outputChannel; }
    get traceOutputChannel() { return this.clientOptions.traceOutputChannel; }
    get middleware() { return this.clientOptions.middleware || {}; }
    get state() { return this.$state === Running ? 2 : this.$state === Starting ? 3 : 1; }
    set(s) { if (s !== this.$state) { w.note(`client ${this.num} ${this.$state} -> ${s}`); this.$state = s; if (s === Running) host.note('running'); (this.stateListeners || []).slice().forEach(f => f({ newState: this.state })); host.monitor(); } }
    onDidChangeState(f) { (this.stateListeners ||= []).push(f); return { dispose: () => { this.stateListeners = this.stateListeners.filter(x => x !== f); } }; }
    isRunning() { return this.$state === Running; }
    needsStart() { return [Initial, Stopping, Stopped].includes(this.$state); }
    needsStop() { return [Starting, Running].includes(this.$state); }
    registerFeature(f) { this.features.push(f); }
    registerProposedFeatures() {}
    async start() {
      if (this._disposed === 'disposing' || this._disposed === 'disposed') throw new Error("Client got disposed and can't be restarted.");
      if (this.$state === Stopping) throw new Error('Client is currently stopping. Can only restart a full stopped client');
      if (this._onStart !== undefined) return this._onStart;
      let res, rej; this._onStart = new Promise((a, b) => { res = a; rej = b; }); this._onStart.catch(() => {});
      this.set(Starting);
      const n = w.nth('client.start'), f = w.fault('client.start', n);
      const server = { alive: true, client: this, at: w.now }; this.server = server; this.optionsAt = w.now;
      try { const o = this.clientOptions.initializationOptions; server.options = typeof o === 'function' ? o() : o; const caps = {}; for (const x of this.features) x.fillClientCapabilities && x.fillClientCapabilities(caps); server.caps = caps; const un = (((caps.experimental || {}).commands || {}).commands || []).filter(x => !host.commands.has(x)); if (un.length && !host.disposed) w.violation(['C24'], 'commands-missing', `the server is told of the commands ${un.join(', ')}, which are not registered`); } catch (e) { w.note('features ' + e); }
      host.servers.push(server);
      const fail = why => { if (this.$state !== Starting) return; server.alive = false; this.set(StartFailed); rej(new Error(why)); };
      server.lost = () => fail('Pending response rejected since connection got disposed');
      if (f === 'spawn') w.at(1, 'spawn fails', () => fail('Launching server using command failed'));
      else if (f !== 'hang') w.at(w.latency('client.start', n), `client ${this.num} initialize ${f ? 'fails' : 'answered'}`, () => {
        if (this.$state !== Starting || !server.alive) return;
        if (f) return fail('Server initialization failed.');
        this.set(Running); res(); host.started(this, server);
      });
      return this._onStart;
    }
    async shutdown(timeout) {
      if (this.$state === Stopped || this.$state === Initial) return;
      if (this.$state === Stopping) { if (this._onStop !== undefined) return this._onStop; throw new Error('Client is stopping but no stop promise available.'); }
      if (this.$state !== Running) throw new Error(`Client is not running and can't be stopped. It's current state is: ${this.$state}`);
      this.set(Stopping);
      const n = w.nth('client.stop'), f = w.fault('client.stop', n), lat = f === 'hang' ? Infinity : w.latency('client.stop', n);
      const over = () => { this.set(Stopped); this._onStart = undefined; this._onStop = undefined; };
      return this._onStop = new Promise((res, rej) => {
        if (f === 'error') w.at(Math.min(lat, timeout), `client ${this.num} shutdown fails`, () => { over(); rej(new Error('Stopping server failed')); });
        else if (lat <= timeout) w.at(lat, `client ${this.num} shutdown answered`, () => { over(); this.server && (this.server.alive = false); res(); });
        else w.at(timeout, `client ${this.num} shutdown timed out`, () => { w.saw('stop timed out'); over(); rej(new Error('Stopping the server timed out')); });
      });
    }
    stop(timeout = 2000) {
      return this.shutdown(timeout).finally(() => {
        const s = this.server; this.server = null;
        if (s && s.alive) w.at(2000, `server of client ${this.num} killed if it lives`, () => { if (s.alive) { s.alive = false; s.lost && s.lost(); this.closed(); } });
      });
    }
    dispose(timeout = 2000) { host.disposedClients.add(this); w.note(`client ${this.num} dispose`); try { this._disposed = 'disposing'; return this.stop(timeout); } finally { this._disposed = 'disposed'; } }
    // the connection to the server is lost
    closed() {
      if (this.$state === Stopped || this.$state === StartFailed) return;
      let restart = false;
      if (this.$state !== Stopping) { this.crashes.push(w.now); if (this.crashes.length <= 4) restart = true; else if (w.now - this.crashes[0] > 180000) { this.crashes.shift(); restart = true; } }
      if (!restart) { this.set(this.$state === Starting ? StartFailed : Stopped); this._onStart = undefined; this._onStop = Promise.resolve(); w.saw('given up after crashes'); }
      else { w.saw('restarted after a crash'); this.set(Initial); this._onStart = undefined; this._onStop = Promise.resolve(); this.start().catch(e => w.note(`client ${this.num} restart failed: ${e.message}`)); }
    }
    async sendNotification(type, params) {
      if ([StartFailed, Stopping, Stopped].includes(this.$state)) throw new Error('Client is not running');
      const at = w.now; await this.start();
      if (this.$state !== Running) throw new Error('Client is not running');
      this.sent.push({ method: type.method, params, at, server: this.server }); w.note(`client ${this.num} sent ${type.method}`);
    }
    async sendRequest(type, params) {
      if ([StartFailed, Stopping, Stopped].includes(this.$state)) throw new Error('Client is not running');
      await this.start();
      const n = w.nth('request'), f = w.fault('request', n); if (f) w.requestFaults = true;
      const uri = params && params.textDocument && params.textDocument.uri, v = w.versions[uri] || 0;
      return new Promise((res, rej) => w.at(w.latency('request', n), `answer to ${type.method}`, () => f || !this.isRunning() ? (w.requestFaults = true, rej(new Error('request failed'))) : res(type.method.endsWith('viewSyntaxTree') ? JSON.stringify({ type: 'Node', kind: `${uri}@${v}`, start: [0, 0, 0], end: [0, 0, 0], children: [] }) : type.method.endsWith('Status') ? 'status' : type.method.endsWith('organizeImports') ? [{ range: {}, newText: '', computedFor: v }] : null)));
    }
    onNotification(type, f) { const m = type.method, l = this.handlers.get(m) || []; this.handlers.set(m, [...l, f]); return { dispose: () => { this.handlers.set(m, this.handlers.get(m).filter(x => x !== f)); } }; }
    onRequest(type, f) { return this.onNotification(type, f); }
    // the server sends a notification
    notify(method, params) { for (const f of this.handlers.get(method) || []) { try { const r = f(params); if (r && r.catch) r.catch(() => {}); } catch (e) { w.note(`handler of ${method}: ${e}`); } } }
  }
  class T { constructor(method) { this.method = method; } }
  return {
    LanguageClient, State: { Stopped: 1, Running: 2, Starting: 3 }, RequestType: T, RequestType0: T, NotificationType: T, NotificationType0: T,
    DidChangeConfigurationNotification: { type: new T('workspace/didChangeConfiguration') }, CloseAction: { DoNotRestart: 1, Restart: 2 }, ErrorAction: { Continue: 1, Shutdown: 2 },
    TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 },
    live: c => [Starting, Running, Stopping].includes(c.$state), states: { Initial, Starting, StartFailed, Running, Stopping, Stopped },
  };
};
