'use strict';
// One simulated extension host: virtual time, latencies and faults decided by the plan, a recorded history, a simulated disk.
const crypto = require('crypto');

function hash32(...xs) { const h = crypto.createHash('md5').update(xs.join('\u0001')).digest(); return h.readUInt32LE(0); }
class Rng {
  constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) * 0x9E3779B97F4A7C15n + 0x1234567n); for (let i = 0; i < 4; i++) this.next(); }
  next() { let z = (this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n)); z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n); z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn); return Number((z ^ (z >> 31n)) >> 11n) / 2 ** 53; }
  int(n) { return Math.floor(this.next() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  p(x) { return this.next() < x; }
  pick(a) { return a[this.int(a.length)]; }
}
class Crash extends Error { constructor() { super('the extension host was killed'); } }

class Disk {
  constructor() { this.files = new Map(); this.dirs = new Set(['/']); }
  clone() { const d = new Disk(); for (const [k, v] of this.files) d.files.set(k, { data: Buffer.from(v.data), mode: v.mode }); d.dirs = new Set(this.dirs); return d; }
}

// The world outlives extension hosts: the disk, the clock, the user, the releases on the network.
class World {
  constructor(plan, trace) {
    this.plan = plan; this.now = 0; this.queue = []; this.n = 0; this.count = new Map(); this.violations = []; this.unsupported = [];
    this.log = []; this.trace = trace; this.h = crypto.createHash('md5'); this.steps = 0; this.faultsOn = true; this.injected = {}; this.seen = {}; this.disk = new Disk();
    this.faultAt = -1; this.host = null; this.rejections = 0;
  }
  note(s) { const l = `t=${this.now.toFixed(1)} ${s}`; this.h.update(l + '\n'); if (this.trace) this.log.push(l); }
  saw(k, n = 1) { this.seen[k] = (this.seen[k] || 0) + n; }
  violation(props, kind, msg) { if (!this.violations.some(v => v.kind === kind)) this.violations.push({ props, kind, msg: `t=${this.now.toFixed(1)}: ${msg}` }); this.note(`VIOLATION ${kind} ${msg}`); }
  nth(label) { const n = (this.count.get(label) || 0) + 1; this.count.set(label, n); return n; }
  // the fault the plan has for this occurrence of a label
  fault(label, n) { if (!this.faultsOn) return null; const f = this.plan.faults[`${label}#${n}`]; if (f === undefined) return null; const k = `${label}: ${typeof f === 'object' ? f.kind : f}`; this.injected[k] = (this.injected[k] || 0) + 1; this.faultAt = this.now; this.note(`fault ${label}#${n} ${JSON.stringify(f)}`); return f; }
  latency(label, n) { const [a, b] = this.plan.lat[label] || [1, 5]; return a + (hash32(this.plan.seed, label, n) % 1000) / 1000 * (b - a); }
  at(delay, label, fn) { const e = { t: this.now + delay, n: this.n++, label, fn, host: this.host, off: false }; this.queue.push(e); return e; }
  async drain() { for (let i = 0; i < 3; i++) await new Promise(setImmediate); }
  // runs whatever is due until `until`
  async run(until) {
    for (;;) {
      await this.drain();
      if (this.host) this.host.monitor();
      let best = null;
      for (const e of this.queue) if (!e.off && (best === null || e.t < best.t || (e.t === best.t && e.n < best.n))) best = e;
      this.queue = this.queue.filter(e => !e.off);
      if (best === null || best.t > until) { if (until !== Infinity) this.now = Math.max(this.now, until); return; }
      this.queue = this.queue.filter(e => e !== best);
      if (best.host !== null && best.host !== this.host) continue;       // of a host that is gone
      this.now = Math.max(this.now, best.t); this.steps++;
      this.note(`- ${best.label}`);
      best.fn();
      if (this.steps > 20000) { this.violation(['C19', 'C24'], 'endless', `still busy after ${this.steps} steps`); return; }
    }
  }
}
module.exports = { World, Rng, Crash, Disk, hash32 };
