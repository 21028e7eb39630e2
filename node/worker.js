'use strict';
// WebAssembly half of the simulator: plays the JavaScript host of the shipped module, one fresh
// instance per run. One JSON plan per line on stdin, one JSON verdict per line on stdout.
// The simulator decides, at exact counts, which allocation is refused, which host step throws or
// calls back into the module, and at which basic block the call is cut short.
const fs = require('fs');
const path = require('path');
const dir = process.argv[2];
const glue = fs.readFileSync(path.join(dir, 'simwasm.js'), 'utf8');

// ---- make the library's basic-block callback count steps -------------------------------------
function leb(b, p) {
  let r = 0, s = 0, x;
  do { x = b[p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128);
  return [r, p];
}
function enc(n) {
  const o = [];
  do { let x = n % 128; n = Math.floor(n / 128); if (n) x |= 128; o.push(x); } while (n);
  return o;
}
function patch(b) {
  let p = 8, nimp = 0, exps = {}, code = null;
  while (p < b.length) {
    const id = b[p]; let len, q;
    [len, q] = leb(b, p + 1);
    const end = q + len;
    if (id === 2) {
      let n; [n, q] = leb(b, q);
      for (let i = 0; i < n; i++) {
        let l; [l, q] = leb(b, q); q += l; [l, q] = leb(b, q); q += l;
        const k = b[q++];
        if (k === 0) { nimp++; [l, q] = leb(b, q); }
        else if (k === 1) { q++; const f = b[q++]; [l, q] = leb(b, q); if (f & 1) [l, q] = leb(b, q); }
        else if (k === 2) { const f = b[q++]; [l, q] = leb(b, q); if (f & 1) [l, q] = leb(b, q); }
        else if (k === 3) { q += 2; }
        else { q++; [l, q] = leb(b, q); }
      }
    } else if (id === 7) {
      let n; [n, q] = leb(b, q);
      for (let i = 0; i < n; i++) {
        let l, x; [l, q] = leb(b, q);
        const name = Buffer.from(b.subarray(q, q + l)).toString(); q += l;
        const k = b[q++]; [x, q] = leb(b, q);
        if (k === 0) exps[name] = x;
      }
    } else if (id === 10) code = { start: p, q, end };
    p = end;
  }
  const target = exps.__sanitizer_cov_trace_pc_guard - nimp, step = exps.sim_block, store = exps.sim_store;
  if (!(target >= 0) || !(step >= 0) || !(store >= 0)) throw new Error('module has no step seam');
  const stores = new Set([1, 2, 4, 8, 16].map((n) => exps['__sanitizer_cov_store' + n] - nimp));
  let q = code.q, n; [n, q] = leb(b, q);
  const parts = [Buffer.from(enc(n))];
  for (let i = 0; i < n; i++) {
    let l, r; [l, r] = leb(b, q);
    if (i === target) {
      const body = [0, 0x20, 0, 0x10, ...enc(step), 0x0b];
      parts.push(Buffer.from([...enc(body.length), ...body]));
    } else if (stores.has(i)) {
      const body = [0, 0x20, 0, 0x10, ...enc(store), 0x0b];
      parts.push(Buffer.from([...enc(body.length), ...body]));
    } else parts.push(b.subarray(q, r + l));
    q = r + l;
  }
  const c = Buffer.concat(parts);
  return Buffer.concat([b.subarray(0, code.start), Buffer.from([10, ...enc(c.length)]), c, b.subarray(code.end)]);
}
const wasmModule = new WebAssembly.Module(patch(fs.readFileSync(path.join(dir, 'simwasm_bg.wasm'))));

// ---- one instance -------------------------------------------------------------------------------
class Cut extends Error {}
// What a page or a server offers beside the module; every use is recorded or comes from the seed.
const OUTSIDE = ['console', 'process', 'localStorage', 'sessionStorage', 'document', 'navigator', 'alert', 'fetch', 'setTimeout', 'setInterval', 'queueMicrotask'];
const compiled = new Function('module', 'exports', 'require', '__dirname', 'WebAssembly', 'Date', 'performance', 'crypto', 'Math', ...OUTSIDE, glue);
function recorder(h, name) {
  return new Proxy(function () {}, {
    get: (t, k) => typeof k === 'symbol' ? undefined : recorder(h, name + '.' + k),
    apply: () => { h.console++; h.did = name; return undefined; },
    construct: () => { h.console++; h.did = name; return {}; },
    set: () => { h.console++; h.did = name; return true; },
  });
}
class Host {
  constructor(env) {
    const h = this;
    h.hosts = 0; h.hostAt = -1; h.hostSet = false; h.hostAct = null; h.console = 0; h.names = null;
    const module = { exports: {} };
    const fakeWA = {
      Module: function () { return wasmModule; },
      Instance: function (m, imports) {
        const wrapped = {};
        for (const ns of Object.keys(imports)) {
          wrapped[ns] = {};
          for (const k of Object.keys(imports[ns])) {
            const g = imports[ns][k];
            if (ns === 'env' || typeof g !== 'function' || k === '__wbindgen_init_externref_table'
              || k === '__wbindgen_externref_heap_live_count') { wrapped[ns][k] = g; continue; }
            const f = function () {
              const n = h.hosts++;
              // only storing into an object can run code of the caller (a setter on a prototype)
              if (n >= h.hostAt && h.hostAt >= 0 && (!h.hostSet || k.startsWith('__wbg_set_'))) { const a = h.hostAct; h.hostAt = -1; h.hostSet = false; a(k); }
              return g.apply(null, arguments);
            };
            Object.defineProperty(f, 'length', { value: g.length });
            wrapped[ns][k] = f;
          }
        }
        return new WebAssembly.Instance(m, wrapped);
      },
    };
    const req = (n) => n === 'env' ? { sim_trip() { h.trips++; throw new Cut(h.tripWhy); } }
      : n === 'util' ? require('util')
        : n === 'path' ? path
          : n === 'fs' ? { readFileSync: () => new Uint8Array(0) }
            : (() => { throw new Error('unexpected require ' + n); })();
    let w = BigInt((env && env.clock) || 1);
    const tick = () => { w = BigInt.asUintN(64, w * 6364136223846793005n + 1442695040888963407n); h.looks = (h.looks || 0) + 1; return Number(w >> 24n); };
    class SimDate extends Date { constructor(...a) { if (a.length) super(...a); else super(tick()); } static now() { return tick(); } }
    const simMath = new Proxy(Math, { get: (t, k) => k === 'random' ? () => tick() / 2 ** 40 : t[k] });
    const simCrypto = { getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = tick(); return a; }, randomUUID: () => String(tick()) };
    h.trips = 0; h.tripWhy = '';
    compiled(module, module.exports, req, dir, fakeWA, SimDate, { now: tick }, simCrypto, simMath, ...OUTSIDE.map((n) => recorder(h, n)));
    h.x = module.exports;
    h.w = module.exports.__wasm;
    if (env && env.place) h.w.sim_mess(env.place % 0xffffffff, 40 + env.place % 200);
    if (env && env.stack) h.w.__stack_pointer.value -= 16 * Math.min(env.stack, 24000);
    if (env && env.place) {
      // what is handed out next, and the stack to come, hold what earlier calls might have left
      h.set(11, env.place);
      const sp = h.w.__stack_pointer ? h.w.__stack_pointer.value : 0;
      if (sp > 0 && sp <= h.get(8)) {
        const left = Buffer.from("'\"`>-*/{}@#=|.,;0eE)]\n aX_");
        const m = new Uint8Array(h.w.memory.buffer, 0, sp), c = env.place % 3;
        if (c === 0) m.fill(env.place % 256); else if (c === 1) m.fill(left[env.place % left.length]); else { const k = left[env.place % left.length]; for (let i = 0; i < sp; i++) m[i] = i % 4 ? 0 : k; }
      }
    }
  }
  get(k) { return this.w.sim_get(k); }
  set(k, v) { this.w.sim_set(k, v); }
  call(f, doc) {
    try {
      // a character that cannot be sent on its own stands for half of one that can
      if (doc.includes('\uE000')) doc = doc.replace(/\uE000/g, '\uD83D');
      return outcome(f, (f === 0 ? this.x.parse : this.x.tokenize)(doc), true);
    } catch (e) {
      if (e instanceof Cut) return { class: 'aborted', hash: '', show: 'cut short: ' + e.message, ok: false, cut: e.message };
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError || e instanceof HostThrow)
        return { class: 'aborted', hash: '', show: String(e.message).slice(0, 200), ok: false };
      return outcome(f, e, false);
    }
  }
}
class HostThrow extends Error {}

// ---- canonical form (the same as nat/src/canon.rs) ---------------------------------------------
const te = new TextEncoder();
let ha, hb, hn;
function byte(x) {
  ha = Math.imul(ha ^ x, 0x01000193);
  hb = Math.imul(hb ^ x, 0x85EBCA6B); hb = (hb << 13) | (hb >>> 19);
  hn++;
}
function str(s) {
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c > 127) { const b = te.encode(s.slice(i)); for (const x of b) byte(x); return; }
    byte(c);
  }
}
function num(n) { return Number.isInteger(n) && Math.abs(n) < 9e15 ? String(n) : String(n); }
function cmp(a, b) { return a < b ? -1 : a > b ? 1 : 0; }
function hash(v) {
  if (v === undefined) return byte(0x75);
  if (v === null) return byte(0x6e);
  if (v === true) return byte(0x74);
  if (v === false) return byte(0x66);
  if (typeof v === 'number') { byte(0x23); str(num(v)); return byte(0x3b); }
  if (typeof v === 'bigint') { byte(0x62); str(String(v)); return byte(0x3b); }
  if (typeof v === 'string') { byte(0x22); str(v); return byte(0x22); }
  if (Array.isArray(v)) { byte(0x5b); for (let i = 0; i < v.length; i++) hash(v[i]); return byte(0x5d); }
  if (v instanceof Error) { byte(0x45); return str(v.message); }
  if (v instanceof Map) { byte(0x4d); for (const [k, x] of v) { hash(k); hash(x); } return byte(0x6d); }
  byte(0x7b);
  for (const k of Object.keys(v).sort(cmp)) { str(k); byte(0x3a); hash(v[k]); }
  byte(0x7d);
}
const hex = (n) => (n >>> 0).toString(16).padStart(8, '0');
function digest(v) { ha = 0x811C9DC5 | 0; hb = 0x9747B28C | 0; hn = 0; hash(v); return hex(ha) + hex(hb) + '-' + hn; }
function show(v, cap) {
  let out = '';
  const go = (v) => {
    if (out.length > cap) return;
    if (v === null || typeof v !== 'object') { out += typeof v === 'string' ? JSON.stringify(v) : String(v); return; }
    if (Array.isArray(v)) { out += '['; v.forEach((x, i) => { if (i) out += ','; go(x); }); out += ']'; return; }
    if (v instanceof Error) { out += 'Error(' + JSON.stringify(v.message) + ')'; return; }
    out += '{'; Object.keys(v).sort(cmp).forEach((k, i) => { if (i) out += ','; if (out.length <= cap) { out += k + ':'; go(v[k]); } }); out += '}';
  };
  try { go(v); } catch (e) { out += '<too deep>'; }
  return out.length > cap ? out.slice(0, cap) + '...' : out;
}
function rejectionOk(v) {
  return v !== null && typeof v === 'object' && typeof v.line === 'number' && v.line >= 1 && typeof v.column === 'number'
    && v.column >= 1 && typeof v.message === 'string' && v.message.length > 0;
}
function answerOk(f, v) {
  if (!Array.isArray(v) || v.length === 0) return false;
  const l = v[v.length - 1];
  if (l === null || typeof l !== 'object') return false;
  return f === 0 ? l.node_type === 'EOF' : l.literal === '';
}
function outcome(f, v, answered) {
  let d;
  try { d = digest(v); } catch (e) { if (!(e instanceof RangeError)) throw e; d = 'too-deep-to-compare'; }
  return { class: answered ? 'answer' : 'rejected', hash: d, v, ok: answered ? answerOk(f, v) : rejectionOk(v) };
}
const text = (o) => o.show !== undefined ? o.show : show(o.v, 600);
const fname = ['parse', 'tokenize'];
const clip = (s) => JSON.stringify(s.length > 200 ? s.slice(0, 200) + '...' : s);
function scribble(v, depth) {
  // what a caller may do with what it was given: change every part of it
  if (v === null || typeof v !== 'object' || depth > 60) return;
  if (Array.isArray(v)) { for (const x of v) scribble(x, depth + 1); v.reverse(); v.push('scribbled'); return; }
  if (v instanceof Error) { v.message = 'scribbled'; return; }
  for (const k of Object.keys(v)) {
    scribble(v[k], depth + 1);
    if (typeof v[k] === 'string') v[k] = 'scribbled'; else if (typeof v[k] === 'number') v[k] = -1;
  }
  v.scribbled = true;
}
const budget = (doc) => 20e6 + doc.length * 20e3;

// ---- the model: the same call, alone, on a module nobody has called -----------------------------
const cache = new Map();
function reference(f, doc) {
  const key = f + doc;
  let r = cache.get(key);
  if (r) return r;
  const h = new Host();
  const s0 = h.get(3), a0 = h.get(0), w0 = h.get(6);
  h.tripWhy = 'budget'; h.set(2, s0 + budget(doc));
  h.set(10, -1);
  const n0 = h.hosts;
  const o = h.call(f, doc);
  r = { class: o.class, hash: o.hash, ok: o.ok, show: text(o), cut: o.cut, steps: h.get(3) - s0, allocs: h.get(0) - a0, own: h.get(6) - w0, novel: h.get(7), hosts: h.hosts - n0, console: h.console };
  if (cache.size > 4000) cache.clear();
  cache.set(key, r);
  return r;
}

// the same document about other things: every name in it is another one
const keywords = new Set(fs.readFileSync(path.join(__dirname, '../corpus/keywords.txt'), 'utf8').split('\n'));
const renamed = (d) => '\n' + d.replace(/[A-Za-z0-9_]+/g, (w, i) => {
  const q = d[i + w.length];
  return /^[0-9]/.test(w) || ((q === "'" || q === '"') && w.length < 3) || keywords.has(w.toUpperCase()) ? w : w + 'w';
});

class Violation extends Error { constructor(c, d, o) { super(d); this.c = c; this.o = o; } }

function uniq(n) {
  let s = '';
  for (let i = 0; i < 7; i++) { s = String.fromCharCode(97 + n % 16) + s; n = Math.floor(n / 16); }
  return s;
}
const isNew = (d) => d.includes('__U__') || d.includes('__N__');
const subst = (d, n) => isNew(d) ? d.split('__U__').join('u' + uniq(n)).split('__N__').join('7' + String(n % 1e6).padStart(6, '0')) : d;

function runPlan(plan) {
  const ops = plan.threads[0], docs = plan.docs, ck = plan.check || {}, faults = plan.faults || [];
  const stats = { steps: 0, calls: 0, host_ops: 0, allocs: 0, kinds: {}, fired: {}, sched: '' };
  const fire = (k) => { stats.fired[k] = (stats.fired[k] || 0) + 1; };
  const kind = (k) => { stats.kinds[k] = (stats.kinds[k] || 0) + 1; };
  if (plan.hashes) {
    const hs = ops.map(([f, d]) => { const r = reference(f, docs[d]); kind(r.class); stats.calls++; return [r.class, r.hash, r.show]; });
    return { hashes: hs, stats };
  }
  const env = plan.env || {};
  const h = new Host(env);
  if (env.place) fire('block_moved_and_dirtied');
  if (env.stack) fire('other_stack_position');
  const end = () => { stats.steps = h.get(3); stats.host_ops = h.hosts; stats.allocs = h.get(0); stats.shared_accesses = h.get(5); stats.pages = h.w.memory.buffer.byteLength / 65536; };
  const judge = (o, f, d, got, hit) => {
    const w = reference(f, docs[d]);
    const name = fname[f];
    if (ck.total) {
      if (w.class === 'aborted') throw new Violation(w.cut ? 'no-answer' : 'aborted', `${name}(${clip(docs[d])}) aborts: ${w.show}`, o);
      if (!w.ok) throw new Violation('malformed', `${name}(${clip(docs[d])}) gives ${w.class} ${w.show}`, o);
    }
    if (got.class === w.class && got.hash === w.hash) return;
    if (hit) {
      if (got.class === 'aborted') return;
      if (got.class === 'rejected' && (got.ok || typeof got.v === 'string' || got.v instanceof Error)) return;
      throw new Violation('wrong-under-fault', `call ${o}: ${name}(${clip(docs[d])}) hit by ${hit} reported ${got.class} ${text(got)} but alone it gives ${w.class} ${w.show}`, o);
    }
    if (got.cut === 'budget') throw new Violation('no-progress', `call ${o}: ${name}(${clip(docs[d])}) did not end within its step budget; alone it takes ${w.steps} steps`, o);
    if (ck.eq) throw new Violation('answer-changed', `call ${o}: ${name}(${clip(docs[d])}) gave ${got.class} ${text(got)} but alone it gives ${w.class} ${w.show}`, o);
  };
  let sched = 0x811C9DC5 | 0;
  const mix = (n) => { sched = Math.imul(sched ^ (n | 0), 0x01000193) ^ (sched >>> 15); };
  try {
    for (const [f, d] of plan.warm || []) {
      h.tripWhy = 'budget'; h.set(2, h.get(3) + budget(docs[d]));
      const got = h.call(f, docs[d]);
      if (plan.warm_eq) judge(-1, f, d, got, null);
    }
    if (plan.served) {
      // the premise of the property: such documents, and larger ones, have been served before. The
      // host-value layer keeps every name it has handed out, and fills that table on first use.
      h.w.sim_room(6000);
      for (const [f, d] of ops) {
        h.tripWhy = 'budget'; h.set(2, h.get(3) + budget(docs[d]));
        h.call(f, plan.served === 1 ? '\n' + docs[d] : renamed(docs[d]));
      }
    }
    if (plan.rounds) return rounds(plan, h, stats, judge, end);
    if (ck.direct) {
      // many documents in a row; each must end well by itself
      for (let o = 0; o < ops.length; o++) {
        const [f, d] = ops[o];
        h.tripWhy = 'budget'; h.set(2, h.get(3) + budget(docs[d]));
        const c0 = h.console;
        const got = h.call(f, docs[d]);
        stats.calls++;
        kind(got.class);
        const name = `call ${o}: ${fname[f]}(${clip(docs[d])})`;
        if (ck.total && got.class === 'aborted') throw new Violation(got.cut ? 'no-answer' : 'aborted', `${name} aborts: ${text(got)}`, o);
        if (ck.total && !got.ok) throw new Violation('malformed', `${name} gives ${got.class} ${text(got)}`, o);
        if (ck.quiet && got.class !== 'aborted' && h.console !== c0) throw new Violation('side-effect', `${name} acted on its host: ${h.did}`, o);
      }
      end();
      return { stats };
    }
    const kept = [];
    for (let o = 0; o < ops.length; o++) {
      const [f, d, times] = ops[o];
      const doc = docs[d];
      for (let k = 1; k < (times || 1); k++) {
        h.tripWhy = 'budget'; h.set(2, h.get(3) + budget(doc));
        const got = h.call(f, doc);
        stats.calls++;
        if (!reference(f, doc).cut) judge(o, f, d, got, null);
      }
      const w = reference(f, doc);
      kind(w.class);
      if (w.cut) {
        // a call that does not even come back alone
        if (ck.total) judge(o, f, d, w, null);
        continue;
      }
      let hit = null, trips = h.trips, refused = h.get(2), threw = false;
      h.tripWhy = 'budget';
      let trip = h.get(3) + Math.max(w.steps * 50 + 4e6, 4e6);
      let from = -1, to = -1;
      h.set(10, -1);
      const scr = [];
      for (const fl of faults) {
        if (fl.o !== o) continue;
        const at = (n) => fl.abs !== undefined ? (fl.abs >= 0 ? fl.abs : Math.max(0, n + fl.abs)) : Math.floor(n * fl.at / 1e6);
        if (fl.nv) { h.set(10, Math.floor(w.novel * fl.nv / 1e6)); h.set(4, fl.plus || 0); h.set(5, fl.k === 'alloc' ? fl.len || 1 : 0); if (fl.k === 'trip') h.tripWhy = 'fault'; mix(6); mix(fl.nv); }
        else if (fl.k === 'alloc' && fl.site) { h.set(13, fl.abs); h.set(14, fl.len || 1); h.set(12, fl.site); mix(7); mix(fl.site); mix(fl.abs); }
        else if (fl.k === 'alloc' && fl.min) { h.set(8, fl.re === 2 ? at(w.own) : fl.abs); h.set(9, fl.len || 1); h.set(7, fl.re || 0); h.set(6, fl.min); mix(5); mix(fl.min); mix(fl.re === 2 ? at(w.own) : fl.abs); }
        else if (fl.k === 'alloc') { from = h.get(0) + at(w.allocs); to = from + (fl.len || 1); mix(1); mix(at(w.allocs)); if (fl.sh) { h.set(5, fl.len || 1); h.set(3, fl.sh); } }
        else if (fl.k === 'trip') { trip = h.get(3) + at(w.steps); h.tripWhy = 'fault'; mix(2); mix(at(w.steps)); if (fl.sh) { h.set(4, fl.plus || 0); h.set(5, 0); h.set(3, fl.sh); } }
        else if (fl.k === 'host_throw') {
          h.hostAt = h.hosts + at(w.hosts); mix(3); mix(at(w.hosts));
          h.hostAct = () => { threw = true; fire('host_exception'); throw new HostThrow('exception thrown by the host'); };
        } else if (fl.k === 'reenter') {
          h.hostAt = h.hosts + at(w.hosts); h.hostSet = true; mix(4); mix(at(w.hosts));
          h.hostAct = () => {
            fire('reentrant_call');
            const saveTrip = h.tripWhy;
            const got = h.call(fl.f, docs[fl.d]);
            h.tripWhy = saveTrip;
            stats.calls++;
            judgeLater.push(() => judge(o, fl.f, fl.d, got, null));
          };
        } else if (fl.k === 'scribble') scr.push(1);
      }
      const judgeLater = [];
      h.set(2, trip); h.set(0, from); h.set(1, to);
      const sp0 = h.w.__stack_pointer ? h.w.__stack_pointer.value : 0;
      const c0 = h.console;
      const got = h.call(f, doc);
      stats.calls++;
      h.set(0, -1); h.set(1, -1); h.set(2, -1); h.set(3, 0); h.set(6, 0); h.set(10, -1); h.set(12, 0); h.hostAt = -1; h.hostSet = false;
      const nref = h.get(2) - refused;
      if (nref > 0) { stats.fired.allocation_refused = (stats.fired.allocation_refused || 0) + nref; hit = 'a refused allocation'; }
      if (threw) hit = 'a host exception';
      if (h.trips > trips && got.cut === 'fault') { fire('cut_short_at_a_step'); hit = 'a cut'; }
      for (const g of judgeLater) g();
      judge(o, f, d, got, hit);
      if (ck.stack && got.class !== 'aborted' && h.w.__stack_pointer && h.w.__stack_pointer.value !== sp0)
        throw new Violation('grows', `call ${o}: ${fname[f]}(${clip(doc)}) returned with ${sp0 - h.w.__stack_pointer.value} bytes of stack still taken`, o);
      if (ck.quiet && got.class !== 'aborted' && !hit && h.console !== c0)
        throw new Violation('side-effect', `call ${o}: ${fname[f]}(${clip(doc)}) acted on its host: ${h.did}`, o);
      if (got.class !== 'aborted') {
        if (ck.own) {
          kept.push({ o, f, d, v: got.v, hash: got.hash, gone: false });
          for (const k of kept) {
            if (k.gone) continue;
            const now = digest(k.v);
            if (now !== k.hash) throw new Violation('answer-altered', `the answer of call ${k.o}, ${fname[k.f]}(${clip(docs[k.d])}), changed after it was handed out, by the end of call ${o}; now ${show(k.v, 300)}`, o);
          }
        }
        if (scr.length) {
          const k = kept[kept.length - 1];
          scribble(got.v, 0); fire('answer_scribbled');
          if (ck.own) {
            k.gone = true;
            for (const e of kept) if (!e.gone && digest(e.v) !== e.hash)
              throw new Violation('answer-altered', `changing the answer of call ${o} changed the answer of call ${e.o}, ${fname[e.f]}(${clip(docs[e.d])})`, o);
          }
        }
      }
    }
    end();
    stats.sched = hex(sched);
    return { stats };
  } catch (e) {
    if (!(e instanceof Violation)) throw e;
    end();
    return { v: { class: e.c, detail: e.message, t: 0, o: e.o }, stats };
  }
}

// steps a run may take to settle whether something grows, and what a call must cost to be judged early
const LONG = 1.5e9, DEAR = 3e5;
function rounds(plan, h, stats, judge, end) {
  const docs = plan.docs, ck = plan.check;
  let ops = plan.threads[0], n = 0;
  // per window of rounds the least in its later half and the most in all of it: only what never
  // comes down again to what it once was counts as growth, whatever the phase of a bounded cycle
  const fresh = () => ({ lo: Infinity, hi: -Infinity });
  const see = (x, v, late) => { x.hi = Math.max(x.hi, v); if (late) x.lo = Math.min(x.lo, v); };
  const held = [[], [], []], cost = [], costU = [], peaks = [];
  let age = 4, round = 0, dear = Infinity;
  const s0 = h.get(3);
  const max = plan.rounds;
  const one = (f, doc) => {
    h.tripWhy = 'budget'; h.set(2, h.get(3) + budget(doc));
    stats.calls++;
    return h.call(f, doc);
  };
  const probe = (doc) => { const s0 = h.get(3); one(ops[0][0], doc); return h.get(3) - s0; };
  if (ck.sift) {
    // a few calls of each kind; only what seems to grow is served for long
    ops = ops.filter(([f, d]) => {
      const was = [0, 0, 0, 0], up = [0, 0, 0, 0];
      for (let i = 0; i < 7; i++) {
        const s0 = h.get(3);
        one(f, subst(docs[d], n++));
        [h.get(1), h.get(4), h.w.__stack_pointer ? -h.w.__stack_pointer.value : 0, h.get(3) - s0].forEach((x, j) => { if (i > 2 && x > was[j]) up[j]++; was[j] = x; });
        // what did not rise once is settled
        if (i > 2 && !up.some((x) => x === i - 2)) break;
      }
      return up.some((x, j) => x === 4 && (j < 3 ? ck.conserve : ck.age));
    }).slice(0, 3);
    if (!ops.length) { end(); stats.age = 7; return { stats }; }
  }
  for (;;) {
    let peak = 0;
    const win = [fresh(), fresh(), fresh()], wc = fresh(), wu = fresh();
    const half = age * 5 / 8, every = Math.max(1, Math.floor((age - half) / 6));
    const pd = docs[ops[0][1]];
    const probes = () => { see(wc, probe(subst(pd, 0)), true); see(wu, probe(subst(pd, n++)), true); };
    while (round < age) {
      const r0 = h.get(3);
      for (let o = 0; o < ops.length; o++) {
        const [f, d] = ops[o];
        const fixed = !isNew(docs[d]);
        if (fixed && (ck.eq || ck.total) && reference(f, docs[d]).cut) {
          if (ck.total) judge(o, f, d, reference(f, docs[d]), null);
          continue;
        }
        const got = one(f, fixed ? docs[d] : subst(docs[d], n));
        n++;
        if (got.cut) throw new Violation('no-progress', `round ${round}: ${fname[f]}(${clip(docs[d])}) did not end within its step budget`, o);
        if (fixed && (ck.eq || ck.total)) judge(o, f, d, got, null);
      }
      peak = Math.max(peak, h.get(3) - r0);
      round++;
      [h.get(1), h.get(4), h.w.__stack_pointer ? -h.w.__stack_pointer.value : 0].forEach((v, i) => see(win[i], v, round > half));
      if (round > half && (round * 40503 >>> 4) % every === 0) probes();
    }
    peaks.push({ lo: peak, hi: peak });
    probes();
    cost.push(wc); costU.push(wu);
    win.forEach((x, i) => held[i].push(x));
    const L = cost.length;
    const up = (a) => L >= 2 && a[L - 1].lo > a[L - 2].hi;
    const slow = (a) => L >= 2 && a[L - 1].lo > a[L - 2].hi + 20 + a[L - 2].hi / 50;
    const suspect = (ck.conserve && held.some(up)) || (ck.age && (slow(cost) || slow(costU) || slow(peaks)));
    if (age >= max * 16 || (age >= max && !suspect)) break;
    // what would take too long to serve that often is judged by what is known by now
    if (age >= 256 && (h.get(3) - s0) * 4 > LONG) { dear = (h.get(3) - s0) / stats.calls; break; }
    age *= 4;
  }
  const L = cost.length;
  const names = ['bytes', 'host handles', 'bytes of stack'];
  const desc = ops.map(([f, d]) => `${fname[f]}(${clip(docs[d])})`).join(', ');
  const grew = (a) => L >= 4 && (age >= 1024 || dear > DEAR) && [1, 2, 3].every((i) => a[L - i].lo > a[L - i - 1].hi);
  const text = (a) => a.map((x) => x.lo);
  if (ck.conserve) held.forEach((a, i) => {
    if (grew(a)) throw new Violation('grows', `${names[i]} held, at the least, late in 4, 16, 64, ... rounds of ${ops.length} calls: ${text(a)}; calls: ${desc}`, 0);
  });
  if (ck.age) for (const a of [cost, costU, peaks])
    if (grew(a) && a[L - 1].lo > a[0].hi * 1.25 + 100) throw new Violation('slows-down', `steps of ${a === peaks ? 'the dearest round within' : 'one call, at the least, late in'} 4, 16, 64, ... rounds of ${ops.length} calls: ${text(a)}; calls: ${desc}`, 0);
  end();
  stats.age = age;
  return { stats };
}

{
  const rl = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
  rl.on('line', (l) => {
    let out;
    try { out = runPlan(JSON.parse(l)); } catch (e) { out = { harness: String(e && e.stack || e) }; }
    // half a character, where a text was clipped, is not something the reader can take
    fs.writeSync(1, JSON.stringify(out, (k, v) => typeof v === 'string' ? v.toWellFormed() : v) + '\n');
  });
}
