'use strict';
// The simulated browser: one seeded scheduler decides the order of timers,
// network, user actions and navigations of one tab on a simulated clock.
const vm = require('vm');
const fs = require('fs');
const path = require('path');
const nodeURL = require('url');
const dom = require('./dom.js');

class Rng {
  constructor(seed) { this.s = (seed >>> 0) ^ 0x9e3779b9; for (let i = 0; i < 4; i++) this.u(); }
  u() {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  n(k) { return k <= 0 ? 0 : this.u() % k; }
  in(a, b) { return a + this.n(b - a + 1); }
  p(k) { return this.n(k) === 0; }
  pick(...l) { return l[this.n(l.length)]; }
  of(l) { return l[this.n(l.length)]; }
}

function hash32(s, h = 0x811c9dc5) {
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193); }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}

// Site is what the server has.
class Site {
  constructor(repo, wasmFile) {
    this.dir = path.join(repo, 'web', 'parser');
    this.html = fs.readFileSync(path.join(this.dir, 'index.html'), 'utf8');
    this.wasm = fs.readFileSync(wasmFile);
    this.scripts = new Map();
    this.modules = new Map();
  }
  script(src, body) {
    const key = src || body;
    let s = this.scripts.get(key);
    if (!s) {
      if (src) body = fs.readFileSync(path.join(this.dir, path.basename(src)), 'utf8');
      this.scripts.set(key, s = new vm.Script(body, { filename: src || 'page.js' }));
    }
    return s;
  }
  has(name) { return name === 'parser.wasm' || fs.existsSync(path.join(this.dir, path.basename(name))); }
  // module compiles the bundle, perhaps with a bound on its memory.
  module(pages) {
    let m = this.modules.get(pages);
    if (!m) this.modules.set(pages, m = new WebAssembly.Module(pages ? limitMemory(this.wasm, pages) : this.wasm));
    return m;
  }
  minPages() { return memoryOf(this.wasm).min; }
}

function memoryOf(b) {
  let at = 8;
  const leb = () => { let r = 0, s = 0, c; do { c = b[at++]; r += (c & 127) * 2 ** s; s += 7; } while (c & 128); return r; };
  while (at < b.length) {
    const start = at;
    const id = b[at++], n = leb(), body = at;
    if (id === 5) { leb(); const flags = b[at++]; const min = leb(); return { start, end: body + n, flags, min }; }
    at = body + n;
  }
  throw new Error('no memory section');
}

function limitMemory(b, pages) {
  const m = memoryOf(b);
  const enc = v => { const o = []; do { let c = v & 127; v >>>= 7; if (v) c |= 128; o.push(c); } while (v); return o; };
  const body = [1, 1, ...enc(m.min), ...enc(Math.max(pages, m.min))];
  return Buffer.concat([b.subarray(0, m.start), Buffer.from([5, ...enc(body.length), ...body]), b.subarray(m.end)]);
}

class Sim {
  constructor(site, spec) {
    this.site = site;
    this.spec = spec;
    this.now = 0;
    this.blocked = 0; // simulated time during which the main thread was busy
    this.wall = 1.7e12;
    this.seq = 0;
    this.queues = {};
    this.tie = spec.tie ? new Rng(spec.tie) : null;
    this.jitter = spec.jitter || 0;
    this.trace = [];
    this.order = 0;
    this.digest = 0;
    this.faults = {};
    this.states = new Set();
    this.clipboard = null;
    this.page = null;
    this.loads = 0;
    this.tasks = 0;
    this.nav = null;
    this.history = [];
    this.local = new Map();
    this.session = new Map(); // of the tab
    this.uncaught = 0;
    this.links = [];
    this.observers = [];
  }
  fault(k) { this.faults[k] = (this.faults[k] || 0) + 1; }
  log(s) { this.digest = hash32(s, this.digest ^ 0x811c9dc5); if (this.trace.length < 400) this.trace.push(`${Math.round(this.now * 10) / 10} ms: ${s}`); }
  schedule(source, delay, label, fn, page) {
    const t = { t: this.now + Math.max(0, delay), seq: this.seq++, late: 0, source, label, fn, page, off: false };
    if (this.tie && this.jitter && source === 'timer') t.late = this.tie.p(3) ? 0 : this.tie.n(this.jitter + 1);
    const q = this.queues[source] || (this.queues[source] = []);
    let i = q.length;
    while (i > 0 && q[i - 1].t > t.t) i--;
    q.splice(i, 0, t);
    return t;
  }
  next() {
    const heads = [];
    for (const k in this.queues) {
      const q = this.queues[k];
      while (q.length && (q[0].off || (q[0].page && q[0].page.dead))) q.shift();
      if (q.length) heads.push(q[0]);
    }
    return heads;
  }
  async run(end) {
    for (;;) {
      const heads = this.next();
      const ready = heads.filter(h => h.t + h.late <= this.now);
      if (!ready.length) {
        const t = Math.min(Infinity, ...heads.map(h => h.t + h.late));
        if (t > end) { this.now = Math.max(this.now, end); return; }
        this.now = t;
        continue;
      }
      let pick;
      if (this.tie && ready.length > 1) pick = ready[this.tie.n(ready.length)];
      else pick = ready.reduce((a, b) => (b.t < a.t || (b.t === a.t && b.seq < a.seq) ? b : a));
      this.queues[pick.source].shift();
      this.tasks++;
      this.order = hash32(pick.label, this.order);
      this.log(pick.label);
      try { pick.fn(); } catch (e) { if (e && e.harness) throw e; (pick.page || this.page).uncaught(e); }
      await drain();
      this.observe();
      if (this.verdict) return;
    }
  }
  observe() {
    const p = this.page;
    if (p) {
      const s = p.show();
      const kind = s.out.startsWith('[') ? s.out : s.out.startsWith('Error') ? 'error' : s.out ? 'result' : 'none';
      this.states.add(hash32([kind, s.okVisible, s.errVisible, p.phase, p.exited, p.timers.size, !!this.nav, p.failedAt >= 0, Math.min(3, p.calls.length), this.loads > 1, Object.keys(this.queues).filter(k => this.queues[k].length).join()].join('|')));
    }
    for (const o of this.observers) o(this, p);
  }
  // stall keeps the main thread busy.
  stall(ms) { this.now += ms; this.blocked += ms; }
  open(url) {
    if (this.page) this.page.destroy();
    this.nav = null;
    const plan = this.spec.loads[Math.min(this.loads, this.spec.loads.length - 1)] || {};
    this.loads++;
    this.page = new Page(this, url, plan);
    this.page.load();
  }
}

const drain = () => new Promise(r => setImmediate(r));

class Page {
  constructor(sim, url, plan) {
    this.sim = sim;
    this.site = sim.site;
    this.url = new URL(url);
    this.plan = plan;
    this.dead = false;
    this.timers = new Map();
    this.timerId = 0;
    this.start = sim.now;
    this.phase = 'loading';
    this.calls = [];
    this.loadedAt = -1;
    this.failedAt = -1;
    this.failure = '';
    this.exited = false;
    this.wantAt = -1; // when the bundle should have arrived, if nothing fails
    this.resumes = 0;
    this.exitNow = null;
    this.textAt = sim.now;
    this.lastText = null;
    this.shares = [];
    this.versions = [];
    this.uncaughtHere = 0;
    this.blockedMarks = [];
  }
  destroy() { this.dead = true; this.timers.clear(); }
  uncaught(e) {
    this.sim.uncaught++;
    this.uncaughtHere++;
    this.sim.log('uncaught: ' + String(e && e.message || e).slice(0, 200));
  }
  fail(what) { if (this.failedAt < 0) { this.failedAt = this.sim.now; this.failedBlocked = this.sim.blocked; this.failure = what; this.sim.log('failure: ' + what); this.sim.fault(what.replace(/ \(.*/, '')); } }

  load() {
    const sim = this.sim, page = this;
    const doc = this.document = new dom.Document(this);
    const g = {};
    this.sandbox = g;
    const wt = this.windowTarget = new dom.EventTarget();
    wt._report = e => page.uncaught(e);
    wt._win = () => page.window;
    this.location = makeLocation(this);
    const rng = new Rng(hash32(sim.spec.seed + 'page' + sim.loads));
    const guard = fn => (typeof fn === 'function' ? fn : () => { });
    const timer = (fn, delay, args, repeat, what) => {
      const id = ++page.timerId;
      const d = Math.max(0, Number(delay) || 0);
      const arm = () => {
        const t = sim.schedule('timer', d, what + (repeat ? ' interval' : ' timer') + ' of ' + d + ' ms', () => {
          if (!repeat) page.timers.delete(id);
          guard(fn).apply(page.window, args);
          if (repeat && page.timers.has(id)) arm();
        }, page);
        page.timers.set(id, t);
      };
      arm();
      return id;
    };
    const clear = id => { const t = page.timers.get(id); if (t) { t.off = true; page.timers.delete(id); } };
    class SimDate extends Date {
      constructor(...a) { if (a.length === 0) super(sim.wall + sim.now); else super(...a); }
      static now() { return Math.floor(sim.wall + sim.now); }
    }
    const history = {
      get length() { return sim.history.length; }, state: null, scrollRestoration: 'auto',
      pushState(s, t, u) { history.state = s; if (u !== undefined && u !== null) { page.setURL(new URL(String(u), page.url)); } sim.history.push(page.url.href); },
      replaceState(s, t, u) { history.state = s; if (u !== undefined && u !== null) { page.setURL(new URL(String(u), page.url)); } sim.history[sim.history.length - 1] = page.url.href; },
      back() { }, forward() { }, go() { },
    };
    const storage = map => ({
      getItem: k => (map.has(String(k)) ? map.get(String(k)) : null), setItem: (k, v) => { map.set(String(k), String(v)); },
      removeItem: k => { map.delete(String(k)); }, clear: () => map.clear(), key: i => [...map.keys()][i] ?? null, get length() { return map.size; },
    });
    Object.assign(g, {
      document: doc, history,
      navigator: {
        userAgent: 'Mozilla/5.0 (simulated)', language: 'en', onLine: true, platform: 'sim', maxTouchPoints: 0,
        clipboard: sim.spec.noClipboardAPI ? undefined : {
          writeText: s => new Promise((ok, no) => sim.schedule('user', 1, 'clipboard write', () => {
            if (sim.spec.copyFails) no(new dom.DOMException2('Write permission denied.', 'NotAllowedError')); else { sim.clipboard = String(s); ok(); }
          }, page)),
          readText: () => Promise.resolve(sim.clipboard || ''),
        },
      },
      performance: { now: () => sim.now - page.start, timeOrigin: sim.wall + page.start, mark() { }, measure() { }, getEntriesByName: () => [] },
      setTimeout: (fn, d, ...a) => timer(fn, d, a, false, 'a'), clearTimeout: clear,
      setInterval: (fn, d, ...a) => timer(fn, Math.max(4, d || 0), a, true, 'an'), clearInterval: clear,
      requestAnimationFrame: fn => timer(() => fn(sim.now - page.start), 16, [], false, 'an animation frame'), cancelAnimationFrame: clear,
      requestIdleCallback: fn => timer(() => fn({ didTimeout: false, timeRemaining: () => 10 }), 1, [], false, 'an idle'), cancelIdleCallback: clear,
      queueMicrotask: fn => queueMicrotask(() => { try { fn(); } catch (e) { page.uncaught(e); } }),
      Date: SimDate,
      URL, URLSearchParams, TextEncoder, TextDecoder, AbortController, AbortSignal, structuredClone, btoa, atob,
      Event: dom.Event, CustomEvent: dom.CustomEvent, InputEvent: dom.Event, UIEvent: dom.Event, MouseEvent: dom.Event, KeyboardEvent: dom.Event, HashChangeEvent: dom.Event, EventTarget: dom.EventTarget,
      Node: dom.Node, Element: dom.Element, HTMLElement: dom.Element, HTMLTextAreaElement: dom.Element, HTMLInputElement: dom.Element, Document: dom.Document, DOMException: dom.DOMException2,
      crypto: { getRandomValues(a) { for (let i = 0; i < a.length; i++) a[i] = rng.u(); return a; }, randomUUID: () => 'uuid-' + rng.u() },
      console: Object.fromEntries(['log', 'warn', 'error', 'info', 'debug', 'trace', 'group', 'groupEnd', 'time', 'timeEnd', 'assert', 'table', 'count'].map(k => [k, () => { }])),
      alert() { }, confirm: () => true, prompt: () => null, open: () => null, close() { }, scrollTo() { }, focus() { }, blur() { }, print() { }, getComputedStyle: e => ({ get display() { return dom.visible(e) ? e.style.display || 'block' : 'none'; }, getPropertyValue: k => (k === 'display' ? (dom.visible(e) ? 'block' : 'none') : e.style.getPropertyValue(k)) }),
      getSelection: () => doc.getSelection(), matchMedia: () => ({ matches: false, addEventListener() { }, addListener() { } }),
      innerWidth: 1000, innerHeight: 800, devicePixelRatio: 1, isSecureContext: true, name: '',
      localStorage: storage(sim.local), sessionStorage: storage(sim.session),
      addEventListener: wt.addEventListener.bind(wt), removeEventListener: wt.removeEventListener.bind(wt),
      dispatchEvent: ev => { ev.target = page.window; const r = wt.dispatchEvent(ev); return r; },
      fetch: (...a) => page.fetch(...a),
      WebAssembly: this.makeWasm(),
    });
    Object.defineProperty(g, 'location', { get: () => page.location, set: v => { page.navigate(String(v), 'assign'); }, enumerable: true, configurable: false });
    Object.defineProperty(g, 'origin', { get: () => page.url.origin, enumerable: true, configurable: true });
    vm.createContext(g);
    this.window = vm.runInContext('globalThis', g);
    for (const k of ['window', 'self', 'top', 'parent', 'frames']) g[k] = this.window;
    const m = vm.runInContext('Math', g);
    m.random = () => rng.u() / 4294967296;
    const later = [];
    const runScript = el => {
      const type = el.getAttribute('type') || '';
      if (type && !/javascript|module/.test(type)) return;
      const src = el.getAttribute('src');
      if (src && !this.site.has(new URL(src, this.url).pathname.split('/').pop())) { this.uncaught(new Error('no such script ' + src)); return; }
      doc.currentScript = el;
      try { this.site.script(src, el.textContent).runInContext(g); } catch (e) { if (e && e.harness) throw e; this.uncaught(e); }
      doc.currentScript = null;
    };
    dom.parseHTML(this.site.html, doc, doc, el => {
      if (el.tagName === 'STYLE') doc.rules.push(...dom.parseCSS(el.textContent));
      if (el.tagName === 'TITLE') doc.title = el.textContent;
      if (el.tagName !== 'SCRIPT') return;
      if (el.hasAttribute('defer') || el.getAttribute('type') === 'module' || (el.hasAttribute('async') && el.hasAttribute('src'))) later.push(el);
      else runScript(el);
    });
    later.forEach(runScript);
    doc.activeElement = doc.body;
    sim.schedule('load', 0, 'DOMContentLoaded', () => {
      doc.readyState = 'interactive';
      doc.dispatchEvent(new dom.Event('DOMContentLoaded', { bubbles: true }));
      sim.schedule('load', 0, 'load', () => {
        doc.readyState = 'complete';
        g.dispatchEvent(new dom.Event('load'));
        g.dispatchEvent(new dom.Event('pageshow'));
      }, page);
    }, page);
    this.input = doc.getElementById('input');
    this.output = doc.getElementById('output');
    this.success = doc.getElementById('success');
    this.error = doc.getElementById('error');
    this.share = doc.getElementById('share');
    for (const k of ['input', 'output', 'success', 'error', 'share']) if (!this[k]) throw Object.assign(new Error('the page has no element #' + k), { page: true });
  }

  show() {
    return {
      text: this.input.value, out: this.output.value || '',
      ok: this.success.textContent, okVisible: dom.visible(this.success) && this.success.textContent.trim() !== '',
      err: this.error.textContent, errVisible: dom.visible(this.error) && this.error.textContent.trim() !== '',
    };
  }

  // ---- navigation

  setURL(u) { this.url = u; }
  navigate(to, how) {
    const sim = this.sim;
    if (this.dead) return;
    let u;
    try { u = new URL(to, this.url); } catch (e) { throw new dom.DOMException2(`Invalid URL: ${to}`, 'SyntaxError'); }
    const bare = x => { const c = new URL(x); c.hash = ''; return c.href.replace(/#$/, ''); };
    if (how !== 'reload' && bare(u) === bare(this.url) && u.href.includes('#')) {
      const old = this.url.href;
      this.setURL(u);
      if (how === 'replace' || old === u.href) sim.history[sim.history.length - 1] = u.href; else sim.history.push(u.href);
      if (old !== u.href) {
        sim.schedule('nav', 0, 'hashchange', () => {
          this.windowTargetFire('popstate', {});
          this.windowTargetFire('hashchange', { oldURL: old, newURL: u.href });
          this.textAt = sim.now; // the page may take its text from the address
          this.textBlocked = sim.blocked;
        }, this);
      }
      return;
    }
    if (sim.nav) sim.nav.off = true;
    const d = this.plan.navDelay === undefined ? 5 : this.plan.navDelay;
    sim.nav = sim.schedule('nav', d, 'navigate to ' + short(u.href), () => {
      this.windowTargetFire('beforeunload', {});
      this.windowTargetFire('pagehide', {});
      this.windowTargetFire('unload', {});
      if (how === 'assign' && u.href !== this.url.href) sim.history.push(u.href); else sim.history[sim.history.length - 1] = u.href;
      sim.open(u.href);
    }, this);
  }
  windowTargetFire(type, init) { const e = new dom.Event(type, init); this.sandbox.dispatchEvent(e); }
  execCommand(cmd) {
    if (String(cmd).toLowerCase() !== 'copy') return false;
    const n = this.document._selected;
    if (!n || !n.isConnected) return false;
    const s = dom.selectedText(n);
    if (!s) return false;
    if (this.sim.spec.copyFails) { this.sim.fault('copying is refused'); return false; }
    this.sim.clipboard = s;
    return true;
  }

  // ---- network

  fetch(input, init) {
    const sim = this.sim, page = this, plan = this.plan;
    let u;
    try { u = new URL(typeof input === 'object' && input && input.url ? input.url : String(input), this.url); } catch (e) { return Promise.reject(new TypeError('Failed to parse URL')); }
    const name = u.pathname.split('/').pop();
    const bundle = name === 'parser.wasm';
    const d = plan.fetchDelay === undefined ? 20 : plan.fetchDelay;
    return new Promise((ok, no) => {
      if (init && init.signal) init.signal.addEventListener('abort', () => no(new dom.DOMException2('The operation was aborted.', 'AbortError')));
      sim.schedule('net', d, 'response for ' + name, () => {
        page.phase = 'response';
        if (bundle && plan.net === 'unreachable') { page.fail('the bundle cannot be fetched'); no(new TypeError('Failed to fetch')); return; }
        if (bundle && plan.net === 'aborted') { page.fail('fetching the bundle is aborted'); no(new dom.DOMException2('The operation was aborted.', 'AbortError')); return; }
        const status = bundle && plan.status || (page.site.has(name) ? 200 : 404);
        ok(page.response(u, name, status));
      }, page);
    });
  }
  response(u, name, status) {
    const page = this, plan = this.plan, sim = this.sim, bundle = name === 'parser.wasm';
    let used = false;
    const mime = status !== 200 ? 'text/html' : plan.mime || (name.endsWith('.wasm') ? 'application/wasm' : 'text/html');
    const body = () => new Promise((ok, no) => {
      if (used) { no(new TypeError('body stream already read')); return; }
      used = true;
      sim.schedule('net', plan.bodyDelay === undefined ? 30 : plan.bodyDelay, 'body of ' + name, () => {
        if (plan.net === 'cut') { page.fail('the connection is lost within the bundle'); no(new TypeError('network error')); return; }
        // By then it has to be known.
        const later = what => sim.schedule('net', plan.compileDelay === undefined ? 40 : plan.compileDelay, 'the failure is known', () => page.fail(what), page);
        if (status !== 200) { if (bundle) later(`the server answers with an error (${status})`); ok(Buffer.from('<!DOCTYPE html><h1>' + status + '</h1>')); return; }
        if (plan.damage) { later('the bundle is damaged (' + plan.damage + ')'); ok({ damaged: true }); return; }
        ok(page.site.wasm);
      }, page);
    });
    const headers = new Map([['content-type', mime]]);
    const r = {
      ok: status >= 200 && status < 300, status, statusText: status === 200 ? 'OK' : 'Error', url: u.href, type: 'basic', redirected: false,
      headers: { get: k => headers.get(String(k).toLowerCase()) ?? null, has: k => headers.has(String(k).toLowerCase()) },
      get bodyUsed() { return used; },
      arrayBuffer: () => body().then(b => (b.damaged ? damagedBuffer : b.buffer && b === page.site.wasm ? wasmBuffer(page.site) : b.buffer.slice(b.byteOffset, b.byteOffset + b.length))),
      blob: () => body().then(b => ({ size: b.length, arrayBuffer: () => Promise.resolve(b === page.site.wasm ? wasmBuffer(page.site) : damagedBuffer) })),
      text: () => body().then(() => ''), json: () => body().then(() => { throw new SyntaxError('Unexpected token'); }),
      clone: () => page.response(u, name, status),
      _sim: true, _mime: mime, _body: body,
    };
    return r;
  }

  // ---- the bundle

  makeWasm() {
    const page = this, sim = this.sim, plan = this.plan;
    const W = {};
    for (const k of ['Module', 'Instance', 'Memory', 'Table', 'Global', 'CompileError', 'LinkError', 'RuntimeError', 'Tag', 'Exception']) W[k] = WebAssembly[k];
    W.validate = b => isBundle(b, page.site) && !plan.damage;
    const compile = bytes => new Promise((ok, no) => sim.schedule('wasm', plan.compileDelay === undefined ? 40 : plan.compileDelay, 'compilation ends', () => {
      page.phase = 'compiled';
      if (!isBundle(bytes, page.site)) {
        // Passing on something else than what was received is no failure of the bundle.
        if (!isBuffer(bytes)) { no(new TypeError('WebAssembly.instantiate(): Argument 0 must be a buffer source or a WebAssembly.Module')); return; }
        if (plan.damage || plan.status || plan.net || plan.mime) page.fail('the bundle cannot be compiled');
        no(new WebAssembly.CompileError('WebAssembly.instantiate(): expected magic word 00 61 73 6d'));
        return;
      }
      if (plan.compile === 'memory') { page.fail('there is no memory for compiling the bundle'); no(new RangeError('WebAssembly.instantiate(): Out of memory: Cannot allocate Wasm memory for new instance')); return; }
      if (plan.compile === 'error') { page.fail('the bundle cannot be compiled'); no(new WebAssembly.CompileError('Compiling function #1 failed: invalid opcode 0xff')); return; }
      ok(page.site.module(plan.pages ? page.site.minPages() + plan.pages : 0));
    }, page));
    const link = (mod, imports) => {
      if (plan.compile === 'link') { page.fail('the bundle cannot be linked'); throw new WebAssembly.LinkError('WebAssembly.instantiate(): Import #0 module="go" error: module is not an object or function'); }
      return page.instance(mod, imports);
    };
    const bytesOf = b => b;
    W.compile = b => compile(bytesOf(b));
    W.instantiate = (b, imports) => (b instanceof WebAssembly.Module
      ? new Promise((ok, no) => sim.schedule('wasm', 1, 'instantiation', () => { try { ok(link(b, imports)); } catch (e) { no(e); } }, page))
      : compile(b).then(module => ({ module, instance: link(module, imports) })));
    const stream = async src => {
      const r = await src;
      if (!r || !r._sim) throw new TypeError("WebAssembly: Argument 0 must be provided and must be a Response or Response promise");
      if (!r.ok) { page.fail(`the server answers with an error (${r.status})`); throw new TypeError('WebAssembly: HTTP status code is not ok'); }
      if (r._mime !== 'application/wasm') { page.fail('the bundle has the wrong type'); throw new TypeError("WebAssembly: Incorrect response MIME type. Expected 'application/wasm'."); }
      const b = await r._body();
      return compile(b.damaged ? damagedBuffer : wasmBuffer(page.site));
    };
    if (plan.streaming !== false) {
      W.compileStreaming = stream;
      W.instantiateStreaming = (src, imports) => stream(src).then(module => ({ module, instance: link(module, imports) }));
    } else this.sim.fault('no streaming compilation');
    return W;
  }

  // instance makes an instance whose entry points can be made to fail.
  instance(mod, imports) {
    const page = this, sim = this.sim, plan = this.plan;
    const src = imports && (imports.gojs || imports.go) || {};
    const go = Object.assign({}, src);
    go['runtime.wasmExit'] = sp => {
      const code = new DataView(real.exports.mem.buffer).getInt32((sp >>> 0) + 8, true);
      page.exited = true;
      page.phase = 'exited';
      if (plan.pages) sim.fault('out of memory in the bundle');
      page.fail(`the bundle exits (status ${code}${page.loadedAt < 0 ? ', before it is ready' : page.parsing ? ', during a parse' : ''})`);
      return src['runtime.wasmExit'](sp);
    };
    const real = new WebAssembly.Instance(mod, Object.assign({}, imports, { go, gojs: go }));
    const exit = code => {
      const sp = 4096;
      new DataView(real.exports.mem.buffer).setInt32(sp + 8, code, true);
      go['runtime.wasmExit'](sp);
    };
    page.phase = 'instantiated';
    if (!plan.pages) page.wantAt = sim.now;
    else sim.fault('bounded memory');
    const w = Object.create(WebAssembly.Instance.prototype);
    Object.defineProperty(w, 'exports', {
      value: Object.assign({}, real.exports, {
        run(...a) {
          page.phase = 'started';
          if (plan.start === 'trap') { page.wantAt = -1; page.fail('the bundle traps when it is started'); throw new WebAssembly.RuntimeError('unreachable'); }
          if (plan.start === 'exit') { page.wantAt = -1; exit(plan.code || 0); return; }
          page.intercept();
          real.exports.run(...a);
          if (plan.start === 'return') exit(plan.code || 0);
        },
        resume(...a) {
          page.resumes++;
          const x = page.exitNow;
          if (x && !x.after) { page.exitNow = null; exit(x.code); return; }
          real.exports.resume(...a);
          if (x && !page.exited) { page.exitNow = null; exit(x.code); }
        },
      }),
    });
    return w;
  }

  // intercept notes when the bundle hands over its parser and when that is
  // called.
  intercept() {
    const page = this, sim = this.sim;
    const f = page.window.parserLoaded;
    if (typeof f !== 'function') return;
    page.window.parserLoaded = function (raw, ...more) {
      page.raw = raw;
      if (typeof raw !== 'function') return f.call(this, raw, ...more);
      sim.log('the bundle is ready');
      const wrapped = function (...a) {
        const c = { t: sim.now, text: a[0], result: undefined, error: undefined, threw: null };
        page.calls.push(c);
        const costs = sim.spec.costs;
        if (costs && costs.length) sim.stall(costs[(page.calls.length - 1) % costs.length]);
        const plan = page.plan;
        if (plan.exitAtCall === page.calls.length && !page.exited) page.exitNow = { code: plan.code || 0, after: !!plan.exitAfter };
        page.parsing = true;
        try {
          const r = Reflect.apply(raw, this, a);
          if (r && typeof r === 'object') { c.result = r.result; c.error = r.error; c.keys = Object.keys(r); } else c.odd = true;
          return r;
        } catch (e) {
          c.threw = e;
          throw e;
        } finally { page.parsing = false; c.end = sim.now; }
      };
      page.parser = wrapped;
      page.loadedAt = sim.now;
      page.loadedBlocked = sim.blocked;
      page.phase = 'ready';
      if (sim.spec.reenter !== undefined) wrapped(sim.spec.reenter);
      return f.call(this, wrapped, ...more);
    };
  }
  exitBetween(code) {
    if (!this.raw || this.exited) return false;
    this.exitNow = { code };
    try { this.raw(''); } catch (e) { /* the program is gone */ }
    return this.exited;
  }

  // ---- the user

  setText(text, how) {
    const el = this.input;
    el.focus();
    const ev = (t, init) => el.dispatchEvent(new dom.Event(t, Object.assign({ bubbles: true, cancelable: true }, init)));
    if (how === 'type') ev('keydown', { key: 'a' });
    if (how === 'compose') ev('compositionstart');
    if (how === 'paste') ev('paste');
    ev('beforeinput');
    el.value = text;
    ev('input', { cancelable: false });
    if (how === 'compose') ev('compositionend');
    if (how === 'type') ev('keyup', { key: 'a' });
  }
}

const damagedBuffer = new ArrayBuffer(16);
const buffers = new WeakMap();
function wasmBuffer(site) {
  let b = buffers.get(site);
  if (!b) { b = new ArrayBuffer(site.wasm.length); new Uint8Array(b).set(site.wasm); buffers.set(site, b); }
  return b;
}
const isBuffer = b => Object.prototype.toString.call(b) === '[object ArrayBuffer]' || ArrayBuffer.isView(b);
function isBundle(b, site) {
  if (!b) return false;
  const buf = b.buffer && !(b instanceof ArrayBuffer) ? b.buffer : b;
  if (buf === buffers.get(site)) return true;
  return buf.byteLength === site.wasm.length && Buffer.from(buf).equals(site.wasm);
}

function makeLocation(page) {
  const l = {
    assign: u => page.navigate(String(u), 'assign'),
    replace: u => page.navigate(String(u), 'replace'),
    reload: () => page.navigate(page.url.href, 'reload'),
    toString: () => page.url.href,
    ancestorOrigins: [],
  };
  const part = (k, set) => Object.defineProperty(l, k, {
    get: () => page.url[k],
    set: set && (v => { const u = new URL(page.url); u[k] = String(v); page.navigate(u.href, 'assign'); }),
    enumerable: true,
  });
  Object.defineProperty(l, 'href', { get: () => page.url.href, set: v => page.navigate(String(v), 'assign'), enumerable: true });
  for (const k of ['protocol', 'host', 'hostname', 'port', 'pathname', 'search']) part(k, true);
  Object.defineProperty(l, 'hash', {
    get: () => page.url.hash,
    set: v => {
      const u = new URL(page.url);
      u.hash = String(v);
      let s = u.href;
      if (!s.includes('#')) s += '#';
      if (u.hash !== page.url.hash) page.navigate(s, 'assign');
    }, enumerable: true,
  });
  Object.defineProperty(l, 'origin', { get: () => page.url.origin, enumerable: true });
  return l;
}

function short(s, n = 160) { return s.length > n ? s.slice(0, n) + '...' : s; }

module.exports = { Rng, Site, Sim, Page, hash32, short, drain };
void nodeURL;
