'use strict';
// The properties of the demo page and its bundle: how runs are made up and
// what is demanded of them.
const { Rng, Sim, hash32, short } = require('./browser.js');

class Violation {
  constructor(cls, msg) { this.cls = cls; this.msg = msg; }
}

// ---- one run

// execute runs a specification. It returns what happened.
async function execute(env, spec) {
  const sim = new Sim(env.site, spec);
  const run = { sim, shares: [], links: new Map(), bursts: new Map(), viol: null, evals: 0, calls: [] };
  const fail = (cls, msg) => { if (!sim.verdict) { sim.verdict = new Violation(cls, msg); sim.log('VIOLATION ' + msg); } };
  run.fail = fail;
  sim.observers.push(s => watchText(s), s => checks[spec.property](s, run, fail));
  try {
    sim.open(spec.start);
    await settle(sim);
    sim.observe();
    for (const a of spec.actions) {
      sim.schedule('user', a.at - sim.now, describe(a), () => act(sim, run, a));
    }
    await sim.run(spec.end);
    if (!sim.verdict) sim.observe();
    if (!sim.verdict && after[spec.property]) await after[spec.property](env, sim, run, fail);
  } catch (e) {
    if (!e || !e.page) throw e;
    fail('page', e.message);
  }
  if (sim.page) sim.page.destroy();
  return { verdict: sim.verdict || null, sim, run };
}

const settle = () => new Promise(r => setImmediate(r));

function describe(a) {
  switch (a.do) {
    case 'edit': return `the text becomes ${JSON.stringify(short(a.text, 60))} (${a.how})`;
    case 'stall': return `the main thread is busy for ${a.ms} ms`;
    case 'clock': return `the clock is set by ${a.by} ms`;
    case 'hash': return `the fragment becomes ${a.hash}`;
    case 'exit': return `the bundle exits with ${a.code}`;
    case 'call': return `the parser is called with ${JSON.stringify(short(a.text, 60))}`;
    default: return a.do;
  }
}

function act(sim, run, a) {
  const p = sim.page;
  if (!p && a.do !== 'clock') return;
  switch (a.do) {
    case 'edit':
      if (a.burst) {
        let b = run.bursts.get(a.burst);
        if (!b) run.bursts.set(a.burst, b = { page: p, blocked: sim.blocked, from: p.calls.length, n: 0, ok: true });
        b.n++;
        b.to = p.calls.length; // before this keystroke
        if (b.page !== p || b.blocked !== sim.blocked) b.ok = false;
        b.of = a.of;
      }
      p.setText(a.text, a.how);
      p.textAt = sim.now;
      p.textBlocked = sim.blocked;
      break;
    case 'stall': sim.fault('busy main thread'); sim.stall(a.ms); break;
    case 'clock': sim.fault('clock jump'); sim.wall += a.by; break;
    case 'hash': disturbShares(sim, run); p.navigate(a.hash, 'assign'); break;
    case 'reload': sim.fault('reload'); disturbShares(sim, run); p.navigate(p.url.href, 'reload'); break;
    case 'crash': {
      sim.fault('crash of the tab');
      disturbShares(sim, run);
      const url = p.url.href;
      if (sim.nav) { sim.nav.off = true; sim.nav = null; }
      p.destroy();
      sim.page = null;
      sim.schedule('nav', a.ms || 10, 'the tab is restored', () => sim.open(url));
      break;
    }
    case 'address':
      disturbShares(sim, run);
      p.navigate(a.url === 'clipboard' ? sim.clipboard || p.url.href : a.url, 'assign');
      break;
    case 'share': {
      const text = p.show().text;
      disturbShares(sim, run);
      const old = sim.clipboard, leaving = !!sim.nav;
      if (text !== '') run.shares.push({ t: sim.now, blocked: sim.blocked, text, url: p.url.href, old, page: p, disturbed: false, done: false });
      p.share.click();
      // The page may be about to leave for somewhere else.
      if (leaving) disturbShares(sim, run);
      break;
    }
    case 'exit': if (p.exitBetween(a.code)) sim.log('the bundle is gone'); break;
    case 'call':
      if (p.parser && !p.exited) { try { p.parser(a.text); } catch (e) { sim.log('the call throws ' + e); } }
      break;
    default: throw Object.assign(new Error('no such action ' + a.do), { harness: true });
  }
}

// disturbShares notes what became of the latest share before something else
// happens to the page.
function disturbShares(sim, run) {
  for (const s of run.shares) {
    if (s.disturbed) continue;
    s.disturbed = true;
    if (sim.clipboard !== null && sim.clipboard !== s.old) s.copied = sim.clipboard;
  }
}

// watchText notes since when the text is what it is.
function watchText(sim) {
  const p = sim.page;
  if (!p) return;
  const t = p.input.value;
  if (t !== p.lastText) {
    p.lastText = t;
    p.textAt = sim.now;
    p.textBlocked = sim.blocked;
    p.versions.push(t);
  }
}

const norm = s => String(s).replace(/\r\n?/g, '\n').trim();

function lastCall(p, text) {
  for (let i = p.calls.length - 1; i >= 0; i--) if (p.calls[i].text === text) return p.calls[i];
  return null;
}

// shows returns whether the page shows the outcome of a call, or what is wrong.
function shows(s, c) {
  if (c.error) {
    const e = norm(c.error);
    if (!norm(s.out).includes(e)) return `the output pane does not show the error ${JSON.stringify(short(e))} but ${JSON.stringify(short(s.out))}`;
    if (!s.errVisible || !norm(s.err).includes(e)) return `the error line does not show the error ${JSON.stringify(short(e))} but ${s.errVisible ? JSON.stringify(short(s.err)) : 'nothing'}`;
    if (s.okVisible) return `the success line shows ${JSON.stringify(short(s.ok))} next to an error`;
    return '';
  }
  if (norm(s.out) !== norm(c.result)) return `the output pane does not show the document of the text but ${JSON.stringify(short(s.out))}`;
  if (!s.okVisible) return 'the success line is not shown';
  if (s.errVisible) return `the error line shows ${JSON.stringify(short(s.err))} next to a document`;
  return '';
}

// ready demands that a bundle that arrives gets used.
function ready(sim, run, fail) {
  const p = sim.page;
  if (!p || p.failedAt >= 0 || p.loadedAt >= 0 || !healthy(p.plan)) return;
  const busy = sim.blocked - (p.startBlocked === undefined ? (p.startBlocked = sim.blocked) : p.startBlocked);
  const need = d(p.plan.fetchDelay, 20) + d(p.plan.bodyDelay, 30) + d(p.plan.compileDelay, 40) + 1000;
  if (sim.now >= p.start + need + busy) fail('never ready', `the bundle could be fetched, compiled and started, but ${Math.round(sim.now - p.start)} ms after the page was loaded it has not handed over its parser (the page shows ${JSON.stringify(short(p.show().out))} and ${JSON.stringify(short(p.show().err))})`);
}
const d = (v, x) => (v === undefined ? x : v);
const healthy = plan => !plan.net && !plan.status && !plan.mime && !plan.damage && !plan.compile && !plan.pages && (!plan.start || plan.start === 'return');

function converges(sim, run, fail) {
  const p = sim.page;
  if (!p || p.exited || p.failedAt >= 0 || p.loadedAt < 0) return;
  const text = p.input.value;
  if (text !== p.lastText) return;
  const s = p.show();
  // The results that are shown belong to ever newer texts.
  if (p.calls.length && s.out !== p.lastOut) {
    const outcome = p.calls.some(c => c.result && norm(c.result) === norm(s.out) || c.error && norm(s.out).includes(norm(c.error)));
    if (outcome) {
      const from = p.shown || 0;
      let v = from;
      for (; v < p.versions.length; v++) {
        const c = lastCall(p, p.versions[v]);
        if (c && (c.result && norm(c.result) === norm(s.out) || c.error && norm(s.out).includes(norm(c.error)))) break;
      }
      if (v === p.versions.length) { fail('stale', `the result of an older text replaces that of a newer one: ${JSON.stringify(short(s.out))}`); return; }
      p.shown = v;
    }
    p.lastOut = s.out;
  }
  const since = Math.max(p.textAt, p.loadedAt);
  const busy = sim.blocked - (p.textAt > p.loadedAt ? p.textBlocked : p.loadedBlocked);
  if (sim.now < since + 1000 + busy) return;
  run.evals++;
  const c = lastCall(p, text);
  const how = `${Math.round(sim.now - since)} ms after the last change (${JSON.stringify(short(text, 80))}${busy ? `, the main thread was busy for ${busy} ms of it` : ''})`;
  if (!c) { fail('not parsed', `${how} the text has not been parsed; the page shows ${JSON.stringify(short(s.out))}`); return; }
  if (c.threw || c.odd || (!c.error && !c.result)) return; // the parser's fault
  const wrong = shows(s, c);
  if (wrong) fail('wrong', `${how} ${wrong}`);
}

function bursts(sim, run, fail) {
  for (const b of run.bursts.values()) {
    if (b.judged || b.n < b.of) continue;
    b.judged = true;
    const n = b.to - b.from;
    if (b.ok && b.page === sim.page && n > b.n / 2 + 1) fail('burst', `the text was parsed ${n} times while ${b.n} keystrokes followed each other within less than the debounce interval`);
  }
}

function failuresShow(sim, run, fail) {
  const p = sim.page;
  if (!p || p.failedAt < 0) return;
  if (sim.now < p.failedAt + 1000 + (sim.blocked - p.failedBlocked)) return;
  run.evals++;
  const s = p.show();
  const after = `${Math.round(sim.now - p.failedAt)} ms after the failure (${p.failure})`;
  if (!s.errVisible) { fail('invisible', `${after} no error is shown; the page shows ${JSON.stringify(short(s.out))}${s.okVisible ? ' and ' + JSON.stringify(s.ok) : ''}`); return; }
  const c = p.calls.find(c => c.error && norm(s.err) === norm(c.error));
  if (c) fail('no word of it', `${after} the error line shows the outcome of a parse (${JSON.stringify(short(s.err))}) and not the failure`);
}

function parts(url) {
  const u = new URL(url);
  return { base: u.origin + u.pathname, hash: u.hash, params: [...u.searchParams].filter(([k]) => k !== 'code') };
}

// sharing follows what was shared and what must come back.
function sharing(sim, run, fail) {
  const p = sim.page;
  const preserved = (link, s, what) => {
    const a = parts(s.url), b = parts(link);
    if (a.base !== b.base) return `${what} ${short(link)} is not on the page ${short(s.url)}`;
    if (a.hash !== b.hash && !decodeURIComponent(b.hash.replace(/%(?![0-9a-fA-F]{2})/g, '%25')).includes(s.text)) return `${what} ${short(link)} has lost the fragment ${a.hash}`;
    const rest = b.params.filter(([k, v]) => v !== s.text || a.params.some(([x, y]) => x === k && y === v));
    if (JSON.stringify(rest) !== JSON.stringify(a.params)) return `${what} ${short(link)} has other parameters (${JSON.stringify(rest)}) than ${short(s.url)}`;
    return '';
  };
  for (const s of run.shares) {
    if (s.done) continue;
    const navDelay = d(s.page.plan.navDelay, 5);
    const busy = sim.blocked - s.blocked;
    const due = sim.now >= s.t + 1000 + navDelay + busy;
    if (!s.disturbed && !due) continue;
    s.done = true;
    const copied = s.disturbed ? s.copied : sim.clipboard;
    if (!sim.spec.copyFails && !s.disturbed) {
      let ok = copied !== null;
      try { void new URL(copied); } catch (e) { ok = false; }
      if (!ok) { fail('clipboard', `after sharing, the clipboard holds ${copied === null ? 'nothing' : JSON.stringify(short(copied))}`); return; }
      const w = preserved(copied, s, 'the copied link');
      if (w) { fail('address', w); return; }
      run.links.set(copied, s.text);
    } else if (s.disturbed && copied !== undefined) {
      // Whatever got there has to be right.
      try { void new URL(copied); run.links.set(copied, s.text); } catch (e) { fail('clipboard', `after sharing, the clipboard holds ${JSON.stringify(short(copied))}`); return; }
    }
    if (!s.disturbed && p) {
      const href = p.url.href;
      const w = preserved(href, s, 'the address of the page');
      if (w) { fail('address', w); return; }
      run.links.set(href, s.text);
      run.evals++;
      if (p !== s.page && p.firstText !== s.text) { fail('lost', `the page that sharing leads to starts with ${JSON.stringify(short(String(p.firstText), 80))} instead of ${JSON.stringify(short(s.text, 80))}`); return; }
    }
  }
  if (p && p.firstText === undefined) {
    p.firstText = p.input.value;
    const want = run.links.get(p.url.href);
    if (want !== undefined) {
      run.evals++;
      if (p.firstText !== want) fail('lost', `the page opened at a shared link starts with ${JSON.stringify(short(p.firstText, 80))} instead of ${JSON.stringify(short(want, 80))}`);
    }
  }
}

const checks = {
  C15: () => { },
  C16: (s, r, f) => { ready(s, r, f); converges(s, r, f); bursts(s, r, f); },
  C17: (s, r, f) => { ready(s, r, f); failuresShow(s, r, f); },
  C18: (s, r, f) => { sharing(s, r, f); },
};

// wellFormed replaces what a string cannot pass on to the parser.
const wellFormed = s => (s.isWellFormed ? (s.isWellFormed() ? s : s.toWellFormed()) : Buffer.from(s, 'utf8').toString('utf8'));

const after = {
  async C15(env, sim, run, fail) {
    const p = sim.page;
    if (p.loadedAt < 0) { fail('never ready', 'the bundle never handed over its parser'); return; }
    for (const [i, c] of p.calls.entries()) {
      run.evals++;
      const what = `call ${i + 1} of ${p.calls.length} (${JSON.stringify(short(String(c.text), 120))}, ${String(c.text).length} characters)`;
      if (c.threw) { fail('throws', `${what} throws ${short(String(c.threw))}${p.exited ? '; the service has ended' : ''}`); return; }
      if (c.odd) { fail('no answer', `${what} returns no object`); return; }
      const e = typeof c.error === 'string' && c.error !== '', r = typeof c.result === 'string' && c.result !== '';
      if (e === r) { fail(e ? 'both' : 'neither', `${what} returns ${e ? 'both a document and an error' : 'neither a document nor an error'}: ${short(JSON.stringify({ error: c.error, result: c.result }))}`); return; }
      const n = await env.native(wellFormed(c.text));
      if (n.other) continue; // the library's fault
      if (e !== (n.error !== undefined)) { fail('differs', `${what} gives ${e ? 'the error ' + JSON.stringify(short(c.error)) : 'a document'}, but the library gives ${n.error !== undefined ? 'the error ' + JSON.stringify(short(n.error)) : 'a document'}`); return; }
      if (e) { if (c.error !== n.error) { fail('differs', `${what} gives the error ${JSON.stringify(short(c.error))}, but the library gives ${JSON.stringify(short(n.error))}`); return; } continue; }
      let doc;
      try { doc = JSON.parse(c.result); } catch (x) { fail('no document', `${what} gives a document that is not JSON: ${JSON.stringify(short(c.result))}`); return; }
      if (JSON.stringify(doc) !== JSON.stringify(JSON.parse(n.result))) { fail('differs', `${what} gives another document than the library`); return; }
    }
    if (p.exited) fail('ends', `the service has ended after ${p.calls.length} calls`);
  },
  async C18(env, sim, run, fail) {
    // Every link is opened once more, in a new tab.
    const links = [...run.links].slice(-3);
    for (const [i, [link, text]] of links.entries()) {
      sim.session = new Map();
      sim.open(link);
      const p = sim.page;
      const at = sim.now;
      await settle();
      await sim.run(at + 20);
      if (sim.verdict) return;
      run.evals++;
      const got = p.input.value;
      if (got !== text) { fail('lost', `the page opened at the shared link ${short(link)} starts with ${JSON.stringify(short(got, 80))} instead of ${JSON.stringify(short(text, 80))}`); return; }
      if (i < links.length - 1) continue;
      const need = d(p.plan.fetchDelay, 20) + d(p.plan.bodyDelay, 30) + d(p.plan.compileDelay, 40) + 2000;
      if (!healthy(p.plan) || p.plan.start) continue;
      await sim.run(at + need);
      if (sim.verdict || p.exited) return;
      const c = lastCall(p, text);
      if (!c) { fail('not parsed', `the text of the shared link ${short(link)} is not parsed`); return; }
      if (c.threw || c.odd || (!c.error && !c.result)) continue;
      const w = shows(p.show(), c);
      if (w) { fail('not shown', `for the text of the shared link ${short(link)} ${w}`); return; }
    }
  },
};

// ---- making up runs

const starts = ['http://localhost:8080/parser/', 'https://jchv.github.io/cleansheets/parser/', 'https://jchv.github.io/cleansheets/parser/index.html', 'http://[::1]:8000/p%20q/'];
function startURL(r) {
  let u = r.of(starts);
  if (r.p(2)) {
    const q = [];
    for (let k = r.in(1, 3); k > 0; k--) q.push(r.pick('a=1', 'b=x%20y', 'c=1+2', 'flag', 'utm_source=%C3%BC', 'empty=', 'q=a%26b%3Dc', 'code=old%20text', 'code=f(1)', 'd=%25', 'a=2', 'CODE=not%20it', 'code2=x', 'barcode=7', 'r=code=8', 'Code=9'));
    u += '?' + q.join('&');
  }
  if (r.p(3)) u += r.pick('#', '#frag', '#a=b', '#code=zzz', '#%20x', '#\u00fc');
  return u;
}

function basePlan(r) {
  const p = {};
  if (r.p(2)) p.fetchDelay = r.pick(0, 1, 10, 100, 500, 700, 1500, 4000);
  if (r.p(2)) p.bodyDelay = r.pick(0, 1, 300, 490, 2000);
  if (r.p(2)) p.compileDelay = r.pick(0, 1, 200, 499, 500, 501, 1200);
  if (r.p(3)) p.navDelay = r.pick(0, 1, 50, 400, 1500);
  if (r.p(4)) p.streaming = false;
  return p;
}

function base(r, property, i) {
  const spec = { property, seed: r.u(), start: startURL(r), loads: [basePlan(r)], actions: [], end: 0 };
  if (!r.p(4)) spec.tie = r.u() || 1;
  if (r.p(2)) spec.jitter = r.pick(1, 5, 20, 60);
  if (r.p(4)) spec.costs = Array.from({ length: r.in(1, 4) }, () => r.pick(0, 1, 20, 100, 150));
  while (r.p(3) && spec.loads.length < 3) spec.loads.push(basePlan(r));
  return spec;
}

// edits adds changes of the text from a time on and returns when they end.
function edits(r, spec, texts, from, n) {
  let t = from;
  for (let k = 0; k < n; k++) {
    t += r.pick(0, 1, 10, 100, 250, 450, 495, 499, 500, 501, 505, 560, 700, 990, 1000, 1010, 1600);
    spec.actions.push({ at: t, do: 'edit', text: r.of(texts), how: r.pick('type', 'paste', 'compose', 'undo') });
  }
  return t;
}

function disturb(r, spec, from, to, kinds, n) {
  for (let k = 0; k < n; k++) {
    const at = r.in(from, Math.max(from, to));
    switch (r.of(kinds)) {
      case 'stall': spec.actions.push({ at, do: 'stall', ms: r.pick(10, 100, 400, 600, 1500) }); break;
      case 'clock': spec.actions.push({ at, do: 'clock', by: r.pick(-3600000, -1000, -1, 1000, 86400000, 3e11, -1.7e12) }); break;
      case 'hash': spec.actions.push({ at, do: 'hash', hash: r.pick('#x', '#', '#y=1', '#code=q') }); break;
      case 'reload': spec.actions.push({ at, do: 'reload' }); break;
      case 'crash': spec.actions.push({ at, do: 'crash', ms: r.pick(0, 10, 500) }); break;
      case 'share': spec.actions.push({ at, do: 'share' }); break;
      case 'address': spec.actions.push({ at, do: 'address', url: r.p(2) ? 'clipboard' : spec.start }); break;
    }
  }
}

const sortActions = spec => { spec.actions = spec.actions.map((a, i) => [a, i]).sort((x, y) => x[0].at - y[0].at || x[1] - y[1]).map(x => x[0]); };

const loadTime = spec => Math.max(...spec.loads.map(p => d(p.fetchDelay, 20) + d(p.bodyDelay, 30) + d(p.compileDelay, 40) + d(p.navDelay, 5)));

const gens = {
  async C15(env, r, i) {
    const spec = base(r, 'C15', i);
    spec.loads = [{}];
    spec.costs = undefined;
    const kind = r.n(12);
    const n = kind === 0 ? (r.p(6) ? r.in(300, 1200) : r.in(60, 200)) : r.in(3, 25);
    const texts = [];
    const add = async (k, size, count) => { if (count > 0) texts.push(...await env.gen(r.u(), k, size, count)); };
    await add('any', r.p(8) ? 300 : n > 200 ? 10 : 40, Math.ceil(n / 2));
    await add('deep', 0, kind < 6 ? r.in(1, 4) : 0);
    await add('short', 0, n - Math.ceil(n / 2));
    if (kind === 7 || kind === 8) await add('large', r.pick(20000, 60000, 200000), 1);
    const lone = s => { const at = r.n(s.length + 1); return s.slice(0, at) + r.pick('\ud800', '\udfff', '\udc00\ud800', '\0', '\ufeff', '\ud83d\ude00', '\u2028', '\r\n', '\r', '\ufffd', '\uffff') + s.slice(at); };
    let t = r.pick(100, 200);
    if (r.p(3)) spec.reenter = r.of(texts);
    for (let k = 0; k < n; k++) {
      let s = r.of(texts);
      if (r.p(5)) s = lone(s);
      if (r.p(12)) s = s.slice(0, r.n(s.length + 1));
      t += r.pick(0, 0, 1, 20, 600, 5000, 130000);
      if (r.p(8)) spec.actions.push({ at: t, do: 'edit', text: s, how: 'paste' });
      else spec.actions.push({ at: t, do: 'call', text: s });
    }
    disturb(r, spec, 0, t, ['clock', 'stall', 'hash'], r.n(3));
    spec.actions.push({ at: t + 700, do: 'call', text: 'last = 1;' });
    sortActions(spec);
    spec.end = t + 2000;
    return spec;
  },
  async C16(env, r, i) {
    const spec = base(r, 'C16', i);
    const texts = await env.gen(r.u(), 'short', 0, r.in(2, 6));
    if (r.p(3)) texts.push(...await env.gen(r.u(), 'any', 30, 2));
    if (r.p(12)) texts.push(...await env.gen(r.u(), 'deep', 0, 1));
    texts.push('');
    if (r.p(4)) texts.push(r.pick('\ud800', 'a\r\nb', '\0', ' ', '\n', '<b>&amp;</b>', '</textarea>', 'x'.repeat(3000)));
    let t = r.pick(0, 0, 50, 90, 100, 400);
    const from = t;
    for (let k = r.in(1, 3); k > 0; k--) {
      if (r.p(3)) {
        // Typing, one character after the other.
        const full = r.of(texts).slice(0, 40) + 'abcdefghij';
        const count = Math.min(full.length, r.in(8, 20));
        const gap = r.pick(5, 30, 100, 200, 250);
        const id = spec.actions.length + 1;
        for (let c = 1; c <= count; c++) {
          spec.actions.push({ at: t, do: 'edit', text: full.slice(0, full.length - count + c), how: 'type', burst: id, of: count });
          t += gap;
        }
        t -= gap;
      } else t = edits(r, spec, texts, t, r.in(1, 5));
      if (r.p(2)) t += r.pick(500, 1000, 1100, 2000, 3000);
    }
    disturb(r, spec, from, t + 1200, ['stall', 'clock', 'hash', 'reload', 'share', 'stall', 'clock'], r.p(2) ? 0 : r.in(1, 4));
    sortActions(spec);
    spec.end = t + loadTime(spec) * 2 + 6000;
    return spec;
  },
  async C17(env, r, i) {
    const spec = base(r, 'C17', i);
    const texts = await env.gen(r.u(), 'short', 0, 4);
    const broken = p => {
      switch (r.n(16)) {
        case 0: p.net = 'unreachable'; break;
        case 1: p.net = 'aborted'; break;
        case 2: p.net = 'cut'; break;
        case 3: p.status = r.pick(404, 500, 403, 503, 301, 416); break;
        case 4: p.mime = r.pick('application/octet-stream', 'text/plain', ''); break;
        case 5: p.damage = r.pick('truncated', 'flipped bits', 'empty'); break;
        case 6: p.compile = r.pick('error', 'memory'); break;
        case 7: p.compile = 'link'; break;
        case 8: p.start = 'trap'; break;
        case 9: p.start = 'exit'; p.code = r.pick(0, 1, 2, -1); break;
        case 10: p.start = 'return'; p.code = r.pick(0, 2); break;
        case 11: case 12: p.exitAtCall = r.in(1, 3); p.code = r.pick(0, 2, 1); p.exitAfter = r.p(4); break;
        case 13: p.pages = r.pick(1, 20, 40, 100, 200); break;
        case 14: return 'exit';
        case 15: return '';
      }
      if (p.mime === '' || p.streaming === false && p.mime) delete p.mime;
      return '';
    };
    const x = broken(spec.loads[0]);
    if (spec.loads.length > 1 && r.p(2)) broken(spec.loads[spec.loads.length - 1]);
    let t = edits(r, spec, texts, r.pick(0, 50, 300, 800), r.n(6));
    if (spec.loads[0].pages) {
      const big = await env.gen(r.u(), r.pick('large', 'deep'), r.pick(3000, 50000, 200000), 2);
      t = edits(r, spec, big, t + 600, r.in(1, 3));
    }
    if (x === 'exit') {
      spec.actions.push({ at: r.in(0, t + 1500), do: 'exit', code: r.pick(0, 1, 2, 137) });
      if (r.p(2)) t = edits(r, spec, texts, t, r.in(1, 4));
    }
    disturb(r, spec, 0, t + 2000, ['stall', 'clock', 'hash', 'reload', 'share', 'crash'], r.p(2) ? 0 : r.in(1, 3));
    sortActions(spec);
    spec.end = t + loadTime(spec) * 2 + 5000;
    return spec;
  },
  async C18(env, r, i) {
    const spec = base(r, 'C18', i);
    const texts = [...await env.gen(r.u(), 'short', 0, 2), ...await env.gen(r.u(), 'any', 30, 1)];
    texts.push(r.pick('a&b=c#d?e+f%20g', '%', '+', 'a+b', '100%', '%zz', '&code=x', '#', '\u00fc\u20ac\ud83d\ude00', ' x ', '\n', '\n\nx\n', '\t', 'a\r\nb\rc', '\0', '\ufeffx', '0', 'false', '"\'<>`', '\\', 'x'.repeat(r.in(1, 20000)), '\u2028\u2029', 'null', 'javascript:alert(1)', '\ufffd', 'a=1&a=2', '//', ';', '?code=1', '\u0301e', '\udbff\udfff'));
    for (let k = 0; k < texts.length; k++) texts[k] = wellFormed(texts[k]);
    if (r.p(20)) spec.copyFails = true;
    if (r.p(10)) spec.noClipboardAPI = true;
    let t = r.pick(0, 100, 1000);
    for (let k = r.in(1, 3); k > 0; k--) {
      if (!r.p(6)) t = edits(r, spec, texts, t, r.in(1, 3));
      t += r.pick(0, 1, 100, 499, 500, 700, 2000);
      spec.actions.push({ at: t, do: 'share' });
      if (r.p(8)) spec.actions.push({ at: t + r.pick(0, 1, 100), do: 'share' });
      if (r.p(3)) t = edits(r, spec, texts, t, r.in(1, 2));
      t += r.pick(0, 1, 5, 6, 100, 1200, 3000);
      if (r.p(3)) { spec.actions.push({ at: t, do: r.pick('reload', 'crash'), ms: r.pick(0, 10, 300) }); t += r.pick(0, 10, 400, 1500); }
    }
    disturb(r, spec, 0, t + 1500, ['stall', 'clock', 'hash', 'reload', 'crash', 'address'], r.p(2) ? 0 : r.in(1, 4));
    if (r.p(6)) { const p = spec.loads[0]; if (r.p(2)) p.net = 'unreachable'; else p.start = 'trap'; }
    sortActions(spec);
    spec.end = t + 6000;
    return spec;
  },
};

async function generate(env, property, seed, i) {
  const r = new Rng(hash32(property + ':' + seed + ':' + i));
  return gens[property](env, r, i);
}

// ---- making runs smaller

function* smaller(spec) {
  const clone = () => JSON.parse(JSON.stringify(spec));
  const with_ = f => { const c = clone(); f(c); return c; };
  const n = spec.actions.length;
  for (let len = n; len >= 1; len = len > 1 ? len >> 1 : 0) {
    for (let at = 0; at + len <= n; at += len) yield with_(c => { c.actions.splice(at, len); });
    if (len === 1) break;
  }
  for (const k of ['tie', 'jitter', 'costs', 'reenter', 'copyFails', 'noClipboardAPI']) if (spec[k] !== undefined) yield with_(c => { delete c[k]; });
  for (let l = 0; l < spec.loads.length; l++) {
    if (spec.loads.length > 1) yield with_(c => { c.loads.splice(l, 1); });
    for (const k of Object.keys(spec.loads[l])) yield with_(c => { delete c.loads[l][k]; });
  }
  const u = new URL(spec.start);
  if (u.search || u.hash) yield with_(c => { c.start = u.origin + u.pathname; });
  if (u.hash) yield with_(c => { c.start = u.origin + u.pathname + u.search; });
  for (let k = 0; k < n; k++) {
    const a = spec.actions[k];
    if (a.text !== undefined && a.text.length > 1) {
      yield with_(c => { c.actions[k].text = 'a'; });
      const L = a.text.length;
      for (let len = L >> 1; len >= 1; len >>= 1) {
        for (let at = 0; at < L; at += len) {
          yield with_(c => { c.actions[k].text = a.text.slice(0, at) + a.text.slice(at + len); });
          if (at / len > 40) break;
        }
        if (len < L / 64) break;
      }
    }
    if (a.ms > 10) yield with_(c => { c.actions[k].ms = a.ms >> 1; });
  }
  // Without gaps.
  for (let k = 0; k < n; k++) {
    const gap = spec.actions[k].at - (k ? spec.actions[k - 1].at : 0);
    if (gap > 2000) yield with_(c => { for (let j = k; j < n; j++) c.actions[j].at -= gap - 2000; c.end -= gap - 2000; });
  }
}

const about = {
  C15: {
    quick: 4500, thorough: 80000,
    rule: 'a run is one life of the real page and bundle in the simulated browser with 4 to 1200 calls of its parser (programs, mutated, damaged, torn, deep and large texts, lone surrogates), gaps of up to minutes of simulated time, clock jumps and a call from within the hand-over; every answer is compared with the library built for this machine; an evaluation is one call; distinct by the whole specification; non-trivial if a call was answered',
    stub: ['browser (elements, events, timers, fetch, navigation: simulated)', 'clock and randomness'],
    real: ['web/parser/index.html script', 'web/parser/wasm_exec.js', 'the bundle built from web/parser for js/wasm', 'lexer, parser, ast', 'V8 for JavaScript and WebAssembly'],
  },
  C16: {
    quick: 18000, thorough: 400000,
    rule: 'a run is one tab of the simulated browser with the real page and bundle: bundle delays, bursts of typing, pastes, empty and odd texts, late timers, a busy main thread, slow parses, clock jumps, fragment changes, shares and reloads; an evaluation is one moment at which the page had to have converged and was compared; distinct by the whole specification; non-trivial if there was such a moment',
  },
  C17: {
    quick: 22000, thorough: 400000,
    rule: 'a run is one tab of the simulated browser with the real page and a bundle that cannot be fetched, is cut off, damaged, not linked, traps or exits at start, while idle or in a parse, runs out of memory, or works, with and without streaming compilation, under edits, shares, fragment changes, reloads and crashes; an evaluation is one moment at which the failure had to be shown and was looked for; distinct by the whole specification; non-trivial if there was such a moment',
  },
  C18: {
    quick: 8000, thorough: 200000,
    rule: 'a run is one tab of the simulated browser with the real page and bundle: edits, shares, slow navigations, reloads, crashes at any moment with only address and clipboard surviving, refused copying, fragment changes, links opened again, addresses with other parts; an evaluation is one comparison of a text that had to come back; distinct by the whole specification; non-trivial if there was such a comparison',
  },
};
for (const k of ['C16', 'C17', 'C18']) { about[k].stub = about.C15.stub; about[k].real = about.C15.real; }

module.exports = { execute, generate, smaller, about };
