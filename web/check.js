'use strict';
// node check.js ID TIER SEED VERIFDIR REPO      explores
// node check.js -replay FILE VERIFDIR REPO      runs a replay file again
// node check.js -index N ID SEED VERIFDIR REPO  shows one run
const fs = require('fs');
const path = require('path');
const cp = require('child_process');
const { Site, hash32 } = require('./browser.js');
const { execute, generate, smaller, about } = require('./props.js');

process.on('unhandledRejection', () => { /* of the page: a browser logs them */ });

class Env {
  constructor(verif, repo) {
    this.site = new Site(repo, path.join(verif, 'build/bin/parser.wasm'));
    this.child = cp.spawn(path.join(verif, 'build/bin/simcheck'), ['-answers', '-repo', repo, '-verif', verif], { stdio: ['pipe', 'pipe', 'ignore'] });
    this.waiting = [];
    this.cache = new Map();
    let rest = [];
    this.child.stdout.on('data', b => {
      for (;;) {
        const i = b.indexOf(10);
        if (i < 0) { rest.push(b); return; }
        rest.push(b.subarray(0, i));
        const line = Buffer.concat(rest).toString('utf8');
        rest = [];
        b = b.subarray(i + 1);
        this.waiting.shift().ok(JSON.parse(line));
        if (!b.length) return;
      }
    });
    this.child.on('exit', () => { for (const w of this.waiting) w.ok({ other: 'crash' }); this.waiting = []; this.gone = true; });
    this.child.stdin.on('error', () => { });
  }
  ask(q) {
    if (this.gone) return Promise.resolve({ other: 'crash', texts: ['a'] });
    return new Promise(ok => { this.waiting.push({ ok }); this.child.stdin.write(JSON.stringify(q) + '\n'); });
  }
  async native(text) {
    let a = this.cache.get(text);
    if (!a) {
      a = await this.ask({ Op: 'parse', Text: text });
      if (this.cache.size > 300) this.cache.clear();
      this.cache.set(text, a);
    }
    return a;
  }
  async gen(seed, kind, size, n) { return (await this.ask({ Op: 'gen', Seed: seed, Kind: kind, Size: size, N: n })).texts || ['a']; }
  close() { this.child.stdin.end(); }
}

// summary is what is kept of a run.
function summary(spec, out) {
  const { sim, run, verdict } = out;
  return {
    ms: sim.now, tasks: sim.tasks, evals: run.evals, faults: sim.faults, states: [...sim.states], order: sim.order,
    digest: hash32([sim.digest, sim.order, run.evals, verdict ? verdict.msg : '', sim.page ? sim.page.calls.length : 0].join()),
    loads: sim.loads, uncaught: sim.uncaught, key: hash32(JSON.stringify(spec)),
    verdict: verdict && { cls: verdict.cls, msg: verdict.msg }, trace: verdict ? sim.trace : undefined,
  };
}

async function worker() {
  const [, , , id, seed, verif, repo] = process.argv;
  const env = new Env(verif, repo);
  process.on('message', async m => {
    if (m.stop) { env.close(); process.exit(0); }
    for (let i = m.from; i < m.to; i++) {
      process.send({ start: i });
      try {
        const spec = await generate(env, id, seed, i);
        const s = summary(spec, await execute(env, spec));
        s.i = i;
        if (s.verdict || i < 3) s.spec = spec;
        process.send({ run: s });
        if (s.verdict) break;
      } catch (e) {
        process.send({ error: `run ${i}: ${e && e.stack || e}` });
        return;
      }
    }
    process.send({ done: m });
  });
}

async function explore(id, tier, seed, verif, repo, runs) {
  const a = about[id];
  if (!a) { console.log('no such property'); return 3; }
  const start = Date.now();
  const limit = tier === 'thorough' ? 3 * 3600e3 : 400e3;
  runs = runs || (tier === 'thorough' ? a.thorough : a.quick);
  const chunk = 15;
  const t = { runs: 0, evals: 0, ms: 0, tasks: 0, loads: 0, uncaught: 0, faults: {}, states: new Set(), orders: new Set(), keys: new Set(), samples: [], digests: new Map() };
  let next = 0, cutoff = runs, found = null, fatal = null;
  const count = Math.max(2, Math.min(8, require('os').cpus().length));
  const add = s => {
    t.runs++; t.evals += s.evals; t.ms += s.ms; t.tasks += s.tasks; t.loads += s.loads; t.uncaught += s.uncaught;
    for (const k in s.faults) t.faults[k] = (t.faults[k] || 0) + s.faults[k];
    s.states.forEach(x => t.states.add(x));
    t.orders.add(s.order);
    if (s.evals) t.keys.add(s.key);
    if (s.i < chunk) t.digests.set(s.i, s.digest);
    if (s.spec && s.i < 3 && t.samples.length < 3) t.samples.push(JSON.stringify(s.spec).length > 3000 ? JSON.stringify(s.spec).slice(0, 3000) : s.spec);
    if (s.verdict && (!found || s.i < found.i)) { found = s; cutoff = Math.min(cutoff, s.i); }
  };
  await Promise.all(Array.from({ length: count }, () => new Promise(resolve => {
    const c = cp.fork(__filename, ['-worker', id, String(seed), verif, repo], { execArgv: ['--stack-size=984'] });
    let at = -1, timer;
    const end = () => { clearTimeout(timer); c.removeAllListeners(); c.kill('SIGKILL'); resolve(); };
    const watch = () => {
      clearTimeout(timer);
      timer = setTimeout(() => {
        if (!found || at < found.i) { found = { i: at, verdict: { cls: 'hang', msg: 'the page or its bundle makes no progress for 90 s' }, hang: true }; cutoff = Math.min(cutoff, at); }
        end();
      }, 90e3);
    };
    const give = () => {
      if (next >= cutoff || fatal || Date.now() - start > limit) { clearTimeout(timer); c.send({ stop: true }); c.removeAllListeners('exit'); resolve(); return; }
      const from = next, to = Math.min(runs, next + chunk);
      next = to;
      watch();
      c.send({ from, to });
    };
    c.on('message', m => {
      if (m.start !== undefined) { at = m.start; watch(); }
      if (m.run) add(m.run);
      if (m.error) { fatal = m.error; end(); }
      if (m.done) give();
    });
    c.on('exit', code => { fatal = fatal || `a worker ended with status ${code} in run ${at}`; end(); });
    give();
  })));
  if (fatal && !found) { console.log('ERROR:', fatal); return 3; }
  const env = new Env(verif, repo);
  let det = 'not checked (a violation was found)', file = '';
  if (!found) {
    let same = true, n = 0;
    for (let i = 0; i < Math.min(chunk, runs); i++) {
      const spec = await generate(env, id, seed, i);
      const s = summary(spec, await execute(env, spec));
      n++;
      if (s.digest !== t.digests.get(i)) same = false;
    }
    det = same ? `the first ${n} runs were done twice, in different processes, with equal digests of schedule and outcome` : `the first ${n} runs were done twice, with DIFFERENT digests`;
  } else {
    file = await settleFinding(env, id, tier, seed, verif, found);
  }
  env.close();
  const wall = (Date.now() - start) / 1000;
  const per = n => Math.round(n / wall * 3600);
  const ev = {
    property: id, tier, seed: Number(seed), level: 'exploration',
    coverage: {
      evaluations: t.evals, distinct_nontrivial: t.keys.size, rule: a.rule, samples: t.samples,
      simulated_runs: t.runs, simulated_runs_per_hour: per(t.runs), seeds_per_hour: per(t.runs),
      simulated_time: `${Math.round(t.ms / 1000)} s of the simulated clock`, simulated_seconds_per_hour: per(t.ms / 1000),
      tasks_scheduled: t.tasks, page_loads: t.loads, uncaught_exceptions_of_the_page: t.uncaught,
      faults_injected: t.faults,
      distinct_interleavings: t.orders.size, distinct_interleavings_measure: 'distinct sequences of the tasks the scheduler ran',
      distinct_states: t.states.size, distinct_states_measure: 'distinct (kind of output, lines shown, phase of the bundle, timers, navigation pending, failure, parses, which queues hold tasks)',
      components_running_real: a.real, components_running_a_stub: a.stub, determinism: det,
    },
    assumptions: ['every run index gives its own seed; run i of seed s is always the same execution', 'the simulated browser behaves like a real one in what the page uses of it', 'the bundle is built with this Go release; wasm_exec.js is given an import named gojs as well, as current releases want'],
    wall_s: wall, violations: found ? 1 : 0,
  };
  fs.mkdirSync(path.join(verif, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(verif, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  if (found) {
    console.log(`${found.verdict.cls}: ${found.verdict.msg}`);
    console.log(`VIOLATION property=${id} replay=${file}`);
    return 1;
  }
  console.log(`${id} held in ${t.runs} runs (${t.evals} evaluations, ${Math.round(t.ms / 1000)} simulated s, ${t.states.size} states, ${wall.toFixed(1)} s)`);
  return 0;
}

// settleFinding minimises a violation and writes the replay file.
async function settleFinding(env, id, tier, seed, verif, found) {
  const dir = path.join(verif, 'replays');
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${id}-${seed}-${found.i}.json`);
  let spec = found.spec || await generate(env, id, seed, found.i);
  let last = found, tries = 0;
  if (!found.hang) {
    const until = Date.now() + 120e3;
    for (let progress = true; progress && tries < 1500 && Date.now() < until;) {
      progress = false;
      for (const c of smaller(spec)) {
        if (++tries > 1500 || Date.now() > until) break;
        let s;
        try { s = summary(c, await execute(env, c)); } catch (e) { continue; }
        if (s.verdict && s.verdict.cls === found.verdict.cls) { spec = c; last = s; progress = true; break; }
      }
    }
    found.verdict = last.verdict;
  }
  fs.writeFileSync(file, JSON.stringify({ Property: id, Seed: Number(seed), Tier: tier, Index: found.i, Class: last.verdict.cls, Violation: last.verdict.msg, Digest: last.digest, Trace: last.trace, Scenario: spec }, null, 1) + '\n');
  return file;
}

async function replay(file, verif, repo) {
  const f = JSON.parse(fs.readFileSync(file, 'utf8'));
  const env = new Env(verif, repo);
  const kill = setTimeout(() => { console.log('hang: no progress for 90 s'); process.exit(1); }, 90e3);
  void kill;
  const s = summary(f.Scenario, await execute(env, f.Scenario));
  clearTimeout(kill);
  env.close();
  for (const l of s.trace || []) console.log(l);
  if (!s.verdict) { console.log('the run shows no violation'); return 0; }
  console.log(`${s.verdict.cls}: ${s.verdict.msg}`);
  if (f.Digest !== undefined) console.log(s.digest === f.Digest ? 'exactly the recorded execution' : 'NOT the recorded execution');
  console.log(`VIOLATION property=${f.Property} replay=${file}`);
  return 1;
}

async function main() {
  const a = process.argv.slice(2);
  if (a[0] === '-worker') return worker();
  if (a[0] === '-replay') return process.exit(await replay(a[1], a[2], a[3]));
  if (a[0] === '-index') {
    const [, n, id, seed, verif, repo] = a;
    const env = new Env(verif, repo);
    const spec = await generate(env, id, seed, Number(n));
    console.log(JSON.stringify(spec, null, 1));
    const out = await execute(env, spec);
    out.sim.trace.forEach(l => console.log(l));
    console.log('evals', out.run.evals, 'faults', out.sim.faults, 'uncaught', out.sim.uncaught, 'verdict', out.verdict);
    env.close();
    return process.exit(0);
  }
  process.exit(await explore(a[0], a[1], a[2], a[3], a[4], Number(a[5]) || 0));
}
main().catch(e => { console.log('ERROR:', e && e.stack || e); process.exit(3); });
