'use strict';
// Runs generated clients in simulated browser tabs. A pure function of the lines it is fed: one
// line in, the microtasks it causes run to the end, one line of effects out. Nothing here reads a
// real clock, socket, timer or random source.
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const MODS = '/opt/veriftools/node/node_modules';
const CACHE = process.argv[2];
const realSetImmediate = setImmediate;
const zod = require(MODS + '/zod/v3');

let tsMod = null;
const ts = () => (tsMod = tsMod || require(MODS + '/typescript'));

function astExports(code) {
  const T = ts();
  const sf = T.createSourceFile('client.ts', code, T.ScriptTarget.ES2020, true);
  const out = [];
  // what a declaration says, without its layout and comments
  const digest = (n) => crypto.createHash('sha1').update(n.getText(sf).replace(/\/\/.*$/gm, '').replace(/\s+/g, ' ')).digest('hex').slice(0, 12);
  const exported = (n) => (n.modifiers || []).some((m) => m.kind === T.SyntaxKind.ExportKeyword);
  const walk = (stmts, ns) => {
    for (const n of stmts) {
      if (T.isModuleDeclaration(n)) {
        if (n.body && n.body.statements) walk(n.body.statements, ns ? ns + '.' + n.name.text : n.name.text);
        if (exported(n)) out.push(['', 'namespace', (ns ? ns + '.' : '') + n.name.text, '']);
        continue;
      }
      if (!exported(n)) continue;
      if (T.isFunctionDeclaration(n)) out.push([ns, 'function', n.name.text, digest(n)]);
      else if (T.isInterfaceDeclaration(n)) out.push([ns, 'type', n.name.text, digest(n)]);
      else if (T.isTypeAliasDeclaration(n)) out.push([ns, 'type', n.name.text, digest(n)]);
      else if (T.isVariableStatement(n)) for (const d of n.declarationList.declarations) out.push([ns, 'const', d.name.getText(sf), digest(d)]);
    }
  };
  walk(sf.statements, '');
  return { exports: out, errors: sf.parseDiagnostics.map((d) => String(T.flattenDiagnosticMessageText(d.messageText, ' '))) };
}

const loaded = new Map();
function load(code, m_once) {
  const hash = crypto.createHash('sha1').update(code).digest('hex').slice(0, 16);
  if (loaded.has(hash)) return loaded.get(hash);
  const file = path.join(CACHE, 'v2-' + hash + '.json');
  let e;
  try {
    e = JSON.parse(fs.readFileSync(file, 'utf8'));
  } catch (_) {
    const a = astExports(code);
    const T = ts();
    const js = T.transpileModule(code, { compilerOptions: { module: T.ModuleKind.CommonJS, target: T.ScriptTarget.ES2020, esModuleInterop: true } }).outputText;
    e = { hash, js, exports: a.exports, errors: a.errors };
    try {
      if (!m_once && fs.readdirSync(CACHE).length < 2000) {
        fs.writeFileSync(file + '.' + process.pid, JSON.stringify(e));
        fs.renameSync(file + '.' + process.pid, file);
      }
    } catch (_) {}
  }
  if (loaded.size > 300) loaded.delete(loaded.keys().next().value);
  loaded.set(hash, e);
  return e;
}

// ------------------------------------------------------------------------------------------ tab

const brief = (v) => {
  try {
    return v instanceof Error ? v.name + ': ' + v.message.slice(0, 200) : v && v.type ? 'event ' + v.type : JSON.stringify(v) === undefined ? String(v) : JSON.stringify(v).slice(0, 300);
  } catch (_) {
    return String(v);
  }
};

const scramble = (v) => {
  if (Array.isArray(v)) {
    v.forEach(scramble);
    v.push('scrambled');
  } else if (v && typeof v === 'object') {
    Object.values(v).forEach(scramble);
    for (const k of Object.keys(v)) v[k] = 'scrambled';
  }
};

// what is left after everything unreachable is gone
async function collect() {
  for (let i = 0; i < 2; i++) {
    await new Promise((f) => realSetImmediate(f));
    gc();
  }
}

// tags of streams that are answered right here
const FAR = 8.123e14;

class Tab {
  constructor(seed, keep) {
    this.fx = [];
    // what the page itself has forgotten, seen through weak references
    this.refs = keep ? { promise: [], argument: [], value: [], callback: [] } : null;
    this.now = 0;
    this.t0 = 0;
    this.rnd = (seed | 0) || 1;
    this.timers = new Map();
    this.nextTimer = 1;
    this.socks = [];
    this.stores = new Map();
    this.unsubs = new Map();
    // who uses which callback
    this.groups = new Map();
    this.active = new Set();
    this.turn = 0;
    this.busy = 0;
    // requests by the thousand, answered right here
    this.races = new Map();
    this.answers = [];
    this.usedIds = new Set();
    this.ended = 0;
    const tab = this;

    class Ev {
      constructor(type, init) {
        this.type = type;
        Object.assign(this, init || {});
      }
      preventDefault() {}
      stopPropagation() {}
    }
    class WebSocket {
      constructor(url, protocols) {
        this.url = String(url);
        this.readyState = 0;
        this.protocol = '';
        this.extensions = '';
        this.binaryType = 'blob';
        this._buffered = 0;
        this._seen = [tab.turn, tab.now];
        this.onopen = this.onmessage = this.onerror = this.onclose = null;
        this._l = { open: [], message: [], error: [], close: [] };
        this._id = tab.socks.length;
        tab.socks.push(this);
        tab.fx.push({ e: 'ws_new', s: this._id, url: this.url });
      }
      addEventListener(type, f, o) {
        const l = this._l[type];
        if (l && f && !l.some((x) => x.f === f)) l.push({ f, once: !!(o && o.once) });
      }
      removeEventListener(type, f) {
        if (this._l[type]) this._l[type] = this._l[type].filter((x) => x.f !== f);
      }
      dispatchEvent(ev) {
        this._fire(ev.type, ev);
        return true;
      }
      _fire(type, init) {
        const ev = new Ev(type, init);
        ev.target = ev.currentTarget = this;
        const run = (f) => {
          try {
            typeof f === 'function' ? f.call(this, ev) : f.handleEvent(ev);
          } catch (err) {
            tab.fx.push({ e: 'uncaught', at: 'socket ' + type, m: brief(err) });
          }
        };
        if (this['on' + type]) run(this['on' + type]);
        for (const x of this._l[type].slice()) {
          if (x.once) this.removeEventListener(type, x.f);
          run(x.f);
        }
      }
      // bytes the network has not taken yet: all of this turn, then what a slow uplink leaves
      get bufferedAmount() {
        const [turn, at] = this._seen;
        if (turn !== tab.turn && this.readyState === 1) {
          this._buffered = tab.uplink > 0 ? Math.max(0, this._buffered - tab.uplink * (tab.now - at)) : 0;
          this._seen = [tab.turn, tab.now];
        }
        return this._buffered;
      }
      send(data) {
        this._buffered = this.bufferedAmount + Buffer.byteLength(String(data));
        if (this.readyState === 0) {
          tab.fx.push({ e: 'ws_send', s: this._id, st: 0, x: String(data) });
          const err = new Error("Failed to execute 'send' on 'WebSocket': Still in CONNECTING state.");
          err.name = 'InvalidStateError';
          throw err;
        }
        if (tab.intercept(this, String(data))) return;
        tab.fx.push({ e: 'ws_send', s: this._id, st: this.readyState, x: String(data) });
      }
      close(code) {
        if (this.readyState >= 2) return;
        tab.fx.push({ e: 'ws_close', s: this._id, st: this.readyState });
        this.readyState = 2;
        tab.ended++;
      }
    }
    for (const [k, v] of [['CONNECTING', 0], ['OPEN', 1], ['CLOSING', 2], ['CLOSED', 3]]) {
      Object.defineProperty(WebSocket, k, { value: v, enumerable: true });
      Object.defineProperty(WebSocket.prototype, k, { value: v, enumerable: true });
    }

    const timer = (f, ms, args, every) => {
      const id = this.nextTimer++;
      ms = Math.max(0, Number(ms) || 0);
      this.timers.set(id, { f, args, every, ms });
      this.fx.push({ e: 'timer', i: id, ms });
      return id;
    };
    const clear = (id) => {
      if (this.timers.delete(id)) this.fx.push({ e: 'untimer', i: id });
    };
    class SimDate extends Date {
      constructor(...a) {
        if (a.length) super(...a);
        else super(1700000000000 + tab.now + tab.wall);
      }
      static now() {
        return 1700000000000 + tab.now + tab.wall;
      }
    }
    const math = {};
    for (const k of Object.getOwnPropertyNames(Math)) math[k] = Math[k];
    math.random = () => {
      tab.rnd = (Math.imul(tab.rnd, 1664525) + 1013904223) | 0;
      return (tab.rnd >>> 0) / 4294967296;
    };
    const quiet = () => {};
    // what the page is told about the machine it runs on
    const target = () => {
      const l = [];
      return {
        addEventListener: (type, f, o) => f && l.push({ type, f, once: !!(o && o.once) }),
        removeEventListener: (type, f) => {
          for (let i = l.length; i-- > 0; ) if (l[i].type === type && l[i].f === f) l.splice(i, 1);
        },
        dispatchEvent: (ev) => {
          for (const x of l.filter((x) => x.type === ev.type)) {
            if (x.once) l.splice(l.indexOf(x), 1);
            try {
              typeof x.f === 'function' ? x.f(ev) : x.f.handleEvent(ev);
            } catch (err) {
              tab.fx.push({ e: 'uncaught', at: 'window ' + ev.type, m: brief(err) });
            }
          }
          return true;
        },
      };
    };
    this.tell = (type) => new Ev(type, { persisted: true });
    const env = {
      WebSocket,
      Event: Ev,
      CloseEvent: Ev,
      MessageEvent: Ev,
      setTimeout: (f, ms, ...a) => timer(f, ms, a, false),
      setInterval: (f, ms, ...a) => timer(f, ms, a, true),
      clearTimeout: clear,
      clearInterval: clear,
      queueMicrotask,
      performance: { now: () => tab.now - tab.t0, mark: quiet, measure: quiet },
      Date: SimDate,
      Math: math,
      console: { log: quiet, debug: quiet, info: quiet, warn: quiet, error: quiet, trace: quiet, group: quiet, groupEnd: quiet, time: quiet, timeEnd: quiet },
      process: undefined,
      require: undefined,
      setImmediate: undefined,
      fetch: undefined,
      document: { ...target(), visibilityState: 'visible', hidden: false, hasFocus: () => true },
      navigator: { onLine: true, userAgent: 'sim' },
      location: { protocol: 'http:', hostname: 'localhost', host: 'localhost:8000', port: '8000', href: 'http://localhost:8000/' },
    };
    const win = Object.create(globalThis);
    for (const [k, value] of Object.entries(env)) Object.defineProperty(win, k, { value, writable: true, configurable: true, enumerable: true });
    env.globalThis = env.window = env.self = env.global = win;
    for (const [k, value] of Object.entries(target())) env[k] = win[k] = value;
    for (const k of ['window', 'self', 'globalThis', 'global']) Object.defineProperty(win, k, { value: win, writable: true, configurable: true });
    this.env = env;
  }

  start(js, now, uplink) {
    this.now = this.t0 = now;
    this.wall = 0;
    this.uplink = uplink;
    const mod = { exports: {} };
    const req = (n) => {
      if (n === 'zod') return Object.assign({ __esModule: true, default: zod.z }, zod);
      throw new Error('cannot load module ' + n);
    };
    const env = { ...this.env, require: req };
    const keys = Object.keys(env);
    try {
      new Function('exports', 'module', ...keys, js)(mod.exports, mod, ...keys.map((k) => env[k]));
    } catch (err) {
      this.fx.push({ e: 'loaderror', m: brief(err) });
    }
    this.client = mod.exports;
  }

  // ---------------------------------------------------------------------------------- program

  run(actors) {
    actors.forEach((a, i) => {
      this.sleep(a.at)
        .then(() => this.steps(a.steps))
        .then(() => this.fx.push({ e: 'actor', a: a.id }));
    });
  }
  sleep(ms) {
    if (!(ms > 0)) return Promise.resolve();
    const id = this.nextTimer++;
    this.fx.push({ e: 'sleep', i: id, ms });
    return new Promise((f) => this.timers.set(id, { f, args: [], every: false, ms }));
  }
  async steps(list) {
    for (const s of list || []) await this.step(s);
  }
  find(f) {
    const ns = this.client[f[0]];
    const fn = ns && ns[f[1]];
    if (typeof fn !== 'function') {
      this.fx.push({ e: 'missing', f });
      return null;
    }
    return fn;
  }
  call(s) {
    const fn = this.find(s.f);
    if (!fn) return Promise.resolve();
    this.fx.push({ e: 'issue', r: s.r });
    let p;
    try {
      const args = JSON.parse(JSON.stringify(s.args).replaceAll('\ue000', '\udead')).map((a) => (a === null ? undefined : a));
      p = fn(...args);
      this.watch('promise', p);
      args.forEach((a) => this.watch('argument', a));
      // what the page does to its values later on is no concern of the request
      args.forEach(scramble);
      if (!p || typeof p.then !== 'function') throw new Error('not a promise: ' + brief(p));
    } catch (err) {
      p = Promise.reject(err);
    }
    return p.then(
      (v) => {
        this.watch('value', v);
        this.fx.push({ e: 'ok', r: s.r, v: v === undefined ? null : v, u: v === undefined });
        return this.steps(s.then);
      },
      (err) => {
        this.fx.push({ e: 'err', r: s.r, m: brief(err) });
        return this.steps(s.fail);
      },
    );
  }
  watch(kind, x) {
    if (this.refs && x !== null && (typeof x === 'object' || typeof x === 'function')) this.refs[kind].push(new WeakRef(x));
  }
  // how much of what the page has forgotten is still there
  async kept() {
    this.stores.clear();
    this.unsubs.clear();
    this.groups.clear();
    await collect();
    for (const [kind, l] of Object.entries(this.refs)) {
      const left = l.filter((w) => w.deref() !== undefined).length;
      this.fx.push({ e: 'kept', kind, of: l.length, left: left > 2 ? left : 0 });
    }
  }
  // the same, in bytes for each of many requests that have been answered
  async marathon(s) {
    if (!s.weigh) return this.run_marathon(s);
    const weigh = async () => {
      const mine = Float64Array.from(this.usedIds);
      this.usedIds = new Set();
      this.busy++;
      await collect();
      this.busy--;
      const n = process.memoryUsage().heapUsed;
      this.usedIds = new Set(mine);
      return n;
    };
    const w = [];
    for (let i = 0; i < 7; i++) {
      await this.run_marathon(s);
      w.push(await weigh());
    }
    // the engine itself needs some rounds to come to rest
    const grown = w[6] - w[3];
    if (process.env.SIM_HEAP) console.error('grown', grown, s.weigh, JSON.stringify(w));
    this.fx.push({ e: 'weighed', n: 3 * s.n, over: grown > 5 * 3 * s.n });
  }
  // `n` requests, at most `w` at a time
  run_marathon(s) {
    const fn = s.weigh === 'streams' ? this.visit() : this.find(['Alpha', 'echo']);
    if (!fn) return Promise.resolve();
    const text = 'marathon ' + s.r;
    const kind = s.weigh || 'plain';
    const refused = (i) => (kind === 'errors' ? i % 2 === 1 : kind !== 'streams' && i % 16 === 7);
    const race = { kind, refused, answered: 0, ids: new Set(), r: s.r, sent: new Map(), last: -1, ok: 0, errors: 0, lost: 0, wrong: [], twice: 0, order: 0, dupIds: 0, spurious: [] };
    this.races.set(s.r, race);
    this.fx.push({ e: 'race', r: s.r, n: s.n, weigh: !!s.weigh });
    let next = 0;
    let open = 0;
    const bad = (l, x) => l.length < 3 && l.push(x);
    return new Promise((done) => {
      const go = () => {
        while (open < s.w && next < s.n) {
          const i = next++;
          open++;
          const ended = this.ended;
          let p;
          try {
            p = fn(i, text);
            if (!s.weigh) this.watch('promise', p);
          } catch (err) {
            p = Promise.reject(err);
          }
          p.then(
            (v) => {
              if (!s.weigh) this.watch('value', v);
              if (!Array.isArray(v) || v[0] !== i || v[1] !== text || refused(i)) bad(race.wrong, [i, brief(v)]);
              else race.ok++;
            },
            (err) => {
              if (refused(i) && race.sent.has(i)) race.errors++;
              else if (this.ended > ended) race.lost++;
              else bad(race.spurious, [i, brief(err)]);
            },
          ).then(() => {
            open--;
            if (next < s.n) go();
            else if (open === 0) {
              this.races.delete(s.r);
              const { kind, refused, answered, ids, sent, last, ...sum } = race;
              this.fx.push({ e: 'raced', n: s.n, unsent: s.n - sent.size, ...sum });
              done();
            }
          });
        }
      };
      go();
    });
  }
  // a stream that is opened, gives one item and is left and closed again
  visit() {
    const fn = this.find(['Alpha', 'count']);
    return fn && ((i, text) =>
      new Promise((f) => {
        const store = fn(FAR + i, Number(text.slice(9)), 1);
        const leave = store.subscribe((v) => {
          leave();
          store.close();
          f(v);
        });
      }));
  }
  intercept(ws, data) {
    if (this.races.size && data.includes('cancelStream')) {
      const m = /"id":(\d+)/.exec(data);
      for (const race of this.races.values()) if (m && race.ids.delete(Number(m[1]))) return true;
    }
    const visit = data.includes('[' + FAR / 1e6);
    if (!visit && !data.includes('marathon ')) {
      const m = /"id":(\d+)/.exec(data);
      if (m) this.usedIds.add(Number(m[1]));
      return false;
    }
    let m;
    try {
      m = JSON.parse(data).exec;
    } catch (_) {}
    if (!m || !Array.isArray(m.args)) return false;
    const [i, text] = visit ? [m.args[0] - FAR, 'marathon ' + m.args[1]] : m.args;
    const race = this.races.get(Number(String(text).slice(9)));
    if (!race) return false;
    // a closing or closed socket swallows it
    if (ws.readyState !== 1) return true;
    if (race.sent.has(i)) race.twice++;
    race.sent.set(i, m.id);
    if (i < race.last) race.order++;
    race.last = Math.max(race.last, i);
    if (this.usedIds.has(m.id)) race.dupIds++;
    this.usedIds.add(m.id);
    const data_ = [i, text];
    let x = { method: { id: m.id, data: data_ } };
    if (race.refused(i)) x = { error: { id: m.id, data: { JsonError: 'no' } } };
    else if (race.kind === 'streams') {
      x = { stream: { id: m.id, data: data_ } };
      race.ids.add(m.id);
    }
    this.answers.push({ ws, race, x: JSON.stringify(x) });
    return true;
  }
  // one waiting answer, in any order
  answer() {
    this.rnd = (Math.imul(this.rnd, 1664525) + 1013904223) | 0;
    const k = (this.rnd >>> 8) % this.answers.length;
    const a = this.answers[k];
    this.answers[k] = this.answers[this.answers.length - 1];
    this.answers.pop();
    if (a.ws.readyState !== 1) return;
    if (a.race.kind === 'losses' && ++a.race.answered % 400 === 0) return this.cut(a.ws);
    a.ws._fire('message', { data: a.x, origin: a.ws.url });
  }
  // the connection breaks, here and now
  cut(ws) {
    ws.readyState = 3;
    this.ended++;
    this.answers = this.answers.filter((a) => a.ws !== ws);
    this.fx.push({ e: 'closed', s: ws._id, was: 1 }, { e: 'cut', s: ws._id });
    this.socks[ws._id] = { readyState: 3 };
    ws._fire('close', { code: 1006, wasClean: false, reason: '' });
  }
  async step(s) {
    switch (s.k) {
      case 'marathon':
        return this.marathon(s);
      case 'sleep':
        return this.sleep(s.ms);
      case 'call': {
        const p = this.call(s);
        if (s.wait) await p;
        return;
      }
      case 'all':
        await Promise.all(s.calls.map((c) => this.call(c)));
        return;
      case 'stream': {
        const fn = this.find(s.f);
        if (!fn) return;
        this.fx.push({ e: 'open', r: s.r });
        try {
          this.stores.set(s.r, fn(...s.args));
        } catch (err) {
          this.fx.push({ e: 'throw', r: s.r, m: brief(err) });
        }
        return;
      }
      case 'sub': {
        const st = this.stores.get(s.r);
        if (!st) return;
        const tab = this;
        // subscriptions that share a callback are told apart by whose turn it is
        let group = this.groups.get(s.same);
        const member = { s, n: 0, turn: -1 };
        if (group) group.members.push(member);
        else {
          const members = [member];
          const cb = (v) => {
            const here = members.filter((m) => tab.active.has(m.s.u));
            const m = here.find((m) => m.turn !== tab.turn) || here[0] || members[members.length - 1];
            m.turn = tab.turn;
            m.n++;
            tab.fx.push({ e: 'item', u: m.s.u, r: m.s.r, v });
            for (const h of m.s.on || []) if (h.n === m.n) tab.sync(h.steps);
            if (m.s.boom && m.n % m.s.boom === 0) {
              tab.fx.push({ e: 'threw', u: m.s.u });
              throw new Error('subscriber fails on purpose');
            }
          };
          group = { members, cb };
        }
        const cb = group.cb;
        if (group.members.length === 1) this.watch('callback', cb);
        this.groups.set(s.u, group);
        this.active.add(s.u);
        this.fx.push({ e: 'sub', u: s.u, r: s.r });
        try {
          this.unsubs.set(s.u, st.subscribe(cb));
        } catch (err) {
          this.fx.push({ e: 'uncaught', at: 'subscribe', m: brief(err) });
        }
        return;
      }
      default:
        this.sync([s]);
    }
  }
  // steps that may run inside a callback
  sync(list) {
    for (const s of list) {
      switch (s.k) {
        case 'unsub': {
          const f = this.unsubs.get(s.u);
          if (!f) break;
          this.fx.push({ e: 'unsub', u: s.u });
          this.active.delete(s.u);
          try {
            f();
          } catch (err) {
            this.fx.push({ e: 'uncaught', at: 'unsubscribe', m: brief(err) });
          }
          this.fx.push({ e: 'unsubbed', u: s.u });
          break;
        }
        case 'unsuball':
          for (const [u, f] of this.unsubs) {
            this.fx.push({ e: 'unsub', u });
            this.active.delete(u);
            try {
              f();
            } catch (err) {
              this.fx.push({ e: 'uncaught', at: 'unsubscribe', m: brief(err) });
            }
            this.fx.push({ e: 'unsubbed', u });
          }
          break;
        case 'close': {
          const st = this.stores.get(s.r);
          if (!st) break;
          this.fx.push({ e: 'close', r: s.r });
          try {
            st.close();
          } catch (err) {
            this.fx.push({ e: 'uncaught', at: 'close', m: brief(err) });
          }
          break;
        }
        default:
          // starts now, goes on by itself
          this.step(s).catch((err) => this.fx.push({ e: 'uncaught', at: 'step', m: brief(err) }));
      }
    }
  }

  // ----------------------------------------------------------------------------------- events

  async event(ev) {
    this.turn++;
    if (ev.k === 'timer') {
      const t = this.timers.get(ev.i);
      if (!t) return;
      if (!t.every) this.timers.delete(ev.i);
      else this.fx.push({ e: 'timer', i: ev.i, ms: t.ms });
      this.fx.push({ e: 'fired', i: ev.i });
      try {
        t.f(...t.args);
      } catch (err) {
        this.fx.push({ e: 'uncaught', at: 'timer', m: brief(err) });
      }
      return;
    }
    if (ev.k === 'sign') {
      const { navigator, document, dispatchEvent } = this.env;
      if (ev.w === 'online' || ev.w === 'offline') {
        navigator.onLine = ev.w === 'online';
        dispatchEvent(this.tell(ev.w));
        if (typeof this.env.window['on' + ev.w] === 'function') this.env.window['on' + ev.w](this.tell(ev.w));
      } else {
        document.hidden = ev.w === 'hidden';
        document.visibilityState = ev.w;
        document.dispatchEvent(this.tell('visibilitychange'));
        dispatchEvent(this.tell(document.hidden ? 'blur' : 'focus'));
      }
      return;
    }
    const ws = this.socks[ev.s];
    switch (ev.k) {
      case 'open':
        if (ws.readyState !== 0) return;
        ws.readyState = 1;
        this.fx.push({ e: 'opened', s: ev.s });
        ws._fire('open', {});
        return;
      case 'message':
        if (ws.readyState !== 1) {
          this.fx.push({ e: 'discarded', s: ev.s });
          return;
        }
        this.fx.push({ e: 'delivered', s: ev.s, x: ev.x });
        ws._fire('message', { data: ev.x, origin: ws.url });
        return;
      case 'closing':
        if (ws.readyState === 1) {
          ws.readyState = 2;
          this.fx.push({ e: 'closing', s: ev.s });
        }
        return;
      case 'close': {
        const was = ws.readyState;
        if (was === 3) return;
        ws.readyState = 3;
        this.ended++;
        this.fx.push({ e: 'closed', s: ev.s, was });
        if (ev.err && !(ev.silent && was > 0)) {
          ws._fire('error', {});
          // the microtasks of the error handlers come first
          await new Promise((f) => realSetImmediate(f));
        }
        ws._fire('close', { code: ev.err ? 1006 : ev.code || 1000, wasClean: !ev.err, reason: ev.code > 1005 ? 'going away' : '' });
        // the browser forgets it, too
        this.socks[ev.s] = { readyState: 3 };
        return;
      }
    }
  }
}

// -------------------------------------------------------------------------------------- main loop

let tabs = new Map();
let current = null;
process.on('unhandledRejection', (err) => {
  if (current) current.fx.push({ e: 'unhandled', m: brief(err) });
});

let pending = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function readLine() {
  for (;;) {
    const i = pending.indexOf(10);
    if (i >= 0) {
      const l = pending.toString('utf8', 0, i);
      pending = pending.subarray(i + 1);
      return l;
    }
    let n = 0;
    try {
      n = fs.readSync(0, chunk, 0, chunk.length, null);
    } catch (err) {
      if (err.code === 'EAGAIN') continue;
      return null;
    }
    if (n === 0) return null;
    pending = pending.length ? Buffer.concat([pending, chunk.subarray(0, n)]) : Buffer.from(chunk.subarray(0, n));
  }
}
function reply(v) {
  const b = Buffer.from(JSON.stringify(v) + '\n');
  let o = 0;
  while (o < b.length) {
    try {
      o += fs.writeSync(1, b, o);
    } catch (err) {
      if (err.code !== 'EAGAIN') throw err;
    }
  }
}

const settle = () => new Promise((f) => realSetImmediate(f));

async function main() {
  for (;;) {
    const l = readLine();
    if (l === null) return;
    const m = JSON.parse(l);
    switch (m.c) {
      case 'reset':
        tabs = new Map();
        current = null;
        reply({});
        break;
      case 'load': {
        try {
          const e = load(m.code, m.once);
          reply({ hash: e.hash, exports: e.exports, errors: e.errors });
        } catch (err) {
          reply({ hash: '', exports: [], errors: [brief(err)] });
        }
        break;
      }
      case 'tab': {
        const t = new Tab(m.seed, m.keep);
        tabs.set(m.t, t);
        current = t;
        t.start(loaded.get(m.hash).js, m.now, m.uplink || 0);
        await settle();
        reply({ fx: t.fx });
        t.fx = [];
        break;
      }
      case 'ev': {
        const t = tabs.get(m.t);
        current = t;
        t.now = m.now;
        t.wall = m.wall;
        if (m.ev.k === 'prog') t.run(m.ev.actors);
        else await t.event(m.ev);
        await settle();
        while (t.answers.length || t.busy) {
          if (t.answers.length) t.answer();
          await settle();
        }
        reply({ fx: t.fx });
        t.fx = [];
        break;
      }
      case 'kept': {
        const t = tabs.get(m.t);
        await t.kept();
        reply({ fx: t.fx });
        t.fx = [];
        break;
      }
      case 'schema': {
        // accept or reject each sample; m.prefix/m.suffix decorate names
        const t = tabs.get(m.t);
        reply({
          r: m.tests.map(([ns, name, v]) => {
            try {
              const s = t.client[ns] && t.client[ns][name];
              if (!s || typeof s.safeParse !== 'function') return 'missing';
              return s.safeParse(v).success;
            } catch (err) {
              return brief(err);
            }
          }),
        });
        break;
      }
    }
  }
}
main().catch((err) => {
  console.error(err);
  process.exit(3);
});
