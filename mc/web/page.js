// Explores the page of the web parser.
//
//   node page.js PAGE [WASM_EXEC BUNDLE]
//
// The scripts of the page run unchanged in a stand-in for a browser in which
// everything that happens is an event chosen by the explorer: edits of the
// text, the passing of time, the steps of loading the bundle (which may fail),
// the end of the bundle, the share button and changes of the address.
//
// Every line on standard input is a JSON job {start, prefix, alphabet, depth,
// vm}: all sequences of at most depth events of the alphabet after the prefix
// are explored, each from a fresh page; or just the given histories. The answer is {n, events, kinds,
// violation, at}.
//
// With {real: [texts]} the texts are typed into one page that runs the real
// bundle; the answer is the list of what the page displays.
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");

const html = fs.readFileSync(process.argv[2], "utf8");
const rl = require("readline").createInterface({ input: process.stdin, terminal: false });
const reply = (v) => fs.writeSync(1, JSON.stringify(v) + "\n");
console.log = console.error = console.warn = () => {};

// --- the page's source --------------------------------------------------------

const noComments = html.replace(/<!--[^]*?-->/g, "");
const scripts = [];
const body = noComments.replace(/<style[^]*?<\/style\s*>/gi, "").replace(/<script([^>]*)>([^]*?)<\/script\s*>/gi, (_, attrs, src) => {
  scripts.push(/\ssrc\s*=/i.test(attrs) ? { file: /\ssrc\s*=\s*["']?([^"'\s>]*)/i.exec(attrs)[1] } : { code: src });
  return "";
});
const tags = [...body.matchAll(/<([a-zA-Z][\w-]*)((?:\s+[^<>]*?)?)\/?>([^<]*)/g)].map((m) => ({
  tag: m[1].toLowerCase(),
  attrs: Object.fromEntries([...m[2].matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)].map((a) => [a[1].toLowerCase(), a[2] ?? a[3] ?? a[4] ?? ""])),
  text: m[3],
}));

const BASE = "https://cleansheets.example/parser/";
const builtins = new Set(Object.getOwnPropertyNames(vm.runInNewContext("globalThis")));
for (const n of ["WebAssembly", "console"]) builtins.delete(n);
for (const n of ["URL", "URLSearchParams", "queueMicrotask", "TextEncoder", "TextDecoder", "atob", "btoa", "structuredClone", "AbortController", "Blob"]) builtins.add(n);
let merged = "";
for (const s of scripts) merged += s.code === undefined ? "" : s.code + "\n;\n";
// Declarations at the top level of a script are properties of the window.
const compiled = new Function("$g", "with ($g) {\n" + merged + "\nif (typeof parserLoaded === 'function' && !$g.parserLoaded) $g.parserLoaded = parserLoaded;\n}");
const contextScripts = scripts.filter((s) => s.code !== undefined).map((s) => new vm.Script(s.code));

// --- the stand-in browser -----------------------------------------------------

class Listeners {
  constructor(owner, report) { this.owner = owner; this.report = report; this.map = new Map(); }
  add(type, f, opts) {
    if (f == null) return;
    const l = this.map.get(type) ?? this.map.set(type, []).get(type);
    if (!l.some((x) => x.f === f)) l.push({ f, once: !!(opts && opts.once) });
  }
  remove(type, f) { const l = this.map.get(type); if (l) this.map.set(type, l.filter((x) => x.f !== f)); }
  fire(ev) {
    try { if (!ev.target) Object.defineProperty(ev, "target", { value: this.owner, configurable: true }); } catch {}
    const call = (f) => { try { typeof f === "function" ? f.call(this.owner, ev) : f.handleEvent(ev); } catch (e) { this.report(e); } };
    for (const x of [...(this.map.get(ev.type) ?? [])]) {
      if (x.once) this.remove(ev.type, x.f);
      call(x.f);
    }
    const on = this.owner["on" + ev.type];
    if (typeof on === "function") call(on);
    return !ev.defaultPrevented;
  }
}

class FakeEvent {
  constructor(type, init) { this.type = type; Object.assign(this, init); this.defaultPrevented = false; }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() {}
  stopImmediatePropagation() {}
}

class Element {
  constructor(tag, page) {
    this.tagName = tag.toUpperCase(); this.nodeName = this.tagName; this.page = page;
    this.children = []; this.attrs = {}; this.own = ""; this._value = ""; this.parentNode = null;
    const style = { display: "", visibility: "" };
    this.style = style;
    style.setProperty = (k, v) => { style[k] = v; };
    style.removeProperty = (k) => { style[k] = ""; };
    this.dataset = {};
    const classes = new Set();
    this.classList = { add: (...c) => c.forEach((x) => classes.add(x)), remove: (...c) => c.forEach((x) => classes.delete(x)), contains: (c) => classes.has(c), toggle: (c, on) => { (on === undefined ? !classes.has(c) : on) ? classes.add(c) : classes.delete(c); } };
    this.listeners = new Listeners(this, (e) => page.thrown(e));
  }
  get text() { return this.own + this.children.map((c) => (typeof c === "string" ? c : c.text)).join(""); }
  get innerText() { return this.text; }
  set innerText(v) { this.children = []; this.own = v === null ? "" : String(v); }
  get textContent() { return this.text; }
  set textContent(v) { this.children = []; this.own = v === null ? "" : String(v); }
  get value() { return this._value; }
  set value(v) {
    v = v === null ? "" : String(v);
    this._value = this.tagName === "TEXTAREA" ? v.replace(/\r\n?/g, "\n") : this.tagName === "INPUT" ? v.replace(/[\r\n]/g, "") : v;
  }
  get hidden() { return "hidden" in this.attrs; }
  set hidden(v) { if (v) this.attrs.hidden = ""; else delete this.attrs.hidden; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return this.attrs[k] ?? null; }
  removeAttribute(k) { delete this.attrs[k]; }
  hasAttribute(k) { return k in this.attrs; }
  toggleAttribute(k, on) { if (on === undefined ? !(k in this.attrs) : on) this.attrs[k] = ""; else delete this.attrs[k]; }
  addEventListener(t, f, o) { this.listeners.add(t, f, o); }
  removeEventListener(t, f) { this.listeners.remove(t, f); }
  dispatchEvent(ev) { return this.listeners.fire(ev); }
  append(...c) { for (const x of c) this.appendChild(x); }
  appendChild(c) { if (typeof c === "object") c.parentNode = this; this.children.push(c); return c; }
  removeChild(c) { this.children = this.children.filter((x) => x !== c); c.parentNode = null; return c; }
  replaceChildren(...c) { this.children = []; this.own = ""; this.append(...c); }
  remove() { this.parentNode?.removeChild(this); }
  select() { this.page.selected = this; }
  setSelectionRange() { this.page.selected = this; }
  focus() { this.page.active = this; }
  blur() {}
  click() { this.listeners.fire(new FakeEvent("click")); }
  // Shown tells whether the text of the element can be read.
  get shown() { return this.text !== "" && !this.hidden && this.style.display !== "none" && this.style.visibility !== "hidden"; }
}

// The state of the world around the page: what survives navigation.
class Browser {
  constructor(start, useContext) {
    this.streaming = start.streaming !== false;
    this.useContext = useContext;
    this.url = new URL(start.url ?? "", BASE).href;
    this.time = 1000;
    this.errors = [];
    this.copied = null;
    this.real = null;
    this.open();
  }
  open() { this.page = new Page(this); this.page.start(); }
}

class Page {
  constructor(browser) {
    this.b = browser;
    this.timers = new Map();
    this.nextTimer = 1;
    this.navigation = null;
    this.calls = [];
    this.stage = "none"; // of loading the bundle: none, fetch, instantiate, running, failed, exited
    this.pendingLoad = null;
    this.ids = {};
    this.elements = tags.map((t) => {
      const e = new Element(t.tag, this);
      Object.assign(e.attrs, t.attrs);
      if (t.attrs.id) { e.id = t.attrs.id; this.ids[t.attrs.id] = e; }
      if (t.tag !== "textarea") e.own = t.text.trim();
      return e;
    });
    this.global = this.makeGlobal();
  }
  thrown(e) { this.b.errors.push(String((e && e.stack ? String(e) : e))); }
  hashOnly(to) {
    const a = new URL(this.b.url), c = new URL(to);
    const same = a.href.split("#")[0] === c.href.split("#")[0];
    return same && c.href.includes("#");
  }
  navigate(to) {
    const next = new URL(String(to), this.b.url).href;
    if (this.hashOnly(next)) {
      const changed = next !== this.b.url, old = this.b.url;
      this.b.url = next;
      if (changed) this.later.push(() => this.win.fire(new FakeEvent("hashchange", { oldURL: old, newURL: next })));
    } else {
      this.navigation = next;
    }
  }
  makeGlobal() {
    const page = this, b = this.b;
    const byId = (id) => page.ids[id] ?? null;
    const bodyEl = page.elements.find((e) => e.tagName === "BODY") ?? new Element("body", page);
    const query = (q) => (q[0] === "#" ? byId(q.slice(1)) : page.elements.find((e) => e.tagName === q.toUpperCase()) ?? null);
    const g = this.b.useContext ? vm.createContext({}) : {};
    const def = (o, name, get, set) => Object.defineProperty(o, name, { get, set, configurable: true, enumerable: true });
    const document = { getElementById: byId, querySelector: query, querySelectorAll: (q) => [query(q)].filter(Boolean),
      createElement: (t) => new Element(t, page), createTextNode: (t) => String(t), body: bodyEl, documentElement: new Element("html", page), readyState: "loading", title: "",
      addEventListener: (t, f, o) => page.doc.add(t, f, o), removeEventListener: (t, f) => page.doc.remove(t, f), dispatchEvent: (e) => page.doc.fire(e),
      execCommand: (c) => { if (c === "copy" && page.selected) b.copied = page.selected.value; return true; },
      get activeElement() { return page.active ?? bodyEl; } };
    page.document = document;
    page.doc = new Listeners(document, (e) => page.thrown(e));
    page.win = new Listeners(g, (e) => page.thrown(e));
    page.later = [];
    const location = { assign: (u) => page.navigate(u), replace: (u) => page.navigate(u), reload: () => { page.navigation = b.url; }, toString: () => b.url };
    def(location, "href", () => b.url, (u) => page.navigate(u));
    def(location, "search", () => new URL(b.url).search, (v) => { const u = new URL(b.url); u.search = v; page.navigate(u.href); });
    def(location, "hash", () => new URL(b.url).hash, (v) => { const u = new URL(b.url); u.hash = v; page.navigate(u.href); });
    for (const k of ["origin", "pathname", "host", "hostname", "protocol"]) def(location, k, () => new URL(b.url)[k]);
    def(g, "location", () => location, (u) => page.navigate(u));
    def(document, "location", () => location, (u) => page.navigate(u));
    const setTimer = (f, ms, args, every) => { const id = page.nextTimer++; ms = Math.max(0, Number(ms) || 0); page.timers.set(id, { at: b.time + ms, id, run: () => f(...args), every: every ? Math.max(1, ms) : 0 }); return id; };
    const provided = {
      document, window: g, self: g, globalThis: g, frames: g, top: g, parent: g,
      addEventListener: (t, f, o) => page.win.add(t, f, o), removeEventListener: (t, f) => page.win.remove(t, f), dispatchEvent: (e) => page.win.fire(e),
      setTimeout: (f, ms, ...a) => setTimer(f, ms, a), clearTimeout: (id) => { page.timers.delete(id); },
      setInterval: (f, ms, ...a) => setTimer(f, ms, a, true), clearInterval: (id) => { page.timers.delete(id); },
      requestAnimationFrame: (f) => setTimer(f, 16, [b.time]), cancelAnimationFrame: (id) => { page.timers.delete(id); },
      performance: { now: () => b.time + 0.25 }, Event: FakeEvent, CustomEvent: FakeEvent, InputEvent: FakeEvent,
      console: { log() {}, error() {}, warn() {}, info() {}, debug() {} }, alert() {}, prompt: () => null,
      navigator: { userAgent: "stand-in", clipboard: { writeText: async (t) => { b.copied = String(t); }, readText: async () => b.copied ?? "" } },
      history: { pushState: (s, t, u) => { if (u !== undefined) b.url = new URL(String(u), b.url).href; }, replaceState: (s, t, u) => { if (u !== undefined) b.url = new URL(String(u), b.url).href; }, back() {}, forward() {} },
      URL, URLSearchParams, queueMicrotask, TextEncoder, TextDecoder, atob, btoa, structuredClone, Error,
    };
    for (const [k, v] of Object.entries(provided)) if (!(k === "globalThis" && this.b.useContext)) g[k] = v;
    page.useGo(g);
    return g;
  }
  // useGo gives the page the bundle and its runtime.
  useGo(g) {
    const page = this;
    const step = (stage) => new Promise((ok, fail) => { page.stage = stage; page.pendingLoad = { ok, fail, stage }; });
    class Instance {}
    if (this.b.realBundle) {
      g.Go = globalThis.Go;
      g.fetch = () => Promise.resolve({ ok: true, status: 200, arrayBuffer: async () => "bytes" });
      const inst = (o) => WebAssembly.instantiate(this.b.realBundle, o).then((instance) => ({ instance }));
      g.WebAssembly = { instantiateStreaming: async (r, o) => { await r; return inst(o); }, instantiate: async (bytes, o) => inst(o) };
      globalThis.parserLoaded = (p) => g.parserLoaded(p);
      return;
    }
    g.Go = class Go {
      constructor() { this.importObject = { gojs: {} }; this.exit = () => {}; }
      async run(instance) {
        if (!(instance instanceof Instance)) throw new Error("Go.run: WebAssembly.Instance expected");
        const go = this;
        page.stage = "running";
        page.goExit = (code) => { page.stage = "exited"; go.exit(code); };
        if (page.exitAtOnce) { page.goExit(page.exitWith); return; }
        g.parserLoaded(function (text) {
          if (page.stage === "exited") throw new Error("Go program has already exited");
          page.calls.push({ text, time: page.b.time, now: page.ids.input.value });
          return answerOf(text);
        });
        await new Promise(() => {});
      }
    };
    g.fetch = (what) => step("fetch").then(() => ({ ok: true, status: 200, arrayBuffer: async () => "bytes of " + what }));
    const wasm = g.WebAssembly = {
      instantiate: (bytes, imports) => {
        if (bytes !== "bytes of parser.wasm" && bytes !== "bytes of ./parser.wasm") return Promise.reject(new Error("not a bundle: " + bytes));
        if (!imports || !imports.gojs) return Promise.reject(new Error("no imports"));
        return step("instantiate").then(() => ({ instance: new Instance(), module: {} }));
      },
    };
    if (this.b.streaming) wasm.instantiateStreaming = async (resp, imports) => { const r = await resp; return wasm.instantiate(await r.arrayBuffer(), imports); };
  }
  start() {
    try {
      if (this.b.useContext) {
        for (const s of contextScripts) s.runInContext(this.global);
      } else {
        const g = this.global;
        g.parserLoaded = undefined;
        compiled.call(g, new Proxy(g, { has: (_, k) => typeof k === "string" && k !== "$g" && (k in g || (k in globalThis && !builtins.has(k))), get: (t, k) => (k === Symbol.unscopables ? undefined : t[k]) }));
      }
    } catch (e) {
      this.thrown(e);
    }
    this.document.readyState = "complete";
    this.later.push(() => this.doc.fire(new FakeEvent("DOMContentLoaded")), () => this.win.fire(new FakeEvent("load")));
    this.flush();
  }
  flush() { while (this.later.length) this.later.shift()(); }
  // due is the next timer that expires until the given time.
  due(until) {
    let d = null;
    for (const t of this.timers.values()) if (t.at <= until && (!d || t.at < d.at || (t.at === d.at && t.id < d.id))) d = t;
    return d;
  }
}

// answerOf is the answer of the stand-in for the parser.
function answerOf(text) {
  if (typeof text !== "string") return { error: "not a text: " + typeof text };
  return text.includes("(") ? { error: "syntax error in " + JSON.stringify(text) } : { result: '{\n  "tree": ' + JSON.stringify(text) + "\n}\n" };
}

const tick = () => new Promise((r) => setImmediate(r));
const unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(String(e)));
process.on("uncaughtException", (e) => unhandled.push(String(e)));

const TEXTS = { a: "a", b: "b\n<&>'\"\u2028\u00e9\u{1F600}+%20#?&code=x", e: "(", f: "((", z: "" };

// run explores one history and returns what is wrong with it.
async function run(job, events) {
  unhandled.length = 0;
  const b = new Browser(job.start, !!job.vm);
  await tick();
  // The reference: what the page is expected to know.
  const codeOf = (u) => new URL(u).searchParams.get("code");
  let text = null, edited = -1e9, seen = 0, why = null, exitCode = null, dead = false;
  const el = (id) => b.page.ids[id];
  for (const id of ["input", "output", "success", "error", "share"]) if (!el(id)) return "the page has no element " + id;
  const opened = () => {
    const c = codeOf(b.url);
    text = c === null ? el("input").value : c.replace(/\r\n?/g, "\n");
    seen = 0; edited = -1e9; why = null; exitCode = null; dead = false;
  };
  const wrong = () => {
    if (unhandled.length) b.errors.push(...unhandled.splice(0));
    if (dead) b.errors.length = 0;
    if (b.errors.length) return "uncaught exception " + b.errors[0];
    if (el("input").value !== text) return "the editor has the text " + JSON.stringify(el("input").value) + " instead of " + JSON.stringify(text);
    for (; seen < b.page.calls.length; seen++) {
      const c = b.page.calls[seen];
      if (c.text !== c.now) return "the parser was called with " + JSON.stringify(c.text) + " while the text was " + JSON.stringify(c.now);
      if (c.time < edited + 500) return "the parser was called " + (c.time - edited) + " ms after an edit";
    }
    return null;
  };
  const settle = async (until) => {
    for (let n = 0; n < 1000; n++) {
      const t = b.page.due(until);
      if (!t) { b.time = Math.max(b.time, until === Infinity ? b.time : until); return; }
      b.time = Math.max(b.time, t.at);
      if (t.every) t.at += t.every; else b.page.timers.delete(t.id);
      if (t.every && until === Infinity && n > 50) return;
      try { t.run(); } catch (e) { b.page.thrown(e); }
      b.page.flush();
      await tick();
      const w = wrong();
      if (w) { bad = w; return; }
    }
    bad = "the page never comes to rest";
  };
  let bad = null;
  opened();
  bad = wrong();
  const follow = async () => {
    b.page.flush();
    await tick();
    b.page.flush();
    if (b.page.navigation !== null) {
      b.url = b.page.navigation;
      b.open();
      await tick();
      opened();
    }
  };
  for (const ev of events) {
    if (bad) return bad;
    switch (ev[0]) {
      case "t": { // the user changes the text
        text = ev[1] === ":" ? ev.slice(2) : TEXTS[ev.slice(1)];
        edited = b.time;
        el("input").value = text;
        text = el("input").value;
        el("input").listeners.fire(new FakeEvent("input"));
        break;
      }
      case "w": // time passes
        await settle(b.time + Number(ev.slice(1)));
        break;
      case "l": { // the next step of loading succeeds
        const p = b.page.pendingLoad;
        b.page.pendingLoad = null;
        if (p) p.ok();
        break;
      }
      case "F": { // the next step of loading fails
        const p = b.page.pendingLoad;
        b.page.pendingLoad = null;
        if (p) { why = "no network 17"; b.page.stage = "failed"; p.fail(new TypeError(why)); }
        break;
      }
      case "Z": // the bundle ends without a failure
      case "X": // the bundle ends
        if (b.page.stage === "instantiate" && b.page.pendingLoad) {
          const p = b.page.pendingLoad;
          b.page.pendingLoad = null;
          b.page.exitAtOnce = true;
          exitCode = ev === "Z" ? "0" : "2";
          b.page.exitWith = Number(exitCode);
          p.ok();
        } else if (b.page.stage === "running") {
          exitCode = ev === "Z" ? "0" : "37";
          try { b.page.goExit(Number(exitCode)); } catch (e) { b.page.thrown(e); }
        } else break;
        b.page.flush();
        await tick();
        if ((bad = wrong())) return bad;
        if (!el("error").shown || !el("error").text.includes(exitCode)) return "the end of the bundle is not shown; the error field has " + JSON.stringify(el("error").text) + (el("error").shown ? "" : ", hidden");
        dead = true;
        break;
      case "s": { // the share button
        const want = text, at = b.url;
        b.copied = null;
        el("share").listeners.fire(new FakeEvent("click"));
        b.page.flush();
        await tick();
        const to = b.page.navigation ?? b.url;
        const u = new URL(to), o = new URL(at);
        if (codeOf(to) === null || codeOf(to).replace(/\r\n?/g, "\n") !== want) return "the shared address " + to + " has the code " + JSON.stringify(codeOf(to)) + " instead of " + JSON.stringify(want);
        if (u.origin + u.pathname !== o.origin + o.pathname) return "the shared address " + to + " is not of the page " + at;
        for (const [k, v] of o.searchParams) if (k !== "code" && u.searchParams.get(k) !== v) return "the shared address " + to + " lost the parameter " + k + " of " + at;
        if (b.copied === null || new URL(b.copied, at).href !== to) return "the copied address " + b.copied + " is not the shared one, " + to;
        break;
      }
      case "h": { // the fragment of the address changes
        const u = new URL(b.url);
        u.hash = u.hash === "#x" ? "y" : "x";
        const old = b.url;
        b.url = u.href;
        b.page.win.fire(new FakeEvent("hashchange", { oldURL: old, newURL: u.href }));
        if (codeOf(u.href) !== null) text = codeOf(u.href).replace(/\r\n?/g, "\n");
        break;
      }
      default:
        throw new Error("unknown event " + ev);
    }
    await follow();
    if (!bad) bad = wrong();
  }
  if (bad) return bad;
  await settle(b.time + 500);
  await follow();
  if (!bad) await settle(Infinity);
  if (!bad) bad = wrong();
  if (bad) return bad;
  const shown = (id) => (el(id).shown ? el(id).text : "");
  const seenNow = () => "output " + JSON.stringify(el("output").value) + ", success " + JSON.stringify(shown("success")) + ", error " + JSON.stringify(shown("error"));
  switch (b.page.stage) {
    case "running": {
      if (!b.page.calls.length) return "the parser was never called";
      const a = answerOf(text);
      if (a.error !== undefined) {
        run.kind = "error shown";
        if (!shown("error").includes(a.error) || shown("success") !== "" || !el("output").value.includes(a.error)) return "for the text " + JSON.stringify(text) + " with the error " + JSON.stringify(a.error) + " the page shows " + seenNow();
      } else {
        run.kind = "tree shown";
        if (el("output").value !== a.result || shown("error") !== "" || shown("success") === "") return "for the text " + JSON.stringify(text) + " with the tree " + JSON.stringify(a.result) + " the page shows " + seenNow();
      }
      break;
    }
    case "failed":
      run.kind = "failure shown";
      if (!shown("error").includes(why) || shown("success") !== "") return "loading failed, but the page shows " + seenNow();
      break;
    case "exited":
      run.kind = "ended";
      if (shown("error") === "") return "the bundle has ended, but the page shows " + seenNow();
      break;
    default:
      run.kind = "loading";
      if (shown("success") !== "" || shown("error") !== "" || el("output").value === "") return "while loading the page shows " + seenNow();
  }
  return null;
}

async function explore(job) {
  let n = 0, total = 0;
  const kinds = {};
  const go = async (events, depth) => {
    n++;
    total += events.length + 1;
    run.kind = "";
    const bad = await run(job, events);
    if (bad) return { violation: bad, at: events };
    kinds[run.kind] = (kinds[run.kind] ?? 0) + 1;
    if (depth > 0) for (const e of job.alphabet ?? []) {
      const v = await go([...events, e], depth - 1);
      if (v) return v;
    }
    return null;
  };
  let v = null;
  if (job.histories) {
    for (const h of job.histories) if ((v = await go(h, 0))) break;
  } else {
    v = await go(job.prefix ?? [], job.depth);
  }
  return { n, events: total, kinds, ...(v ?? {}) };
}

// --- the real bundle ------------------------------------------------------------

let bundle = null;
async function real(texts) {
  if (!bundle) {
    const realConsole = console.log;
    globalThis.require = require; globalThis.fs = fs; globalThis.path = path;
    require(path.resolve(process.argv[3]));
    bundle = new WebAssembly.Module(fs.readFileSync(process.argv[4]));
    console.log = realConsole;
  }
  unhandled.length = 0;
  const b = { streaming: true, useContext: false, url: BASE, time: 1000, errors: [], copied: null, realBundle: bundle };
  b.page = new Page(b);
  const el = (id) => b.page.ids[id];
  let loaded;
  const ready = new Promise((ok) => { loaded = ok; });
  b.page.start();
  const given = globalThis.parserLoaded;
  globalThis.parserLoaded = (p) => { given(p); loaded(); };
  await ready;
  const out = [];
  for (const t of texts) {
    el("input").value = t;
    el("input").listeners.fire(new FakeEvent("input"));
    b.time += 500;
    for (let d; (d = b.page.due(b.time)); ) { b.page.timers.delete(d.id); try { d.run(); } catch (e) { b.errors.push(String(e)); } }
    await tick();
    const e = b.errors.concat(unhandled.splice(0));
    out.push({ text: el("input").value, output: el("output").value, success: el("success").shown ? el("success").text : "", error: el("error").shown ? el("error").text : "", thrown: e.length ? e[0] : "" });
    b.errors.length = 0;
  }
  return { shown: out };
}

let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let r;
    try {
      const job = JSON.parse(line);
      r = job.real ? await real(job.real) : await explore(job);
    } catch (e) {
      r = { failed: String(e && e.stack || e) };
    }
    reply(r);
  });
});
rl.on("close", () => chain.then(() => process.exit(0)));
