// The documentation's playground page, outside a browser: a small implementation of the React
// interface (hooks, elements, synchronous re-rendering after every batch of updates) with a page of
// plain objects under it, the services of the browser the page uses as steps of a scheduler, and the
// library underneath, the real one.
import { createRequire } from "node:module";
import fs from "node:fs";
import * as W from "./world.mjs";
const require = createRequire(import.meta.url);
const DOCS = "/repo/docs/src/";

// ---- the bundle of the page
export async function bundlePage() {
  const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
  const plug = { name: "page", setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      if (a.kind === "entry-point") return undefined;
      if (/\.css$/.test(a.path)) return { path: "css", namespace: "mod" };
      if (a.path.startsWith("@site/")) { const base = DOCS.replace(/src\/$/, "") + a.path.slice(6); for (const x of ["", ".tsx", ".ts", ".jsx", ".js", "/index.tsx", "/index.ts"]) if (fs.existsSync(base + x) && fs.statSync(base + x).isFile()) return { path: base + x }; }
      if (a.path.startsWith(".") || a.path.startsWith("/")) return undefined;
      return { path: a.path, namespace: "mod" };
    });
    b.onLoad({ filter: /.*/, namespace: "mod" }, (a) => ({ contents: `module.exports = globalThis.__page.module(${JSON.stringify(a.path)});`, loader: "js" }));
  } };
  const r = await esbuild.build({ stdin: { contents: `export { default } from "./pages/playground";`, resolveDir: DOCS, loader: "tsx" }, bundle: true, write: false, format: "cjs", platform: "neutral", mainFields: ["main"], target: "node22", jsx: "automatic", plugins: [plug], logLevel: "silent", tsconfigRaw: "{}" });
  return r.outputFiles[0].text;
}
const NAMES = ["module", "exports", "require", "console", "fetch", "FileReader", "Blob", "URL", "document", "window", "File", "alert", "setTimeout", "clearTimeout", "queueMicrotask_", "navigator"];
let factory;
export function setPage(code) { factory = new Function(...NAMES, code); }

// ---- React
const EL = Symbol("element"), FRAGMENT = Symbol("fragment"), CONTEXT = Symbol("context"), SUSPENSE = Symbol("suspense");
class Crash extends Error {}
export function makeReact(onError) {
  const live = new Map(); let seen = null, cur = null, dirty = false, rendering = false, batch = 0, root = null, tree = null, doms = new Map(), contexts = [], ids = new WeakMap(), nextId = 0, timer = false;
  const idOf = (t) => { if (typeof t === "string") return t; if (typeof t === "symbol") return t.description; if (!ids.has(t)) ids.set(t, "c" + nextId++); return ids.get(t); };
  const createElement = (type, props, ...kids) => { const { key = null, ...p } = props || {}; if (kids.length) p.children = kids.length === 1 ? kids[0] : kids; return { $: EL, type, props: p, key }; };
  const jsx = (type, props, key = null) => ({ $: EL, type, props: props || {}, key });
  const slot = (make) => { if (!cur) throw new Crash("Invalid hook call"); const i = cur.at++; if (cur.first) cur.hooks[i] = make(); else if (i >= cur.hooks.length) throw new Crash("Rendered more hooks than during the previous render"); return cur.hooks[i]; };
  const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
  const invalidate = () => { dirty = true; if (!batch && !rendering && !timer) { timer = true; queueMicrotask(() => { timer = false; flush(); }); } };
  const useReducer = (reduce, init, lazy) => { const inst = cur; const s = slot(() => { const s = { value: lazy ? lazy(init) : init, queue: [] }; s.set = (a) => { if (inst.gone) return; if (!s.queue.length && !rendering && Object.is(reduce(s.value, a), s.value)) return; s.queue.push(a); invalidate(); }; return s; }); for (const a of s.queue.splice(0)) s.value = reduce(s.value, a); return [s.value, s.set]; };
  const useState = (init) => useReducer((v, a) => typeof a === "function" ? a(v) : a, undefined, () => typeof init === "function" ? init() : init);
  const effect = (kind) => (fn, deps) => { const s = slot(() => ({ effect: kind, deps: null })); if (!deps || changed(s.deps, deps)) { s.deps = deps || null; s.run = fn; } };
  const useMemo = (fn, deps) => { const s = slot(() => ({})); if (!s.deps || changed(s.deps, deps)) { s.value = fn(); s.deps = deps; } return s.value; };
  const useRef = (v) => slot(() => ({ ref: { current: v } })).ref;
  const useContext = (c) => { for (let i = contexts.length - 1; i >= 0; i--) if (contexts[i][0] === c) return contexts[i][1]; return c.value; };
  const react = {
    createElement, Fragment: FRAGMENT, StrictMode: FRAGMENT, Suspense: SUSPENSE, useState, useReducer, useMemo, useRef, useContext,
    useEffect: effect("effect"), useLayoutEffect: effect("layout"), useInsertionEffect: effect("layout"),
    useCallback: (f, d) => useMemo(() => f, d), useId: () => useMemo(() => ":r" + nextId++ + ":", []), useDebugValue() {},
    useTransition: () => [false, (f) => f()], useDeferredValue: (v) => v, startTransition: (f) => f(), useImperativeHandle(ref, make, deps) { react.useLayoutEffect(() => { if (ref) ref.current = make(); }, deps); },
    useSyncExternalStore: (sub, get) => { const [, tick] = useState(0); react.useEffect(() => sub(() => tick((x) => x + 1)), [sub]); return get(); },
    createContext: (v) => { const c = { value: v }; c.Provider = { [CONTEXT]: c }; c.Consumer = { consumer: c }; return c; },
    createRef: () => ({ current: null }), memo: (f) => ({ memo: f }), forwardRef: (f) => ({ forward: f }),
    lazy: (load) => { let s = null; return { memo: (p) => { const [, tick] = useState(0); if (!s) { s = {}; load().then((m) => { s.c = m.default; tick((x) => x + 1); }); } else if (!s.c) react.useEffect(() => { const t = setInterval(() => s.c && (clearInterval(t), tick((x) => x + 1)), 1); }, []); return s.c ? jsx(s.c, p) : null; } }; },
    isValidElement: (x) => !!x && x.$ === EL, cloneElement: (e, p, ...k) => createElement(e.type, { ...e.props, key: e.key, ...p }, ...(k.length ? k : [])),
    Children: { map: (c, f) => flat(c).map(f), toArray: (c) => flat(c), forEach: (c, f) => flat(c).forEach(f), count: (c) => flat(c).length, only: (c) => c },
  };
  const flat = (c) => Array.isArray(c) ? c.flatMap(flat) : c === null || c === undefined || typeof c === "boolean" ? [] : [c];
  react.default = react;
  function expand(x, path, parent) {
    if (x === null || x === undefined || typeof x === "boolean") return [];
    if (typeof x === "string" || typeof x === "number" || typeof x === "bigint") return [{ text: String(x), parent }];
    if (Array.isArray(x)) return x.flatMap((y, i) => expand(y, `${path}/${y && y.$ === EL && y.key !== null ? "k" + y.key : i}`, parent));
    if (x.$ !== EL) throw new Crash("Objects are not valid as a React child");
    const { type, props } = x, p = `${path}:${idOf(type)}${x.key !== null ? "k" + x.key : ""}`;
    if (type === FRAGMENT || type === SUSPENSE) return expand(props.children, p, parent);
    if (typeof type === "string") {
      let dom = doms.get(p); if (!dom) doms.set(p, dom = { tagName: type.toUpperCase(), value: props.defaultValue ?? "", checked: !!props.defaultChecked, files: null, focus() {}, blur() {}, select() {}, addEventListener() {}, removeEventListener() {}, click() { dom.onclick?.(); } });
      const node = { tag: type, props, parent, dom, children: [] }; seen.add(p);
      node.children = expand(props.children, p, node);
      if (props.ref) { if (typeof props.ref === "function") props.ref(dom); else props.ref.current = dom; }
      return [node];
    }
    if (type && type[CONTEXT]) { contexts.push([type[CONTEXT], props.value]); try { return expand(props.children, p, parent); } finally { contexts.pop(); } }
    if (type && type.consumer) return expand(props.children(useContext(type.consumer)), p, parent);
    const fn = type && (type.memo || type.forward) || type; if (typeof fn !== "function") throw new Crash("Element type is invalid: " + String(fn));
    if (fn.memo || fn.forward) return expand(jsx(fn, props), p, parent);
    let inst = live.get(p); if (!inst) live.set(p, inst = { hooks: [], first: true, path: p });
    seen.add(p); const saved = cur; let out;
    for (let n = 0; ; n++) {
      if (n > 50) throw new Crash("Too many re-renders");
      cur = inst; inst.at = 0; const before = dirty; dirty = false;
      if (fn.prototype && fn.prototype.render) throw new Crash("class components are not supported by this stand-in");
      try { out = type.forward ? fn(props, props.ref) : fn(props); } finally { cur = saved; }
      if (!inst.first && inst.at !== inst.hooks.length) throw new Crash("Rendered fewer hooks than expected");
      inst.first = false; const again = inst.hooks.some((h) => h.queue && h.queue.length); dirty = before || dirty;
      if (!again) break;
    }
    return expand(out, p + "/", parent);
  }
  const drop = (inst) => { inst.gone = true; for (const h of inst.hooks) if (h.effect && h.clean) { const c = h.clean; h.clean = null; c(); } };
  function flush() {
    if (rendering || batch) return;
    rendering = true;
    try {
      for (let n = 0; dirty; n++) {
        if (n > 60) throw new Crash("Maximum update depth exceeded");
        dirty = false; seen = new Set(); tree = { tag: "#root", props: {}, children: [], parent: null }; tree.children = expand(root, "", tree);
        for (const [p, i] of [...live]) if (!seen.has(p)) { live.delete(p); drop(i); }
        for (const p of [...doms.keys()]) if (!seen.has(p)) doms.delete(p);
        for (const kind of ["layout", "effect"]) { for (const i of live.values()) for (const h of i.hooks) if (h.effect === kind && h.run) { const f = h.run; h.run = null; if (h.clean) h.clean(); const c = f(); h.clean = typeof c === "function" ? c : null; } }
      }
    } catch (e) { onError(e); tree = { tag: "#root", props: {}, children: [], parent: null }; root = null; } finally { rendering = false; }
  }
  return { react, jsx, mount(el) { root = el; dirty = true; flush(); }, once(el) { seen = new Set(); const t = { tag: "#root", props: {}, children: [] }; t.children = expand(el, "", t); return t; }, batched(f) { batch++; try { return f(); } finally { batch--; if (!batch) flush(); } }, get tree() { return tree; }, unmount() { root = null; dirty = true; flush(); } };
}

// ---- the page
const GATED = /^(page|init)/;
class Steps extends W.Sched {
  constructor() { super(true); }
  step(kind, run) { return GATED.test(kind) ? super.step(kind, run) : new Promise((ok) => ok(run())); }
  /** Complete the i-th pending step, or let it fail. */
  async complete(i, error) { const p = this.pending.splice(i, 1)[0]; this.log.push(p.kind + (error ? "!" : "")); if (error) p.no(error); else { let v, bad; try { v = p.run(); } catch (e) { bad = [e]; } if (bad) p.no(bad[0]); else p.ok(v); } await W.drain(); return p.kind; }
}
const proxyCss = new Proxy({}, { get: (_, k) => k === "__esModule" ? undefined : k === "default" ? proxyCss : String(k) });
export class Page {
  /** served: path suffix -> () => bytes (or {status, body}); sudoku: the stand-in of the puzzle package */
  constructor({ served, sudoku, ssr }) {
    const page = this; this.errors = []; this.served = served; this.downloads = []; this.fetched = []; this.libCalls = []; this.now = 0;
    this.w = new W.World({ controlled: true }); this.w.sched = this.steps = new Steps(); globalThis.__page = this;
    this.lib = null; this.R = makeReact((e) => page.errors.push(e instanceof Error ? `${e.name}: ${e.message}` : String(e)));
    const { react, jsx } = this.R;
    const Translate = (p) => jsx("translate", p), translate = ({ id, message }, values) => String(message ?? id).replace(/\{(\w+)\}/g, (m, k) => values && k in values ? values[k] : m);
    const gate = (name, f) => async (...a) => { page.libCalls.push(name); const r = await W.attempt(() => f(...a)); await page.steps.step("page:" + name, () => {}); if (r[0] === "err") throw r[2]; return r[1]; };
    const mods = {
      react, "react/jsx-runtime": { jsx, jsxs: jsx, Fragment: react.Fragment }, "react/jsx-dev-runtime": { jsxDEV: (t, p, k) => jsx(t, p, k), Fragment: react.Fragment },
      "react-dom": { flushSync: (f) => { const v = f(); return v; } },
      css: proxyCss, "@docusaurus/Translate": { __esModule: true, default: Translate, translate },
      "@docusaurus/useBaseUrl": { __esModule: true, default: (u) => { react.useContext({ value: 0 }); return "/base" + u; }, useBaseUrlUtils: () => ({ withBaseUrl: (u) => "/base" + u }) },
      "@docusaurus/BrowserOnly": { __esModule: true, default: ({ children, fallback }) => ssr ? fallback || null : children() }, "@docusaurus/useIsBrowser": { __esModule: true, default: () => !ssr },
      "@docusaurus/ExecutionEnvironment": { __esModule: true, default: { canUseDOM: !ssr } }, "@docusaurus/Link": { __esModule: true, default: (p) => jsx("a", p) },
      "@theme/Layout": { __esModule: true, default: (p) => jsx("main", p) },
      clsx: Object.assign((...a) => a.flat(9).flatMap((x) => !x ? [] : typeof x === "object" ? Object.keys(x).filter((k) => x[k]) : [x]).join(" "), { __esModule: true }), "@forfuns/sudoku": sudoku,
    };
    mods.clsx.default = mods.clsx; mods.clsx.clsx = mods.clsx;
    this.module = (name) => {
      if (name === "zkenc-js") { const L = page.lib ??= W.fresh().index; return new Proxy({ ...L }, { get: (t, k) => ["encrypt", "decrypt", "encap", "decap", "getCircomWitness"].includes(k) && t[k] ? (t["$" + k] ??= gate(k, t[k])) : t[k] }); }
      if (!mods[name]) throw new Error("the page imports " + name + ", which this stand-in does not know"); return mods[name];
    };
    class FileReader {
      #go(file, conv) { page.steps.step("page:read " + file.name, () => { if (file.unreadable) throw new DOMException("could not be read", "NotReadableError"); return conv(file.bytes.slice()); }).then((v) => page.R.batched(() => { this.result = v; this.readyState = 2; const ev = { target: this, currentTarget: this, type: "load" }; page.guard(() => { this.onload?.(ev); for (const [t, f] of this.ls) if (t === "load") f(ev); this.onloadend?.(ev); }); }), (e) => page.R.batched(() => { this.error = e; const ev = { target: this, type: "error" }; page.guard(() => { this.onerror?.(ev); for (const [t, f] of this.ls) if (t === "error") f(ev); this.onloadend?.(ev); }); })); }
      ls = []; result = null; readyState = 0;
      addEventListener(t, f) { this.ls.push([t, f]); }
      readAsArrayBuffer(f) { this.#go(f, (b) => b.buffer); } readAsText(f) { this.#go(f, (b) => new TextDecoder().decode(b)); }
    }
    class Blob { constructor(parts, o) { this.bytes = W.cat(...parts.map((p) => typeof p === "string" ? new TextEncoder().encode(p) : p instanceof ArrayBuffer ? new Uint8Array(p) : p instanceof Blob ? p.bytes : new Uint8Array(p.buffer, p.byteOffset, p.byteLength))); this.size = this.bytes.length; this.type = o?.type || ""; } }
    const urls = new Map(); let nUrl = 0;
    const URL2 = Object.assign(function (...a) { return new URL(...a); }, { createObjectURL: (b) => { const u = "blob:" + nUrl++; urls.set(u, b); return u; }, revokeObjectURL: (u) => { urls.delete(u); } });
    const element = (tag) => { const e = { tagName: tag.toUpperCase(), style: {}, setAttribute(k, v) { e[k] = v; }, remove() {}, appendChild() {}, removeChild() {}, click() { if (tag === "a") { const b = urls.get(e.href); page.downloads.push({ name: e.download, bytes: b ? b.bytes.slice() : null }); } }, dispatchEvent() { e.click(); } }; return e; };
    const document = ssr ? undefined : { createElement: element, body: { appendChild() {}, removeChild() {}, append() {} }, addEventListener() {}, removeEventListener() {} };
    const fetch = ssr ? undefined : async (url) => {
      page.fetched.push(String(url)); const name = String(url).replace(/^\/base\//, "/"), of = name.split("/").pop();
      const reply = await page.steps.step("page:fetch " + of, () => { const s = page.served[name]; return s === undefined ? { status: 404, body: new TextEncoder().encode("<html>Not found</html>") } : s instanceof Uint8Array ? { status: 200, body: s } : s; });
      const ok = reply.status >= 200 && reply.status < 300, body = () => page.steps.step("page:body " + of, () => reply.body.slice());
      return { ok, status: reply.status, statusText: ok ? "OK" : "Not Found", url, headers: { get: () => null }, arrayBuffer: async () => (await body()).buffer, bytes: () => body(), text: async () => new TextDecoder().decode(await body()), json: async () => JSON.parse(new TextDecoder().decode(await body())), blob: async () => { const b = await body(); return { arrayBuffer: async () => b.buffer, text: async () => new TextDecoder().decode(b), size: b.length }; } };
    };
    const setT = (f, ms, ...a) => { const t = { on: true }; page.steps.step("page:timer", () => { if (t.on) page.R.batched(() => page.guard(() => f(...a))); }); return t; };
    const m = { exports: {} };
    factory(m, m.exports, require, W.quiet, fetch, FileReader, Blob, URL2, document, ssr ? undefined : { document, location: { href: "http://localhost/base/playground", origin: "http://localhost" }, addEventListener() {}, removeEventListener() {}, URL: URL2, setTimeout: setT, alert() {}, fetch }, undefined, () => {}, setT, (t) => { if (t) t.on = false; }, undefined, ssr ? undefined : { clipboard: { writeText: async () => {} } });
    this.Component = m.exports.default; this.jsx = jsx;
  }
  guard(f) { try { const r = f(); if (r && typeof r.then === "function") r.then(() => {}, (e) => this.errors.push("unhandled rejection " + (e && e.message || e))); return r; } catch (e) { this.errors.push("uncaught " + (e && e.message || e)); } }
  async open() { this.R.mount(this.jsx(this.Component, {})); await W.drain(); for (let i = 0; i < 5; i++) await W.drain(); }
  // -- looking
  all(pred, from = this.R.tree) { const out = []; (function go(n) { if (!n || n.text !== undefined) return; if (pred(n)) out.push(n); n.children.forEach(go); })(from); return out; }
  labels(n) { return this.all((x) => x.tag === "translate", n).map((x) => x.props.id); }
  text(n) { return n.text !== undefined ? n.text : n.tag === "translate" ? this.plain(n) : n.children.map((c) => this.text(c)).join(""); }
  plain(n) { return n.children.map((c) => this.text(c)).join("").replace(/\{(\w+)\}/g, (m, k) => n.props.values && k in n.props.values ? n.props.values[k] : m); }
  button(id) { return this.all((x) => x.tag === "button" && this.labels(x).includes(id))[0]; }
  has(id) { return this.all((x) => x.tag === "translate" && x.props.id === id).length > 0; }
  file(accept, n = 0) { return this.all((x) => x.tag === "input" && x.props.type === "file" && String(x.props.accept || "").split(",").map((s) => s.trim()).includes(accept))[n]; }
  textareas() { return this.all((x) => x.tag === "textarea"); }
  cells() { const c = this.all((x) => x.tag === "input" && (x.props.type === "text" || x.props.type === undefined || x.props.type === "number")), per = new Map(); for (const x of c) { const k = x.parent; per.has(k) || per.set(k, []); per.get(k).push(x); } return [...per.values()].filter((g) => g.length > 8 || g.length === c.length); }
  errorText() { return this.all((x) => String(x.props.className || "").split(/\s+/).some((c) => /error/i.test(c))).map((x) => this.text(x)).join("\n"); }
  pre() { return this.all((x) => x.tag === "pre").map((x) => this.text(x)); }
  value(n) { return n.props.value !== undefined ? String(n.props.value) : n.dom.value; }
  // -- acting: false when the control is not there or does not react
  dispatch(n, type, target) {
    const ev = { type, target, currentTarget: target, stopped: false, preventDefault() { ev.defaultPrevented = true; }, stopPropagation() { ev.stopped = true; }, persist() {}, nativeEvent: {} };
    this.R.batched(() => { for (let x = n; x && x.tag !== "#root"; x = x.parent) { const h = x.props["on" + type[0].toUpperCase() + type.slice(1)]; if (h) { ev.currentTarget = x.dom; this.guard(() => h(ev)); } if (ev.stopped) break; } });
  }
  async click(n) { if (!n || n.props.disabled) return false; this.dispatch(n, "click", n.dom); const form = this.up(n, "form"); if (form && (n.props.type ?? "submit") === "submit" && n.tag === "button") this.dispatch(form, "submit", form.dom); await W.drain(); return true; }
  up(n, tag) { for (let x = n; x; x = x.parent) if (x.tag === tag) return x; }
  async type(n, s) { if (!n || n.props.disabled || n.props.readOnly) return false; n.dom.value = n.props.maxLength > 0 ? s.slice(0, n.props.maxLength) : s; this.dispatch(n, "input", n.dom); this.dispatch(n, "change", n.dom); await W.drain(); return true; }
  async check(n, on) { if (!n || n.props.disabled) return false; n.dom.checked = on; this.dispatch(n, "change", n.dom); await W.drain(); return true; }
  async give(n, bytes, name, more) { if (!n || n.props.disabled) return false; const f = { name, size: bytes.length, type: "", bytes, ...more }; const page = this; f.arrayBuffer = () => page.steps.step("page:read " + name, () => { if (f.unreadable) throw new DOMException("could not be read", "NotReadableError"); return f.bytes.slice().buffer; }); f.text = async () => new TextDecoder().decode(await f.arrayBuffer()); f.bytes_ = bytes; n.dom.files = Object.assign([f], { item: (i) => [f][i] }); n.dom.value = "C:\\fakepath\\" + name; this.dispatch(n, "change", n.dom); await W.drain(); return true; }
  /** Complete everything pending, oldest first. */
  async rest() { for (let i = 0; i < 200; i++) { await W.drain(); if (!this.steps.pending.length) return true; await this.steps.complete(0); } return false; }
}
