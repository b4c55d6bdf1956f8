// Runs the web page of hangulize in Node, without a browser: the components
// and workers are bundled from /repo/web/src with stand-ins for React, Comlink
// and the other libraries, and live in a world with a virtual clock where each
// message, timer and answer has a time of the case. A JSON case per line of
// the standard input, a JSON log per line of the standard output.
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
// To bundle: web_driver.js --bundle ESBUILD SRC OUT; to run: web_driver.js OUT
const bundling = process.argv[2] === "--bundle";
const src = process.argv[4]; // /repo/web/src
const dir = process.argv[bundling ? 5 : 2];

// ---------------------------------------------------------------- libraries

const react = String.raw`
let current = null, hook = 0;
function slot(init) {
  const f = current;
  if (!f) throw new Error("a hook outside of a component");
  const i = hook++;
  if (f.hooks.length <= i) f.hooks.push(init());
  return f.hooks[i];
}
const same = (a, b) => a !== undefined && b !== undefined && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
export function useState(init) {
  const f = current;
  const s = slot(() => {
    const s = { value: typeof init === "function" ? init() : init, queue: [] };
    s.set = (v) => {
      if (f.unmounted || (!s.queue.length && typeof v !== "function" && Object.is(v, s.value))) return;
      s.queue.push(v);
      f.dirty = true;
      schedule();
    };
    return s;
  });
  for (const v of s.queue.splice(0)) {
    s.value = typeof v === "function" ? v(s.value) : v;
  }
  return [s.value, s.set];
}
export function useReducer(reducer, init, initFn) {
  const [s, set] = useState(() => initFn ? initFn(init) : init);
  return [s, useCallback((a) => set((s) => reducer(s, a)), [])];
}
export const useRef = (v) => slot(() => ({ current: v }));
export function useMemo(fn, deps) {
  const s = slot(() => ({ deps: undefined }));
  if (!same(s.deps, deps)) { s.value = fn(); s.deps = deps; }
  return s.value;
}
export const useCallback = (fn, deps) => useMemo(() => fn, deps);
function effect(fn, deps, layout) {
  const s = slot(() => ({ effect: true, layout, deps: undefined }));
  s.due = !same(s.deps, deps);
  s.deps = deps;
  s.fn = fn;
}
export const useEffect = (fn, deps) => effect(fn, deps, false);
export const useLayoutEffect = (fn, deps) => effect(fn, deps, true);
export function useSyncExternalStore(subscribe, snapshot) {
  const [, set] = useState(0);
  const v = snapshot();
  const last = useRef(v);
  last.current = v;
  useEffect(() => {
    const check = () => { if (!Object.is(last.current, snapshot())) set((n) => n + 1); };
    check();
    return subscribe(check);
  }, [subscribe]);
  return v;
}
const contexts = [];
export function createContext(v) {
  const c = { value: v };
  c.Provider = ({ value, children }) => { c.value = value; return children; };
  return c;
}
export const useContext = (c) => c.value;
export const useInsertionEffect = useLayoutEffect;
export const useId = () => useRef(":r:").current;
export const useTransition = () => [false, (f) => f()];
export const startTransition = (f) => f();
export const useDeferredValue = (v) => v;
export const useDebugValue = () => {};
export const useImperativeHandle = (ref, fn, deps) => useLayoutEffect(() => { if (ref) ref.current = fn(); }, deps);
export const forwardRef = (c) => (p) => c(p, p.ref);
export const lazy = undefined;
export const memo = (c) => c;
export const Fragment = "fragment";
export const StrictMode = "fragment";
export function jsx(type, props, key) { return { type, props: props || {}, key }; }
export const jsxs = jsx;
export const jsxDEV = jsx;
export function createElement(type, props, ...children) {
  const { key, ...p } = props || {};
  if (children.length) p.children = children.length === 1 ? children[0] : children;
  return { type, props: p, key };
}

let root = null, scheduled = false, pending = false;
export function mount(el) { root = make(el); update(root, el, true); commit(); }
function schedule() {
  if (scheduled) return;
  scheduled = true;
  __world.later("render", () => {
    scheduled = false;
    flushEffects();
    renderDirty(root);
    commit();
  });
}
// After an event of the user, React renders before anything else happens.
__world.flush = () => {
  if (!root) return;
  flushEffects();
  if (anyDirty(root)) { renderDirty(root); commit(); }
  flushEffects();
};
const make = (el) => ({ type: el.type, key: el.key, hooks: [], children: [], ref: null });
function flat(c, out) {
  if (Array.isArray(c)) c.forEach((x) => flat(x, out));
  else if (c === null || c === undefined || typeof c === "boolean") out.push({ type: "null", props: {} });
  else if (typeof c !== "object") out.push({ type: "text", props: { text: String(c) } });
  else out.push(c);
  return out;
}
function update(f, el) {
  f.props = el.props;
  if (typeof f.type === "function") {
    for (let i = 0; ; i++) {
      if (i > 50) throw new Error("too many re-renders");
      current = f; hook = 0; f.dirty = false;
      let out;
      try { out = f.type(f.props); } finally { current = null; }
      if (f.dirty) continue; // a state changed while rendering
      reconcile(f, flat([out], []));
      break;
    }
  } else if (f.type !== "null" && f.type !== "text") {
    reconcile(f, flat([f.props.children], []));
    f.dom = f.dom || __world.element(f);
    setRef(f, f.dom);
  }
}
function reconcile(f, els) {
  const old = f.children;
  f.children = els.map((el, i) => {
    let k = el.key !== undefined && el.key !== null ? old.findIndex((c) => c && c.key === el.key && c.type === el.type)
      : (old[i] && old[i].type === el.type && (old[i].key === undefined || old[i].key === null) ? i : -1);
    let c;
    if (k >= 0) { c = old[k]; old[k] = null; } else c = make(el);
    c.parent = f;
    update(c, el);
    return c;
  });
  old.forEach((c) => c && unmount(c));
}
function setRef(f, v) {
  const ref = f.props.ref;
  if (f.ref && f.ref !== ref) {
    if (typeof f.ref === "function") f.ref(null); else f.ref.current = null;
  }
  if (ref && typeof ref === "function" && (f.ref !== ref || v === null)) ref(v);
  else if (ref && typeof ref !== "function") ref.current = v;
  f.ref = v === null ? null : ref || null;
}
function unmount(f) {
  f.unmounted = true;
  for (const h of f.hooks) if (h.effect && h.cleanup) h.cleanup();
  if (f.props.ref && typeof f.type !== "function") setRef(f, null);
  f.children.forEach(unmount);
}
function renderDirty(f) {
  if (f.dirty && typeof f.type === "function") update(f, { props: f.props });
  else f.children.forEach(renderDirty);
}
function effects(f, layout) {
  f.children.forEach((c) => effects(c, layout));
  for (const h of f.hooks) {
    if (!h.effect || h.layout !== layout || !h.due) continue;
    h.due = false;
    if (h.cleanup) h.cleanup();
    const c = h.fn();
    h.cleanup = typeof c === "function" ? c : null;
  }
}
function commit() {
  for (let i = 0; ; i++) {
    if (i > 50) throw new Error("too many layout updates");
    effects(root, true);
    // An update by a layout effect is rendered before the page is painted.
    if (!anyDirty(root)) break;
    renderDirty(root);
  }
  __world.painted(root);
  if (!pending) {
    pending = true;
    __world.later("effect", flushEffects);
  }
}
const anyDirty = (f) => f.dirty || f.children.some(anyDirty);
function flushEffects() {
  if (!pending) return;
  pending = false;
  effects(root, false);
}
const React = { useSyncExternalStore, useId, useTransition, startTransition, useDeferredValue, useDebugValue, useImperativeHandle, useInsertionEffect, forwardRef, useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useContext, createContext, createElement, memo, Fragment, StrictMode };
export default React;
`;

const router = String.raw`
import { useState, useMemo, useCallback } from "react";
export function useSearchParams() {
  const [search, setSearch] = useState(__world.search);
  __world.onNavigate = setSearch;
  const params = useMemo(() => new URLSearchParams(search), [search]);
  const set = useCallback((next) => {
    const p = typeof next === "function" ? next(new URLSearchParams(__world.search)) : next;
    __world.navigate("?" + new URLSearchParams(p));
  }, []);
  return [params, set];
}
export function useLocation() {
  const [search, setSearch] = useState(__world.search);
  __world.onNavigate = setSearch;
  return { pathname: "/", search, hash: "", state: null, key: "default" };
}
export const createSearchParams = (x) => new URLSearchParams(x);
export const useNavigate = () => useCallback((to) => {
  const search = typeof to === "string" ? new URL(to, "http://page/").search : to.search || "";
  __world.navigate("?" + new URLSearchParams(search));
}, []);
export const Link = "a", NavLink = "a", BrowserRouter = "fragment", Routes = "fragment", Route = "fragment";
`;

// What a page may use of lodash, as lodash defines it.
const lodash = String.raw`
const values = (c) => c === null || c === undefined ? [] : Array.isArray(c) ? c : typeof c === "string" ? [...c] : Object.values(c);
const random = (n) => __world.random(n);
const get = (x, path, other) => {
  const v = (Array.isArray(path) ? path : String(path).split(".")).reduce((o, k) => o === null || o === undefined ? undefined : o[k], x);
  return v === undefined ? other : v;
};
const isEqual = (a, b) => Object.is(a, b) || (typeof a === "object" && typeof b === "object" && a !== null && b !== null &&
  Array.isArray(a) === Array.isArray(b) && Object.keys(a).length === Object.keys(b).length && Object.keys(a).every((k) => k in b && isEqual(a[k], b[k])));
const by = (f) => typeof f === "function" ? f : f === undefined || f === null ? (x) => x : Array.isArray(f) ? (x) => isEqual(get(x, f[0]), f[1]) :
  typeof f === "object" ? (x) => Object.keys(f).every((k) => isEqual(get(x, k), f[k])) : (x) => get(x, f);
const keyed = (c) => Array.isArray(c) || typeof c === "string" ? values(c).map((v, i) => [v, i]) : Object.entries(c || {}).map(([k, v]) => [v, k]);
const order = (c, fs, desc) => {
  fs = [].concat(fs === undefined || fs === null || fs.length === 0 ? [undefined] : fs).map(by);
  return values(c).map((x, i) => ({ x, i, k: fs.map((f) => f(x)) }))
    .sort((a, b) => {
      for (let j = 0; j < fs.length; j++) {
        const sign = desc && desc[j] === "desc" ? -1 : 1;
        if (a.k[j] < b.k[j]) return -sign;
        if (a.k[j] > b.k[j]) return sign;
      }
      return a.i - b.i;
    }).map((e) => e.x);
};
const wait = (f, ms, leading) => {
  let timer = null, args = null;
  const g = (...a) => {
    args = a;
    if (leading && timer === null) { f(...args); args = null; }
    if (!leading && timer !== null) clearTimeout(timer);
    if (!leading || timer === null) timer = setTimeout(() => { timer = null; if (args) f(...args); args = null; }, ms);
  };
  g.cancel = () => { if (timer !== null) clearTimeout(timer); timer = null; args = null; };
  g.flush = () => { if (timer !== null) { clearTimeout(timer); timer = null; if (args) f(...args); args = null; } };
  return g;
};
const _ = {
  values, get, isEqual,
  sample: (c) => { const v = values(c); return v[random(v.length)]; },
  sampleSize: (c, n = 1) => {
    const v = values(c).slice(), out = [];
    while (out.length < n && v.length) out.push(v.splice(random(v.length), 1)[0]);
    return out;
  },
  shuffle: (c) => _.sampleSize(c, values(c).length),
  random: (a, b) => b === undefined ? random(a + 1) : a + random(b - a + 1),
  sortBy: (c, ...fs) => order(c, fs.flat()), orderBy: (c, fs, desc) => order(c, fs, desc === undefined ? [] : [].concat(desc)),
  floor: Math.floor, ceil: Math.ceil, round: Math.round,
  map: (c, f) => keyed(c).map(([v, k]) => by(f)(v, k, c)), flatMap: (c, f) => keyed(c).flatMap(([v, k]) => by(f)(v, k, c)),
  filter: (c, f) => keyed(c).filter(([v, k]) => by(f)(v, k, c)).map((e) => e[0]), reject: (c, f) => keyed(c).filter(([v, k]) => !by(f)(v, k, c)).map((e) => e[0]),
  find: (c, f) => (keyed(c).find(([v, k]) => by(f)(v, k, c)) || [])[0], findIndex: (c, f) => values(c).findIndex(by(f)),
  some: (c, f) => keyed(c).some(([v, k]) => by(f)(v, k, c)), every: (c, f) => keyed(c).every(([v, k]) => by(f)(v, k, c)),
  forEach: (c, f) => { for (const [v, k] of keyed(c)) if (f(v, k, c) === false) break; return c; },
  reduce: (c, f, ...init) => values(c).reduce((a, v, i) => f(a, v, i, c), ...init),
  includes: (c, x) => typeof c === "string" ? c.includes(x) : values(c).includes(x),
  keys: (c) => Object.keys(c || {}), entries: (c) => Object.entries(c || {}), toPairs: (c) => Object.entries(c || {}), fromPairs: (c) => Object.fromEntries(c || []),
  keyBy: (c, f) => Object.fromEntries(values(c).map((v) => [by(f)(v), v])),
  groupBy: (c, f) => { const out = {}; for (const v of values(c)) (out[by(f)(v)] = out[by(f)(v)] || []).push(v); return out; },
  mapValues: (c, f) => Object.fromEntries(Object.entries(c || {}).map(([k, v]) => [k, by(f)(v, k, c)])),
  pick: (c, ...ks) => Object.fromEntries(ks.flat().filter((k) => c && k in c).map((k) => [k, c[k]])),
  omit: (c, ...ks) => Object.fromEntries(Object.entries(c || {}).filter(([k]) => !ks.flat().includes(k))),
  has: (c, k) => c !== null && c !== undefined && Object.prototype.hasOwnProperty.call(c, k),
  size: (c) => values(c).length, isEmpty: (c) => values(c).length === 0,
  isNil: (x) => x === null || x === undefined, isString: (x) => typeof x === "string", isFunction: (x) => typeof x === "function",
  isUndefined: (x) => x === undefined, isNull: (x) => x === null, isArray: Array.isArray, isNumber: (x) => typeof x === "number",
  take: (c, n = 1) => values(c).slice(0, n), drop: (c, n = 1) => values(c).slice(n), slice: (c, a, b) => values(c).slice(a, b),
  head: (c) => values(c)[0], first: (c) => values(c)[0], last: (c) => values(c)[values(c).length - 1],
  reverse: (c) => c.reverse(), compact: (c) => values(c).filter(Boolean), flatten: (c) => values(c).flat(), concat: (...c) => [].concat(...c),
  uniq: (c) => [...new Set(values(c))], uniqBy: (c, f) => { const seen = new Set(); return values(c).filter((v) => !seen.has(by(f)(v)) && seen.add(by(f)(v))); },
  difference: (c, ...d) => values(c).filter((v) => !d.flat().includes(v)), without: (c, ...d) => values(c).filter((v) => !d.includes(v)),
  zip: (...c) => values(c[0]).map((_, i) => c.map((x) => x[i])), range: (a, b, s = 1) => { if (b === undefined) [a, b] = [0, a]; const out = []; for (let i = a; s > 0 ? i < b : i > b; i += s) out.push(i); return out; },
  times: (n, f) => [...Array(n).keys()].map(f ?? ((x) => x)),
  max: (c) => values(c).length ? values(c).reduce((a, b) => b > a ? b : a) : undefined, min: (c) => values(c).length ? values(c).reduce((a, b) => b < a ? b : a) : undefined,
  sum: (c) => values(c).reduce((a, b) => a + b, 0), clamp: (x, a, b) => b === undefined ? Math.min(x, a) : Math.min(Math.max(x, a), b),
  trim: (x) => String(x ?? "").trim(), toLower: (x) => String(x ?? "").toLowerCase(), toUpper: (x) => String(x ?? "").toUpperCase(), join: (c, s) => values(c).join(s),
  split: (x, s) => String(x ?? "").split(s), startsWith: (x, y) => String(x ?? "").startsWith(y), words: (x) => String(x ?? "").split(/\s+/).filter(Boolean),
  noop: () => {}, identity: (x) => x, constant: (x) => () => x, cloneDeep: (x) => structuredClone(x), clone: (x) => Array.isArray(x) ? x.slice() : { ...x }, merge: Object.assign, assign: Object.assign,
  once: (f) => { let done = false, v; return (...a) => { if (!done) { done = true; v = f(...a); } return v; }; },
  memoize: (f) => { const m = new Map(); return (x, ...a) => { if (!m.has(x)) m.set(x, f(x, ...a)); return m.get(x); }; },
  debounce: (f, ms = 0) => wait(f, ms, false), throttle: (f, ms = 0) => wait(f, ms, true), delay: (f, ms, ...a) => setTimeout(f, ms, ...a), defer: (f, ...a) => setTimeout(f, 1, ...a),
};
_.each = _.forEach;
// Anything else is of Lodash itself.
module.exports = new Proxy(_, { get: (t, k) => k in t || typeof k !== "string" || k === "default" || k === "__esModule" ? t[k] : __world.lodash(k) });
`;

// Any component of the library is a node with the props and children it has.
const semantic = String.raw`
const component = (n) => new Proxy((p) => ({ type: "ui." + n, props: p.action === undefined ? p : { ...p, children: [p.action, p.children] } }), {
  get: (t, k) => typeof k === "string" && /^[A-Z]/.test(k) ? (made[n + "." + k] = made[n + "." + k] || component(n + "." + k)) : t[k],
});
const made = {};
module.exports = Object.create(new Proxy({}, { get: (_, n) => typeof n === "string" && /^[A-Z]/.test(n) ? (made[n] = made[n] || component(n)) : undefined }));
`;

// Finds what has the query in one of its keys, which Fuse finds in any case.
const fuse = String.raw`
const at = (item, path) => path.split(".").reduce((v, k) => v === null || v === undefined ? undefined : v[k], item);
export default class Fuse {
  constructor(list, options) { this.o = options || {}; this.list = [...(list || [])]; }
  setCollection(list) { this.list = [...list]; }
  add(item) { this.list.push(item); }
  remove(f) { const out = this.list.filter((x, i) => f(x, i)); this.list = this.list.filter((x, i) => !f(x, i)); return out; }
  search(query, opts) {
    const fold = (s) => this.o.isCaseSensitive ? s : s.toLowerCase();
    const q = fold(String(query));
    if (!q) return [];
    const found = [];
    this.list.forEach((item, refIndex) => {
      let best = -1;
      const values = typeof item === "string" ? [item] : (this.o.keys || []).flatMap((k) => {
        const path = typeof k === "string" ? k : Array.isArray(k) ? k.join(".") : Array.isArray(k.name) ? k.name.join(".") : k.name;
        const v = k.getFn ? k.getFn(item) : this.o.getFn ? this.o.getFn(item, path) : at(item, path);
        return Array.isArray(v) ? v : [v];
      });
      for (const v of values) {
        if (typeof v !== "string") continue;
        const i = fold(v).indexOf(q);
        if (i >= 0 && (best < 0 || i < best)) best = i;
      }
      if (best >= 0) found.push({ item, refIndex, score: best / 100 });
    });
    found.sort((a, b) => a.score - b.score || a.refIndex - b.refIndex);
    return opts && opts.limit > 0 ? found.slice(0, opts.limit) : found;
  }
}`;
const hangul = String.raw`
const cho = [..."ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"];
const jung = ["ㅏ", "ㅐ", "ㅑ", "ㅒ", "ㅓ", "ㅔ", "ㅕ", "ㅖ", "ㅗ", "ㅗㅏ", "ㅗㅐ", "ㅗㅣ", "ㅛ", "ㅜ", "ㅜㅓ", "ㅜㅔ", "ㅜㅣ", "ㅠ", "ㅡ", "ㅡㅣ", "ㅣ"];
const jong = ["", "ㄱ", "ㄲ", "ㄱㅅ", "ㄴ", "ㄴㅈ", "ㄴㅎ", "ㄷ", "ㄹ", "ㄹㄱ", "ㄹㅁ", "ㄹㅂ", "ㄹㅅ", "ㄹㅌ", "ㄹㅍ", "ㄹㅎ", "ㅁ", "ㅂ", "ㅂㅅ", "ㅅ", "ㅆ", "ㅇ", "ㅈ", "ㅊ", "ㅋ", "ㅌ", "ㅍ", "ㅎ"];
const compat = { "ㄳ": "ㄱㅅ", "ㄵ": "ㄴㅈ", "ㄶ": "ㄴㅎ", "ㄺ": "ㄹㄱ", "ㄻ": "ㄹㅁ", "ㄼ": "ㄹㅂ", "ㄽ": "ㄹㅅ", "ㄾ": "ㄹㅌ", "ㄿ": "ㄹㅍ", "ㅀ": "ㄹㅎ", "ㅄ": "ㅂㅅ", "ㅘ": "ㅗㅏ", "ㅙ": "ㅗㅐ", "ㅚ": "ㅗㅣ", "ㅝ": "ㅜㅓ", "ㅞ": "ㅜㅔ", "ㅟ": "ㅜㅣ", "ㅢ": "ㅡㅣ" };
export function disassemble(s, grouped) {
  if (s === null) throw new Error("Arguments cannot be null");
  const out = (typeof s === "object" ? s.join("") : String(s)).split("").map((c) => {
    const n = c.charCodeAt(0) - 0xac00;
    if (n >= 0 && n < 11172) return [...cho[Math.floor(n / 588)] + jung[Math.floor(n % 588 / 28)] + jong[n % 28]];
    return [...(compat[c] || c)];
  });
  return grouped ? out : out.flat();
}
export const d = disassemble;
export const disassembleToString = (s) => disassemble(s).join("");
export const isHangul = (c) => { const n = String(c).charCodeAt(0) - 0xac00; return n >= 0 && n < 11172; };
export const isCho = (c) => cho.includes(c), isConsonant = (c) => cho.includes(c) || /[ㄱ-ㅎ]/.test(c), isVowel = (c) => /[ㅏ-ㅣ]/.test(c);
export default { disassemble, d, disassembleToString, isHangul, isCho, isConsonant, isVowel };`;

const comlink = `
const { wrap, expose, proxy, releaseProxy, transfer } = __world.comlink;
export { wrap, expose, proxy, releaseProxy, transfer };
`;

// The Go runtime of a WebAssembly program.
const wasmExec = `globalThis.Go = class { constructor() { this.importObject = {}; } run(instance) { return __world.run(instance); } };`;

async function bundle(name, entry) {
  const esbuild = require(process.argv[3]);
  const stubs = {
    "react": react, "react/jsx-runtime": `export * from "react"`, "react/jsx-dev-runtime": `export * from "react"`,
    "react-router-dom": router, "lodash": lodash, "semantic-ui-react": semantic, "fuse.js": fuse, "hangul-js": hangul,
    "comlink": comlink, "wasm_exec": wasmExec, "manifest": `module.exports = __world.manifest`,
  };
  const out = await esbuild.build({
    stdin: { contents: entry, resolveDir: src, loader: "tsx" },
    bundle: true, write: false, format: "iife", platform: "browser", target: "es2020",
    jsx: "automatic", charset: "utf8", logLevel: "silent",
    loader: { ".css": "empty", ".svg": "empty", ".wasm": "empty" },
    define: { "import.meta.url": '"http://page/static/main.js"', "process.env.PUBLIC_URL": '""', "process.env.NODE_ENV": '"production"' },
    plugins: [{
      name: "stubs",
      setup(b) {
        b.onResolve({ filter: /.*/ }, (a) => {
          if (/(^|\/)wasm_exec(\.js)?$/.test(a.path)) return { path: "wasm_exec", namespace: "stub" };
          if (/(^|\/)manifest\.json$/.test(a.path)) return { path: "manifest", namespace: "stub" };
          if (a.path === "lodash-es") return { path: "lodash", namespace: "stub" };
          if (/^lodash(-es)?\/\w+$/.test(a.path)) return { path: a.path, namespace: "lodash" };
          if (a.path in stubs) return { path: a.path, namespace: "stub" };
          if (/\.less$/.test(a.path)) return { path: a.path, namespace: "none" };
        });
        b.onLoad({ filter: /.*/, namespace: "stub" }, (a) => ({ contents: stubs[a.path], loader: "js", resolveDir: src }));
        b.onLoad({ filter: /.*/, namespace: "lodash" }, (a) => ({ contents: `module.exports = require("lodash").${a.path.replace(/^.*\/|\.js$/g, "")}`, loader: "js", resolveDir: src }));
        b.onLoad({ filter: /.*/, namespace: "none" }, () => ({ contents: "", loader: "js" }));
      },
    }],
  });
  fs.writeFileSync(path.join(dir, name + ".js"), out.outputFiles[0].text);
}

async function bundles() {
  await bundle("page", `import App from "./components/App"; import { mount, jsx } from "react"; __world.start = () => mount(jsx(App, {}));`);
  await bundle("hangulize.worker", `import "./hangulize/hangulize.worker"`);
  await bundle("translit.worker", `import "./hangulize/translit.worker"`);
}

const scripts = {};
if (!bundling) for (const n of ["page", "hangulize.worker", "translit.worker"]) scripts[n] = new vm.Script(fs.readFileSync(path.join(dir, n + ".js"), "utf8"), { filename: n });

// -------------------------------------------------------------------- world

class World {
  constructor(c) {
    this.c = c;
    this.now = 0;
    this.seq = 0;
    this.events = [];
    this.used = {};
    this.rnd = 0;
    this.log = [];
    this.errors = [];
    this.workers = [];
    this.search = c.search;
    this.onNavigate = new Set();
  }
  random(n) { return n > 0 ? this.c.random[this.rnd++ % this.c.random.length] % n : 0; }
  // The i-th delay of a kind of thing.
  delay(kind) {
    const d = this.c.delays[kind];
    if (!d || !d.length) return 0;
    const i = this.used[kind] = (this.used[kind] ?? -1) + 1;
    return d[i % d.length];
  }
  at(t, f) { const e = { t: Math.max(t, this.now), n: this.seq++, f }; this.events.push(e); return e; }
  cancel(e) { const i = this.events.indexOf(e); if (i >= 0) this.events.splice(i, 1); }
  later(kind, f) { return this.at(this.now + this.delay(kind), f); }
  sleep(kind) { return new Promise((r) => this.later(kind, r)); }
  error(what, e) {
    this.errors.push(what + ": " + (e && e.message !== undefined ? e.message : String(e)));
  }
  async run() {
    for (let i = 0; i < 20000; i++) {
      await drain();
      if (!this.events.length) return true;
      let k = 0;
      this.events.forEach((e, j) => { const m = this.events[k]; if (e.t < m.t || (e.t === m.t && e.n < m.n)) k = j; });
      const [e] = this.events.splice(k, 1);
      this.now = e.t;
      try { e.f(); } catch (err) { this.error("uncaught", err); }
    }
    return false;
  }
  navigate(search) {
    this.search = search;
    for (const f of this.onNavigate) f(search);
  }
  // The page, as a user sees it.
  painted(root) {
    const p = { t: this.now, result: null, resultLoading: false, loading: false, word: null, lang: null, version: "", options: [], examples: [], size: null, title: this.document.title };
    const text = (f) => f.type === "text" ? f.props.text : f.children.map(text).join("");
    this.handlers = { examples: [] };
    const walk = (f) => {
      const cls = String(f.props.className || "").split(/\s+/);
      if (f.type === "ui.Input") {
        p.word = f.props.value; p.loading = !!f.props.loading;
        this.handlers.type = (w) => f.props.onChange(happened({ value: w }), { ...f.props, value: w });
      } else if (f.type === "ui.Dropdown") {
        p.lang = f.props.value;
        p.options = (f.props.options || []).map((o) => [o.value, o.text]);
        this.handlers.select = (l) => f.props.onChange(happened({}), { ...f.props, value: l });
        this.handlers.find = (q) => f.props.search(f.props.options || [], q);
        this.options = f.props.options || [];
      } else if (typeof f.type !== "function" && cls.includes("result")) {
        p.result = text(f); p.resultLoading = cls.includes("loading");
        p.size = cls.find((x) => /^size-/.test(x)) || null;
      } else if (cls.includes("version") && typeof f.type !== "function") p.version = text(f);
      else if (f.props.as === "a" && typeof f.type !== "function" || f.type === "a" && f.props.to !== undefined) {
        p.examples.push(text(f));
        this.handlers.examples.push([text(f), f.props.to]);
      } else if (f.type === "ui.Icon" && f.props.name === "shuffle") this.handlers.shuffle = () => f.props.onClick(happened({}), f.props);
      f.children.forEach(walk);
    };
    walk(root);
    this.log.push(p);
  }
  element(f) {
    const world = this;
    const shown = (c) => c.type === "null" ? [] : typeof c.type === "function" || c.type === "fragment" ? c.children.flatMap(shown) : [c];
    const all = () => f.children.flatMap(shown);
    const dom = (c) => c && (c.dom = c.dom || world.element(c));
    return {
      get firstChild() { return dom(all()[0]) || null; },
      get lastChild() { return dom(all().pop()) || null; },
      get childNodes() { return all().map(dom); },
      get children() { return all().filter((c) => c.type !== "text").map(dom); },
      get childElementCount() { return this.children.length; },
      get firstElementChild() { return this.children[0] || null; },
      get lastElementChild() { return this.children.pop() || null; },
      get parentElement() { return dom(f.parent) || null; },
      querySelector(q) { return this.querySelectorAll(q)[0] || null; },
      querySelectorAll(q) {
        const out = [], want = q.trim().split(/[\s>]+/).pop();
        const walk = (c) => { if (c.type === want || want[0] === "." && String(c.props.className || "").split(/\s+/).includes(want.slice(1))) out.push(dom(c)); c.children.forEach(walk); };
        f.children.forEach(walk);
        return out;
      },
      get offsetHeight() { return world.height(f); },
      get clientHeight() { return world.height(f); },
      get scrollHeight() { return world.height(f); },
      getBoundingClientRect() { const h = world.height(f); return { x: 0, y: 0, top: 0, left: 0, right: 1000, bottom: h, width: 1000, height: h }; },
      get textContent() { return world.text(f); },
      get className() { return f.props.className; },
      get tagName() { return String(f.type).toUpperCase(); },
      focus() {}, blur() {}, addEventListener() {}, removeEventListener() {},
    };
  }
  text(f) { return f.type === "text" ? f.props.text : f.children.map((c) => this.text(c)).join(""); }
  // The height of the result in the size of its class.
  height(f) {
    let m = null;
    for (let p = f; p && !m; p = p.parent) m = /size-(\d)/.exec(p.props && p.props.className || "");
    const size = m ? Number(m[1]) : 1;
    // A letter beyond ASCII is twice as wide.
    const width = [...this.text(f)].reduce((n, ch) => n + (ch.codePointAt(0) < 128 ? 1 : 2), 0);
    return width * size * this.c.letter;
  }
}
// An event of the user.
const happened = (target) => ({ target, currentTarget: target, preventDefault() {}, stopPropagation() {}, persist() {}, nativeEvent: {} });
const drain = () => new Promise((r) => setImmediate(() => setImmediate(r)));

// A WebAssembly program on its way.
function download(world, u) {
  const url = String(u && u.url !== undefined ? u.url : u);
  const r = {
    url, ok: true, status: 200, statusText: "OK", headers: new Map([["content-type", "application/wasm"]]), clone: () => r,
    arrayBuffer: async () => Object.assign(new ArrayBuffer(8), { url }), bytes: async () => Object.assign(new Uint8Array(8), { url }),
  };
  return r;
}

function context(world, extra) {
  const timers = {};
  let timerID = 0;
  const timer = (e) => { timers[++timerID] = e; return timerID; };
  const stop = (id) => { if (timers[id]) { world.cancel(timers[id]); delete timers[id]; } };
  const compile = async (r) => { const { url } = await r; await world.sleep("compile"); return { url }; };
  class Instance { constructor(module) { this.url = module.url; this.exports = {}; } }
  const g = {
    URL, URLSearchParams, structuredClone, TextEncoder, TextDecoder,
    setTimeout: (f, ms, ...a) => { const e = world.at(world.now + Math.max(0, Number(ms) || 0), () => f(...a)); return timer(e); },
    clearTimeout: stop, clearInterval: stop,
    setInterval: (f, ms, ...a) => {
      const id = timer(null), next = () => { timers[id] = world.at(world.now + Math.max(1, Number(ms) || 0), () => { next(); f(...a); }); };
      next();
      return id;
    },
    queueMicrotask, performance: { now: () => world.now }, AbortController, AbortSignal, Event, EventTarget, DOMException, URLPattern: globalThis.URLPattern,
    requestAnimationFrame: (f) => timer(world.later("render", () => f(world.now))), cancelAnimationFrame: stop,
    requestIdleCallback: (f) => timer(world.later("effect", () => f({ didTimeout: false, timeRemaining: () => 50 }))), cancelIdleCallback: stop,
    setImmediate: (f, ...a) => timer(world.at(world.now, () => f(...a))), navigator: { language: "ko", languages: ["ko"], userAgent: "page", onLine: true },
    get location() { return new URL("http://page/" + (world.search || "")); },
    console: { log() {}, info() {}, warn() {}, debug() {}, error: (e) => { world.consoleErrors = (world.consoleErrors || 0) + 1; } },
    fetch: async (u) => { await world.sleep("fetch"); return download(world, u); },
    WebAssembly: {
      Instance, Module: Object,
      compile, compileStreaming: compile,
      instantiateStreaming: async (r) => { const module = await compile(r); return { module, instance: new Instance(module) }; },
      instantiate: async (r) => {
        if (Object.getPrototypeOf(r) === Object.prototype) return new Instance(r); // a module
        const module = await compile(r);
        return { module, instance: new Instance(module) };
      },
    },
    atob, btoa, crypto: globalThis.crypto,
    ...extra,
  };
  g.globalThis = g; g.self = g;
  if (g.document) g.window = g;
  return vm.createContext(g);
}

const PROXY = Symbol("proxy");

// Two ends of a connection: messages arrive in order, each after its delay.
function connection(world, kind) {
  const end = () => ({ queue: [], handler: null, busy: 0 });
  const a = end(), b = end();
  const link = (from, to) => {
    from.post = (m) => {
      to.busy = Math.max(to.busy, world.now + world.delay("message"));
      world.at(to.busy, () => { if (to.handler) to.handler(m); else to.queue.push(m); });
    };
    from.start = (h) => { from.handler = h; from.queue.splice(0).forEach(h); };
  };
  link(a, b); link(b, a);
  return [a, b];
}

let theLodash;
function realLodash(k) {
  if (theLodash === undefined) {
    try { theLodash = require("/opt/veriftools/quint/node_modules/lodash"); } catch (e) { theLodash = {}; }
  }
  return theLodash[k];
}

function comlinkOf(world, scope) {
  const send = (v) => {
    if (v !== null && (typeof v === "object" || typeof v === "function") && v[PROXY]) return { proxy: serve(v) };
    return { clone: structuredClone(v) };
  };
  const receive = (m) => m.proxy ? remote(m.proxy) : m.clone;
  function serve(target) {
    const [a, b] = connection(world);
    attach(a, target);
    return b;
  }
  function attach(end, target) {
    end.start((m) => {
      if (m.type !== "call") return;
      (async () => {
        const args = m.args.map(receive);
        let f = target, self = undefined;
        for (const k of m.path) { self = f; f = f[k]; }
        if (m.get) return f;
        if (typeof f !== "function") throw new TypeError("rawValue.apply is not a function");
        return await f.apply(self, args);
      })().then((v) => ({ value: send(v) })).catch((e) => ({ error: e instanceof Error || (e && e.message !== undefined) ? { message: e.message } : { message: String(e) } }))
        .then((r) => end.post({ type: "reply", id: m.id, ...r }));
    });
  }
  function remote(end) {
    let id = 0;
    const waiting = {};
    end.start((m) => {
      if (m.type !== "reply") return;
      const w = waiting[m.id]; delete waiting[m.id];
      if (m.error) w.reject(Object.assign(new Error(m.error.message))); else w.resolve(receive(m.value));
    });
    const ask = (m) => new Promise((resolve, reject) => { waiting[++id] = { resolve, reject }; end.post({ type: "call", id, ...m }); });
    const at = (path) => new Proxy(function () {}, {
      get(_, k) {
        if (k === "then") {
          if (!path.length) return undefined;
          const p = ask({ path, args: [], get: true });
          return p.then.bind(p);
        }
        if (k === releaseProxy) return () => {};
        if (typeof k === "symbol") return undefined;
        return at([...path, k]);
      },
      apply(_, __, args) { return new Promise((ok) => ok(ask({ path, args: args.map(send) }))); },
    });
    return at([]);
  }
  const releaseProxy = Symbol("release");
  return {
    wrap: (worker) => remote(worker.__end),
    expose: (target, at) => { const s = at && at.__end ? at : scope(); if (s && s.__end) attach(s.__end, target); },
    proxy: (v) => Object.assign(v, { [PROXY]: true }),
    transfer: (v) => v,
    releaseProxy,
  };
}

// What the WebAssembly programs define.
function programs(world, g) {
  return (instance) => {
    const name = instance.url.split("/").pop();
    world.started.push(name);
    if (name === "hangulize.wasm") {
      const fns = {};
      const h = async (lang, word, traceFn) => {
        const spec = world.c.workerSpecs[lang];
        if (!spec) throw new Error("unknown lang");
        world.jobs.push({ t: world.now, lang, word });
        await world.sleep("job");
        let w = word;
        for (const s of spec.lang.translit || []) {
          if (!fns[s]) throw new Error("no translit " + s);
          w = await fns[s](w);
          if (typeof w !== "string") throw new Error("not a string");
        }
        if ([...word].includes("!")) throw new Error("broken");
        return lang + "(" + w + ")";
      };
      h.version = world.c.version;
      h.specs = world.c.workerSpecs;
      h.useTranslit = (m, fn) => { if (typeof fn !== "function") throw new TypeError("no function"); if (fns[m]) return false; fns[m] = fn; world.translits.push(m); return true; };
      g.hangulize = h;
    } else {
      const m = /^(\w+)\.translit\.wasm$/.exec(name);
      if (!m) return Promise.reject(new Error("no such program: " + name));
      const t = (method, word) => {
        if (typeof word !== "string" || method.replace(/\[.*$/, "") !== m[1]) throw new Error("a wrong call of " + name + ": " + method);
        return method + "{" + word + "}";
      };
      t.version = world.c.version;
      g.translit = t;
    }
    return new Promise(() => {});
  };
}

async function play(c) {
  const world = new World(c);
  world.started = []; world.jobs = []; world.translits = [];
  world.manifest = { version: "manifest", specs: c.specs, translits: c.translits };
  world.document = { title: "", addEventListener() {}, removeEventListener() {}, visibilityState: "visible", hidden: false };
  const unhandled = (e) => world.error("unhandled", e);
  process.on("unhandledRejection", unhandled);

  class Worker {
    constructor(url) {
      const name = String(url).split("/").pop().replace(/\.(ts|js)$/, "");
      world.workers.push(name);
      const [a, b] = connection(world);
      this.__end = a;
      if (!scripts[name]) { world.error("worker", new Error("no such worker: " + name)); return; }
      const view = {};
      const g = context(world, { __end: b, __world: view });
      view.run = programs(world, g);
      view.comlink = comlinkOf(world, () => g);
      view.lodash = realLodash;
      world.later("worker", () => scripts[name].runInContext(g));
    }
    terminate() {}
    postMessage() {}
  }
  const listeners = {};
  const window = {
    addEventListener: (n, f) => { (listeners[n] = listeners[n] || new Set()).add(f); },
    removeEventListener: (n, f) => { if (listeners[n]) listeners[n].delete(f); },
  };
  const page = {
    manifest: world.manifest,
    run: () => Promise.resolve(), // the page itself runs no program
    comlink: comlinkOf(world, () => null),
    lodash: realLodash,
    get search() { return world.search; },
    set onNavigate(f) { world.onNavigate.add(f); },
  };
  for (const k of ["later", "painted", "element", "navigate", "random"]) page[k] = world[k].bind(world);
  const g = context(world, {
    Worker, document: world.document, ...window, __world: page,
    getComputedStyle: () => ({ maxHeight: c.capacity + "px" }),
  });
  world.at(0, () => { scripts.page.runInContext(g); page.start(); });

  const done = [];
  for (const a of c.actions || []) {
    world.at(a.at, () => {
      const h = world.handlers;
      if (!h) return;
      const last = world.log[world.log.length - 1];
      const e = { t: world.now, do: a.do };
      switch (a.do) {
        case "type": h.type(a.word); e.word = a.word; e.lang = last.lang; break;
        case "select": if (!last.options.some((o) => o[0] === a.lang)) return; h.select(a.lang); e.lang = a.lang; e.word = last.word; break;
        case "example": {
          if (!h.examples.length) return;
          const [word, to] = h.examples[a.n % h.examples.length];
          const at = typeof to === "string" ? new URL(to, "http://page/") : new URL("http://page/" + (to.search ? to.search.replace(/^\??/, "?") : ""));
          world.navigate(at.search);
          e.word = word; e.lang = last.lang; break;
        }
        case "find": h.find(a.word); break;
        case "shuffle": if (h.shuffle) h.shuffle(); break;
        case "resize": if (a.n > 0) c.capacity = a.n; for (const f of listeners.resize || []) f(); break;
      }
      page.flush();
      done.push(e);
    });
  }
  const quiet = await world.run();
  process.off("unhandledRejection", unhandled);
  const menu = (c.queries ? world.options : []).map((o) => ({ ...o }));
  const found = (c.queries || []).map((q) => {
    try {
      return world.handlers.find(q).map((o) => ({ value: o.value, text: o.text }));
    } catch (e) { world.error("search", e); return []; }
  });
  return {
    menu, found,
    quiet, done, log: world.log, errors: world.errors, started: world.started, workers: world.workers,
    translits: world.translits, jobs: world.jobs, search: world.search, title: world.document.title, now: world.now,
  };
}

if (bundling) {
  bundles().catch((e) => { console.error("cannot bundle the page: " + e.message); process.exit(1); });
} else {
  let queue = Promise.resolve();
  require("readline").createInterface({ input: process.stdin }).on("line", (line) => {
    queue = queue.then(async () => {
      const a = await play(JSON.parse(line)).catch((e) => ({ errors: ["driver: " + e.stack] }));
      fs.writeSync(1, JSON.stringify(a) + "\n");
    });
  }).on("close", () => { queue.then(() => process.exit(0)); });
}
