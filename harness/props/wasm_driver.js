// Runs the WebAssembly builds in Node: a JSON request per line of the standard
// input, a JSON answer per line of the standard output.
"use strict";
const fs = require("fs");
const path = require("path");
const dir = process.argv[2];
globalThis.require = require;
globalThis.fs = undefined;
require(process.argv[3]); // wasm_exec.js

const modules = {};
async function start(name) {
  if (!modules[name]) modules[name] = await WebAssembly.compile(fs.readFileSync(path.join(dir, name)));
  const go = new Go();
  const instance = await WebAssembly.instantiate(modules[name], go.importObject);
  go.run(instance).then(
    () => { console.error(name + " ended"); process.exit(3); },
    (e) => { console.error(name + ": " + (e && e.stack)); process.exit(3); });
}
// Wait until the program has set all of its globals.
async function ready(ok) {
  for (let i = 0; i < 20000 && !ok(); i++) await new Promise((r) => setTimeout(r, 1));
  if (!ok()) { console.error("a program did not start"); process.exit(3); }
}

const translits = {};
async function translit(kind) {
  if (!translits[kind]) {
    delete globalThis.translit;
    await start(kind + ".translit.wasm");
    await ready(() => globalThis.translit && globalThis.translit.version !== undefined);
    translits[kind] = globalThis.translit;
  }
  return translits[kind];
}

let fresh = null; // the latest fresh instance
let shared = null;
let mock = null; // its Translits behave as told for each case
const behaviours = {};
async function hangulizer(kind) {
  if (kind === "fresh") return fresh;
  if (kind === "shared" && shared) return shared;
  if (kind === "mock" && mock) return mock;
  delete globalThis.hangulize;
  await start("hangulize.wasm");
  await ready(() => globalThis.hangulize && globalThis.hangulize.useTranslit);
  const h = globalThis.hangulize;
  if (kind === "new") fresh = h; else if (kind === "mock") mock = h; else shared = h;
  return h;
}

const plain = (e) => (e instanceof Error ? { error: e.message } : { error: "not an Error: " + String(e), odd: true });

// A promise can be rejected by any value.
function reason(b) {
  switch (b.by) {
    case "string": return b.reject;
    case "number": return 1;
    case "null": return null;
    case "undefined": return undefined;
    case "object": return {};
    case "symbol": return Symbol("s");
    case "function": return () => {};
    default: return new Error(b.reject);
  }
}

function transliterator(b) {
  let n = 0;
  return (word) => {
    if (typeof word !== "string") return Promise.reject(new Error("not a string"));
    const f = () => {
      if (b.reject !== undefined && [...word].length % b.every === 0) throw reason(b);
      return b.prefix + word;
    };
    const delay = b.delays[n++ % b.delays.length];
    if (delay > 0) return new Promise((resolve, reject) => setTimeout(() => { try { resolve(f()); } catch (e) { reject(e); } }, delay));
    try { return Promise.resolve(f()); } catch (e) { return Promise.reject(e); }
  };
}

async function call(h, c) {
  const traces = [];
  try {
    const p = c.trace ? h(c.lang, c.word, (t) => { traces.push(t); }) : h(c.lang, c.word);
    if (!(p instanceof Promise)) return { error: "not a Promise", odd: true };
    const result = await p;
    if (typeof result !== "string") return { error: "not a string", odd: true };
    return { result, traces };
  } catch (e) {
    return plain(e);
  }
}

async function handle(q) {
  switch (q.op) {
    case "meta": {
      const h = await hangulizer("shared");
      const out = { version: h.version, specs: h.specs, translits: {} };
      for (const k of ["cyrillic", "furigana", "pinyin"]) out.translits[k] = (await translit(k)).version;
      return out;
    }
    case "new":
      await hangulizer("new");
      return {};
    case "mock": {
      const first = !mock;
      const h = await hangulizer("mock");
      let ok = true;
      for (const [scheme, b] of Object.entries(q.behaviours)) {
        behaviours[scheme] = transliterator(b);
        if (first) ok = h.useTranslit(scheme, (word) => behaviours[scheme](word)) === true && ok;
      }
      return { ok };
    }
    case "use": {
      const h = await hangulizer(q.kind);
      let fn;
      if (q.module) {
        const t = await translit(q.module);
        fn = async (word) => {
          const r = t(q.scheme, word);
          if (r instanceof Error) throw r;
          return r;
        };
      } else fn = transliterator(q.behaviour);
      return { ok: h.useTranslit(q.scheme, fn) };
    }
    case "calls": {
      const h = await hangulizer(q.kind);
      if (!q.together) {
        const out = [];
        for (const c of q.calls) out.push(await call(h, c));
        return { calls: out };
      }
      return { calls: await Promise.all(q.calls.map((c) => call(h, c))) };
    }
    case "translit": {
      const t = await translit(q.module);
      const r = t(q.scheme, q.word);
      return r instanceof Error ? plain(r) : { result: r };
    }
  }
  return { error: "unknown op" };
}

let queue = Promise.resolve();
require("readline").createInterface({ input: process.stdin }).on("line", (line) => {
  queue = queue.then(async () => {
    const a = await handle(JSON.parse(line));
    fs.writeSync(1, JSON.stringify(a) + "\n");
  });
}).on("close", () => { queue.then(() => process.exit(0)); });
