// Runs batches of calls on instances of the web parser bundle.
//
//   node driver.js WASM_EXEC BUNDLE
//
// Every line on standard input is a JSON list of texts; each batch gets a fresh
// instance of the bundle. The answer is a JSON list of
// {"result": ...}, {"error": ...}, {"other": ...} or {"threw": ...}.
"use strict";
globalThis.require = require;
globalThis.fs = require("fs");
globalThis.path = require("path");
require(path.resolve(process.argv[2]));

const bundle = new WebAssembly.Module(fs.readFileSync(process.argv[3]));

// Whatever the bundle prints must not end up between the answers.
const reply = (s) => fs.writeSync(1, s + "\n");
console.log = console.error;

async function instance() {
  const go = new Go();
  let exited = null;
  go.exit = (code) => { exited = code; };
  let loaded;
  const parser = new Promise((resolve) => { loaded = resolve; });
  globalThis.parserLoaded = (p) => loaded(p);
  const inst = await WebAssembly.instantiate(bundle, go.importObject);
  go.run(inst).catch((e) => { exited = e; });
  return { parse: await parser, exited: () => exited };
}

async function batch(calls) {
  const { parse, exited } = await instance();
  const out = [];
  for (const text of calls) {
    let r;
    try {
      const v = parse(text);
      if (v && typeof v.result === "string" && v.error === undefined) r = { result: v.result };
      else if (v && typeof v.error === "string" && v.result === undefined) r = { error: v.error };
      else r = { other: JSON.stringify(v) + "" };
    } catch (e) {
      r = { threw: String(e) };
    }
    if (exited() !== null) r.exited = String(exited());
    out.push(r);
  }
  return out;
}

const rl = require("readline").createInterface({ input: process.stdin, terminal: false });
let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let out;
    try {
      out = await batch(JSON.parse(line));
    } catch (e) {
      out = [{ threw: "instance: " + e }];
    }
    reply(JSON.stringify(out));
  });
});
rl.on("close", () => { chain.then(() => process.exit(0)); });
