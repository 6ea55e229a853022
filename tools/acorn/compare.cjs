// Reads the model's answers (lines of JSON, see mc/cmd/mc/dump.go) and compares
// them with those of acorn. Prints every kind of difference with its number and
// some examples.
const acorn = require(process.env.ACORN || '/opt/veriftools/node/node_modules/acorn');
const vm = require('vm');
const rl = require('readline').createInterface({ input: process.stdin });
const opts = m => ({ ecmaVersion: 2025, sourceType: m === 1 ? 'module' : 'script' });

// Early errors that the model leaves out on purpose.
const early = [/^Unsyntactic (break|continue)/, /^Label '.*' is already declared/, /^Argument name clash/, /^Invalid regular expression/,
  /^Identifier '.*' has already been declared/, /^Redefinition of __proto__/];

function eq(w, g, path) {
  if (w === null || w === undefined) return g === null || g === undefined ? '' : path + ': expected null';
  if (Array.isArray(w)) {
    if (typeof g === 'string') { // UTF-16 code units
      if (w.length !== g.length) return path + ': string length';
      for (let i = 0; i < w.length; i++) if (w[i] !== g.charCodeAt(i)) return path + ': string';
      return '';
    }
    if (!Array.isArray(g)) return path + ': expected a list';
    if (w.length !== g.length) return path + ': length ' + w.length + ' / ' + g.length;
    for (let i = 0; i < w.length; i++) { const d = eq(w[i], g[i], path + '[]'); if (d) return d; }
    return '';
  }
  if (typeof w === 'object') {
    if (!g || typeof g !== 'object') return path + ': expected ' + w.type;
    if (w.type !== '#regex' && w.type !== g.type) return path + ': ' + w.type + ' / ' + g.type;
    for (const k in w) {
      if (k === 'type') continue;
      if (w[k] === false && g[k] === undefined) continue;
      if (k === 'directive' && !w[k] && g[k] === undefined) continue;
      const d = eq(w[k], g[k], path + '.' + k); if (d) return d;
    }
    for (const k in g) {
      if (k in w || k === 'type' || k === 'start' || k === 'end' || k === 'raw' && w.type !== 'Literal') continue;
      if (g[k] === false || g[k] === null || g[k] === undefined || Array.isArray(g[k]) && !g[k].length) continue;
      if (g.regex && k === 'value') continue;
      return path + '.' + k + ': not in the model';
    }
    return '';
  }
  return Object.is(w, g) ? '' : path + ': ' + JSON.stringify(w) + ' / ' + JSON.stringify(g);
}

// A second opinion on scripts: does V8 compile it?
function v8(r) {
  if (r.mode !== 0) return undefined;
  try { new vm.Script(r.src); return true; } catch (e) { return false; }
}

const kinds = new Map();
let n = 0, same = 0, skipped = 0;
function note(kind, src, r) {
  if (r) {
    const a = v8(r);
    if (a === (r.verdict === 'accept')) kind = 'V8 agrees with the model: ' + kind;
  }
  const k = kinds.get(kind) || { n: 0, ex: [] };
  k.n++;
  if (k.ex.length < 2) k.ex.push(src);
  kinds.set(kind, k);
}
rl.on('line', line => {
  const r = JSON.parse(line);
  n++;
  let tree = null, err = null;
  try {
    if (r.mode === 2) {
      const p = new acorn.Parser(opts(0), r.src, 0);
      p.nextToken();
      tree = p.parseExpression();
      if (p.type !== acorn.tokTypes.eof) throw new SyntaxError('text after the expression');
    } else tree = acorn.parse(r.src, opts(r.mode));
  } catch (e) {
    err = e; tree = null;
    if (!(e instanceof SyntaxError) && !(e instanceof RangeError)) throw e;
    if (e instanceof RangeError) { skipped++; return; }
  }
  const msg = err && err.message.replace(/ \(\d+:\d+\)$/, '');
  if (r.verdict === 'unspec' && !tree) skipped++;
  else if (r.verdict !== 'reject') {
    if (tree) {
      const d = eq(r.tree, tree, r.tree.type);
      if (d) note('tree: ' + d, r.src); else same++;
    } else if (r.soft || early.some(x => x.test(msg))) skipped++;
    else note('only the model accepts: ' + msg.replace(/'.*'/, "'...'"), r.src, r);
  } else if (tree) note('only acorn accepts: ' + r.why, r.src, r);
  else same++;
});
rl.on('close', () => {
  let s = `same ${same} of ${n}, ${skipped} skipped\n`;
  for (const [k, v] of [...kinds].sort((a, b) => b[1].n - a[1].n).slice(0, 40)) s += `  ${v.n} ${k}\n      ${v.ex.map(x => JSON.stringify(x)).join('\n      ')}\n`;
  process.stdout.write(s);
});
