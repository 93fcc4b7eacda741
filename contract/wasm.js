// node wasm.js MODULE search CONTRACT SEED SECS OUT | node wasm.js MODULE replay FILE
// Exit status as of the native driver: 0 held, 1 violated.
const fs = require('fs');
const [path, mode, ...args] = process.argv.slice(2);
const module_ = new WebAssembly.Module(fs.readFileSync(path));
const fresh = () => {
  const x = new WebAssembly.Instance(module_, {}).exports;
  return x;
};
const text = (x) => Buffer.from(x.memory.buffer, x.contract_text(), x.contract_text_len()).toString();
let x = fresh();
x.contract_list();
const all = text(x).split('\n').map((l) => l.split(' '));
const find = (name) => all.findIndex((c) => c[0] === name);
// A case is named by two words; [outcome, what was said].
const run = (n, hi, lo, log) => {
  if (all[n][1] === '1') x = fresh();
  try {
    const r = x.contract_run(n, hi, lo, log ? 1 : 0);
    return [r, r === 3 || log ? text(x) : ''];
  } catch (e) {
    let what = String(e), counts = 1;
    try { counts = x.contract_panic(); what = 'unexpected panic: ' + text(x) + ' (' + what + ')'; } catch (_) { }
    x = fresh();
    return counts ? [3, what] : [2, ''];
  }
};
if (mode === 'replay') {
  const t = fs.readFileSync(args[0], 'utf8');
  const name = /^contract: (.*)$/m.exec(t)[1].trim();
  const [, hi, lo] = /^wasm32 case: (\d+) (\d+)$/m.exec(t);
  const [r, said] = run(find(name), Number(hi), Number(lo), true);
  console.log(r === 3 ? 'violated: ' + said : 'held');
  process.exit(r === 3 ? 1 : 0);
}
const [name, seed, secs, out] = args;
const n = find(name);
if (n < 0) { console.error('no contract ' + name); process.exit(2); }
const end = Date.now() + Number(secs) * 1000;
let evaluations = 0, skipped = 0, reached = 0, lo = 0, sample = '';
while (Date.now() < end) {
  for (let k = 0; k < 8; k++, lo++) {
    const [r, said] = run(n, Number(seed), lo, false);
    if (r === 3) {
      const [r2, s2] = run(n, Number(seed), lo, true);
      const lines = (r2 === 3 ? s2 : said).split('\n');
      const t = 'contract: ' + name + '\nviolated: ' + lines[0] + '\ncase (on wasm32, 32-bit usize):\n  '
        + lines.slice(1).join('\n  ') + '\nwasm32 case: ' + seed + ' ' + lo + '\n';
      fs.writeFileSync(out, t);
      process.stdout.write(t);
      process.exit(1);
    }
    if (r === 2) skipped++; else { evaluations++; reached += r; }
    if (r === 1 && !sample) sample = run(n, Number(seed), lo, true)[1].split('\n').join('; ').slice(0, 700);
  }
}
console.log(JSON.stringify({ contract: name, evaluations, skipped, distinct_nontrivial: reached, sample }));
