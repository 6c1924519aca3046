// node run.js FILE.wasm < LIST: what the native binary prints
const fs = require('fs');
const KINDS = ["sampling", "blending", "ltm", "skinning", "motion", "tracks", "aim", "twobone", "math", "skeleton", "names"];
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let instance = new WebAssembly.Instance(module_, {});
const out = [];
for (const line of fs.readFileSync(0, 'utf8').trim().split('\n')) {
  const [seed, steps, code] = line.split(' ').map(BigInt);
  const n = Number(steps) + 2; // and the skeleton, names
  let p;
  try {
    p = instance.exports.run_scenario(Number(seed >> 32n) >>> 0, Number(seed & 0xffffffffn) >>> 0, n - 2, Number(code)) >>> 0;
  } catch (e) {
    out.push('panic');
    instance = new WebAssembly.Instance(module_, {});
    continue;
  }
  const u = new Uint32Array(instance.exports.memory.buffer, p, 3 * n);
  const l = [];
  for (let k = 0; k < n; k++)
    l.push(KINDS[u[3 * k]] + ':' + u[3 * k + 1].toString(16).padStart(8, '0') + u[3 * k + 2].toString(16).padStart(8, '0'));
  out.push(l.join(' '));
}
fs.writeFileSync(1, out.join('\n') + '\n');
