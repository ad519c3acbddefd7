// node wasm.js FILE PLACE SEED FROM TO   or   node wasm.js FILE PLACE SEED case K
const fs = require('fs');
const [file, place, seed, from, to] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(file));
let inst;
const lines = [];
const fresh = () => {
  inst = new WebAssembly.Instance(mod, { env: { tell: (p, n, v) => lines.push(Buffer.from(inst.exports.memory.buffer, p, n).toString() + '\t' + (v >>> 0).toString(16).padStart(8, '0')) } });
  inst.exports.place(Number(place));
};
fresh();
const lo = Number(BigInt(seed) & 0xffffffffn), hi = Number(BigInt(seed) >> 32n);
if (from === 'case') {
  let end = 'end';
  try { inst.exports.case_log(lo, hi, Number(to)); } catch (e) { if (!(e instanceof WebAssembly.RuntimeError)) throw e; end = 'panic'; }
  lines.push(end);
} else {
  for (let k = Number(from); k < Number(to); k++) {
    try {
      const h = BigInt.asUintN(64, inst.exports.hash(lo, hi, k));
      lines.push(k + ' ' + h.toString(16).padStart(16, '0') + ' ' + inst.exports.words());
    } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError)) throw e;
      lines.push(k + ' panic 0');
      fresh();
    }
  }
}
fs.writeSync(1, lines.join('\n') + '\n');
