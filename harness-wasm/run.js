// reads "KIND SEED STEPS" lines, writes one line for each: "digest HEX" or "trap TEXT"
'use strict';
const fs = require('fs');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let text = '', instance = null;
function start() {
  text = '';
  instance = new WebAssembly.Instance(module_, { env: { panicked(at, len) {
    text = Buffer.from(new Uint8Array(instance.exports.memory.buffer, at, len)).toString().replace(/\s+/g, ' ');
  } } });
  return instance.exports.prepare();
}
const big = (x) => BigInt.asIntN(64, BigInt(x));
const hex = (x) => BigInt.asUintN(64, x).toString(16).padStart(16, '0');
let used = 0;
function answer(line) {
  const w = line.split(' ');
  try {
    if (!instance) { const bits = start(); if (w[0] === 'hello') return 'bits ' + bits; }
    if (w[0] === 'hello') return 'bits ' + instance.exports.prepare();
    if (w[0] === 'canary') return 'digest ' + hex(instance.exports.canary(big(w[1])));
    const d = hex(instance.exports.work(big(w[0]), big(w[1]), big(w[2])));
    // memory never shrinks: begin anew before there is none left
    if (instance.exports.memory.buffer.byteLength > 2e9) instance = null;
    return 'digest ' + d;
  } catch (e) {
    const t = text || String(e).replace(/\s+/g, ' ');
    instance = null;
    return 'trap ' + t;
  }
}
let rest = '';
process.stdin.on('data', (d) => {
  rest += d;
  let k;
  while ((k = rest.indexOf('\n')) >= 0) {
    const line = rest.slice(0, k);
    rest = rest.slice(k + 1);
    fs.writeSync(1, answer(line) + '\n');
  }
});
