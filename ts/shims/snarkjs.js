// Stand-in for snarkjs's witness calculation: the "wasm file" is a text naming a circuit of the
// repository; input handling as in circom_runtime's witness calculator.
"use strict";
const fs = require("fs");
const flat = (a, out) => { if (Array.isArray(a)) a.forEach((x) => flat(x, out)); else out.push(a); return out; };
const P = 2n ** 256n - 2n ** 32n - 977n;
exports.wtns = {
  async calculate(input, file, wtns) {
    if (globalThis.__wtns) return globalThis.__wtns(input, file, wtns);
    const native = globalThis.__native;
    const key = fs.readFileSync(file);
    const want = new Map(native("inputs", key).toString().trim().split("\n").map((l) => { const [n, k] = l.split("="); return [n, +k]; }));
    const lines = [];
    let given = 0;
    for (const k of Object.keys(input)) {
      const v = flat(input[k], []);
      if (!want.has(k)) throw new Error(`Signal ${k} not found\n`);
      if (v.length < want.get(k)) throw new Error(`Not enough values for input signal ${k}\n`);
      if (v.length > want.get(k)) throw new Error(`Too many values for input signal ${k}\n`);
      given += v.length;
      lines.push(k + "=" + v.map((x) => (((BigInt(x) % P) + P) % P).toString(16)).join(","));
    }
    const all = [...want.values()].reduce((a, b) => a + b, 0);
    if (given < all) throw new Error(`Not all inputs have been set. Only ${given} out of ${all}`);
    wtns.data = new Uint8Array(native("witness", key, Buffer.from(lines.join("\n"))));
  },
};
