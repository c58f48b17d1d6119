// Stand-in for bn.js: the same results, on BigInt.
"use strict";
const parse = (s, base) => {
  s = String(s).replace(/\s+/g, "");
  let neg = false;
  if (s[0] === "-") { neg = true; s = s.slice(1); }
  let v = 0n;
  const b = BigInt(base);
  for (const c of s) {
    const d = parseInt(c, 36);
    if (Number.isNaN(d) || d >= base) throw new Error("Invalid character in " + s);
    v = v * b + BigInt(d);
  }
  return neg ? -v : v;
};
class BN {
  constructor(number, base, endian) {
    if (BN.isBN(number)) return number;
    this.v = 0n;
    if (number === null) return;
    if (base === "le" || base === "be") { endian = base; base = 10; }
    number = number || 0; base = base || 10; endian = endian || "be";
    if (typeof number === "number") {
      if (!Number.isInteger(number) || Math.abs(number) >= 0x20000000000000) throw new Error("Assertion failed");
      this.v = BigInt(number);
    } else if (typeof number === "object") {
      const a = Array.from(number);
      if (endian === "le") a.reverse();
      for (const x of a) this.v = (this.v << 8n) | BigInt(x);
    } else {
      if (base === "hex") base = 16;
      this.v = parse(number, base);
    }
  }
  static isBN(x) { return x instanceof BN; }
  static of(v) { const b = new BN(0); b.v = v; return b; }
  get negative() { return this.v < 0n ? 1 : 0; }
  clone() { return BN.of(this.v); }
  toString(base, pad) {
    base = base === "hex" ? 16 : base || 10;
    let s = (this.v < 0n ? -this.v : this.v).toString(base);
    pad = pad | 0 || 1;
    while (s.length % pad) s = "0" + s;
    return this.v < 0n ? "-" + s : s;
  }
  toJSON() { return this.toString(16, 2); }
  toNumber() { return Number(this.v); }
  byteLength() { return Math.ceil(this.bitLength() / 8); }
  bitLength() { return this.v === 0n ? 0 : (this.v < 0n ? -this.v : this.v).toString(2).length; }
  toArray(endian, length) {
    const n = Math.max(length || this.byteLength(), 1);
    if (this.byteLength() > n) throw new Error("byte array longer than desired length");
    const a = new Array(n).fill(0);
    let x = this.v < 0n ? -this.v : this.v;
    for (let i = n - 1; i >= 0; i--) { a[i] = Number(x & 255n); x >>= 8n; }
    return endian === "le" ? a.reverse() : a;
  }
  toArrayLike(T, endian, length) { return T.from(this.toArray(endian, length)); }
  toBuffer(endian, length) { return Buffer.from(this.toArray(endian, length)); }
  neg() { return BN.of(-this.v); }
  ineg() { this.v = -this.v; return this; }
  abs() { return BN.of(this.v < 0n ? -this.v : this.v); }
  add(b) { return BN.of(this.v + b.v); }
  iadd(b) { this.v += b.v; return this; }
  sub(b) { return BN.of(this.v - b.v); }
  isub(b) { this.v -= b.v; return this; }
  mul(b) { return BN.of(this.v * b.v); }
  imul(b) { this.v *= b.v; return this; }
  muln(n) { return BN.of(this.v * BigInt(n)); }
  addn(n) { return BN.of(this.v + BigInt(n)); }
  subn(n) { return BN.of(this.v - BigInt(n)); }
  sqr() { return BN.of(this.v * this.v); }
  div(b) { return BN.of(this.v / b.v); }
  mod(b) { return BN.of(this.v % b.v); }
  umod(b) { const m = b.v < 0n ? -b.v : b.v; return BN.of(((this.v % m) + m) % m); }
  modn(n) { return Number(this.v % BigInt(n)); }
  shln(n) { return BN.of(this.v << BigInt(n)); }
  shrn(n) { return BN.of(this.v >> BigInt(n)); }
  ushrn(n) { return this.shrn(n); }
  and(b) { return BN.of(this.v & b.v); }
  or(b) { return BN.of(this.v | b.v); }
  xor(b) { return BN.of(this.v ^ b.v); }
  testn(i) { return ((this.v >> BigInt(i)) & 1n) === 1n; }
  invm(num) {
    const m = num.v;
    let [a, b, x, y] = [((this.v % m) + m) % m, m, 1n, 0n];
    while (a !== 0n) { const q = b / a; [a, b, x, y] = [b - q * a, a, y - q * x, x]; }
    // like bn.js, gives 0 for 0
    return BN.of(((this.v % m === 0n ? 0n : y) % m + m) % m);
  }
  powm(e, m) {
    let r = 1n, b = ((this.v % m.v) + m.v) % m.v;
    for (let k = e.v; k > 0n; k >>= 1n) { if (k & 1n) r = r * b % m.v; b = b * b % m.v; }
    return BN.of(r % m.v);
  }
  cmp(b) { return this.v < b.v ? -1 : this.v > b.v ? 1 : 0; }
  ucmp(b) { return this.abs().cmp(b.abs()); }
  cmpn(n) { return this.cmp(BN.of(BigInt(n))); }
  eq(b) { return this.v === b.v; }
  eqn(n) { return this.v === BigInt(n); }
  lt(b) { return this.v < b.v; }
  lte(b) { return this.v <= b.v; }
  gt(b) { return this.v > b.v; }
  gte(b) { return this.v >= b.v; }
  ltn(n) { return this.v < BigInt(n); }
  lten(n) { return this.v <= BigInt(n); }
  gtn(n) { return this.v > BigInt(n); }
  gten(n) { return this.v >= BigInt(n); }
  isZero() { return this.v === 0n; }
  isNeg() { return this.v < 0n; }
  isOdd() { return (this.v & 1n) === 1n; }
  isEven() { return (this.v & 1n) === 0n; }
}
BN.BN = BN;
module.exports = BN;
module.exports.default = BN;
