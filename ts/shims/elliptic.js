// Stand-in for elliptic's short curve secp256k1: affine arithmetic on BigInt.
"use strict";
const BN = require("bn.js");
const P = 2n ** 256n - 2n ** 32n - 977n;
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const md = (x) => { x %= P; return x < 0n ? x + P : x; };
const pw = (b, e) => { let r = 1n; for (b = md(b); e > 0n; e >>= 1n) { if (e & 1n) r = r * b % P; b = b * b % P; } return r; };
const inv = (x) => pw(x, P - 2n);
const big = (x) => (typeof x === "bigint" ? x : new BN(x, 16).v);
class Point {
  constructor(curve, x, y) {
    this.curve = curve; this.inf = x === null; this._x = x; this._y = y;
    // null on the point at infinity, like elliptic's coordinates
    this.x = x === null ? null : BN.of(x);
    this.y = y === null ? null : BN.of(y);
  }
  isInfinity() { return this.inf; }
  getX() { return this.x.clone(); }
  getY() { return this.y.clone(); }
  eq(q) { return this === q || (this.inf === q.inf && (this.inf || (this._x === q._x && this._y === q._y))); }
  neg() { return this.inf ? this : new Point(this.curve, this._x, md(-this._y)); }
  dbl() {
    if (this.inf || this._y === 0n) return new Point(this.curve, null, null);
    const l = md(3n * this._x * this._x * inv(2n * this._y));
    const x = md(l * l - 2n * this._x);
    return new Point(this.curve, x, md(l * (this._x - x) - this._y));
  }
  add(q) {
    if (this.inf) return q;
    if (q.inf) return this;
    if (this._x === q._x) return this._y === q._y ? this.dbl() : new Point(this.curve, null, null);
    const l = md((q._y - this._y) * inv(md(q._x - this._x)));
    const x = md(l * l - this._x - q._x);
    return new Point(this.curve, x, md(l * (this._x - x) - this._y));
  }
  mul(k) {
    let e = big(k);
    let b = this;
    if (e < 0n) { e = -e; b = b.neg(); }
    if (b.inf || e === 0n) return new Point(this.curve, null, null);
    // Jacobian double-and-add, most significant bit first
    let X = 0n, Y = 1n, Z = 0n;
    for (const c of e.toString(2)) {
      if (Z !== 0n) {
        const YY = Y * Y % P, S = 4n * X * YY % P, M = 3n * X * X % P;
        const x = md(M * M - 2n * S);
        Z = 2n * Y * Z % P;
        Y = md(M * (S - x) - 8n * YY * YY);
        X = x;
      }
      if (c === "1") {
        if (Z === 0n) { X = b._x; Y = b._y; Z = 1n; continue; }
        const ZZ = Z * Z % P, H = md(b._x * ZZ - X), R = md(b._y * ZZ % P * Z - Y);
        if (H === 0n) {
          // equal or opposite points: leave it to the affine law
          const i = inv(Z), q = new Point(this.curve, md(X * i * i), md(Y * i * i % P * i)).add(b);
          if (q.inf) { X = 0n; Y = 1n; Z = 0n; } else { X = q._x; Y = q._y; Z = 1n; }
          continue;
        }
        const HH = H * H % P, HHH = HH * H % P, V = X * HH % P;
        const x = md(R * R - HHH - 2n * V);
        Y = md(R * (V - x) - Y * HHH);
        X = x;
        Z = Z * H % P;
      }
    }
    if (Z === 0n) return new Point(this.curve, null, null);
    const i = inv(Z), i2 = i * i % P;
    return new Point(this.curve, X * i2 % P, Y * i2 % P * i % P);
  }
  mulAdd(k1, q, k2) { return this.mul(k1).add(q.mul(k2)); }
  validate() { return this.inf || md(this._y * this._y) === md(this._x ** 3n + 7n); }
  encode(enc, compact) {
    const h = (v) => v.toString(16).padStart(64, "0");
    const s = compact ? (this._y & 1n ? "03" : "02") + h(this.getX().v) : "04" + h(this.getX().v) + h(this.getY().v);
    return enc === "hex" ? s : Array.from(Buffer.from(s, "hex"));
  }
  encodeCompressed(enc) { return this.encode(enc, true); }
}
const curve = {
  type: "short",
  p: BN.of(P), n: BN.of(N),
  point(x, y) { return x === null ? new Point(curve, null, null) : new Point(curve, md(big(x)), md(big(y))); },
  pointFromX(x, odd) {
    const X = md(big(x));
    const y2 = md(X ** 3n + 7n);
    let y = pw(y2, (P + 1n) / 4n);
    if (md(y * y) !== y2) throw new Error("invalid point");
    const isOdd = (y & 1n) === 1n;
    if ((odd && !isOdd) || (!odd && isOdd)) y = md(-y);
    return new Point(curve, X, y);
  },
  decodePoint(bytes, enc) {
    const b = typeof bytes === "string" ? Buffer.from(bytes, "hex") : Buffer.from(bytes);
    const int = (s) => BigInt("0x" + s.toString("hex"));
    if ((b[0] === 4 || b[0] === 6 || b[0] === 7) && b.length === 65) {
      return new Point(curve, md(int(b.subarray(1, 33))), md(int(b.subarray(33))));
    }
    if ((b[0] === 2 || b[0] === 3) && b.length === 33) return curve.pointFromX(BN.of(int(b.subarray(1))), b[0] === 3);
    throw new Error("Unknown point format");
  },
  validate(p) { return p.validate(); },
};
curve.g = new Point(curve, 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n);
class KeyPair {
  constructor(pub, priv) { this.pub = pub; this.priv = priv; }
  getPublic(compact, enc) {
    if (typeof compact === "string") { enc = compact; compact = false; }
    if (!this.pub) this.pub = curve.g.mul(this.priv);
    return enc ? this.pub.encode(enc, compact) : this.pub;
  }
  getPrivate() { return this.priv; }
}
class EC {
  constructor(name) {
    if (name !== "secp256k1") throw new Error("Assertion failed");
    this.curve = curve; this.n = curve.n; this.g = curve.g;
  }
  keyFromPublic(pub, enc) { return pub instanceof KeyPair ? pub : new KeyPair(pub instanceof Point ? pub : curve.decodePoint(pub, enc)); }
  keyFromPrivate(k, enc) { return new KeyPair(null, new BN(k, enc || 16).umod(curve.n)); }
}
module.exports = { ec: EC };
