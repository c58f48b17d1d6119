// Independent secp256k1: multiples of the generator come from OpenSSL, the rest is plain
// affine arithmetic.
import { createECDH } from "crypto";
import { P, N, hex } from "./lib.mjs";
export const md = (x, m) => { x %= m; return x < 0n ? x + m : x; };
export const inv = (a, m) => { let [r0, r1, s0, s1] = [m, md(a, m), 0n, 1n]; while (r1) { const q = r0 / r1; [r0, r1, s0, s1] = [r1, r0 - q * r1, s1, s0 - q * s1]; } return md(s0, m); };
/** k*G; null is the point at infinity */
export const G = (k) => {
  k = md(k, N);
  if (k === 0n) return null;
  const e = createECDH("secp256k1");
  e.setPrivateKey(Buffer.from(hex(k), "hex"));
  const b = e.getPublicKey();
  return [BigInt("0x" + b.subarray(1, 33).toString("hex")), BigInt("0x" + b.subarray(33).toString("hex"))];
};
export const add = (a, b) => {
  if (!a) return b;
  if (!b) return a;
  let l;
  if (a[0] === b[0]) {
    if (md(a[1] + b[1], P) === 0n) return null;
    l = 3n * a[0] * a[0] * inv(2n * a[1], P);
  } else l = (b[1] - a[1]) * inv(b[0] - a[0], P);
  l = md(l, P);
  const x = md(l * l - a[0] - b[0], P);
  return [x, md(l * (a[0] - x) - a[1], P)];
};
/** k*p by a fixed-length ladder over projective coordinates X/Z, Y/Z with complete formulas (b3 = 21) */
const cadd = ([X1, Y1, Z1], [X2, Y2, Z2]) => {
  const t0 = X1 * X2 % P, t1 = Y1 * Y2 % P, t2 = Z1 * Z2 % P;
  const t3 = (X1 + Y1) * (X2 + Y2) - t0 - t1, t4 = (Y1 + Z1) * (Y2 + Z2) - t1 - t2, t5 = (X1 + Z1) * (X2 + Z2) - t0 - t2;
  const z = t1 + 21n * t2, w = t1 - 21n * t2, y = 21n * t5, x = 3n * t0;
  return [md(t3 * w - t4 * y, P), md(w * z + x * y, P), md(z * t4 + x * t3, P)];
};
export const mul = (k, p) => {
  if (!p) return null;
  let r = [0n, 1n, 0n], q = [p[0], p[1], 1n];
  for (k = md(k, N); k > 0n; k >>= 1n) { if (k & 1n) r = cadd(r, q); q = cadd(q, q); }
  if (r[2] === 0n) return null;
  const i = inv(r[2], P);
  return [md(r[0] * i, P), md(r[1] * i, P)];
};
const pw = (b, e) => { let r = 1n; for (b = md(b, P); e > 0n; e >>= 1n) { if (e & 1n) r = r * b % P; b = b * b % P; } return r; };
export const lift = (x, odd) => {
  if (x >= P) return null;
  const c = md(x ** 3n + 7n, P);
  const y = pw(c, (P + 1n) / 4n);
  if (y * y % P !== c) return null;
  return [x, (y & 1n) === (odd ? 1n : 0n) ? y : P - y];
};
export const isX = (x) => lift(x, false) !== null;
/** ECDSA with a given nonce; null when r or s is 0 */
export const sign = (d, m, k) => {
  const R = G(k);
  if (!R) return null;
  const r = md(R[0], N);
  const s = md(inv(k, N) * (m + r * d), N);
  if (r === 0n || s === 0n) return null;
  return { r, s, odd: R[1] & 1n, R, Q: G(d), over: R[0] >= N };
};
/** Keccak-256 (the original padding), and the address of a public key. */
const M64 = 2n ** 64n - 1n;
const rol = (x, n) => (n ? ((x << BigInt(n)) | (x >> BigInt(64 - n))) & M64 : x);
export const keccak256 = (msg) => {
  const rate = 136, b = Buffer.alloc(Math.floor(msg.length / rate + 1) * rate);
  Buffer.from(msg).copy(b);
  b[msg.length] ^= 1;
  b[b.length - 1] ^= 128;
  let a = Array(25).fill(0n);
  for (let o = 0; o < b.length; o += rate) {
    for (let i = 0; i < rate / 8; i++) a[i] ^= b.readBigUInt64LE(o + 8 * i);
    let lfsr = 1;
    for (let round = 0; round < 24; round++) {
      const c = [0, 1, 2, 3, 4].map((x) => a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]);
      a = a.map((v, i) => v ^ c[(i + 4) % 5] ^ rol(c[(i + 1) % 5], 1));
      const e = [...a];
      for (let t = 0, x = 1, y = 0, r = 0; t < 24; t++) {
        r = (r + t + 1) % 64;
        [x, y] = [y, (2 * x + 3 * y) % 5, e[y + 5 * ((2 * x + 3 * y) % 5)] = rol(a[x + 5 * y], r)];
      }
      a = e.map((v, i) => v ^ (~e[(i - (i % 5)) + ((i + 1) % 5)] & M64 & e[(i - (i % 5)) + ((i + 2) % 5)]));
      for (let j = 0; j < 7; j++) {
        if (lfsr & 1) a[0] ^= 1n << BigInt(2 ** j - 1);
        lfsr = lfsr & 128 ? ((lfsr << 1) & 255) ^ 0x71 : lfsr << 1;
      }
    }
  }
  const out = Buffer.alloc(32);
  for (let i = 0; i < 4; i++) out.writeBigUInt64LE(a[i], 8 * i);
  return out;
};
export const address = (Q) => BigInt("0x" + keccak256(Buffer.from(Q.map((x) => x.toString(16).padStart(64, "0")).join(""), "hex")).subarray(12).toString("hex"));
