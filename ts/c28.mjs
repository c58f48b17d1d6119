import { fc, ensure, attempt, hex, big, below, u256, P, N } from "./lib.mjs";
import * as ref from "./ref.mjs";
/** T and U for (r, parity, m) by the definition; null where no curve point has x = r, or r is not in 1..n-1 */
const expect = (r, odd, m) => {
  if (r <= 0n || r >= N) return null;
  const R = ref.lift(r, odd);
  if (!R) return null;
  const ri = ref.inv(r, N);
  const T = ref.mul(ri, R);
  const U = ref.G(-m * ri) || [0n, 0n];
  return { Tx: T[0], Ty: T[1], Ux: U[0], Uy: U[1] };
};
const eq = (a, b) => a && b && ["Tx", "Ty", "Ux", "Uy"].every((k) => a[k] === b[k]);
const int = (b) => (b.length ? BigInt("0x" + b.toString("hex")) : 0n);
/** message hashes: 32 bytes mostly; multiples of n and other lengths too */
const msg = fc.oneof(
  { weight: 6, arbitrary: u256 },
  { weight: 1, arbitrary: fc.constantFrom(hex(0n), hex(N), hex(1n), hex(N - 1n), "00".repeat(40), hex(N * 7n, 80)) },
  { weight: 1, arbitrary: fc.uint8Array({ minLength: 1, maxLength: 70, size: "max" }).map((a) => Buffer.from(a).toString("hex")) },
);
const vOf = (odd, k) => [27n, 35n, 309n, 27n, 45n, 2709n, 253n][k] + BigInt(odd);
const sigCase = fc.record({ d: below(N, 1n), k: below(N, 1n), m: msg, v: fc.integer({ min: 0, max: 6 }), rel: fc.integer({ min: 0, max: 15 }) }).map((c) => {
  // R a small multiple of mG, or of the key: T and U, or their coordinates, coincide
  const m = ref.md(int(Buffer.from(c.m, "hex")), N), to = { 0: m, 1: N - m, 2: ref.md(2n * m, N), 3: big(c.d), 4: N - big(c.d) }[c.rel];
  return to > 0n && to < N ? { ...c, k: hex(to) } : c;
});

export async function run(c, { lib }) {
  const { computeEffEcdsaPubInput: compute, verifyEffEcdsaPubInput: verify, PublicInput, CircuitPubInput } = lib;
  const verdict = (r, v, m, t) => verify(new PublicInput(r, v, m, new CircuitPubInput(t.root ?? 5n, t.Tx, t.Ty, t.Ux, t.Uy)));
  c.assume("elliptic, bn.js and @ethereumjs/util are replaced by stand-ins with the published behaviour (DESIGN.md); the oracle's generator multiples come from OpenSSL");

  await c.sub("signatures", 500, 20000, sigCase, async ({ d, k, m, v }, o) => {
    const msgHash = Buffer.from(m, "hex");
    const sg = ref.sign(big(d), int(msgHash), big(k));
    if (!sg || sg.over) return o.trivial();
    if (int(msgHash) % N === 0n) o.class("message is 0 mod n");
    o.class(sg.odd ? "odd" : "even");
    if (ref.md(big(k) - int(msgHash), N) === 0n) o.class("T is -U");
    if (ref.md(big(k) + int(msgHash), N) === 0n) o.class("T is U");
    const copy = Buffer.from(msgHash);
    const t = compute(sg.r, vOf(sg.odd, v), msgHash);
    ensure(copy.equals(msgHash), "the message hash was modified");
    const ri = ref.inv(sg.r, N);
    const T = ref.G(big(k) * ri), U = ref.G(-int(msgHash) * ri) || [0n, 0n];
    ensure(t.Tx === T[0] && t.Ty === T[1], "T is not r^-1 R");
    ensure(t.Ux === U[0] && t.Uy === U[1], "U is not -(m r^-1) G");
    // the relation the circuits check
    const Q = ref.add(ref.mul(sg.s, T), U[0] === 0n ? null : U);
    ensure(Q && Q[0] === sg.Q[0] && Q[1] === sg.Q[1], "s T + U is not the public key");
    ensure(verdict(sg.r, vOf(sg.odd, v), msgHash, t) === true, "the computed public input was refused");
  });

  await c.sub("any-r", 500, 20000, fc.record({ r: fc.oneof(below(N, 1n), fc.bigInt({ min: 1n, max: 400n }).map((x) => hex(x)), fc.bigInt({ min: 1n, max: 400n }).map((x) => hex(N - x))), v: fc.integer({ min: 0, max: 255 }), m: msg }), async ({ r, v, m }, o) => {
    const e = expect(big(r), ((v % 2) + 2) % 2 === 0, int(Buffer.from(m, "hex")));
    const t = attempt(() => compute(big(r), BigInt(v), Buffer.from(m, "hex")));
    if (!e) {
      o.class("not an x-coordinate");
      ensure(!t.ok, "values were computed for an r that is no x-coordinate");
    } else {
      ensure(t.ok, () => `no values for a valid r: ${t.error}`);
      ensure(eq(t.value, e), "wrong T or U");
    }
  });

  const field = fc.constantFrom("r", "rV", "m", "Tx", "Ty", "Ux", "Uy");
  const how = fc.record({ f: field, kind: fc.integer({ min: 0, max: 9 }), x: u256, bit: fc.integer({ min: 0, max: 255 }) });
  await c.sub("altered", 800, 25000, fc.tuple(sigCase, fc.array(how, { minLength: 1, maxLength: 2 })), async ([{ d, k, m }, hows], o) => {
    const sg = ref.sign(big(d), int(Buffer.from(m, "hex")), big(k));
    if (!sg || sg.over) return o.trivial();
    let s = { r: sg.r, rV: 27n + sg.odd, m: Buffer.from(m, "hex"), ...expect(sg.r, sg.odd === 1n, int(Buffer.from(m, "hex"))) };
    const honest = { ...s };
    for (const h of hows) {
      const x = big(h.x);
      if (h.f === "rV") s.rV = [s.rV ^ 1n, s.rV + 2n, BigInt(h.bit), s.rV + 1n, 0n, 1n][h.kind % 6];
      else if (h.f === "m") {
        const b = Buffer.from(s.m);
        if (h.kind < 7) b[h.bit % b.length] ^= 1 << (h.bit % 8);
        else if (h.kind === 7) b.reverse();
        else if (h.kind === 8) { s.m = Buffer.concat([b, Buffer.from([h.bit])]); continue; }
        else { s.m = Buffer.from(hex(ref.md(int(b) + N, 2n ** 600n), 150), "hex"); continue; }
        s.m = b;
      } else {
        const v = s[h.f];
        const q = h.f === "r" ? N : P;
        const other = { Tx: s.Ty, Ty: s.Tx, Ux: s.Tx, Uy: s.Ty, r: s.Tx }[h.f];
        s[h.f] = [x, v ^ (1n << BigInt(h.bit)), ref.md(-v, q), v + q, v + 1n, other, 0n, v + P, ref.md(v * x, q), v - q][h.kind];
      }
    }
    const e = s.rV >= 0n ? expect(s.r, (s.rV & 1n) === 0n, int(s.m)) : null;
    const want = !!(e && eq(s, e));
    const got = attempt(() => verdict(s.r, s.rV, s.m, s));
    ensure(got.ok, () => `verification threw: ${got.error}`);
    ensure(got.value === want, `verification returned ${got.value} for ${want ? "a correct" : "an incorrect"} public input`);
    o.class(want ? "still correct" : "incorrect");
    if (!hows.length || eq(s, honest) && s.r === honest.r && s.rV === honest.rV && s.m.equals(honest.m)) o.trivial();
  });

  // r outside 1..n-1, or without a point: T and U are what the arithmetic would give if it went on
  const small = []; // x-coordinates below 2^256 - p, so that x + p fits 32 bytes
  for (let x = 1n; small.length < 60; x++) if (ref.isX(x)) small.push(hex(x));
  await c.sub("r-out-of-range", 400, 12000, fc.record({
    r: fc.oneof(
      fc.constantFrom(0n, N, P, 2n ** 256n - 1n, -1n, -5n, 2n ** 256n, N + 1n, P + 1n).map(String),
      fc.constantFrom(...small).map((x) => String(P + big(x))),
      u256.map((x) => String(N + (big(x) % (2n ** 256n - N)))),
      u256.map((x) => String(N + big(x))),
      u256.map((x) => String(N + (big(x) >> 200n))),
    ), odd: fc.boolean(), m: msg, junk: fc.boolean() }), async ({ r: rs, odd, m, junk }) => {
    const r = BigInt(rs), mi = int(Buffer.from(m, "hex"));
    const R = r > 0n ? ref.lift(r % P, odd) : null;
    let t = { Tx: 1n, Ty: 2n, Ux: 3n, Uy: 4n };
    const ri = ref.inv(r, N);
    if (R && !junk && ref.md(r, N) !== 0n) {
      const T = ref.mul(ri, R), U = ref.G(-mi * ri) || [0n, 0n];
      t = { Tx: T[0], Ty: T[1], Ux: U[0], Uy: U[1] };
    } else if (!junk) t = { Tx: 0n, Ty: 0n, Ux: 0n, Uy: 0n };
    const got = attempt(() => verdict(r, odd ? 28n : 27n, Buffer.from(m, "hex"), t));
    ensure(got.ok, () => `verification threw: ${got.error}`);
    ensure(got.value === false, "a public input with r out of range was accepted");
  });
}
