import { fc, started, ensure, attempt, show, hex, big, u256, glue, native } from "./lib.mjs";
const int = (b) => (b.length ? BigInt("0x" + Buffer.from(b).toString("hex")) : 0n);
const hexStr = (min, max) => fc.uint8Array({ minLength: min, maxLength: max, size: "max" }).map((a) => Buffer.from(a).toString("hex"));
/** the same bytes as a plain array, a Buffer, or a view into the middle of a larger buffer */
const view = (h, kind) => {
  const b = Buffer.from(h, "hex");
  if (kind === 0) return new Uint8Array(b);
  if (kind === 1) return b;
  const big = new Uint8Array(b.length + 37).fill(0xa5);
  big.set(b, 19);
  return kind === 2 ? big.subarray(19, 19 + b.length) : Buffer.from(big.buffer, 19, b.length);
};
const same = (a, b) => Buffer.from(a).equals(Buffer.from(b));
const kind = fc.integer({ min: 0, max: 3 });
const F = ["merkleRoot", "Tx", "Ty", "Ux", "Uy"];

export async function run(c, { lib, utils }) {
  const { PublicInput, CircuitPubInput } = lib;
  const { bytesToBigInt, bytesLeToBigInt, bigIntToBytes, bigIntToLeBytes, fromSig } = utils;
  const have = (...f) => f.every((x) => typeof x === "function");
  c.assume("@ethereumjs/util is replaced by a stand-in with the published behaviour (DESIGN.md)");

  await c.sub("circuit-public-input", 3000, 100000, fc.tuple(fc.array(u256, { minLength: 5, maxLength: 5 }), kind), async ([v, k]) => {
    const want = v.join("");
    const p = new CircuitPubInput(...v.map(big));
    F.forEach((f, i) => ensure(p[f] === big(v[i]), `${f} is another value`));
    const s = p.serialize();
    ensure(s.length === 160 && same(s, Buffer.from(want, "hex")), "not the five values in order, 32 bytes each, big-endian");
    ensure(same(p.serialize(), s), "serialising twice differs");
    F.forEach((f, i) => ensure(p[f] === big(v[i]), `serialising changed ${f}`));
    const bytes = view(want, k);
    const q = CircuitPubInput.deserialize(bytes);
    ensure(same(bytes, Buffer.from(want, "hex")), "deserialising changed its argument");
    F.forEach((f, i) => ensure(q[f] === big(v[i]), `${f} does not survive the round trip`));
    ensure(same(q.serialize(), bytes), "bytes do not survive the round trip");
    const other = [...v].reverse().map((h) => hex(big(h) ^ 255n));
    const t = new CircuitPubInput(...other.map(big)).serialize();
    ensure(same(s, Buffer.from(want, "hex")) && same(t, Buffer.from(other.join(""), "hex")), "the bytes of two public inputs share memory");
    // an owner may reuse its buffers
    s.fill(7);
    ensure(same(p.serialize(), Buffer.from(want, "hex")), "the serialised bytes are shared with the object");
  });

  await c.sub("public-input", 3000, 100000, fc.tuple(fc.array(u256, { minLength: 6, maxLength: 6 }), fc.integer({ min: 0, max: 255 }), fc.oneof(u256, hexStr(0, 130)), kind), async ([v, rv, m, k]) => {
    const want = v[5] + hex(rv, 2) + v.slice(0, 5).join("") + m;
    const msg = Buffer.from(m, "hex");
    const p = new PublicInput(big(v[5]), BigInt(rv), msg, new CircuitPubInput(...v.slice(0, 5).map(big)));
    const s = p.serialize();
    ensure(same(s, Buffer.from(want, "hex")), "not r (32 bytes), rV (1), circuit public input (160), message");
    new PublicInput(big(v[0]), BigInt(255 - rv), Buffer.from(m, "hex").reverse(), new CircuitPubInput(...v.slice(1, 6).map(big))).serialize();
    ensure(same(s, Buffer.from(want, "hex")), "the bytes of two public inputs share memory");
    ensure(same(p.serialize(), s) && same(msg, Buffer.from(m, "hex")) && p.r === big(v[5]) && p.rV === BigInt(rv), "serialising changed the public input");
    const bytes = view(want, k);
    const q = PublicInput.deserialize(bytes);
    ensure(same(bytes, Buffer.from(want, "hex")), "deserialising changed its argument");
    ensure(q.r === big(v[5]) && q.rV === BigInt(rv), "r or rV does not survive");
    ensure(Buffer.isBuffer(q.msgHash) && q.msgHash.equals(msg), "the message does not survive");
    F.forEach((f, i) => ensure(q.circuitPubInput[f] === big(v[i]), `${f} does not survive`));
    ensure(same(q.serialize(), bytes), "bytes do not survive the round trip");
    // reusing the received buffer must not change what was read from it
    bytes.fill(0x3c);
    ensure(same(q.serialize(), Buffer.from(want, "hex")), "the deserialised value still refers to the caller's buffer");
  });

  if (have(bytesToBigInt, bytesLeToBigInt, bigIntToBytes, bigIntToLeBytes)) {
    await c.sub("bytes", 4000, 120000, fc.tuple(fc.oneof(u256, hexStr(1, 70)), kind, fc.integer({ min: 0, max: 9 })), async ([h, k, extra]) => {
      const want = Buffer.from(h, "hex"), rev = Buffer.from(want).reverse();
      const n = want.length, size = n + extra;
      const b = view(h, k);
      ensure(bytesToBigInt(b) === int(want), "bytesToBigInt is not big-endian");
      ensure(same(b, want), "bytesToBigInt changed its argument");
      ensure(bytesLeToBigInt(b) === int(rev), "bytesLeToBigInt is not little-endian");
      ensure(same(b, want), "bytesLeToBigInt changed its argument");
      ensure(bytesLeToBigInt(b) === int(rev), "bytesLeToBigInt of the same bytes differs the second time");
      const pad = Buffer.concat([Buffer.alloc(extra), want]);
      const x = bigIntToBytes(int(want), size), y = bigIntToLeBytes(int(want), size);
      ensure(x.length === size && same(x, pad), "bigIntToBytes is not the fixed-width big-endian encoding");
      ensure(y.length === size && same(y, Buffer.from(pad).reverse()), "bigIntToLeBytes is not the fixed-width little-endian encoding");
      bigIntToBytes(int(rev), size); bigIntToLeBytes(int(rev), size);
      ensure(same(x, pad) && same(y, Buffer.from(pad).reverse()), "encodings share memory");
      y.fill(9); x.fill(9);
      ensure(same(bigIntToBytes(int(want), size), pad) && same(bigIntToLeBytes(int(want), size), Buffer.from(pad).reverse()), "encodings share memory");
    });
    // no width is silently exceeded and no sign dropped: either an error or an encoding of that value
    await c.sub("width", 1500, 40000, fc.tuple(fc.integer({ min: 1, max: 33 }), fc.bigInt({ min: -(2n ** 300n), max: 2n ** 300n }).map(String), fc.integer({ min: -2, max: 600 }), fc.boolean()), async ([size, x, d, edge], o) => {
      const lim = 256n ** BigInt(size);
      const v = edge ? lim + BigInt(d) : BigInt(x);
      if (v >= 0n && v < lim) o.class("fits"); else o.class("does not fit");
      for (const [f, g] of [[bigIntToBytes, bytesToBigInt], [bigIntToLeBytes, bytesLeToBigInt]]) {
        const r = attempt(() => f(v, size));
        ensure(r.ok ? r.value.length === size && g(r.value) === v : v < 0n || v >= lim, () => `${v} in ${size} bytes: ${r.ok ? Buffer.from(r.value).toString("hex") : r.error}`);
      }
    });
  } else c.note("the byte helpers are not exported by helpers/utils any more: subs bytes and width skipped");

  // fields that do not fit must not turn into other values on the way
  await c.sub("unencodable", 800, 20000, fc.tuple(fc.array(u256, { minLength: 6, maxLength: 6 }), fc.integer({ min: 0, max: 6 }), fc.oneof(fc.bigInt({ min: 0n, max: 2n ** 20n }), fc.bigInt({ min: 0n, max: 2n ** 300n })).map(String), fc.boolean()), async ([v, at, x, neg]) => {
    const a = [...v.map(big), 27n];
    a[at] = neg ? -1n - BigInt(x) : (at === 6 ? 256n : 2n ** 256n) + BigInt(x);
    const p = new PublicInput(a[5], a[6], Buffer.from("abcd", "hex"), new CircuitPubInput(...a.slice(0, 5)));
    const r = attempt(() => PublicInput.deserialize(p.serialize()));
    if (!r.ok) return;
    const q = r.value;
    ensure(q.r === a[5] && q.rV === a[6] && F.every((f, i) => q.circuitPubInput[f] === a[i]) && q.msgHash.equals(Buffer.from("abcd", "hex")), "a value out of range was encoded as another one");
  });

  if (have(fromSig)) {
    await c.sub("signatures", 2500, 60000, fc.tuple(u256, u256, fc.integer({ min: 0, max: 9 }), fc.integer({ min: 0, max: 70000 }), fc.boolean()), async ([r, s, kind, id, upper], o) => {
      let text, v, sv = big(s);
      const odd = BigInt(id % 2);
      if (kind < 3) { v = 27n + odd; text = r + s + v.toString(16); }
      else if (kind < 5) { v = 27n + odd; text = r + s + hex(odd, 2); }
      else if (kind < 7) { sv &= 2n ** 255n - 1n; v = 27n + odd; text = r + hex(sv | (odd << 255n)); o.class("compact"); }
      else { v = 35n + BigInt(id); const h = v.toString(16); text = r + s + (h.length % 2 ? "0" + h : h); o.class("EIP-155"); }
      text = "0x" + (upper ? text.toUpperCase() : text);
      const g = attempt(() => fromSig(text));
      ensure(g.ok, () => `refused ${text}: ${g.error}`);
      ensure(g.value.r === big(r) && g.value.s === sv && g.value.v === v, () => `${text} parsed as ${show(g.value)}`);
    });
    await c.sub("bad-signatures", 300, 5000, fc.tuple(hexStr(0, 63), fc.integer({ min: 0, max: 3 })), async ([h, k]) => {
      const text = ["0x" + h, h.padEnd(130, "1"), "0x" + h + "zz" + "11".repeat(64), ""][k];
      ensure(!attempt(() => fromSig(text)).ok, () => `${text} was parsed`);
    });
  } else c.note("fromSig is not exported by helpers/utils any more: signature subs skipped");

  // ---- the wasm glue
  if (!(await started(c, lib))) return;
  const ops = { prove: 3, verify: 3, poseidon: 1 };
  const bytes = fc.tuple(fc.integer({ min: 0, max: 300 }), fc.integer({ min: 0, max: 3 }), fc.integer({ min: 0, max: 255 })).map(([n, big, b]) => [big ? n : n * 700, b]);
  await c.sub("marshalling", 400, 8000, fc.array(fc.tuple(fc.constantFrom("prove", "verify", "poseidon"), fc.array(bytes, { minLength: 4, maxLength: 4 }), fc.integer({ min: 0, max: 5 }), fc.boolean()), { minLength: 1, maxLength: 6 }), async (seq) => {
    const mk = ([n, b]) => { const a = new Uint8Array(n); for (let i = 0; i < n; i++) a[i] = (i * 31 + b + (i >> 8)) & 255; return a; };
    glue.errors.length = 0;
    let sp = glue.sp;
    const kept = [];
    for (const [op, argv, fail, grow] of seq) {
      const args = argv.slice(0, ops[op]).map(mk);
      const copies = args.map((a) => Buffer.from(a));
      const out = op === "verify" ? Buffer.from([argv[3][1] & 1]) : Buffer.from(mk(argv[3]));
      glue.calls.length = 0;
      glue.growAlways = grow;
      const live = new Map(glue.live);
      glue.override = (o, a) => { if (fail === 0) throw new Error("trap"); return out; };
      const r = attempt(() => lib.wasm[op](...args));
      glue.override = null;
      glue.growAlways = false;
      ensure(args.every((a, i) => same(a, copies[i])), `${op} changed its arguments`);
      ensure(glue.calls.length === 1 && glue.calls[0].op === op, `${op} did not make exactly one native call`);
      ensure(glue.calls[0].args.every((a, i) => same(a, copies[i])), `${op}: the native side got other bytes`);
      ensure(glue.sp === sp, `${op}: stack pointer not restored`);
      ensure(glue.errors.length === 0, () => `${op}: ${glue.errors[0]}`);
      if (fail === 0) { ensure(!r.ok, `${op} swallowed a trap`); glue.reset(); continue; }
      ensure(r.ok, () => `${op} threw ${r.error}`);
      ensure(glue.live.size === live.size, `${op}: ${glue.live.size - live.size} blocks not freed`);
      if (op === "verify") ensure(r.value === (out[0] === 1), "verify returned another verdict");
      else { ensure(r.value instanceof Uint8Array && same(r.value, out), `${op} returned other bytes`); kept.push([r.value, out]); }
      ensure(kept.every(([a, b]) => same(a, b)), "an earlier result changed");
    }
  });
  await c.sub("init-again", 20, 200, fc.array(fc.boolean(), { minLength: 1, maxLength: 4 }), async (together) => {
    const h = () => Buffer.from(lib.wasm.poseidon(new Uint8Array(64))).toString("hex");
    const before = h();
    for (const t of together) {
      if (t) await Promise.all([lib.init(), lib.init()]); else await lib.init();
      ensure(h() === before, "the library stopped working after another init");
    }
  });
  void native;
}
