import { fc, started, ensure, attemptAsync, attempt, show, hex, big, below, u256, glue, native, scratch, N, P } from "./lib.mjs";
import * as ref from "./ref.mjs";
import * as fs from "fs";
import * as path from "path";
export const same = (a, b) => Buffer.from(a).equals(Buffer.from(b));
const INST = "/repo/packages/circuits/instances/pubkey_membership.circom";
export const int = (b) => (b.length ? BigInt("0x" + b.toString("hex")) : 0n);
export const silently = async (f) => {
  const k = ["log", "warn", "time", "timeEnd", "error", "info"], old = k.map((x) => console[x]);
  k.forEach((x) => (console[x] = () => {}));
  try { return await f(); } finally { k.forEach((x, i) => (console[x] = old[i])); }
};
/** Every combination of signature encodings. */
export const encode = (sg, kind) => {
  const v = 27n + sg.odd;
  if (kind === 1) return "0x" + hex(sg.r) + hex(sg.s) + hex(v - 27n, 2);
  if (kind === 2 && sg.s < 2n ** 255n) return "0x" + hex(sg.r) + hex(sg.s | (sg.odd << 255n));
  if (kind === 3) return "0x" + (hex(sg.r) + hex(sg.s) + hex(v, 2)).toUpperCase();
  return "0x" + hex(sg.r) + hex(sg.s) + v.toString(16);
};
export const signer = fc.record({ d: below(N, 1n), k: below(N, 1n), m: fc.oneof({ weight: 5, arbitrary: u256 }, { weight: 1, arbitrary: fc.constantFrom(hex(0n), hex(N), hex(N - 1n)) }), enc: fc.integer({ min: 0, max: 3 }) });
export const make = (c) => {
  const msgHash = Buffer.from(c.m, "hex");
  const sg = ref.sign(big(c.d), int(msgHash), big(c.k));
  if (!sg || sg.over) return null;
  const ri = ref.inv(sg.r, N);
  return { ...sg, msgHash, sig: encode(sg, c.enc), T: ref.G(big(c.k) * ri), U: ref.G(-int(msgHash) * ri) || [0n, 0n] };
};
const pubBytes = (root, s) => Buffer.from([root, ...s.T, ...s.U].map((x) => hex(x)).join(""), "hex");
export const pubSer = (root, s) => Buffer.concat([Buffer.from(hex(s.r) + hex(27n + s.odd, 2), "hex"), pubBytes(root, s), s.msgHash]);
const path_ = fc.array(fc.tuple(below(P), fc.boolean()), { minLength: 1, maxLength: 5 });
const bytesOf = (n, seed) => { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = (i * 7 + seed * 13 + (i >> 8)) & 255; return b; };
let files = 0;
const file = (bytes) => { const f = path.join(scratch, `f${files++ % 64}`); fs.writeFileSync(f, bytes); return f; };

export async function run(c, { lib, config }) {
  const { MembershipProver, MembershipVerifier, Tree, Poseidon, PublicInput } = lib;
  c.assume("the absent packages are replaced by stand-ins, the wasm build by the native one behind the repository's own glue, the witness generator by our circom interpreter (DESIGN.md)");
  if (!(await started(c, lib))) return;

  // ---- what goes where: the native side and the witness generator only record
  const one = fc.record({ s: signer, p: path_, root: below(P), extra: fc.integer({ min: 0, max: 3 }), circ: fc.nat(300), prof: fc.boolean(), remote: fc.integer({ min: 0, max: 3 }), wf: fc.nat(3), wait: fc.array(fc.nat(2), { minLength: 3, maxLength: 3 }) });
  const pause = async (n) => { for (let i = 0; i < n; i++) await new Promise((r) => setImmediate(r)); };
  await c.sub("prover-hands-over", 150, 5000, fc.array(one, { minLength: 1, maxLength: 4 }), async (jobs, o) => {
    const js = jobs.map((j, i) => ({ ...j, sg: make(j.s), i })).filter((j) => j.sg);
    if (!js.length) return o.trivial();
    const gens = [], natives = [], fetched = [];
    globalThis.__wtns = async (input, f, w) => {
      // concurrent proofs interleave here, before the witness is there and after
      const { wait } = js[gens.length] || js[0];
      gens.push({ input, f });
      await pause(wait[0]);
      w.data = Buffer.from("witness of " + show(input) + f);
      await pause(wait[1]);
    };
    glue.override = (op, a) => { natives.push({ op, a }); return Buffer.concat([Buffer.from("proof"), ...a.map((x) => Buffer.from(x.length + ":")), ...a]); };
    const oldFetch = globalThis.fetch;
    globalThis.fetch = async (u) => { fetched.push(String(u)); await pause((js[fetched.length] || js[0]).wait[2]); return { ok: true, status: 200, arrayBuffer: async () => Uint8Array.from(Buffer.from("circuit at " + u)).buffer }; };
    try {
      const runs = js.map((j) => {
        const content = bytesOf(j.circ, j.i);
        const remote = j.remote === 3;
        const where = remote ? `https://host.example/c${j.circ}` : file(content);
        const cfg = { circuit: where, witnessGenWasm: `gen-${j.wf}`, enableProfiler: j.prof };
        if (j.remote >= 2) cfg.useRemoteCircuit = remote;
        const merkleProof = { root: big(j.root), siblings: j.p.map(([x]) => [big(x)]), pathIndices: j.p.map(([, b]) => +b) };
        // what zk-kit's own proofs carry besides, and what an owner's type may carry
        const given = { ...merkleProof, ...[{}, { leaf: 5n }, { s: 1n, Tx: 2n, Uy: 3n }, { leaf: 1n, index: 3 }][j.extra] };
        return { j, cfg, merkleProof, given, frozen: show(given), msg: Buffer.from(j.sg.msgHash), circuit: remote ? Buffer.from("circuit at " + where) : content };
      });
      const provers = runs.map((r) => new MembershipProver(r.cfg));
      const res = await silently(() => Promise.all(runs.map((r, i) => attemptAsync(() => provers[i].prove({ sig: r.j.sg.sig, msgHash: r.msg, merkleProof: r.given })))));
      runs.forEach((r, i) => {
        const { sg } = r.j;
        ensure(res[i].ok, () => `prove failed: ${res[i].error}`);
        const { proof, publicInput: pi } = res[i].value;
        const want = { s: sg.s, root: r.merkleProof.root, siblings: r.merkleProof.siblings, pathIndices: r.merkleProof.pathIndices, Tx: sg.T[0], Ty: sg.T[1], Ux: sg.U[0], Uy: sg.U[1] };
        const canon = (x) => show(Object.fromEntries(Object.entries(x).sort(([a], [b]) => (a < b ? -1 : 1)).map(([k, v]) => [k, [v].flat(Infinity).map((z) => BigInt(z))])));
        const g = gens.filter((x) => canon(x.input) === canon(want) && x.f === r.cfg.witnessGenWasm);
        ensure(g.length > 0, () => `the witness generator was not given ${canon(want)} but ${gens.map((x) => canon(x.input)).join(" / ")}`);
        const w = Buffer.from("witness of " + show(g[0].input) + r.cfg.witnessGenWasm);
        const a = [r.circuit, w, pubBytes(r.merkleProof.root, sg)];
        const n = natives.some((x) => x.op === "prove" && a.every((b, k) => same(b, x.a[k])));
        ensure(n, "the native prover was not given this circuit, witness and public input");
        ensure(same(proof, Buffer.concat([Buffer.from("proof"), ...a.map((x) => Buffer.from(x.length + ":")), ...a.map((x) => Buffer.from(x))])), "the returned proof is not the one made for this input");
        ensure(same(pi.serialize(), pubSer(r.merkleProof.root, sg)), "the returned public input is not this one's");
        ensure(show(r.given) === r.frozen && r.msg.equals(sg.msgHash), "prove changed its arguments");
      });
      ensure(natives.length === runs.length && gens.length === runs.length, "not one witness and one native proof per call");
      const urls = runs.filter((r) => r.j.remote === 3).map((r) => r.cfg.circuit).sort();
      ensure(show(fetched.sort()) === show(urls), () => `fetched ${show(fetched)} for ${show(urls)}`);
    } finally { globalThis.fetch = oldFetch; glue.override = null; globalThis.__wtns = null; glue.calls.length = 0; }
  });

  // ---- the verifier's verdict: public input check and proof check, both
  const vcase = fc.record({ s: signer, root: below(P), circ: fc.nat(200), proof: fc.nat(300), native: fc.constantFrom("true", "false", "trap"), edit: fc.oneof(fc.constant(null), fc.tuple(fc.nat(2000), fc.integer({ min: 1, max: 255 }))), remote: fc.integer({ min: 0, max: 3 }), prof: fc.boolean() });
  await c.sub("verdict", 250, 8000, fc.array(vcase, { minLength: 1, maxLength: 4 }), async (jobs, o) => {
    const js = jobs.map((j, i) => ({ ...j, sg: make(j.s), i })).filter((j) => j.sg);
    if (!js.length) return o.trivial();
    const natives = [];
    const oldFetch = globalThis.fetch;
    globalThis.fetch = async (u) => ({ ok: true, status: 200, arrayBuffer: async () => { await pause(String(u).length % 3); return Uint8Array.from(Buffer.from("circuit at " + u)).buffer; } });
    try {
      const runs = js.map((j) => {
        const remote = j.remote === 3;
        const circuit = remote ? null : bytesOf(j.circ, j.i);
        const where = remote ? `https://host.example/v${j.circ}` : file(circuit);
        const cfg = { circuit: where, enableProfiler: j.prof };
        if (j.remote >= 2) cfg.useRemoteCircuit = remote;
        const good = pubSer(big(j.root), j.sg);
        const ser = Buffer.from(good);
        if (j.edit) ser[j.edit[0] % ser.length] ^= j.edit[1];
        // rV counts by its parity, and the root is the circuit's business
        const ours = same(ser.subarray(0, 32), good.subarray(0, 32)) && (ser[32] & 1) === (good[32] & 1) && same(ser.subarray(65), good.subarray(65));
        return { j, cfg, ser: Uint8Array.from(ser), ours, circuit: remote ? Buffer.from("circuit at " + where) : circuit, proof: Uint8Array.from([...bytesOf(j.proof, j.i + 3), j.i, ["true", "false", "trap"].indexOf(j.native)]) };
      });
      glue.override = (op, a) => {
        natives.push(a);
        const k = a[1][a[1].length - 1];
        if (k === 2) throw new Error("trap");
        return Buffer.from([k === 0 ? 1 : 0]);
      };
      const verifiers = runs.map((r) => new MembershipVerifier(r.cfg));
      const res = await silently(() => Promise.all(runs.map((r, i) => attemptAsync(() => verifiers[i].verify({ proof: r.proof, publicInputSer: r.ser })))));
      runs.forEach((r, i) => {
        const mRange = int(Buffer.from(r.ser.subarray(193)));
        const eqMsg = r.ours || (r.j.edit && r.j.edit[0] % r.ser.length >= 193 && ref.md(mRange, N) === ref.md(int(r.j.sg.msgHash), N));
        const want = r.j.native === "true" && eqMsg;
        ensure(res[i].ok, () => `verify threw ${res[i].error} (native side: ${r.j.native}, public input ${r.ours ? "right" : "wrong"})`);
        ensure(res[i].value === want, () => `verify returned ${show(res[i].value)}: native side ${r.j.native}, public input ${eqMsg ? "right" : "wrong"}`);
        if (want) {
          const a = [r.circuit, r.proof, r.ser.subarray(33, 193)];
          ensure(natives.some((n) => a.every((b, k) => same(b, n[k]))), "the native verifier was not given this circuit, proof and public input");
        }
        o.class(want ? "accepted" : "refused");
      });
    } finally { globalThis.fetch = oldFetch; glue.override = null; glue.calls.length = 0; glue.reset(); glue.sp = glue.top; }
  });

  await c.sub("malformed", 300, 8000, fc.record({ s: signer, cut: fc.integer({ min: 0, max: 224 }), junk: fc.oneof(fc.constant(""), fc.uint8Array({ maxLength: 260, size: "max" }).map((a) => Buffer.from(a).toString("hex"))), ok: fc.boolean() }), async ({ s, cut, junk, ok }, o) => {
    const sg = make(s);
    if (!sg) return o.trivial();
    const ser = junk ? Buffer.from(junk, "hex") : pubSer(3n, sg).subarray(0, cut);
    if (!junk && same(ser, pubSer(3n, sg))) return o.trivial();
    // a cut that leaves every number as it was (trailing zeros of a zero U or message) still says the same
    const whole = pubSer(3n, sg), num = (b, i, j) => (b.length > i ? int(b.subarray(i, j)) : 0n);
    if (!junk && cut >= 33 && [33, 65, 97, 129, 161].every((i) => num(ser, i, i + 32) === num(whole, i, i + 32)) && ref.md(num(ser, 193) - int(sg.msgHash), N) === 0n) return o.trivial();
    glue.override = () => Buffer.from([ok ? 1 : 0]);
    try {
      const v = new MembershipVerifier({ circuit: file(bytesOf(9, 1)) });
      const r = await attemptAsync(() => v.verify({ proof: new Uint8Array(10), publicInputSer: Uint8Array.from(ser) }));
      ensure(r.ok, () => `verify threw ${r.error}`);
      ensure(r.value === false, "a malformed public input was accepted");
    } finally { glue.override = null; glue.calls.length = 0; }
  });

  // ---- the default configurations name the same circuit on both sides, of the right kind
  await c.sub("configurations", 12, 12, fc.tuple(fc.constantFrom("Pubkey", "Address"), fc.boolean(), fc.boolean()), async ([kind, viaConfig, prof]) => {
    const p = viaConfig && config[`default${kind}ProverConfig`] ? config[`default${kind}ProverConfig`] : lib[`default${kind}MembershipPConfig`];
    const v = viaConfig && config[`default${kind}VerifierConfig`] ? config[`default${kind}VerifierConfig`] : lib[`default${kind}MembershipVConfig`];
    const name = { Pubkey: "pubkey_membership", Address: "addr_membership" }[kind];
    ensure(p.circuit === v.circuit, "prover and verifier use different circuits");
    ensure(p.circuit.endsWith(`/${name}.circuit`) && p.witnessGenWasm.endsWith(`/${name}.wasm`), () => `${kind}: ${p.circuit} ${p.witnessGenWasm}`);
    const pr = new MembershipProver({ ...p, enableProfiler: prof }), ve = new MembershipVerifier({ ...v, enableProfiler: prof });
    ensure(pr.circuit === p.circuit && pr.witnessGenWasm === p.witnessGenWasm && ve.circuit === v.circuit, "the objects use other files than configured");
  });

  // ---- in a browser there is no file system
  await c.sub("browser", 20, 100, fc.tuple(signer, fc.constantFrom(undefined, false, true), fc.nat(99)), async ([s, flag, k], o) => {
    const sg = make(s);
    if (!sg) return o.trivial();
    const fetched = [], got = [];
    const oldFetch = globalThis.fetch;
    globalThis.window = {};
    globalThis.fetch = async (u) => { fetched.push(String(u)); return { ok: true, status: 200, arrayBuffer: async () => new Uint8Array([k, 1, 2]).buffer }; };
    globalThis.__wtns = async (i, f, w) => { w.data = new Uint8Array(3); };
    glue.override = (op, a) => { got.push(a[0]); return op === "verify" ? Buffer.from([1]) : Buffer.from("p"); };
    try {
      const cfg = { circuit: `https://host.example/b${k}`, witnessGenWasm: "w", useRemoteCircuit: flag };
      const { proof, publicInput } = await new MembershipProver(cfg).prove({ sig: sg.sig, msgHash: sg.msgHash, merkleProof: { root: 1n, siblings: [[2n]], pathIndices: [0] } });
      ensure((await new MembershipVerifier(cfg).verify({ proof, publicInputSer: publicInput.serialize() })) === true, "refused");
      ensure(fetched.length === 2 && fetched.every((u) => u === cfg.circuit), "the circuit was not fetched from its URL");
      ensure(got.length === 2 && got.every((b) => same(b, [k, 1, 2])), "another circuit was used");
    } finally { delete globalThis.window; globalThis.fetch = oldFetch; glue.override = null; globalThis.__wtns = null; glue.calls.length = 0; }
  });

  // ---- the whole way: tree, prover, native prover over the repository's circuit, verifier
  const pos = new Poseidon();
  const keys = {};
  const setup = (n) => {
    if (!keys[n]) {
      const k = `${INST}|PubKeyMembership|${n}`;
      const gen = path.join(scratch, `gen${n}`), circ = path.join(scratch, `circ${n}`);
      fs.writeFileSync(gen, k);
      fs.writeFileSync(circ, native("circuit", Buffer.from(k), Buffer.from(path.join(scratch, "r1cs"))));
      keys[n] = { witnessGenWasm: gen, circuit: circ };
    }
    return keys[n];
  };
  const e2e = fc.record({ n: fc.integer({ min: 1, max: 3 }), s: signer, others: fc.array(below(P), { minLength: 0, maxLength: 7 }), at: fc.nat(7), edits: fc.array(fc.tuple(fc.nat(5), fc.nat(4000), fc.integer({ min: 1, max: 255 }), below(P)), { minLength: 2, maxLength: 4 }), wrong: fc.nat(4) });
  await c.sub("end-to-end", 14, 400, e2e, async ({ n, s, others, at, edits, wrong }, o) => {
    const sg = make(s);
    if (!sg) return o.trivial();
    const cfg = setup(n);
    const tree = new Tree(n, pos);
    const members = others.map(big).slice(0, 2 ** n - 1);
    const me = pos.hashPubKey(Buffer.from(hex(sg.Q[0]) + hex(sg.Q[1]), "hex"));
    members.splice(at % (members.length + 1), 0, me);
    members.forEach((m) => tree.insert(m));
    const merkleProof = tree.createProof(tree.indexOf(me));
    const prover = new MembershipProver(cfg), verifier = new MembershipVerifier(cfg);
    const nizk = await prover.prove({ sig: sg.sig, msgHash: sg.msgHash, merkleProof });
    const ser = nizk.publicInput.serialize();
    ensure(same(ser, pubSer(tree.root(), sg)), "the public input does not encode this statement");
    const yes = (p, x) => verifier.verify({ proof: p, publicInputSer: x });
    ensure((await yes(nizk.proof, ser)) === true, "an honest proof was refused");
    o.class(`depth ${n}`);
    if (int(sg.msgHash) % N === 0n) o.class("message is 0 mod n");
    for (const [what, pos_, x, v] of edits) {
      const p = Uint8Array.from(nizk.proof);
      let q = Uint8Array.from(ser);
      if (what === 0) p[pos_ % p.length] ^= x;
      else if (what === 1) q[pos_ % q.length] ^= x;
      else if (what === 2) q.set(Buffer.from(hex(v), "hex"), 33); // another root
      else if (what === 3) { const b = PublicInput.deserialize(q); b.circuitPubInput.merkleRoot = members[pos_ % members.length]; q = b.serialize(); }
      else if (what === 4) q = q.subarray(0, pos_ % q.length);
      else { // another message, with T and U computed for it
        const m2 = Buffer.from(hex(v), "hex");
        const ri = ref.inv(sg.r, N);
        q = Uint8Array.from(pubSer(tree.root(), { ...sg, msgHash: m2, U: ref.G(-int(m2) * ri) || [0n, 0n] }));
      }
      if (same(p, nizk.proof) && (same(q, ser) || (q.length === ser.length && same(q.subarray(0, 32), ser.subarray(0, 32)) && (q[32] & 1) === (ser[32] & 1) && same(q.subarray(33), ser.subarray(33))))) continue;
      if (what === 4 && ref.md(int(Buffer.from(q.subarray(193))) - int(sg.msgHash), N) === 0n && q.length > 193) continue;
      const r = await attemptAsync(() => yes(p, q));
      ensure(r.ok, () => `verify threw ${r.error}`);
      ensure(r.value === false, () => `accepted after edit ${show([what, pos_, x, v])}`);
    }
    // no proof for somebody who is not a member, a wrong path, or another message
    const mp = { ...merkleProof, siblings: merkleProof.siblings.map((z) => [...z]), pathIndices: [...merkleProof.pathIndices] };
    let sig = sg.sig, msg = sg.msgHash, prove = true;
    if (wrong === 0) sig = encode({ ...sg, s: sg.s === 1n ? 2n : sg.s - 1n }, 0);
    else if (wrong === 1) sig = encode({ ...sg, odd: 1n - sg.odd }, 0);
    else if (wrong === 2) mp.siblings[0][0] = (mp.siblings[0][0] + 1n) % P;
    else if (wrong === 3) mp.root = (mp.root + 1n) % P;
    else { msg = Buffer.from(msg); msg[31] ^= 1; }
    if (prove) {
      const r = await attemptAsync(() => prover.prove({ sig, msgHash: msg, merkleProof: mp }));
      if (r.ok) {
        // even a prover that produces something must not convince the verifier
        const w = await attemptAsync(() => yes(r.value.proof, r.value.publicInput.serialize()));
        ensure(w.ok && w.value === false, () => `a proof for a non-member (${wrong}) was accepted`);
      }
    }
    glue.calls.length = 0;
    glue.sp = glue.top;
    void attempt;
  });
}
