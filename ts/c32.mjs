import { fc, started, ensure, attemptAsync, show, hex, big, below, native, scratch, glue, N, P } from "./lib.mjs";
import * as ref from "./ref.mjs";
import { signer, make, encode, pubSer, int, same, silently } from "./c31.mjs";
import * as fs from "fs";
import * as path from "path";

const DEPTH = 20;
const FILES = { pubkey: "/repo/packages/circuits/instances/pubkey_membership.circom", addr: "/repo/packages/circuits/instances/addr_membership.circom" };

export async function run(c, { lib }) {
  const { MembershipProver, MembershipVerifier, Tree, Poseidon, PublicInput } = lib;
  c.assume("the absent packages are replaced by stand-ins, the wasm build by the native one behind the repository's own glue, the circuit compiler and the witness generator by our circom interpreter (DESIGN.md)");
  if (!(await started(c, lib))) return;
  const pos = new Poseidon();
  const made = {};
  const deployed = (kind) => {
    if (!made[kind]) {
      const gen = path.join(scratch, `gen-${kind}`), circ = path.join(scratch, `circ-${kind}`);
      fs.writeFileSync(gen, FILES[kind]);
      fs.writeFileSync(circ, native("circuit", Buffer.from(FILES[kind]), Buffer.from(path.join(scratch, "r1cs"))));
      made[kind] = { witnessGenWasm: gen, circuit: circ };
    }
    return made[kind];
  };
  const leafOf = { pubkey: (Q) => pos.hashPubKey(Buffer.from(Q.map((x) => hex(x)).join(""), "hex")), addr: ref.address };
  // what the verifier is shown instead: a part of the statement that is not the one proved
  const edit = fc.record({ what: fc.nat(10), at: fc.nat(4000), x: fc.integer({ min: 1, max: 255 }), v: below(P), key: signer });
  // who tries to prove although the statement does not hold
  const liar = fc.record({ what: fc.nat(9), at: fc.nat(DEPTH - 1), v: below(P, 1n), key: signer });
  const input = (kind, edits, liars) => fc.record({
    kind: fc.constant(kind), s: signer, before: fc.array(below(P), { maxLength: 9 }), after: fc.array(below(P), { maxLength: 9 }), gone: fc.array(fc.nat(20), { maxLength: 3 }),
    edits: fc.array(edit, { minLength: edits, maxLength: edits }), liars: fc.array(liar, { minLength: liars, maxLength: liars }),
  });
  const one = async ({ kind, s, before, after, gone, edits, liars }, o) => {
    const sg = make(s);
    if (!sg) return o.trivial();
    const cfg = deployed(kind);
    const tree = new Tree(DEPTH, pos);
    const me = leafOf[kind](sg.Q);
    const members = [...before.map(big), me, ...after.map(big)];
    members.forEach((m) => tree.insert(m));
    for (const g of gone) if (members[g] !== undefined && g !== before.length) tree.delete(g);
    const merkleProof = tree.createProof(tree.indexOf(me));
    const root = tree.root();
    const prover = new MembershipProver(cfg), verifier = new MembershipVerifier(cfg);
    const yes = (p, x) => verifier.verify({ proof: p, publicInputSer: x });
    const nizk = await prover.prove({ sig: sg.sig, msgHash: sg.msgHash, merkleProof });
    const ser = nizk.publicInput.serialize();
    ensure(same(ser, pubSer(root, sg)), "the public input does not encode this statement");
    ensure((await yes(nizk.proof, ser)) === true, "an honest member's proof was refused");
    o.class(kind);
    for (const e of edits) {
      const p = Uint8Array.from(nizk.proof);
      let q = Uint8Array.from(ser);
      const other = make(e.key);
      const ri = ref.inv(sg.r, N);
      const swap = (f) => { const b = PublicInput.deserialize(q); f(b.circuitPubInput, b); q = b.serialize(); };
      switch (e.what) {
        case 0: case 1: p[e.at % p.length] ^= e.x; break;
        case 2: q[e.at % q.length] ^= e.x; break;
        case 3: q.set(Buffer.from(e.v, "hex"), 33); break; // another root
        case 4: swap((z) => { z.merkleRoot = me; }); break;
        case 5: { // another message, with the U that belongs to it
          const m2 = Buffer.from(e.v, "hex");
          q = Uint8Array.from(pubSer(root, { ...sg, msgHash: m2, U: ref.G(-int(m2) * ri) || [0n, 0n] }));
          break;
        }
        case 6: if (other) q = Uint8Array.from(pubSer(root, other)); break; // another signature's statement
        case 7: q = Uint8Array.from(pubSer(root, { ...sg, odd: 1n - sg.odd, T: [sg.T[0], P - sg.T[1]] })); break; // the mirrored nonce
        case 8: swap((z) => { [z.Tx, z.Ux, z.Ty, z.Uy] = [z.Ux, z.Tx, z.Uy, z.Ty]; }); break;
        case 9: swap((z) => { [z.Tx, z.Ty] = [z.Ty, z.Tx]; }); break;
        default: swap((z) => { z[["Tx", "Ty", "Ux", "Uy", "merkleRoot"][e.at % 5]] = big(e.v); });
      }
      if (same(p, nizk.proof) && q.length === ser.length && same(q.subarray(0, 32), ser.subarray(0, 32)) && (q[32] & 1) === (ser[32] & 1) && same(q.subarray(33), ser.subarray(33))) continue;
      if (e.what === 5 && ref.md(big(e.v) - int(sg.msgHash), N) === 0n) continue;
      const r = await attemptAsync(() => yes(p, q));
      ensure(r.ok, () => `verify threw ${r.error}`);
      ensure(r.value === false, () => `the proof was accepted for another statement or altered: ${show([e.what, e.at, e.x, e.v])}`);
      o.class("refused");
    }
    for (const l of liars) {
      const mp = { ...merkleProof, siblings: merkleProof.siblings.map((z) => [...z]), pathIndices: [...merkleProof.pathIndices] };
      const bump = (x, m) => (x + big(l.v)) % m;
      let sig = sg.sig, msg = sg.msgHash;
      const stranger = make(l.key);
      switch (l.what) {
        case 0: { const t = bump(sg.s, N); if (t === 0n || t === sg.s) continue; sig = encode({ ...sg, s: t }, 0); break; }
        case 1: sig = encode({ ...sg, odd: 1n - sg.odd }, 0); break;
        case 2: { const x = bump(mp.siblings[l.at][0], P); if (x === mp.siblings[l.at][0]) continue; mp.siblings[l.at][0] = x; break; }
        case 3: mp.root = bump(mp.root, P); if (mp.root === root) continue; break;
        case 4: msg = Buffer.from(msg); msg[31] ^= 1; break;
        case 5: mp.pathIndices[l.at] = 1 - mp.pathIndices[l.at]; break;
        case 6: if (!stranger || members.includes(leafOf[kind](stranger.Q))) continue; sig = stranger.sig; msg = stranger.msgHash; break;
        case 7: mp.siblings[l.at][0] = me; if (merkleProof.siblings[l.at][0] === me) continue; break;
        case 8: { // a tree the verifier does not know
          const t = new Tree(DEPTH, pos);
          t.insert(me);
          t.insert(big(l.v));
          const q = t.createProof(0);
          if (q.root === root) continue;
          Object.assign(mp, q, { root });
          break;
        }
        default: mp.pathIndices[l.at] = 1 - mp.pathIndices[l.at]; mp.siblings[l.at][0] = bump(mp.siblings[l.at][0], P);
      }
      if (l.what === 5) {
        // an index matters unless both halves are the same
        let h = me;
        for (let i = 0; i < l.at; i++) h = pos.hash(merkleProof.pathIndices[i] ? [merkleProof.siblings[i][0], h] : [h, merkleProof.siblings[i][0]]);
        if (h === merkleProof.siblings[l.at][0]) continue;
      }
      const r = await attemptAsync(() => silently(() => prover.prove({ sig, msgHash: msg, merkleProof: mp })));
      if (r.ok) {
        const w = await attemptAsync(() => yes(r.value.proof, r.value.publicInput.serialize()));
        ensure(w.ok && w.value === false, () => `a proof of a false statement was accepted (${show([l.what, l.at, l.v])})`);
      }
      o.class(r.ok ? "false statement: proof refused" : "false statement: no proof");
    }
    glue.calls.length = 0;
    glue.sp = glue.top;
  };
  await c.sub("public-key", 10, 250, input("pubkey", 8, 4), one);
  await c.sub("address", 2, 30, input("addr", 3, 2), one, 600);
}
