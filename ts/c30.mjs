import { fc, ensure, attempt, show, hex, big, below, u256, native, P } from "./lib.mjs";
const be = (a) => BigInt("0x" + Buffer.from(a).toString("hex"));
/** the model's hash, remembered */
const memo = new Map();
const H = (a, b) => {
  const k = a + "," + b;
  let h = memo.get(k);
  if (h === undefined) {
    if (memo.size > 300000) memo.clear();
    h = be(native("poseidon_ref", Buffer.from(hex(a) + hex(b), "hex")));
    memo.set(k, h);
  }
  return h;
};
/** The model: a dense array of leaves, absent ones are 0. */
class Model {
  constructor(depth) {
    this.depth = depth;
    this.leaves = [];
    this.zero = [0n];
    for (let i = 0; i < depth; i++) this.zero.push(H(this.zero[i], this.zero[i]));
  }
  level(k) {
    let l = this.leaves;
    for (let i = 0; i < k; i++) {
      const n = [];
      for (let j = 0; j < l.length; j += 2) n.push(H(l[j], l[j + 1] ?? this.zero[i]));
      l = n;
    }
    return l;
  }
  root() { return this.level(this.depth)[0] ?? this.zero[this.depth]; }
  proof(i) {
    const siblings = [], pathIndices = [];
    let l = this.leaves;
    for (let k = 0; k < this.depth; k++) {
      siblings.push(l[i ^ 1] ?? this.zero[k]);
      pathIndices.push(i & 1);
      const n = [];
      for (let j = 0; j < l.length; j += 2) n.push(H(l[j], l[j + 1] ?? this.zero[k]));
      l = n;
      i >>= 1;
    }
    return { siblings, pathIndices };
  }
}
/** the circuits' rule: at every level, index 0 puts the node on the left */
const climb = (leaf, p) => p.siblings.reduce((h, s, i) => (p.pathIndices[i] ? H(s[0], h) : H(h, s[0])), leaf);
const leaf = fc.oneof({ weight: 3, arbitrary: below(P) }, { weight: 3, arbitrary: fc.integer({ min: 0, max: 6 }).map((x) => hex(BigInt(x))) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 5 }).map((x) => hex(P - BigInt(x))) });
const op = fc.oneof(
  { weight: 8, arbitrary: fc.record({ o: fc.constant("insert"), x: leaf }) },
  { weight: 2, arbitrary: fc.record({ o: fc.constant("delete"), i: fc.nat(40) }) },
  { weight: 3, arbitrary: fc.record({ o: fc.constant("proof"), i: fc.nat(40) }) },
  { weight: 1, arbitrary: fc.record({ o: fc.constant("find"), x: leaf }) },
  { weight: 1, arbitrary: fc.record({ o: fc.constant("outside"), i: fc.constantFrom(-1, 0, 1, 1000) }) },
  { weight: 1, arbitrary: fc.record({ o: fc.constant("leaves") }) },
);

export async function run(c, { lib }) {
  const { Poseidon, Tree } = lib;
  c.assume("@zk-kit/incremental-merkle-tree is replaced by a stand-in with the published behaviour; the wasm build by the native one behind the repository's own glue (DESIGN.md)");
  const pos = new Poseidon();
  await pos.initWasm();

  await c.sub("hash", 1500, 40000, fc.tuple(leaf, leaf, fc.boolean()), async ([a, b, fresh]) => {
    const p = fresh ? new Poseidon() : pos;
    const ins = [big(a), big(b)];
    ensure(p.hash(ins) === H(big(a), big(b)), "hash differs from the reference");
    ensure(ins[0] === big(a) && ins[1] === big(b) && ins.length === 2, "hash changed its arguments");
    const f = p.hash; // the tree passes it around
    ensure(f.call(p, ins) === H(big(a), big(b)), "hash differs the second time");
  });
  await c.sub("unhashable", 400, 8000, fc.tuple(fc.array(fc.oneof(below(P).map((x) => [x, 0]), u256.map((x) => [x, 1]), u256.map((x) => [x, 2]), u256.map((x) => [x, 3])), { minLength: 0, maxLength: 4 })), async ([l], o) => {
    // values that are no field elements, or another number of them
    const v = l.map(([x, k]) => [big(x), P + (big(x) % (2n ** 256n - P)), 2n ** 256n + big(x), -1n - big(x)][k]);
    if (v.length === 2 && v.every((x) => x >= 0n && x < P)) return o.trivial();
    const r = attempt(() => pos.hash(v));
    ensure(!r.ok, () => `hash(${show(v)}) gave ${r.value}`);
    ensure(pos.hash([1n, 2n]) === H(1n, 2n), "hashing fails after a refused hash");
  });
  const coord = fc.oneof(below(P), fc.tuple(below(P), fc.integer({ min: 1, max: 31 })).map(([x, k]) => hex(big(x) >> BigInt(8 * k))));
  await c.sub("public-key", 800, 20000, fc.tuple(coord, coord), async ([x, y]) => {
    const b = Buffer.from(x + y, "hex");
    ensure(pos.hashPubKey(b) === H(big(x), big(y)), "hashPubKey is not the hash of the two coordinates");
    ensure(b.toString("hex") === x + y, "hashPubKey changed its argument");
  });

  const history = fc.record({ depth: fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 1, max: 4 }) }, { weight: 2, arbitrary: fc.integer({ min: 5, max: 20 }) }, { weight: 1, arbitrary: fc.integer({ min: 21, max: 32 }) }), depth2: fc.integer({ min: 1, max: 3 }), ops: fc.array(fc.tuple(op, fc.nat(4)), { minLength: 1, maxLength: 30, size: "max" }) });
  await c.sub("histories", 220, 6000, history, async ({ depth, depth2, ops }, o) => {
    const trees = [new Tree(depth, pos), new Tree(depth2, pos)], models = [new Model(depth), new Model(depth2)];
    const kept = [];
    let inserted = 0;
    for (const [p, which] of ops) {
      const k = which === 0 ? 1 : 0;
      const t = trees[k], m = models[k];
      const full = m.leaves.length === 2 ** m.depth;
      const i = m.leaves.length ? (p.i ?? 0) % m.leaves.length : -1;
      if (p.o === "insert") {
        const r = attempt(() => t.insert(big(p.x)));
        ensure(r.ok === !full, () => (full ? "a full tree took another leaf" : `insert failed: ${r.error}`));
        if (r.ok) { m.leaves.push(big(p.x)); inserted++; } else o.class("full");
      } else if (p.o === "delete" && i >= 0) {
        t.delete(i);
        m.leaves[i] = 0n;
        o.class("deletion");
      } else if (p.o === "outside") {
        const j = p.i < 0 ? p.i : m.leaves.length + p.i;
        ensure(!attempt(() => t.createProof(j)).ok, `a proof for absent index ${j}`);
        ensure(!attempt(() => t.delete(j)).ok, `deletion of absent index ${j}`);
      } else if (p.o === "find") {
        ensure(t.indexOf(big(p.x)) === m.leaves.indexOf(big(p.x)), "indexOf");
      } else if (p.o === "leaves") {
        const l = t.leaves();
        ensure(show(l) === show(m.leaves), "leaves");
        l.push(9n);
        if (l.length > 1) l[0] = 77n;
      } else if (p.o === "proof" && i >= 0) {
        const pr = t.createProof(i), want = m.proof(i);
        ensure(pr.root === m.root(), "the proof's root is not the tree's");
        ensure(show(pr.siblings) === show(want.siblings.map((s) => [s])), "siblings");
        ensure(show(pr.pathIndices) === show(want.pathIndices), "path indices");
        ensure(climb(m.leaves[i], pr) === pr.root, "the proof does not lead to the root");
        ensure(t.verifyProof(pr, m.leaves[i]) === true, "verifyProof refuses an honest proof");
        kept.push([pr, show(pr), m.leaves[i], t]);
      }
      for (const j of [0, 1]) ensure(trees[j].root() === models[j].root(), () => `root of tree ${j} after ${show(p)}`);
      ensure(t.depth === m.depth, "depth");
    }
    // proofs are snapshots: later operations do not change them, and they stay valid for their root
    for (const [pr, s, l, t] of kept) {
      ensure(show(pr) === s, "a proof changed after it was created");
      ensure(t.verifyProof(pr, l) === true, "an earlier proof no longer verifies for its own root");
    }
    for (const j of [0, 1]) {
      ensure(show(trees[j].leaves()) === show(models[j].leaves), "leaves at the end");
      models[j].leaves.forEach((l) => ensure(trees[j].indexOf(l) === models[j].leaves.indexOf(l), "indexOf at the end"));
    }
    if (!inserted) o.trivial();
  });
  // longer histories: hundreds of leaves, so that indices and levels beyond one byte are used
  await c.sub("many-leaves", 3, 60, fc.record({ depth: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 8, max: 10 }) }, { weight: 1, arbitrary: fc.constantFrom(20, 32) }), n: fc.integer({ min: 240, max: 340 }), extra: fc.nat(3), seeds: fc.array(leaf, { minLength: 1, maxLength: 4 }), ats: fc.array(fc.nat(2000), { minLength: 4, maxLength: 12 }), drop: fc.nat(2000) }), async ({ depth, n, extra, seeds, ats, drop }, o) => {
    const t = new Tree(depth, pos), m = new Model(depth);
    // at times exactly full
    const total = depth < 12 && n >= 2 ** depth - 60 ? 2 ** depth + extra : n;
    for (let i = 0; i < total; i++) {
      const full = m.leaves.length === 2 ** depth;
      const x = (big(seeds[i % seeds.length]) + BigInt(i >> 1)) % P; // with repetitions
      const r = attempt(() => t.insert(x));
      ensure(r.ok === !full, () => (full ? "a full tree took another leaf" : `insert ${i} failed: ${r.error}`));
      if (r.ok) m.leaves.push(x);
      if (full) o.class("full");
      if ((i & (i + 1)) === 0 || i % 97 === 0) ensure(t.root() === m.root(), () => `root after ${i + 1} leaves`);
    }
    if (drop % 3 === 0) { t.delete(drop % m.leaves.length); m.leaves[drop % m.leaves.length] = 0n; o.class("deletion"); }
    const root = m.root();
    ensure(t.root() === root, "the root at the end");
    ensure(show(t.leaves()) === show(m.leaves), "leaves at the end");
    for (const at of [...ats, m.leaves.length - 1, 255, 256, 128]) {
      const i = at % m.leaves.length;
      const pr = t.createProof(i), want = m.proof(i);
      ensure(pr.root === root, "the proof's root is not the tree's");
      ensure(show(pr.siblings) === show(want.siblings.map((s) => [s])), () => `siblings of ${i}`);
      ensure(show(pr.pathIndices) === show(want.pathIndices), () => `path indices of ${i}`);
      ensure(climb(m.leaves[i], pr) === root, "the proof does not lead to the root");
      ensure(t.verifyProof(pr, m.leaves[i]) === true, "verifyProof refuses an honest proof");
      ensure(t.indexOf(m.leaves[i]) === m.leaves.indexOf(m.leaves[i]), () => `indexOf the leaf at ${i}`);
    }
    ensure(!attempt(() => t.createProof(m.leaves.length)).ok, "a proof for an absent index");
    o.class(m.leaves.length > 256 ? "more than 256" : "200 to 256");
  });
  await c.sub("wrong-proofs", 250, 6000, fc.tuple(fc.integer({ min: 1, max: 8 }), fc.array(leaf, { minLength: 1, maxLength: 12, size: "max" }), fc.nat(20), fc.array(fc.record({ w: fc.integer({ min: 0, max: 6 }), at: fc.nat(40), x: leaf, bit: fc.nat(255) }), { minLength: 1, maxLength: 8 })), async ([depth, ls, at, edits], o) => {
    const t = new Tree(depth, pos);
    const leaves = ls.slice(0, 2 ** depth).map(big);
    leaves.forEach((l) => t.insert(l));
    const i = at % leaves.length;
    for (const e of edits) {
      const pr = t.createProof(i);
      let l = leaves[i];
      const k = e.at % depth;
      if (e.w === 0) l = big(e.x);
      else if (e.w === 1) l = leaves[e.at % leaves.length];
      else if (e.w === 2) pr.siblings[k][0] = big(e.x);
      else if (e.w === 3) pr.pathIndices[k] ^= 1;
      else if (e.w === 4) pr.root = big(e.x);
      else if (e.w === 5) { const j = (k + 1) % depth; [pr.siblings[k], pr.siblings[j]] = [pr.siblings[j], pr.siblings[k]]; }
      else { const v = l ^ (1n << BigInt(e.bit)); l = v < P ? v : l; }
      const want = climb(l, pr) === pr.root;
      const s = show(pr);
      ensure(t.verifyProof(pr, l) === want, () => `verifyProof says ${!want} for ${show({ pr, l })}`);
      ensure(show(pr) === s, "verifyProof changed the proof");
      ensure(t.root() === new Model_(depth, leaves).root(), "verifyProof changed the tree");
      o.class(want ? "same meaning" : "wrong");
    }
  });
}
class Model_ extends Model {
  constructor(depth, leaves) { super(depth); this.leaves = leaves; }
}
