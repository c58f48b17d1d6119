// Stand-in for @zk-kit/incremental-merkle-tree 1.x.
"use strict";
const type = (v, name, ...t) => { if (!t.includes(typeof v)) throw new TypeError(`Parameter '${name}' is not ${t[0] === "object" ? "an" : "a"} ${t[0]}`); };
class IncrementalMerkleTree {
  constructor(hash, depth, zeroValue, arity = 2) {
    type(hash, "hash", "function"); type(depth, "depth", "number"); type(zeroValue, "zeroValue", "number", "string", "bigint"); type(arity, "arity", "number");
    if (depth < 1 || depth > 32) throw new Error("The tree depth must be between 1 and 32");
    this._hash = hash; this._depth = depth; this._arity = arity; this._zeroes = []; this._nodes = [];
    for (let l = 0; l < depth; l++) { this._zeroes.push(zeroValue); this._nodes[l] = []; zeroValue = hash(Array(arity).fill(zeroValue)); }
    this._nodes[depth] = [];
    this._root = zeroValue;
  }
  get root() { return this._root; }
  get depth() { return this._depth; }
  get leaves() { return this._nodes[0].slice(); }
  get zeroes() { return this._zeroes; }
  get arity() { return this._arity; }
  indexOf(leaf) { type(leaf, "leaf", "number", "string", "bigint"); return this._nodes[0].indexOf(leaf); }
  _path(leaf, index) {
    let node = leaf;
    for (let l = 0; l < this._depth; l++) {
      const start = index - (index % this._arity);
      const ch = [];
      this._nodes[l][index] = node;
      for (let i = start; i < start + this._arity; i++) ch.push(i < this._nodes[l].length ? this._nodes[l][i] : this._zeroes[l]);
      node = this._hash(ch);
      index = Math.floor(index / this._arity);
    }
    this._root = node;
  }
  insert(leaf) {
    type(leaf, "node", "number", "string", "bigint");
    if (this._nodes[0].length >= this._arity ** this._depth) throw new Error("The tree is full");
    this._path(leaf, this._nodes[0].length);
  }
  delete(index) { this.update(index, this._zeroes[0]); }
  update(index, leaf) {
    type(index, "index", "number");
    if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    this._path(leaf, index);
  }
  createProof(index) {
    type(index, "index", "number");
    if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    const siblings = [], pathIndices = [], leafIndex = index;
    for (let l = 0; l < this._depth; l++) {
      const pos = index % this._arity, start = index - pos;
      pathIndices[l] = pos; siblings[l] = [];
      for (let i = start; i < start + this._arity; i++) if (i !== index) siblings[l].push(i < this._nodes[l].length ? this._nodes[l][i] : this._zeroes[l]);
      index = Math.floor(index / this._arity);
    }
    return { root: this._root, leaf: this._nodes[0][leafIndex], pathIndices, siblings };
  }
  verifyProof(proof) {
    type(proof, "proof", "object"); type(proof.root, "proof.root", "number", "string", "bigint"); type(proof.leaf, "proof.leaf", "number", "string", "bigint");
    type(proof.siblings, "proof.siblings", "object"); type(proof.pathIndices, "proof.pathElements", "object");
    let node = proof.leaf;
    for (let i = 0; i < proof.siblings.length; i++) {
      const ch = proof.siblings[i].slice();
      ch.splice(proof.pathIndices[i], 0, node);
      node = this._hash(ch);
    }
    return proof.root === node;
  }
}
module.exports = { IncrementalMerkleTree };
