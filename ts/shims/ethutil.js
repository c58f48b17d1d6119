// Stand-in for the part of @ethereumjs/util 8 that deals with RPC signatures.
"use strict";
const toBuffer = (v) => {
  if (v === null || v === undefined) return Buffer.allocUnsafe(0);
  if (Buffer.isBuffer(v)) return Buffer.from(v);
  if (Array.isArray(v) || v instanceof Uint8Array) return Buffer.from(v);
  if (typeof v === "string") {
    if (!/^0x[0-9A-Fa-f]*$/.test(v)) throw new Error(`Cannot convert string to buffer. toBuffer only supports 0x-prefixed hex strings and this string was given: ${v}`);
    const h = v.slice(2);
    return Buffer.from(h.length % 2 ? "0" + h : h, "hex");
  }
  throw new Error("invalid type");
};
const bufferToBigInt = (b) => { const h = Buffer.from(b).toString("hex"); return h === "" ? 0n : BigInt("0x" + h); };
const fromRpcSig = (sig) => {
  const buf = toBuffer(sig);
  let r, s, v;
  if (buf.length >= 65) {
    r = buf.slice(0, 32); s = buf.slice(32, 64); v = bufferToBigInt(buf.slice(64));
  } else if (buf.length === 64) {
    r = buf.slice(0, 32); s = buf.slice(32, 64); v = BigInt(buf[32] >> 7); s[0] &= 0x7f;
  } else throw new Error("Invalid signature length");
  if (v < 27n) v = v + 27n;
  return { v, r, s };
};
module.exports = { fromRpcSig, toBuffer, bufferToBigInt, bigIntToBuffer: (n) => toBuffer("0x" + n.toString(16)) };
