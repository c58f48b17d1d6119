// Bundles the repository's client library with the stand-ins, puts the native build behind its
// wasm glue, and runs property checks with fast-check (seeded, shrinking, replay, evidence).
import { createRequire } from "module";
import { createHash } from "crypto";
import * as fs from "fs";
import * as os from "os";
import * as path from "path";
import { fileURLToPath } from "url";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const LIB = process.env.TS_LIB_ROOT || "/repo/packages/lib";
const tools = createRequire("/opt/veriftools/node/node_modules/");
export const fc = tools("fast-check");

/** A directory of this process, removed when it ends. */
export const scratch = fs.mkdtempSync(path.join(os.tmpdir(), "ts-check-"));
process.on("exit", () => fs.rmSync(scratch, { recursive: true, force: true }));

// ---------- native half
// without one, calls need `glue.override`
const mod = { exports: () => { throw new Error("no native build"); } };
if (process.env.NAPI_SUT) process.dlopen(mod, process.env.NAPI_SUT);
export const native = mod.exports;
globalThis.__native = native;

// ---------- the module the wasm glue believes in
/** What the glue did: used by the checks of the marshalling. */
export const glue = { calls: [], errors: [], live: new Map(), sp: 1 << 16, top: 1 << 16, instances: 0, failNext: 0, growAlways: false, override: null,
  /** forget the blocks a trapped call left behind */
  reset() { this.live.clear(); } };
function fakeExports() {
  const memory = new WebAssembly.Memory({ initial: 2 });
  let top = 1 << 17; // bump allocator above the shadow stack
  const bad = (m) => { glue.errors.push(m); };
  const ensure = (end) => {
    const need = Math.ceil(end / 65536) - memory.buffer.byteLength / 65536;
    if (need > 0) memory.grow(need);
    else if (glue.growAlways && memory.buffer.byteLength < 1 << 30) memory.grow(1);
  };
  const malloc = (n) => {
    const p = top;
    top += (n + 7) & ~7;
    top += 8;
    ensure(top);
    glue.live.set(p, n);
    return p | 0;
  };
  const free = (p, n) => {
    p >>>= 0;
    if (glue.live.get(p) !== n) bad(`free(${p}, ${n}) of ${glue.live.has(p) ? "a block of another size" : "no live block"}`);
    glue.live.delete(p);
    if (glue.live.size === 0) top = 1 << 17;
  };
  const take = (p, n) => {
    p >>>= 0;
    if (glue.live.get(p) !== n) bad(`argument (${p}, ${n}) is not an allocated block`);
    const b = Buffer.from(new Uint8Array(memory.buffer, p, n));
    return b;
  };
  const trap = () => { throw new WebAssembly.RuntimeError("unreachable"); };
  const run = (op, args) => {
    const rec = { op, args };
    glue.calls.push(rec);
    if (glue.failNext > 0) { glue.failNext--; trap(); }
    try { rec.out = (glue.override || native)(...(glue.override ? [op, args] : [op, ...args])); } catch (e) { rec.error = e.message; trap(); }
    return rec.out;
  };
  const bytes = (op, k) => (ret, ...a) => {
    const args = [];
    for (let i = 0; i < k; i++) args.push(take(a[2 * i], a[2 * i + 1]));
    if (ret % 4 || ret < 16) bad(`return area at ${ret}`);
    const out = run(op, args);
    for (let i = 0; i < k; i++) free(a[2 * i], a[2 * i + 1]);
    if (op === "verify") {
      new Int32Array(memory.buffer, ret, 3).set([out[0], 0, 0]);
    } else {
      const p = malloc(out.length);
      new Uint8Array(memory.buffer).set(out, p);
      new Int32Array(memory.buffer, ret, 4).set([p, out.length, 0, 0]);
    }
  };
  return {
    memory,
    __wbindgen_malloc: malloc,
    __wbindgen_free: free,
    __wbindgen_realloc: (p, o, n) => { const q = malloc(n); new Uint8Array(memory.buffer).copyWithin(q, p, p + o); free(p, o); return q; },
    __wbindgen_add_to_stack_pointer: (d) => { glue.sp += d; if (glue.sp > glue.top) bad("stack pointer above its base"); return glue.sp; },
    __wbindgen_exn_store: () => {},
    init_panic_hook: () => {},
    prove: bytes("prove", 3),
    verify: bytes("verify", 3),
    poseidon: bytes("poseidon", 1),
  };
}
const EMPTY = new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0]);
const instance = () => { glue.instances++; const i = Object.create(WebAssembly.Instance.prototype); Object.defineProperty(i, "exports", { value: fakeExports() }); return i; };
const same = (m) => m instanceof WebAssembly.Module || m instanceof ArrayBuffer || ArrayBuffer.isView(m);
const real = { Instance: WebAssembly.Instance };
WebAssembly.instantiate = async (m) => {
  if (!same(m)) throw new TypeError("WebAssembly.instantiate(): Argument 0 must be a buffer source or a WebAssembly.Module");
  const i = instance();
  return m instanceof WebAssembly.Module ? i : { module: new WebAssembly.Module(EMPTY), instance: i };
};
WebAssembly.Instance = new Proxy(real.Instance, { construct: () => instance() });

// ---------- the library
const SHIMS = { elliptic: "elliptic", "bn.js": "bn", "@ethereumjs/util": "ethutil", snarkjs: "snarkjs", "@zk-kit/incremental-merkle-tree": "imt" };
export async function library() {
  const esbuild = tools("esbuild");
  const src = path.join(LIB, "src");
  const resolve = (p) => {
    for (const c of [p + ".ts", p + ".js", path.join(p, "index.ts"), path.join(p, "index.js"), p]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
    return null;
  };
  const out = await esbuild.build({
    stdin: {
      contents: ["", ...["helpers/utils", "config/index", "helpers/publicInputs"].map((m) => m)].map((m, i) => `export * as m${i} from ${JSON.stringify(path.join(src, m || "index"))};`).join("\n"),
      resolveDir: src,
    },
    bundle: true, write: false, format: "cjs", platform: "node", target: "es2020", logLevel: "silent",
    plugins: [{
      name: "repo",
      setup(b) {
        b.onResolve({ filter: /.*/ }, (a) => {
          if (a.kind === "entry-point") return;
          if (/(^|\/)wasmBytes(\.(ts|js))?$/.test(a.path)) return { path: path.join(HERE, "shims/wasmBytes.js") };
          if (SHIMS[a.path]) return { path: path.join(HERE, "shims", SHIMS[a.path] + ".js") };
          const p = a.path.startsWith("@src") ? resolve(path.join(src, a.path.slice(4))) : a.path.startsWith(".") || a.path.startsWith("/") ? resolve(path.resolve(a.resolveDir, a.path)) : null;
          if (p) return { path: p };
          if (createRequire(import.meta.url).resolve && /^(node:)?(fs|path|os|crypto|buffer|util)(\/|$)/.test(a.path)) return { path: a.path, external: true };
          return { errors: [{ text: `no stand-in for ${a.path}` }] };
        });
      },
    }],
  });
  const m = { exports: {} };
  new Function("require", "module", "exports", out.outputFiles[0].text)(createRequire(import.meta.url), m, m.exports);
  return { lib: m.exports.m0, utils: m.exports.m1, config: m.exports.m2, pub: m.exports.m3 };
}

// ---------- the runner
const seed0 = Number(process.env.VERIF_SEED || 1);
const tier = process.env.VERIF_TIER || "quick";
const DIR = process.env.VERIF_DIR || path.join(HERE, "..");
export class Fail extends Error {}
export const ensure = (c, m) => { if (!c) throw new Fail(typeof m === "function" ? m() : m); };
export const show = (x) => JSON.stringify(x, (_, v) => (typeof v === "bigint" ? "0x" + v.toString(16) : v instanceof Uint8Array ? Buffer.from(v).toString("hex") : v));
/** The value or the error of a call. */
export const attempt = (f) => { try { return { ok: true, value: f() }; } catch (e) { return { ok: false, error: e }; } };
export const attemptAsync = async (f) => { try { return { ok: true, value: await f() }; } catch (e) { return { ok: false, error: e }; } };

/** Whether the library starts; that it does is part of the property. */
export const started = async (c, lib) => {
  const r = await attemptAsync(() => lib.init());
  if (!r.ok) await c.sub("init", 1, 1, fc.constant("init"), async () => { await lib.init(); });
  return r.ok;
};

export class Check {
  constructor(id, rule) {
    Object.assign(this, { id, rule, subs: {}, samples: [], evals: 0, seen: new Set(), notes: [], assumptions: [], violations: [], t0: Date.now() });
    const a = process.argv.slice(3);
    const opt = (n) => { const i = a.indexOf(n); return i < 0 ? null : a[i + 1]; };
    this.only = opt("--only");
    const r = opt("--replay");
    if (r) { this.replay = JSON.parse(fs.readFileSync(r)); this.only = this.replay.sub; }
  }
  assume(s) { this.assumptions.push(s); }
  note(s) { this.notes.push(s); }
  /** Runs one property; cases are plain JSON values. `f(case, obs)` throws on a violation. */
  async sub(name, quick, thorough, arb, f, limit = 120) {
    if (this.only && this.only !== name) return;
    const st = (this.subs[name] = { evaluations: 0, distinct_nontrivial: 0, classes: {} });
    const t0 = Date.now();
    let failed = null, failAt = 0, shrinks = 0;
    const one = async (v) => {
      const obs = { triv: false, classes: [], class(c) { this.classes.push(c); }, trivial() { this.triv = true; } };
      if (process.env.TS_CASE) fs.writeFileSync(process.env.TS_CASE, JSON.stringify({ sub: name, case: JSON.parse(show(v)) }));
      let timer;
      const late = new Promise((_, no) => { timer = setTimeout(() => no(new Fail(`no answer after ${limit} s`)), limit * 1000); });
      try { await Promise.race([f(v, obs), late]); } finally { clearTimeout(timer); }
      return obs;
    };
    if (this.replay) {
      const r = await attemptAsync(() => one(this.replay.case));
      if (r.ok) console.log(`replay of ${name}: held`);
      else this.violation(name, this.replay.case, r.error);
      return;
    }
    const prop = fc.asyncProperty(arb, async (v) => {
      // shrinking stops after a budget
      if (failed && (shrinks++ > 300 || Date.now() - failAt > 20000)) return;
      try {
        const o = await one(v);
        if (failed) return;
        st.evaluations++;
        this.evals++;
        for (const c of o.classes) st.classes[c] = (st.classes[c] || 0) + 1;
        if (!o.triv) {
          const h = createHash("sha256").update(name + show(v)).digest("base64").slice(0, 16);
          if (!this.seen.has(h)) { this.seen.add(h); st.distinct_nontrivial++; }
          if (st.evaluations === 3) this.samples.push({ sub: name, case: v });
        }
      } catch (e) {
        if (!failed) failAt = Date.now();
        failed = { v, e };
        throw e;
      }
    });
    const seed = createHash("sha256").update(`${seed0}/${this.id}/${name}`).digest().readInt32LE(0);
    await fc.check(prop, { seed, numRuns: tier === "thorough" ? thorough : quick, endOnFailure: false, verbose: 0 });
    st.wall_s = (Date.now() - t0) / 1000;
    if (failed) this.violation(name, failed.v, failed.e);
  }
  violation(name, v, e) {
    const dir = path.join(DIR, "evidence", "replay");
    fs.mkdirSync(dir, { recursive: true });
    const file = path.join(dir, `${this.id}-${name}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: this.id, sub: name, seed: seed0, case: JSON.parse(show(v)), why: e instanceof Fail ? e.message : String(e && e.stack), run: `./check ${this.id} --replay ${file}` }, null, 1));
    this.violations.push(name);
    console.log(`VIOLATION property=${this.id} replay=${file}`);
    console.log(`  ${name}: ${e && e.message}`);
  }
  finish() {
    const distinct = Object.values(this.subs).reduce((a, s) => a + s.distinct_nontrivial, 0);
    if (!this.only) {
      fs.mkdirSync(path.join(DIR, "evidence"), { recursive: true });
      fs.writeFileSync(path.join(DIR, "evidence", this.id + ".json"), JSON.stringify({
        property: this.id, tier: tier === "thorough" ? "thorough" : "quick", seed: seed0, level: "exploration",
        coverage: { evaluations: this.evals, distinct_nontrivial: distinct, rule: this.rule, samples: this.samples, sub_checks: this.subs, notes: this.notes, known_findings_seen: {} },
        assumptions: this.assumptions, wall_s: (Date.now() - this.t0) / 1000, violations: this.violations.length,
      }, null, 1));
    }
    console.log(`${this.id}: ${this.evals} cases, ${distinct} distinct and non-trivial, ${this.violations.length} violations, ${((Date.now() - this.t0) / 1000).toFixed(1)} s`);
    process.exitCode = this.violations.length ? 1 : 0;
  }
}

// ---------- generators (plain JSON: integers as hex strings)
export const P = 2n ** 256n - 2n ** 32n - 977n;
export const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
export const hex = (n, w = 64) => n.toString(16).padStart(w, "0");
export const big = (h) => BigInt("0x" + h);
const edges = [0n, 1n, 2n, 3n, 255n, 256n, N - 1n, N, N + 1n, P - 1n, P, P + 1n, 2n ** 256n - 1n, 2n ** 255n, 2n ** 248n - 1n, 2n ** 248n, 2n ** 128n, (N - 1n) / 2n, (N + 1n) / 2n];
/** Integers below 2^256, edge-heavy, with runs of leading or trailing zero bytes. */
export const u256 = fc.oneof(
  { weight: 5, arbitrary: fc.bigInt({ min: 0n, max: 2n ** 256n - 1n }).map((x) => hex(x)) },
  { weight: 3, arbitrary: fc.constantFrom(...edges).map((x) => hex(x)) },
  { weight: 2, arbitrary: fc.tuple(fc.bigInt({ min: 0n, max: 2n ** 256n - 1n }), fc.integer({ min: 1, max: 31 })).map(([x, k]) => hex(x >> BigInt(8 * k))) },
  { weight: 1, arbitrary: fc.tuple(fc.bigInt({ min: 0n, max: 2n ** 256n - 1n }), fc.integer({ min: 1, max: 31 })).map(([x, k]) => hex((x << BigInt(8 * k)) & (2n ** 256n - 1n))) },
);
export const below = (m, min = 0n) => fc.oneof(
  { weight: 6, arbitrary: fc.bigInt({ min, max: m - 1n }).map((x) => hex(x)) },
  { weight: 2, arbitrary: u256.map((x) => hex(big(x) % (m - min) + min)) },
);
