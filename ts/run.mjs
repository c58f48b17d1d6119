import { Check, library } from "./lib.mjs";
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
const id = process.argv[2];
// The check runs in a child, watched for cases that bring it down or do not come to an end.
if (!process.env.TS_CASE) {
  const dir = path.join(path.dirname(fileURLToPath(import.meta.url)), "..", "evidence", "replay");
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `.${id}.case`);
  const child = spawn(process.execPath, process.argv.slice(1), { stdio: "inherit", env: { ...process.env, TS_CASE: file } });
  const limit = process.env.VERIF_TIER === "thorough" ? 1800 : id === "C32" ? 660 : 300;
  let hung = false;
  const timer = setInterval(() => {
    const st = fs.statSync(file, { throwIfNoEntry: false });
    if (st && Date.now() - st.mtimeMs > limit * 1000) { hung = true; child.kill("SIGKILL"); }
  }, 1000);
  const [code, signal] = await new Promise((yes) => child.on("exit", (c, s) => yes([c, s])));
  clearInterval(timer);
  const last = fs.existsSync(file) ? JSON.parse(fs.readFileSync(file, "utf8")) : null;
  fs.rmSync(file, { force: true });
  if (signal && last && (hung || signal !== "SIGKILL")) {
    const out = path.join(dir, `${id}-${last.sub}.json`);
    const why = hung ? `not done after ${limit} seconds` : `the process is brought down (${signal})`;
    fs.writeFileSync(out, JSON.stringify({ property: id, ...last, why, run: `./check ${id} --replay ${out}` }, null, 1));
    console.log(`VIOLATION property=${id} replay=${out}`);
    console.log(`  ${last.sub}: ${why}`);
    process.exit(1);
  }
  process.exit(code ?? 2);
}
const RULE = {
  C28: "a case is a distinct (key, nonce, message, encoding of v, alteration) tuple; nonces whose r or s is 0 and alterations that change nothing are trivial",
  C29: "a case is a distinct tuple of values or bytes to encode, decode, parse or marshal",
  C30: "a case is a distinct pair of hash inputs, or a distinct history of tree operations; histories without an insertion are trivial",
  C31: "a case is a distinct (signature, message, Merkle proof, configuration, damage) tuple, with the native prover and verifier behind the glue or recorded stand-ins of it",
  C32: "a case is a distinct (circuit, signature, message, tree, alterations, false attempts) tuple over a deployed circuit at its own depth",
};
const quiet = console.warn;
console.warn = () => {};
try {
  const mods = await library();
  const c = new Check(id, RULE[id]);
  const { run } = await import(`./${id.toLowerCase()}.mjs`);
  await run(c, mods);
  console.warn = quiet;
  c.finish();
} catch (e) {
  console.error(`check ${id}: ${e && e.stack}`);
  process.exit(2);
}
