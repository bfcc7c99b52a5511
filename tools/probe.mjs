// Quick self-examination with hand-written changes (no demonstrations): node tools/probe.mjs FILE... [--only NAME,..] [--jobs N] [--props C01,C02]
// FILE default-exports [{ id, property, edits: [[file, find, replace], ...] }]. Prints CAUGHT / MISSED per change; a missed one is also
// run against the repository's tests (TESTS when those catch it).
import { readFileSync, writeFileSync, mkdirSync, rmSync, appendFileSync } from "node:fs";
import { spawn } from "node:child_process";
import path from "node:path";
const V = new URL("../", import.meta.url).pathname;
const args = process.argv.slice(2);
const opt = (n) => { const i = args.indexOf(n); return i >= 0 ? args.splice(i, 2)[1] : undefined; };
const only = opt("--only")?.split(","), jobs = Number(opt("--jobs") || 3);
let todo = [];
for (const f of args) todo.push(...(await import(path.resolve(f))).default);
if (only) todo = todo.filter((s) => only.some((o) => s.id === o || s.id.startsWith(o + "-")));
const sh = (cmd) => new Promise((res) => { const c = spawn("bash", ["-c", cmd], { stdio: ["ignore", "pipe", "pipe"] }); let out = ""; c.stdout.on("data", (d) => (out += d)); c.stderr.on("data", (d) => (out += d)); c.on("exit", (code) => res({ code, out })); });
const scratch = `/tmp/probework-${process.pid}`;
mkdirSync(scratch, { recursive: true });
const sum = [];
async function worker(w) {
  const d = `${scratch}/w${w}`;
  await sh(`rm -rf ${d}; cp -a /repo ${d}; cd ${d} && git checkout -q -- . `);
  writeFileSync(`${scratch}/env${w}.sh`, readFileSync("/opt/vp/env.sh", "utf8").replace("cd /repo", `cd ${d}`));
  for (;;) {
    const s = todo.shift(); if (!s) break;
    await sh(`cd ${d} && git checkout -q -- .`);
    const say = (v, t = "") => { sum.push([s.id, v]); console.log(`${v.padEnd(7)} ${s.id} ${t.replace(/\n/g, " ").slice(0, 260)}`); };
    let bad;
    for (const [file, find, repl] of s.edits) { const p = path.join(d, file), t = readFileSync(p, "utf8"), n = t.split(find).length - 1; if (n !== 1) { bad = `edit matches ${n} times in ${file}: ${find.slice(0, 80)}`; break; } writeFileSync(p, t.replace(find, () => repl)); }
    if (bad) { say("BADEDIT", bad); continue; }
    const b = await sh(`. ${scratch}/env${w}.sh; node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream`);
    if (b.code) { say("NOBUILD", b.out.slice(-300)); continue; }
    const c = await sh(`cd ${V} && VERIF_REPO=${d} VERIF_NO_EVIDENCE=1 VERIF_WORKERS=${Math.max(2, Math.floor(8 / jobs))} node tools/run.mjs ${s.property} --tier quick`);
    if (c.code === 1 && c.out.includes(`VIOLATION property=${s.property}`)) { say("CAUGHT", c.out.split("\n").find((l) => /kind|VIOLATION|→|:/.test(l)) ?? ""); continue; }
    await sh(`. ${scratch}/env${w}.sh; rm -rf ${scratch}/rep${w}; mkdir ${scratch}/rep${w}; node_modules/.bin/vitest run --project=unit --project=integration --reporter=json --outputFile.json=${scratch}/rep${w}/vitest.json; node_modules/.bin/vitest run --project=e2e tests/e2e/prompts.e2e.test.ts -t "prompt compilation" --reporter=json --outputFile.json=${scratch}/rep${w}/vitest-e2e.json; sed -i "s#${d}/#/repo/#g" ${scratch}/rep${w}/*.json; python3 /opt/vp/results.py ${scratch}/rep${w}/out.json "jest:${scratch}/rep${w}/vitest*.json"`);
    let missing = [];
    try { const o = JSON.parse(readFileSync(`${scratch}/rep${w}/out.json`)), b0 = JSON.parse(readFileSync("/opt/vp/BASELINE.json")); missing = b0.stable.filter((x) => !o.passed.includes(x)); } catch (e) { missing = ["no result"]; }
    say(missing.length ? "TESTS" : "MISSED", `exit=${c.code} ${missing.length ? missing[0] : c.code ? c.out.slice(-200) : ""}`);
  }
}
await Promise.all(Array.from({ length: Math.min(jobs, todo.length) }, (_, w) => worker(w)));
rmSync(scratch, { recursive: true, force: true });
const by = {}; for (const [id, v] of sum) (by[v] ??= []).push(id);
console.log(Object.entries(by).map(([k, v]) => `${k} ${v.length}${k === "CAUGHT" ? "" : ": " + v.join(" ")}`).join("\n"));
