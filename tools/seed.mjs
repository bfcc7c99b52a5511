// Plants the bugs described in tools/seeds/*.mjs in scratch copies of /repo, confirms them and
// writes /verif/seeded/<id>/. Usage: node tools/seed.mjs [--only ID,ID] [--check-only] [--jobs N]
// For each bug: edits apply, the build passes, the repository's stable tests pass, the demo passes on
// the unchanged tree and fails with the bug. Then the property's quick check is run against the copy.
import { readFileSync, writeFileSync, mkdirSync, rmSync, readdirSync, existsSync } from "node:fs";
import { spawnSync, spawn } from "node:child_process";
import path from "node:path";
const V = new URL("../", import.meta.url).pathname;
const args = process.argv.slice(2);
const opt = (n) => { const i = args.indexOf(n); return i >= 0 ? args[i + 1] : undefined; };
const only = opt("--only")?.split(",");
const jobs = Number(opt("--jobs") || 4);
const force = args.includes("--force");
const checkOnly = args.includes("--check-only");
const specs = [];
for (const f of readdirSync(V + "tools/seeds").sort()) if (f.endsWith(".mjs")) specs.push(...(await import(V + "tools/seeds/" + f)).default);
const todo = specs.filter((s) => (only ? only.some((o) => s.id === o || s.id.startsWith(o + "-")) : force || checkOnly || !existsSync(`${V}seeded/${s.id}/meta.json`)));
const sh = (cmd, o = {}) => new Promise((res) => { const c = spawn("bash", ["-c", cmd], { ...o, stdio: ["ignore", "pipe", "pipe"] }); let out = ""; c.stdout.on("data", (d) => (out += d)); c.stderr.on("data", (d) => (out += d)); c.on("exit", (code) => res({ code, out })); });
const preamble = readFileSync(V + "tools/seeds/preamble.cjs", "utf8");
const results = [];
const scratch = "/tmp/seedwork";
mkdirSync(scratch, { recursive: true });
const envsh = (d) => readFileSync("/opt/vp/env.sh", "utf8").replace("cd /repo", `cd ${d}`);
async function worker(w) {
  const d = `${scratch}/w${w}`;
  await sh(`rm -rf ${d}; cp -a /repo ${d}; cd ${d} && git checkout -q -- . `);
  writeFileSync(`${scratch}/env${w}.sh`, envsh(d));
  const base = await sh(`. ${scratch}/env${w}.sh; node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream`);
  if (base.code) throw new Error("base build: " + base.out);
  for (;;) {
    const s = todo.shift(); if (!s) break;
    const fail = (why, out = "") => { results.push({ id: s.id, ok: false, why }); console.log(`${s.id}: REJECTED ${why} ${out.slice(-1500)}`); };
    await sh(`cd ${d} && git checkout -q -- .`);
    let bad;
    for (const [file, find, repl] of s.edits) {
      const p = path.join(d, file), t = readFileSync(p, "utf8");
      const n = t.split(find).length - 1;
      if (n !== 1) { bad = `edit matches ${n} times in ${file}: ${find.slice(0, 80)}`; break; }
      writeFileSync(p, t.replace(find, () => repl));
    }
    if (bad) { fail(bad); continue; }
    const diff = spawnSync("git", ["-C", d, "diff"], { encoding: "utf8" }).stdout;
    const demoDir = `${scratch}/demo-${s.id}`;
    mkdirSync(demoDir, { recursive: true });
    const demo = `${preamble}\nmain(async () => {\n${s.demo}\n});\n`;
    const demoSh = `#!/bin/bash\nexec node --expose-gc "$(dirname "$0")/demo.cjs"\n`;
    writeFileSync(`${demoDir}/demo.cjs`, demo); writeFileSync(`${demoDir}/demo.sh`, demoSh);
    if (!checkOnly) {
      const b = await sh(`. ${scratch}/env${w}.sh; node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream`);
      if (b.code) { fail("does not build", b.out); continue; }
      const dm = await sh(`cd ${d} && timeout 300 bash ${demoDir}/demo.sh`);
      if (dm.code === 0) { fail("demo passes with the bug", dm.out); continue; }
      const good = await sh(`cd /repo && timeout 300 bash ${demoDir}/demo.sh`);
      if (good.code !== 0) { fail("demo fails on the unchanged tree", good.out); continue; }
      const t = await sh(`. ${scratch}/env${w}.sh; rm -rf ${scratch}/rep${w}; mkdir ${scratch}/rep${w}; node_modules/.bin/vitest run --project=unit --project=integration --reporter=json --outputFile.json=${scratch}/rep${w}/vitest.json; node_modules/.bin/vitest run --project=e2e tests/e2e/prompts.e2e.test.ts -t "prompt compilation" --reporter=json --outputFile.json=${scratch}/rep${w}/vitest-e2e.json; sed -i "s#${d}/#/repo/#g" ${scratch}/rep${w}/*.json; python3 /opt/vp/results.py ${scratch}/rep${w}/out.json "jest:${scratch}/rep${w}/vitest*.json"`);
      let missing;
      try { const o = JSON.parse(readFileSync(`${scratch}/rep${w}/out.json`)); const b0 = JSON.parse(readFileSync("/opt/vp/BASELINE.json")); missing = b0.stable.filter((x) => !o.passed.includes(x)); } catch (e) { fail("tests gave no result", t.out); continue; }
      if (missing.length) { fail(`${missing.length} stable tests fail: ${missing.slice(0, 3).join("; ")}`); continue; }
      const sd = `${V}seeded/${s.id}`;
      mkdirSync(sd, { recursive: true });
      writeFileSync(`${sd}/patch.diff`, diff); writeFileSync(`${sd}/demo.cjs`, demo); writeFileSync(`${sd}/demo.sh`, demoSh, { mode: 0o755 });
      writeFileSync(`${sd}/meta.json`, JSON.stringify({ property: s.property, needs: s.needs, what_it_breaks: s.breaks }, null, 1) + "\n");
    }
    const c = await sh(`cd ${V} && VERIF_REPO=${d} VERIF_NO_EVIDENCE=1 node tools/run.mjs ${s.property} --tier quick`);
    const caught = c.code === 1 && c.out.includes(`VIOLATION property=${s.property}`);
    results.push({ id: s.id, ok: true, caught });
    console.log(`${s.id}: confirmed, ${caught ? "CAUGHT" : "MISSED exit=" + c.code} ${c.out.split("\n")[0].slice(0, 220)}`);
  }
  await sh(`rm -rf ${d}`);
}
await Promise.all(Array.from({ length: Math.min(jobs, todo.length) }, (_, w) => worker(w)));
const rf = V + "tools/seed-results.json", rec = existsSync(rf) ? JSON.parse(readFileSync(rf, "utf8")) : {};
for (const r of results) if (r.ok) rec[r.id] = r.caught;
writeFileSync(rf, JSON.stringify(Object.fromEntries(Object.entries(rec).sort()), null, 1) + "\n");
const ok = results.filter((r) => r.ok);
console.log(`confirmed ${ok.length}, caught ${ok.filter((r) => r.caught).length}, rejected ${results.length - ok.length}; missed: ${ok.filter((r) => !r.caught).map((r) => r.id).join(" ")}; rejected: ${results.filter((r) => !r.ok).map((r) => r.id).join(" ")}`);
rmSync(scratch, { recursive: true, force: true });
