// Usage: node tools/run.mjs <PROPERTY> [--tier quick|thorough] [--replay FILE] [--scenario NAME] [--count N]
// Bundles harness/<PROPERTY>.ts together with the current sources of /repo, runs it under the
// simulation, merges the workers' reports, writes evidence/<PROPERTY>.json and gives the verdict.
// Exit: 0 held on everything explored, 1 violation, 2 inconclusive (build failure, nothing observed, watchdog).
import { createRequire } from "node:module";
import { spawn } from "node:child_process";
import { mkdirSync, rmSync, writeFileSync, readFileSync, existsSync, readdirSync } from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";

const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
const REPO = process.env.VERIF_REPO || "/repo";
const args = process.argv.slice(2);
const id = args[0];
const opt = (n) => { const i = args.indexOf(n); return i >= 0 ? args[i + 1] : undefined; };
const tier = opt("--tier") || process.env.VERIF_TIER || "quick";
const seed = Number.parseInt(process.env.VERIF_SEED || "1", 10) || 0;
const replay = opt("--replay") && path.resolve(opt("--replay"));
const t0 = Date.now();

function loadEsbuild() {
  const bases = ["/opt/veriftools/node/", REPO + "/", REPO + "/node_modules/tsup/"];
  for (const b of bases) {
    try { return createRequire(b + "x.js")("esbuild"); } catch {}
  }
  const pn = REPO + "/node_modules/.pnpm";
  for (const d of existsSync(pn) ? readdirSync(pn) : [])
    if (d.startsWith("esbuild@")) { try { return createRequire(`${pn}/${d}/node_modules/esbuild/x.js`)("esbuild"); } catch {} }
  throw new Error("esbuild not found");
}

const pkgNames = ["core", "client", "tracing", "otel", "openai", "langchain", "browser", "vercel-ai-sdk"];
const aliasPlugin = {
  name: "repo",
  setup(build) {
    build.onResolve({ filter: /^@langfuse\/[a-z-]+$/ }, (a) => {
      const n = a.path.slice("@langfuse/".length);
      if (pkgNames.includes(n)) return { path: `${REPO}/packages/${n}/src/index.ts` };
    });
    build.onResolve({ filter: /^[^./]/ }, async (a) => {
      if (a.pluginData === "inner" || !a.resolveDir.startsWith(VERIF)) return;
      for (const dir of [...(a.path.startsWith("@langchain/") ? [`${REPO}/packages/langchain`] : []), REPO, `${REPO}/node_modules/.pnpm/node_modules`, ...pkgNames.map((n) => `${REPO}/packages/${n}`)]) {
        const r = await build.resolve(a.path, { resolveDir: dir, kind: a.kind, pluginData: "inner" });
        if (!r.errors.length) return r;
      }
    });
  },
};

const outDir = path.join(VERIF, ".build", `${id}-${process.pid}`);
const cleanup = () => rmSync(outDir, { recursive: true, force: true });
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(2));

mkdirSync(outDir, { recursive: true });
mkdirSync(path.join(VERIF, "evidence", "replays"), { recursive: true });
const bundle = path.join(outDir, "harness.cjs");
try {
  await loadEsbuild().build({
    entryPoints: [path.join(VERIF, "harness", `${id}.ts`)],
    bundle: true, platform: "node", format: "cjs", target: "node20", outfile: bundle,
    sourcemap: "inline", sourcesContent: false, keepNames: false, logLevel: "silent",
    logLimit: 20, tsconfigRaw: "{}", plugins: [aliasPlugin], loader: { ".json": "json" },
  });
} catch (e) {
  console.log(`INCONCLUSIVE property=${id}: the harness does not build against ${REPO}: ${String(e.message).slice(0, 3000)}`);
  process.exit(2);
}

const workers = replay ? 1 : Number(process.env.VERIF_WORKERS || 8);
const budgetMs = tier === "quick" ? 840_000 : 3_600_000;
const reports = [];
const flags = /^\/\/ node-flags: (.*)$/m.exec(readFileSync(path.join(VERIF, "harness", `${id}.ts`), "utf8"))?.[1].trim().split(/\s+/) ?? [];
await Promise.all(Array.from({ length: workers }, (_, w) => new Promise((resolve) => {
  const report = path.join(outDir, `report-${w}.json`);
  const env = {
    PATH: process.env.PATH, HOME: process.env.HOME || "/root", TZ: "UTC",
    VH_REPORT: report, VH_ID: id, VH_TIER: tier, VH_SEED: String(seed), VH_WORKER: String(w), VH_WORKERS: String(workers),
    VH_REPLAY: replay || "", VH_SCENARIO: opt("--scenario") || "", VH_COUNT: opt("--count") || "", VH_SCALE: process.env.VERIF_SCALE || "", VH_FAST: process.env.VERIF_FAST || "", DBG: process.env.DBG || "",
  };
  const c = spawn(process.execPath, ["--enable-source-maps", "--expose-gc", "--max-old-space-size=3500", ...flags, bundle], { cwd: outDir, env, stdio: ["ignore", "inherit", "inherit"] });
  let timedOut = false;
  const wd = setTimeout(() => { timedOut = true; c.kill("SIGKILL"); }, budgetMs);
  c.on("exit", (code, sig) => {
    clearTimeout(wd);
    let r = null;
    try { r = JSON.parse(readFileSync(report, "utf8")); } catch {}
    reports.push({ code, sig, timedOut, r, w });
    resolve();
  });
})));

const bad = reports.filter((x) => !x.r);
const merged = { evaluations: 0, signatures: new Set(), counters: {}, violations: [], samples: [], scenarios: {}, rule: "", assumptions: [], missing: [] };
for (const { r } of reports) {
  if (!r) continue;
  merged.evaluations += r.evaluations;
  for (const s of r.signatures) merged.signatures.add(s);
  for (const [k, v] of Object.entries(r.counters)) merged.counters[k] = (merged.counters[k] || 0) + v;
  for (const [k, v] of Object.entries(r.scenarios)) merged.scenarios[k] = (merged.scenarios[k] || 0) + v;
  merged.violations.push(...r.violations);
  if (merged.samples.length < 6) merged.samples.push(...r.samples.slice(0, 6 - merged.samples.length));
  merged.rule = r.rule; merged.assumptions = r.assumptions; merged.required = r.required;
}
const missing = replay || opt("--scenario") ? [] : (merged.required || []).filter((k) => !merged.counters[k]);

// Known findings: listed ones are reported as such, anything else is a violation.
let known = [];
try { known = JSON.parse(readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings.filter((f) => f.property === id && f.status === "known"); } catch {}
const fresh = [];
const seenKnown = new Set();
for (const v of merged.violations) {
  const k = known.find((f) => f.key === v.key);
  if (k) seenKnown.add(k); else fresh.push(v);
}
for (const k of seenKnown) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);

const evidence = {
  property: id, tier, seed, level: "exploration",
  coverage: {
    evaluations: merged.evaluations,
    distinct_nontrivial: merged.signatures.size,
    rule: merged.rule,
    samples: merged.samples,
    scenarios: merged.scenarios,
    observed: Object.fromEntries(Object.entries(merged.counters).filter(([k]) => !k.startsWith("oracle."))),
    oracle_evaluations: Object.fromEntries(Object.entries(merged.counters).filter(([k]) => k.startsWith("oracle.")).map(([k, v]) => [k.slice(7), v])),
    known_findings_seen: seenKnown.size,
  },
  assumptions: merged.assumptions,
  wall_s: (Date.now() - t0) / 1000,
  violations: fresh.length,
};
if (!replay && !opt("--scenario") && !process.env.VERIF_NO_EVIDENCE) writeFileSync(path.join(VERIF, "evidence", `${id}.json`), JSON.stringify(evidence, null, 1) + "\n");

if (fresh.length) {
  const byMsg = new Map();
  for (const v of fresh) if (!byMsg.has(v.key)) byMsg.set(v.key, v);
  let n = 0;
  for (const v of byMsg.values()) {
    if (++n > 5) break;
    const f = path.join(VERIF, "evidence", "replays", `${id}-${seed}-${v.scenario}-${v.index}.json`);
    writeFileSync(f, JSON.stringify(v, null, 1) + "\n");
    console.log(`  ${v.scenario}#${v.index}: ${String(v.message).slice(0, 1500)}`);
    console.log(`VIOLATION property=${id} replay=${f}`);
  }
  process.exit(1);
}
if (bad.length) {
  console.log(`INCONCLUSIVE property=${id}: worker ended without a report ${JSON.stringify(bad.map(({ r, ...x }) => x))}`);
  process.exit(2);
}
if (missing.length) {
  console.log(`INCONCLUSIVE property=${id}: nothing observed for ${missing.join(", ")}`);
  process.exit(2);
}
console.log(`OK property=${id} tier=${tier} cases=${merged.evaluations} distinct=${merged.signatures.size} wall=${evidence.wall_s}s observed=${JSON.stringify(evidence.coverage.observed)}`);
