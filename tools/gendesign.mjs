// Assembles DESIGN.md from its hand-written parts, known-findings.json and the recorded outcome of the planted bugs.
import { readFileSync, writeFileSync, existsSync, readdirSync } from "node:fs";
const V = new URL("../", import.meta.url).pathname, rd = (f) => readFileSync(V + f, "utf8");
const kf = JSON.parse(rd("known-findings.json"));
let s = rd("tools/design-head.md") + "\n## 3. Defects found in langfuse-js\n\nRepaired in /repo by one `fix:` commit each (`known-findings.json`, entries \"fixed\"); the checks pass on the repaired tree and report them again if they return:\n\n";
for (const f of kf.fixed) { const m = /^fixed: property=(\S+) (\S+) (.*)$/s.exec(f); s += `* ${m[1]} \`${m[2]}\` ${m[3]}\n`; }
s += "\nKnown, not repaired:\n\n";
for (const f of kf.findings) s += `* ${f.property} \`${f.key}\`: ${f.what}\n`;
s += rd("tools/design-tail.md");
const res = existsSync(V + "tools/seed-results.json") ? JSON.parse(rd("tools/seed-results.json")) : {};
s += "| planted bug | property | needs | caught by |\n|---|---|---|---|\n";
for (const d of readdirSync(V + "seeded").sort()) { const m = JSON.parse(rd(`seeded/${d}/meta.json`)); s += `| ${d} | ${m.property} | ${m.needs.replaceAll("|", "\\|")} | ${res[d] === undefined ? "?" : res[d] ? m.property : "**missed**"} |\n`; }
s += rd("tools/design-limits.md");
writeFileSync(V + "DESIGN.md", s);
