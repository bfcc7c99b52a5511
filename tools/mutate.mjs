// Audits the checks with mechanical mutants of the sources (not part of any check).
// Usage: node tools/mutate.mjs --files REGEX [--slots N] [--limit N] [--out FILE] [--scale F]
// A mutant that survives a scaled-down run of the relevant checks and compiles is run against the full quick checks;
// what is left is printed for review (some of it the repository's own tests would catch).
import { readFileSync, writeFileSync, mkdirSync, rmSync, existsSync, appendFileSync } from "node:fs";
import { spawn, execSync } from "node:child_process";
import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/x.js")("typescript");
const V = new URL("../", import.meta.url).pathname;
const args = process.argv.slice(2);
const opt = (n, d) => { const i = args.indexOf(n); return i >= 0 ? args[i + 1] : d; };
const slots = Number(opt("--slots", 4)), limit = Number(opt("--limit", 1e9)), out = opt("--out", "/tmp/mutants.log"), scale = opt("--scale", "0.1");
const filter = new RegExp(opt("--files", "."));
const map = [
  [/client\/src\/prompt\/promptCache|client\/src\/prompt\/promptManager/, "C03 C04"], [/promptClients/, "C05 C06 C35"],
  [/client\/src\/score/, "C01 C02 C21 C36"], [/LangfuseClient/, "C27 C01 C37 C36 C38"], [/RunnerContext|adapters/, "C33"], [/ExperimentManager/, "C20 C21 C33"],
  [/client\/src\/dataset\//, "C22 C23 C21"], [/client\/src\/media/, "C25 C30"], [/core\/src\/media\.ts/, "C25 C10"], [/mediaUpload/, "C24 C30 C10"],
  [/propagation/, "C11 C12 C13 C14"], [/logger/, "C32"], [/core\/src\/utils/, "C31 C27 C24"], [/core\/src\/api\/core|core\/src\/api\/Client|core\/src\/api\/errors/, "C26 C27 C36 C30 C38"],
  [/span-processor/, "C07 C08 C09 C34 C14 C11 C10"], [/MediaService/, "C10 C07 C09"], [/span-filter/, "C08 C14"],
  [/tracing\/src/, "C15 C16 C31 C11"], [/openai\/src/, "C17 C18"], [/langchain\/src/, "C19"], [/vercel-ai-sdk\/src/, "C29"], [/browser\/src/, "C28"],
];
const files = execSync(`cd /repo && git ls-files 'packages/*/src/**.ts'`, { encoding: "utf8" }).trim().split("\n").filter((f) => filter.test(f) && !/api\/api\/|types\.ts$|constants\.ts$|\/runtime\//.test(f));
const K = ts.SyntaxKind;
function mutants(file) {
  const text = readFileSync("/repo/" + file, "utf8");
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const res = [];
  const add = (n, repl, kind, s = n.getStart(sf), e = n.getEnd()) => res.push({ file, s, e, repl, kind, line: sf.getLineAndCharacterOfPosition(s).line + 1, old: text.slice(s, e).replace(/\s+/g, " ").slice(0, 90) });
  const isLog = (n) => /\b(logger|console|diag|log)\b.*\.(debug|info|warn|error|log)\b|getGlobalLogger\(\)/.test(n.getText(sf).slice(0, 120).replace(/\s+/g, " "));
  const swap = { [K.EqualsEqualsEqualsToken]: "!==", [K.ExclamationEqualsEqualsToken]: "===", [K.EqualsEqualsToken]: "!=", [K.ExclamationEqualsToken]: "==", [K.LessThanToken]: "<=", [K.LessThanEqualsToken]: "<", [K.GreaterThanToken]: ">=", [K.GreaterThanEqualsToken]: ">", [K.AmpersandAmpersandToken]: "||", [K.BarBarToken]: "&&", [K.QuestionQuestionToken]: "||", [K.MinusToken]: "+", [K.AsteriskToken]: "/", [K.SlashToken]: "*" };
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
    if (ts.isExpressionStatement(n)) {
      if (isLog(n)) return;
      const x = n.expression;
      const inner = ts.isAwaitExpression(x) ? x.expression : x;
      if (ts.isCallExpression(inner) || ts.isBinaryExpression(inner) || ts.isDeleteExpression(inner) || ts.isPostfixUnaryExpression(inner)) if (!/^super\b/.test(inner.getText(sf))) add(n, ";", "drop-statement");
    }
    if (ts.isBinaryExpression(n)) { const r = swap[n.operatorToken.kind]; if (r) add(n.operatorToken, r, "operator"); if (n.operatorToken.kind === K.AmpersandAmpersandToken) { add(n, n.left.getText(sf), "left-only"); add(n, n.right.getText(sf), "right-only"); } if (n.operatorToken.kind === K.BarBarToken) { add(n, n.left.getText(sf), "left-only"); add(n, n.right.getText(sf), "right-only"); } if (n.operatorToken.kind === K.QuestionQuestionToken) { add(n, n.left.getText(sf), "left-only"); } }
    if (ts.isIfStatement(n)) { add(n.expression, "true", "if-true"); add(n.expression, "false", "if-false"); }
    if (ts.isConditionalExpression(n)) { add(n, n.whenTrue.getText(sf), "cond-true"); add(n, n.whenFalse.getText(sf), "cond-false"); }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, n.operand.getText(sf), "drop-not");
    if (ts.isNumericLiteral(n)) { add(n, String(Number(n.text) + 1), "number+1"); if (Number(n.text) > 1) add(n, String(Number(n.text) - 1), "number-1"); }
    if (ts.isSpreadAssignment(n)) add(n, "", "drop-spread", n.getStart(sf), text[n.getEnd()] === "," ? n.getEnd() + 1 : n.getEnd());
    if ((ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) && ts.isObjectLiteralExpression(n.parent)) add(n, "", "drop-property", n.getStart(sf), text[n.getEnd()] === "," ? n.getEnd() + 1 : n.getEnd());
    if (ts.isAwaitExpression(n)) add(n, `(${n.expression.getText(sf)})`, "drop-await");
    if (ts.isCatchClause(n)) add(n.block, `{ throw ${n.variableDeclaration?.name.getText(sf) ?? "new Error('x')"}; }`, "rethrow");
    if (ts.isTryStatement(n) && n.finallyBlock) add(n.finallyBlock, "{}", "empty-finally");
    if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) add(n, ";", "drop-jump");
    if (ts.isReturnStatement(n) && !n.expression) add(n, ";", "drop-return");
    if (ts.isSpreadElement(n) && ts.isArrayLiteralExpression(n.parent)) add(n, "", "drop-array-spread", n.getStart(sf), text[n.getEnd()] === "," ? n.getEnd() + 1 : n.getEnd());
    if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, "false", "true-false");
    if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, "true", "false-true");
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["filter", "slice", "trim", "toLowerCase", "sort", "reverse", "flat", "replace", "concat"].includes(n.expression.name.text)) add(n, n.expression.expression.getText(sf), "drop-" + n.expression.name.text);
    if (ts.isCallExpression(n) && isLog(n)) return;
    if (ts.isNewExpression(n) && /Error/.test(n.expression.getText(sf))) return;
    ts.forEachChild(n, visit);
  };
  ts.forEachChild(sf, visit);
  return res.map((m) => ({ ...m, text }));
}
let all = files.flatMap(mutants).filter((m) => map.some(([r]) => r.test(m.file)));
const done = new Set(existsSync(out) ? readFileSync(out, "utf8").split("\n").filter(Boolean).map((l) => { const x = JSON.parse(l); return x.key; }) : []);
const key = (m) => `${m.file}:${m.s}:${m.e}:${m.kind}`;
all = all.filter((m) => !done.has(key(m))).slice(0, limit);
console.log(`${all.length} mutants in ${files.length} files`);
if (args.includes("--list")) process.exit(0);
const sh = (cmd, o = {}) => new Promise((res) => { const c = spawn("bash", ["-c", cmd], { ...o, stdio: ["ignore", "pipe", "pipe"] }); let t = ""; c.stdout.on("data", (d) => (t += d)); c.stderr.on("data", (d) => (t += d)); c.on("exit", (code) => res({ code, out: t })); });
const scratch = "/tmp/mutwork";
mkdirSync(scratch, { recursive: true });
const stat = { killed: 0, inconclusive: 0, tests: 0, build: 0, survived: 0 };
const lastKiller = {};
async function slot(w) {
  const d = `${scratch}/w${w}`;
  await sh(`rm -rf ${d}; cp -a /repo ${d}; cd ${d} && git checkout -q -- .`);
  writeFileSync(`${scratch}/env${w}.sh`, readFileSync("/opt/vp/env.sh", "utf8").replace("cd /repo", `cd ${d}`));
  for (;;) {
    const m = all.shift(); if (!m) break;
    writeFileSync(`${d}/${m.file}`, m.text.slice(0, m.s) + m.repl + m.text.slice(m.e));
    let checks = map.find(([r]) => r.test(m.file))[1].split(" ");
    if (lastKiller[m.file]) checks = [lastKiller[m.file], ...checks.filter((c) => c !== lastKiller[m.file])];
    let verdict, by;
    const run = async (c, sc) => sh(`cd ${V} && VERIF_REPO=${d} VERIF_NO_EVIDENCE=1 VERIF_WORKERS=${Math.max(1, Math.floor(8 / slots))} VERIF_SCALE=${sc} VERIF_FAST=1 timeout 300 node tools/run.mjs ${c}`);
    let incon;
    for (const sc of [scale, opt("--full", "0.3")]) {
      incon = undefined;
      for (const c of checks) { const r = await run(c, sc); if (r.code === 1) { verdict = "killed"; by = c; lastKiller[m.file] = c; break; } if (r.code !== 0) incon = c + ":" + r.out.slice(0, 200); if (/harness does not build/.test(r.out)) { verdict = "build"; break; } }
      if (verdict) break;
      if (sc === scale) {
        // does it compile at all?
        const b = await sh(`. ${scratch}/env${w}.sh; timeout 120 node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream`);
        if (b.code) { verdict = "build"; break; }
      }
    }
    verdict ??= "survived";
    if (verdict === "survived" && incon) verdict = "inconclusive";
    stat[verdict]++;
    writeFileSync(`${d}/${m.file}`, m.text);
    appendFileSync(out, JSON.stringify({ key: key(m), verdict, by, file: m.file, line: m.line, kind: m.kind, old: m.old, repl: m.repl.slice(0, 60), incon }) + "\n");
    if (verdict === "survived" || verdict === "inconclusive") console.log(`${verdict} ${m.file}:${m.line} ${m.kind}: ${m.old} => ${m.repl.slice(0, 60)} ${incon ?? ""}`);
  }
  await sh(`rm -rf ${d}`);
}
await Promise.all(Array.from({ length: slots }, (_, w) => slot(w)));
console.log(JSON.stringify(stat));
