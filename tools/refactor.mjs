// Audits the checks for false alarms (not part of any check): applies one kind of behaviour-preserving rewrite to every
// source file of a scratch copy of /repo and runs the checks on it.
// Usage: node tools/refactor.mjs KIND[,KIND..] [--only C01,C02] [--jobs N] [--files REGEX] [--tests]
import { readFileSync, writeFileSync, rmSync } from "node:fs";
import { spawn, execSync } from "node:child_process";
import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/x.js")("typescript");
const V = new URL("../", import.meta.url).pathname;
const args = process.argv.slice(2);
const opt = (n, d) => { const i = args.indexOf(n); return i >= 0 ? args[i + 1] : d; };
const K = ts.SyntaxKind;
const kinds = {
  /** return E  =>  const r = E; return r */
  "return-const": (n, sf, add) => { if (ts.isReturnStatement(n) && n.expression) add(n, (t) => `{ const __rv = ${t(n.expression)}; return __rv; }`); },
  /** if (c) A else B  =>  if (!(c)) B else A;  c ? a : b  =>  !(c) ? b : a */
  "if-invert": (n, sf, add) => {
    if (ts.isIfStatement(n) && n.elseStatement) add(n, (t) => `if (!(${t(n.expression)})) { ${t(n.elseStatement)} } else { ${t(n.thenStatement)} }`);
    if (ts.isConditionalExpression(n)) add(n, (t) => `(!(${t(n.condition)}) ? ${t(n.whenFalse)} : ${t(n.whenTrue)})`);
  },
  /** await E  =>  await (async () => E)(): the awaited part moved to a helper */
  "await-wrap": (n, sf, add) => { if (ts.isAwaitExpression(n) && !/\b(yield|arguments)\b/.test(n.expression.getText(sf))) add(n, (t) => `(await (async () => (${t(n.expression)}))())`); },
  /** the body of every function moved to an inner helper */
  "extract-body": (n, sf, add) => {
    if (!n.body || !ts.isBlock(n.body) || !(ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isArrowFunction(n) || ts.isFunctionExpression(n))) return;
    if (n.asteriskToken || /\b(yield|arguments|new\.target)\b/.test(n.body.getText(sf))) return;
    const as = n.modifiers?.some((m) => m.kind === K.AsyncKeyword);
    add(n.body, (t) => `{ const __body = ${as ? "async " : ""}() => ${t(n.body)}; return ${as ? "await " : ""}__body(); }`);
  },
  /** object literals of plain values written in the reverse order */
  "props-reverse": (n, sf, add) => {
    if (!ts.isObjectLiteralExpression(n) || n.properties.length < 2) return;
    const plain = (e) => ts.isIdentifier(e) || ts.isLiteralExpression(e) || (ts.isPropertyAccessExpression(e) && (plain(e.expression) || e.expression.kind === K.ThisKeyword)) || e.kind === K.NullKeyword || e.kind === K.TrueKeyword || e.kind === K.FalseKeyword;
    if (!n.properties.every((p) => ts.isShorthandPropertyAssignment(p) || (ts.isPropertyAssignment(p) && plain(p.initializer)))) return;
    add(n, (t) => `{ ${[...n.properties].reverse().map((p) => t(p)).join(", ")} }`);
  },
  /** private members renamed */
  "rename-private": (n, sf, add) => {
    const names = (sf.__priv ??= (() => {
      const s = new Set(), pub = new Set();
      const v = (m) => { const pr = m.modifiers?.some((x) => x.kind === K.PrivateKeyword); if ((ts.isPropertyDeclaration(m) || ts.isMethodDeclaration(m) || ts.isParameter(m)) && ts.isIdentifier(m.name)) (pr && !ts.isParameter(m) ? s : pub).add(m.name.text); ts.forEachChild(m, v); };
      ts.forEachChild(sf, v);
      const props = new Set(); const w = (m) => { if (ts.isPropertyAssignment(m) || ts.isShorthandPropertyAssignment(m) || ts.isBindingElement(m)) props.add(m.name.getText(sf)); ts.forEachChild(m, w); }; w(sf);
      return new Set([...s].filter((x) => !pub.has(x)));
    })());
    if ((ts.isPropertyDeclaration(n) || ts.isMethodDeclaration(n)) && ts.isIdentifier(n.name) && names.has(n.name.text) && n.modifiers?.some((x) => x.kind === K.PrivateKeyword)) add(n.name, () => n.name.text + "_renamed");
    if (ts.isPropertyAccessExpression(n) && (n.expression.kind === K.ThisKeyword || ts.isIdentifier(n.expression)) && names.has(n.name.text) && (n.expression.kind === K.ThisKeyword || sf.text.includes(`class ${n.expression.text}`))) add(n.name, () => n.name.text + "_renamed");
  },
  /** for (let i = 0; c; s) B  =>  { let i = 0; while (c) { B; s } } where B has no continue and captures nothing */
  "for-while": (n, sf, add) => { if (ts.isForStatement(n) && n.initializer && n.condition && n.incrementor && !/\b(continue|=>|function)\b|=>/.test(n.statement.getText(sf)) && !ts.isLabeledStatement(n.parent)) add(n, (t) => `{ ${t(n.initializer)}; while (${t(n.condition)}) { ${t(n.statement)}; ${t(n.incrementor)}; } }`); },
  /** a && b / a || b in conditions through De Morgan */
  "de-morgan": (n, sf, add) => { if (ts.isIfStatement(n) && ts.isBinaryExpression(n.expression)) { const e = n.expression, k = e.operatorToken.kind; if (k === K.AmpersandAmpersandToken) add(e, (t) => `!(!(${t(e.left)}) || !(${t(e.right)}))`); if (k === K.BarBarToken) add(e, (t) => `!(!(${t(e.left)}) && !(${t(e.right)}))`); } },
  /** a?.b  =>  (a == null ? undefined : a.b) for plain a that ends the chain */
  "noop": (n, sf, add) => { if ((ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n)) && n.body) add(n.body, (t) => `{ void 0; ${t(n.body).slice(1)}`); },
  /** template strings as concatenation */
  "template-concat": (n, sf, add) => { if (ts.isTemplateExpression(n) && !ts.isTaggedTemplateExpression(n.parent)) add(n, (t) => "(" + [JSON.stringify(n.head.text), ...n.templateSpans.flatMap((s) => ["String(" + t(s.expression) + ")", JSON.stringify(s.literal.text)])].join(" + ") + ")"); },
};
// every kind on its own; KIND+KIND applies several to the same copy, one after the other
Object.assign(kinds, {
  /** x => e  =>  x => { return e; } */
  "arrow-block": (n, sf, add) => { if (ts.isArrowFunction(n) && !ts.isBlock(n.body)) add(n.body, (t) => `{ return ${t(n.body)}; }`); },
  /** return E in an async function  =>  return await E */
  "return-await": (n, sf, add) => {
    if (!ts.isReturnStatement(n) || !n.expression || ts.isAwaitExpression(n.expression)) return;
    let f = n.parent; while (f && !ts.isFunctionLike(f)) f = f.parent;
    if (f?.modifiers?.some((m) => m.kind === K.AsyncKeyword) && !f.asteriskToken) add(n, (t) => `return await (${t(n.expression)});`);
  },
  /** a ?? b  =>  a !== null && a !== undefined ? a : b for side-effect free a */
  "nullish-expand": (n, sf, add) => {
    const plain = (e) => ts.isIdentifier(e) || e.kind === K.ThisKeyword || (ts.isPropertyAccessExpression(e) && plain(e.expression));
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.QuestionQuestionToken && plain(n.left)) add(n, (t) => `((${t(n.left)} !== null && ${t(n.left)} !== undefined) ? ${t(n.left)} : (${t(n.right)}))`);
  },
  /** for (const x of xs)  =>  index loop over a copy, where the body does not change xs */
  "for-of-copy": (n, sf, add) => { if (ts.isForOfStatement(n) && !n.awaitModifier) add(n.expression, (t) => `Array.from(${t(n.expression)} as any) as any`); },
  /** if (c) { ...; return } rest  =>  the same with an explicit else */
  "guard-else": (n, sf, add) => {
    if (!ts.isBlock(n)) return;
    const i = n.statements.findIndex((s) => ts.isIfStatement(s) && !s.elseStatement && (ts.isReturnStatement(s.thenStatement) || (ts.isBlock(s.thenStatement) && s.thenStatement.statements.length && ts.isReturnStatement(s.thenStatement.statements.at(-1)))));
    if (i < 0 || i === n.statements.length - 1 || !ts.isFunctionLike(n.parent)) return;
    add(n, (t) => `{ ${n.statements.slice(0, i + 1).map((s) => t(s)).join("\n")} else { ${n.statements.slice(i + 1).map((s) => t(s)).join("\n")} } }`);
  },
  /** cond && x in statements, i++ => i += 1, !x === through Boolean */
  "increment": (n, sf, add) => { if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) && (ts.isExpressionStatement(n.parent) || ts.isForStatement(n.parent))) add(n, (t) => `${t(n.operand)} ${n.operator === K.PlusPlusToken ? "+" : "-"}= 1`); },
  /** try { A } finally / catch kept, await before return of calls of this.x() kept in a variable */
  "args-const": (n, sf, add) => { if (ts.isExpressionStatement(n) && ts.isAwaitExpression(n.expression)) add(n, (t) => `{ const __p = ${t(n.expression.expression)}; await __p; }`); },
});
function rewrite(file, kind, text) {
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const rules = new Map();
  const add = (n, f) => rules.set(n, f);
  let count = 0;
  const collect = (n) => { if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return; kinds[kind](n, sf, add); ts.forEachChild(n, collect); };
  collect(sf);
  const text0 = (n) => { // the text of n with the rewrites of its descendants
    let out = "", pos = n.getStart(sf);
    const kids = []; const v = (c) => { if (rules.has(c)) kids.push(c); else ts.forEachChild(c, v); };
    ts.forEachChild(n, v);
    kids.sort((a, b) => a.getStart(sf) - b.getStart(sf));
    for (const c of kids) { out += text.slice(pos, c.getStart(sf)) + render(c); pos = c.getEnd(); }
    return out + text.slice(pos, n.getEnd());
  };
  const busy = new Set();
  const render = (n) => { if (rules.has(n) && !busy.has(n)) { busy.add(n); count++; const s = rules.get(n)(render); busy.delete(n); return s; } return text0(n); };
  const body = text0(sf);
  return { out: text.slice(0, sf.getStart(sf)) + body, count };
}
const which = args[0] === "all" ? Object.keys(kinds) : args[0].split(",");
const filter = new RegExp(opt("--files", "."));
const files = execSync(`cd /repo && git ls-files 'packages/*/src/**.ts'`, { encoding: "utf8" }).trim().split("\n").filter((f) => filter.test(f) && !/api\/api\//.test(f));
const sh = (cmd, o = {}) => new Promise((res) => { const c = spawn("bash", ["-c", cmd], { ...o, stdio: ["ignore", "pipe", "pipe"] }); let t = ""; c.stdout.on("data", (d) => (t += d)); c.stderr.on("data", (d) => (t += d)); c.on("exit", (code) => res({ code, out: t })); });
const checks = opt("--only")?.split(",") ?? JSON.parse(readFileSync(V + "MANIFEST.json", "utf8")).checks.map((c) => c.property_id ?? c.property ?? c.id);
for (const kind of which) {
  const d = `/tmp/refactorwork-${kind}`;
  await sh(`rm -rf ${d}; cp -a /repo ${d}; cd ${d} && git checkout -q -- .`);
  let total = 0;
  for (const f of files) {
    let text = readFileSync("/repo/" + f, "utf8");
    for (const k of kind.split("+")) { const { out, count } = rewrite(f, k, text); total += count; text = out; }
    writeFileSync(`${d}/${f}`, text);
  }
  console.log(`${kind}: ${total} rewrites`);
  const queue = [...checks];
  const jobs = Number(opt("--jobs", 2));
  await Promise.all(Array.from({ length: jobs }, async () => {
    for (;;) {
      const c = queue.shift(); if (!c) break;
      const r = await sh(`cd ${V} && VERIF_REPO=${d} VERIF_NO_EVIDENCE=1 VERIF_WORKERS=${Math.max(1, Math.floor(8 / jobs))} timeout 900 node tools/run.mjs ${c}`);
      if (r.code) console.log(`${kind} ${c}: exit ${r.code}\n${r.out.slice(-1500)}`);
    }
  }));
  console.log(`${kind}: done`);
  if (!args.includes("--keep")) rmSync(d, { recursive: true, force: true });
}
