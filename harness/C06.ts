import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { PromptTemplate, ChatPromptTemplate } from "@langchain/core/prompts";

const VARS = ["x", "name", "user_name", "v1", "A"];
const noBrace = (s: string) => s.replace(/[{}]/g, "");
/** JSON text with single braces; values may be variables. Pretty or compact. */
function jsonText(r: Rng, depth: number, used: Set<string>): string {
  const indent = r.pick(["", "", " ", "\n  ", "\t", "\r\n"]), q = r.pick(['"', '"', "'"]);
  const val = (d: number): string => r.weighted<() => string>([
    [3, () => JSON.stringify(noBrace(r.text(8)).replace(/\u0000/g, ""))],
    [2, () => String(r.int(-9, 99))],
    [2, () => { const v = r.pick(VARS); used.add(v); const w = r.pick(["", "", " ", "  "]); return r.bool() ? `{{${w}${v}${w}}}` : `${q}pre {{${w}${v}${w}}} post${q}`; }],
    [1, () => r.pick(["{}", "{ }", "{\n}"])], [1, () => "[]"], [1, () => "null"],
    [d > 0 ? 4 : 0, () => obj(d - 1)],
    [d > 0 ? 2 : 0, () => `[${r.list(r.int(1, 3), () => val(d - 1)).join("," + indent)}]`],
  ])();
  const obj = (d: number): string => {
    const n = r.int(1, 3);
    return `{${indent}${r.list(n, (i) => `${q}k${i}${q}:${r.pick(["", " "])}${val(d)}`).join("," + indent)}${indent}}`;
  };
  return obj(depth);
}
function template(r: Rng, used: Set<string>): string {
  let s = "";
  for (let i = r.int(1, 6); i > 0; i--)
    s += r.weighted<() => string>([
      [4, () => noBrace(r.text(12)).replace(/\u0000/g, "")],
      [4, () => { const v = r.pick(VARS); used.add(v); const w = r.pick(["", "", "", " ", "  ", "\t", " \n "]); return `{{${w}${v}${w}}}`; }],
      [3, () => jsonText(r, r.int(0, 3), used)],
      [1, () => "\n"], [1, () => " plain words, with 100% $1 signs. "],
    ])();
  return s;
}
const values = (r: Rng) => Object.fromEntries(VARS.map((v) => [v, noBrace(r.text(10)) + r.pick(["", "<&>\"'", "{not a var}"])]));

async function run(r: Rng, o: Obs, kind: "text" | "chat") {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const used = new Set<string>();
  const vals = values(r);
  if (kind === "text") {
    const t = template(r, used);
    sim.onFetch = () => ({ status: 200, body: { name: "p", version: 1, type: "text", prompt: t, labels: [], tags: [], config: {} } });
    const p: any = ((await sim.drive(client.prompt.get("p"))) as any).value;
    const want = p.compile(vals);
    const lc = p.getLangchainPrompt();
    let got: any;
    try { got = await PromptTemplate.fromTemplate(lc).format(vals); } catch (e: any) { got = e; }
    o.equal(got, want, "text", `template ${JSON.stringify(t)} converted to ${JSON.stringify(lc)}:`);
    o.equal(p.prompt, t, "mutated");
    o.count("text");
    o.note = { template: t, langchain: lc };
    o.seen(t.replace(/[a-zA-Z0-9]+/g, "w").slice(0, 200));
    return;
  }
  const items: any[] = r.list(r.int(1, 5), () => r.bool(0.35) ? { type: "placeholder", name: r.pick(["history", "examples", "extra", "constructor", "chatHistory", "chat-history", "X"]) } : { role: r.pick(["system", "user", "assistant", "developer"]), content: template(r, used) });
  sim.onFetch = () => ({ status: 200, body: { name: "p", version: 1, type: "chat", prompt: items, labels: [], tags: [], config: {} } });
  const p: any = ((await sim.drive(client.prompt.get("p"))) as any).value;
  const ph: any = {};
  const later: any = {};
  for (const n of new Set(items.filter((i) => i.name).map((i) => i.name))) {
    const k = r.int(0, 3);
    if (k === 0) ph[n] = [];
    else if (k === 1 || k === 2) ph[n] = r.list(r.int(1, 3), () => ({ role: r.pick(["user", "assistant", "system", "developer"]), content: template(r, used) }));
    else later[n] = r.list(r.int(0, 2), () => ({ role: r.pick(["user", "assistant"]), content: noBrace(r.text(10)) }));
  }
  const lc = p.getLangchainPrompt(Object.keys(ph).length || r.bool() ? { placeholders: ph } : undefined);
  // unresolved placeholders are LangChain placeholders with the same name, in place
  const unresolved = items.filter((i) => i.name && !Object.hasOwn(ph, i.name)).map((i) => i.name);
  const roles = (t: string) => ({ system: "system", developer: "system", user: "human", assistant: "ai" } as any)[t] ?? t;
  let got: any;
  try {
    const msgs = await ChatPromptTemplate.fromMessages(lc).formatMessages({ ...vals, ...later });
    got = msgs.map((m: any) => ({ role: m.getType ? m.getType() : m._getType(), content: m.content }));
  } catch (e: any) { got = e?.message ?? e; }
  const want = p.compile(vals, ph).flatMap((m: any) => m.type === "placeholder" ? later[m.name].map((x: any) => ({ role: roles(x.role), content: x.content })) : [{ role: roles(m.role), content: m.content }]);
  o.equal(got, want, "chat", `messages ${JSON.stringify(items)} converted to ${JSON.stringify(lc)}:`);
  o.count("chat");
  o.count("unresolved-placeholders", unresolved.length);
  o.note = { items, langchain: lc };
  o.seen(items.map((i) => (i.name ? "P" + (Object.hasOwn(ph, i.name) ? ph[i.name].length : "?") : i.role[0] + i.content.replace(/[a-zA-Z0-9]+/g, "w").slice(0, 60))).join("/"));
}

defineCheck("C06", {
  rule: "A case is a random text or chat prompt mixing text, {{variables}} and single-brace JSON (compact or indented, nested, empty objects, variables as values), converted and then formatted by the real LangChain templates and compared with compile(); distinct by template skeleton.",
  required: ["text", "chat", "unresolved-placeholders"],
  assumptions: ["no stray single braces outside JSON (those denote LangChain variables) and none inside JSON strings"],
}, [
  { name: "text", quick: 3000, run: (r, o) => run(r, o, "text") },
  { name: "chat", quick: 1500, run: (r, o) => run(r, o, "chat") },
]);
