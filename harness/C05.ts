import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";

const VARS = ["x", "name", "user_name", "longVariable1", "A", "é", "x1", "msg-id", "item", "constructor", "toString", "valueOf", "__proto__"];
const deepFreeze = (o: any): any => { if (o && typeof o === "object" && !Object.isFrozen(o)) { Object.freeze(o); Object.values(o).forEach(deepFreeze); } return o; };

/** literal without "{{" */
function literal(r: Rng): string {
  let s = r.weighted<() => string>([
    [4, () => r.text(20)],
    [1, () => r.pick(["<b>bold & \"quoted\" 'text'</b>", "$& $1 $$ \\1", "{single} {", "}} stray", "{\"json\": {\"a\": [1,2]}}", "line1\r\nline2\n\n  indented", "  ", "\t", "%s %d {0}", "#not /a section ^ > ! ="])],
    [1, () => ""],
  ])();
  while (s.includes("{{")) s = s.split("{{").join("{ {");
  return s;
}
type Seg = { lit?: string; v?: string; ws?: string };
function template(r: Rng): { text: string; segs: Seg[] } {
  const segs: Seg[] = [];
  for (let i = r.int(0, 8); i > 0; i--) {
    if (r.bool(0.5)) segs.push({ v: r.pick(VARS), ws: r.pick(["", "", "", " ", "  "]) });
    else {
      let l = literal(r);
      segs.push({ lit: l });
    }
  }
  // a literal "{" directly before a tag would change what the tag is
  let text = "";
  for (let i = 0; i < segs.length; i++) {
    const s = segs[i];
    if (s.lit !== undefined) {
      let l = s.lit;
      if ((text + l).includes("{{") && !text.endsWith("}}")) l = " " + l;
      if (l.endsWith("{")) l += ".";
      if (text.endsWith("{") && l.startsWith("{")) l = "." + l;
      s.lit = l;
      text += l;
    } else text += `{{${s.ws}${s.v}${s.ws}}}`;
  }
  return { text, segs };
}
const value = (r: Rng) => r.weighted<() => any>([
  [5, () => r.text(15)],
  [1, () => r.pick(["{{name}}", "{{x}}", "{{#x}}", "<script>&amp;\"'/`=</script>", "$&", "", "{", "}}", "\n", "a\r\nb\rc", " padded ", "  ", "\ufeffbom", "n\u0303", "v".repeat(3000), "line\n".repeat(50), "[1,2]", "{\"a\":{\"b\":1}}"])],
  [1, () => r.int(-10, 10)],
  [0.5, () => r.pick([0, 1.5, -2.25, 1e21, 123456789012])],
])();
const vars = (r: Rng) => { const v: any = {}; for (const k of VARS) if (r.bool(0.6)) v[k] = value(r); return v; };
const rename = (r: Rng, v: any) => { const names = r.shuffle([...VARS]).filter((n) => n !== "__proto__"); return Object.fromEntries(Object.values(v).slice(0, names.length).map((x, i) => [names[i], x])); };
const render = (segs: Seg[], v: any) => segs.map((s) => (s.lit !== undefined ? s.lit : !v || !Object.hasOwn(v, s.v!) || v[s.v!] === undefined || v[s.v!] === null ? "" : String(v[s.v!]))).join("");

async function getPrompt(client: any, body: any, o: Obs, r: Rng) {
  if (r.bool(0.15)) {
    sim.onFetch = () => ({ status: 404, body: {} });
    const fb = body.type === "chat" ? body.prompt.filter((m: any) => m.role).map((m: any) => ({ role: m.role, content: m.content })) : body.prompt;
    if (!(body.type === "chat" && body.prompt.some((m: any) => !m.role)) && body.prompt !== "") {
      const d: any = await sim.drive(client.prompt.get("fb-" + r.hex(8), { type: body.type, fallback: fb, maxRetries: 0 }));
      o.equal(d.status, "fulfilled", "get");
      o.count("fallback-prompts");
      return d.value;
    }
  }
  sim.onFetch = () => ({ status: 200, body });
  const d: any = await sim.drive(client.prompt.get("p-" + r.hex(8)));
  o.equal(d.status, "fulfilled", "get");
  return d.value;
}

async function text(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const t = r.list(r.int(1, 3), () => template(r));
  const ps = [];
  let prev: any;
  for (const x of t) ps.push(await getPrompt(client, { name: "p", version: 1, type: "text", prompt: x.text, labels: [], tags: [], config: { k: 1 } }, o, r));
  for (let i = r.int(2, 8); i > 0; i--) {
    const k = r.int(0, ps.length - 1);
    // also the previous values under other names, or a subset of them
    const v: any = deepFreeze(r.bool(0.1) ? undefined : prev && r.bool(0.25) ? r.bool() ? rename(r, prev) : Object.fromEntries(Object.entries(prev).filter(() => r.bool(0.7))) : vars(r));
    prev = v;
    const out = ps[k].compile(v);
    o.equal(out, render(t[k].segs, v), "text", `template ${JSON.stringify(t[k].text)} with ${show(v)}:`);
    o.equal(ps[k].prompt, t[k].text, "text-mutated");
    o.count("text-compilations");
  }
  o.note = { templates: t.map((x) => x.text) };
  o.seen(t.map((x) => x.segs.map((s) => (s.lit !== undefined ? (s.lit === "" ? "" : "l") : "v" + s.ws!.length)).join("")).join("/"));
}

type Item = { role?: string; t?: ReturnType<typeof template>; ph?: string; typed?: boolean };
async function chat(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const items: Item[] = r.list(r.int(0, 7), () => r.bool(0.3) ? { ph: r.pick(["history", "examples", "x", "tools", "constructor", "valueOf"]) } : { role: r.pick(["system", "user", "assistant", "developer", "weird role", "User", "Zoë"]), t: template(r), typed: r.bool() });
  const raw = items.map((i) => i.ph ? { type: "placeholder", name: i.ph } : { ...(i.typed ? { type: "chatmessage" } : {}), role: i.role, content: i.t!.text });
  const p = await getPrompt(client, { name: "c", version: 3, type: "chat", prompt: raw, labels: ["production"], tags: [], config: {} }, o, r);
  const snapshot = p.toJSON();
  const shapes: string[] = [];
  let prev: any;
  for (let n = r.int(2, 6); n > 0; n--) {
    const v: any = r.bool(0.1) ? undefined : prev && r.bool(0.25) ? rename(r, prev) : vars(r);
    prev = v;
    const ph: any = Object.create(null);
    const want: any[] = [];
    for (const i of items) {
      if (!i.ph) { want.push({ role: i.role, content: render(i.t!.segs, v) }); continue; }
      if (!(i.ph in ph)) {
        ph[i.ph] = r.weighted<() => any>([
          [4, () => ({ kind: "msgs", list: r.list(r.int(1, 3), () => ({ role: r.pick(["user", "assistant", "tool", "Tool"]), t: template(r), extra: r.bool(0.3) })) })],
          [1, () => ({ kind: "empty" })], [2, () => ({ kind: "absent" })], [0.7, () => ({ kind: "rich" })], [0.7, () => ({ kind: "odd", v: r.pick(["str", 5, { a: 1 }, true, [1, 2], ["x"], [null], null, [{ role: "user", content: "x" }, null], [[]], [undefined]]) })],
        ])();
      }
      const e = ph[i.ph];
      if (e.kind === "msgs") for (const m of e.list) want.push({ role: m.role, content: render(m.t.segs, v), ...(m.extra ? { name: "n", meta: { deep: [1] } } : {}) });
      else if (e.kind === "rich") want.push({ role: "user", content: [{ type: "text", text: "{{x}}" }] });
      else if (e.kind === "odd") want.push(JSON.stringify(e.v));
      else if (e.kind === "absent") want.push({ type: "placeholder", name: i.ph });
      shapes.push(e.kind);
    }
    const given: any = {};
    for (const [k, e] of Object.entries<any>(ph)) {
      if (e.kind === "msgs") given[k] = e.list.map((m: any) => ({ role: m.role, content: m.t.text, ...(m.extra ? { name: "n", meta: { deep: [1] } } : {}) }));
      else if (e.kind === "empty") given[k] = [];
      else if (e.kind === "rich") given[k] = [{ role: "user", content: [{ type: "text", text: "{{x}}" }] }];
      else if (e.kind === "odd") given[k] = e.v;
    }
    if (r.bool(0.3)) given.unused = [{ role: "user", content: "unused" }];
    deepFreeze(v); deepFreeze(given);
    const out = JSON.parse(JSON.stringify(p.compile(v, Object.keys(given).length || r.bool() ? given : undefined)));
    o.equal(out, JSON.parse(JSON.stringify(want)), "chat", `messages ${JSON.stringify(raw)} with ${show(v)} and ${show(given)}:`);
    o.equal(p.toJSON(), snapshot, "chat-mutated", "prompt after compile");
    o.count("chat-compilations");
    // what compile returned belongs to the caller: changing it must not affect later compilations
    for (const m of p.compile(v, given) as any[]) if (m && typeof m === "object" && m.role && !Object.isFrozen(m)) { m.content = "CHANGED"; m.role = "CHANGED"; }
  }
  o.note = { items: raw };
  o.seen(items.map((i) => (i.ph ? "P" : i.t!.segs.map((s) => (s.lit !== undefined ? "l" : "v")).join(""))).join("/") + ":" + shapes.join(","));
}

defineCheck("C05", {
  rule: "A case is one to three random templates (literals with special characters, variables with optional inner blanks) or a random chat prompt with placeholders, each compiled several times with random variables/placeholders (also values that look like templates), compared with an independent segment-wise renderer; distinct by segment structure and placeholder kinds.",
  required: ["text-compilations", "chat-compilations", "fallback-prompts"],
  assumptions: ["templates use plain variables only (no Mustache sections, partials or custom delimiters), none of them named hasOwnProperty (which the Mustache library itself cannot look up)"],
}, [
  { name: "text", quick: 2500, run: text },
  { name: "chat", quick: 2500, run: chat },
]);
