import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";

const copy = (x: any) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const names = ["a", "folder/prompt one", "ünï", "b?x=1&y#z", "a%2Fb", "A b"];
const labelsOf = (r: Rng) => r.pick<string[]>([[], ["production"], ["production", "latest"], ["x", "x"], ["", "0"], ["é ü"]]);
const configOf = (r: Rng) => r.pick<any>([{}, null, { model: "m", temperature: 0 }, { a: { b: [1, null, ""] } }, [], "text", 0, false]);
const message = (r: Rng) => ({ role: r.pick(["system", "user", "assistant", "tool", ""]), content: r.pick([r.text(12), "", "{{x}} y", "Hi {{ name }}"]), ...(r.bool(0.15) ? { name: "n", extra: { deep: [1] } } : {}) });
type Item = { kind: "plain" | "typed" | "ph"; m?: any; name?: string };
const items = (r: Rng): Item[] => r.list(r.int(0, 6), () => r.weighted<() => Item>([[2, () => ({ kind: "plain", m: message(r) })], [2, () => ({ kind: "typed", m: message(r) })], [1.5, () => ({ kind: "ph", name: r.pick(["history", "examples", "role", "", " padded ", "two words"]) })]])());
const wire = (i: Item) => (i.kind === "ph" ? { type: "placeholder", name: i.name } : i.kind === "typed" ? { type: "chatmessage", ...i.m } : { ...i.m });
const typed = (i: Item) => (i.kind === "ph" ? { type: "placeholder", name: i.name } : { type: "chatmessage", ...i.m });
const bare = (i: Item) => (i.kind === "ph" ? { type: "placeholder", name: i.name } : { ...i.m });

async function run(r: Rng, o: Obs) {
  setEnv({});
  const shape: string[] = [];
  /** every public face of a prompt object */
  const judge = (p: any, want: { name: string; version: number; type: string; config: any; labels: any; tags: any; commitMessage?: any; isFallback: boolean; list?: Item[]; text?: string }, what: string) => {
    for (const k of ["name", "version", "type", "config", "labels", "tags", "isFallback"] as const) o.check(deepEqual(copy(p[k]), copy((want as any)[k])), "field", () => `${what}: ${k} is ${show(p[k])} instead of ${show((want as any)[k])}`);
    o.check((p.commitMessage ?? undefined) === (want.commitMessage ?? undefined), "field", () => `${what}: commitMessage is ${show(p.commitMessage)} instead of ${show(want.commitMessage)}`);
    const content = want.list ? want.list.map(typed) : want.text;
    o.check(deepEqual(copy(p.prompt), copy(content)), "content", () => `${what}: prompt is ${show(p.prompt)} instead of ${show(content)}`);
    const j = JSON.parse(p.toJSON());
    const wj = copy({ name: want.name, prompt: want.list ? want.list.map(bare) : want.text, version: want.version, isFallback: want.isFallback, tags: want.tags, labels: want.labels, type: want.type, config: want.config });
    for (const k of Object.keys(wj)) o.check(deepEqual(j[k], wj[k]), "to-json", () => `${what}: toJSON gives ${k} ${show(j[k])} instead of ${show(wj[k])}`);
    o.count("prompts");
  };
  const serverPrompt = (name: string) => {
    const chat = r.bool(), list = chat ? items(r) : undefined, text = chat ? undefined : r.pick([r.text(20), "", "Hello {{name}}"]);
    const cm = r.pick<any>([undefined, null, "", "first", r.text(8)]);
    const w = { name, version: r.pick([0, 1, 2, 77]), type: chat ? "chat" : "text", config: configOf(r), labels: labelsOf(r), tags: r.pick<string[]>([[], ["t"], ["t", "u", "t"]]), commitMessage: cm };
    return { body: { ...w, prompt: chat ? list!.map(wire) : text, ...(r.bool(0.2) ? { resolutionGraph: null } : {}) }, want: { ...w, isFallback: false, list, text } };
  };
  for (let n = r.int(1, 5); n > 0; n--) {
    const name = r.pick(names), op = r.pick(["get", "get", "fallback", "create", "create", "update", "delete"]), legacy = r.bool(0.4);
    shape.push(op[0]);
    const client = new LangfuseClient(KEYS);
    sim.fetches.length = 0;
    if (op === "get") {
      const s = serverPrompt(name);
      sim.onFetch = () => ({ status: 200, body: s.body });
      const opts = { cacheTtlSeconds: r.bool() ? 0 : 1, ...(r.bool(0.3) ? { fallback: s.want.list ? [{ role: "user", content: "fb" }] : "fb", type: s.want.type } : {}) } as any;
      const d: any = await sim.drive(legacy ? client.getPrompt(name, opts) : client.prompt.get(name, opts));
      o.equal(d.status, "fulfilled", "get");
      if (opts.cacheTtlSeconds) { // what a cached read sees is the same prompt, whatever the application did with the first
        judge(d.value, s.want, "prompt read");
        try { d.value.compile({ name: "N", x: "X" }); d.value.getLangchainPrompt(); } catch {}
        const again: any = await sim.drive(client.prompt.get(name, { cacheTtlSeconds: 1 }));
        if (sim.fetches.length === 1) { judge(again.value, s.want, "cached prompt"); o.count("cached"); }
      } else judge(d.value, s.want, "prompt read");
      o.count("reads");
    } else if (op === "fallback") {
      sim.onFetch = () => r.pick<any>([{ status: 404, body: {} }, { status: 401, body: {} }, { error: new TypeError("fetch failed") }]);
      const chat = r.bool(), list = chat ? items(r).filter((i) => i.kind === "plain") : undefined, text = chat ? undefined : r.pick(["", "Hi {{x}}", r.text(6)]);
      const version = r.bool(0.4) ? r.pick([0, 1, 9]) : undefined, label = r.bool(0.5) ? r.pick(["staging", "é"]) : undefined;
      const given = chat ? list!.map((i) => ({ ...i.m })) : text;
      const frozen = JSON.stringify(given);
      const opts: any = { cacheTtlSeconds: 0, maxRetries: 0, fallback: given, ...(chat ? { type: "chat" } : r.bool() ? { type: "text" } : {}), ...(version !== undefined ? { version } : {}), ...(label ? { label } : {}) };
      const d: any = await sim.drive(legacy ? client.getPrompt(name, opts) : client.prompt.get(name, opts));
      o.equal(d.status, "fulfilled", "fallback");
      judge(d.value, { name, version: version ?? 0, type: chat ? "chat" : "text", config: {}, labels: label ? [label] : [], tags: [], isFallback: true, list, text }, "fallback");
      o.equal(JSON.stringify(given), frozen, "argument-mutated");
      o.count("fallbacks");
    } else if (op === "create") {
      const s = serverPrompt(name);
      sim.onFetch = () => ({ status: 200, body: s.body });
      const list = items(r), chat = r.bool();
      const extra: any = { ...(r.bool() ? { labels: labelsOf(r) } : {}), ...(r.bool() ? { tags: ["a", "b"] } : {}), ...(r.bool() ? { config: configOf(r) } : {}), ...(r.bool(0.4) ? { commitMessage: r.pick(["", "msg", null]) } : {}) };
      const body: any = chat ? { name, type: "chat", prompt: list.map(wire), ...extra } : { name, ...(r.bool() ? { type: "text" } : {}), prompt: r.pick(["", r.text(10), "{{x}}"]), ...extra };
      const frozen = JSON.stringify(body);
      const d: any = await sim.drive(legacy ? client.createPrompt(body) : client.prompt.create(body));
      o.equal(d.status, "fulfilled", "create");
      o.equal(JSON.stringify(body), frozen, "argument-mutated");
      o.check(sim.fetches.length === 1 && sim.fetches[0].method === "POST" && sim.fetches[0].path === "/api/public/v2/prompts", "create-request", () => show(sim.fetches.map((q) => [q.method, q.path])));
      const want = { ...JSON.parse(frozen), type: chat ? "chat" : "text", ...(chat ? { prompt: list.map(typed) } : {}) };
      o.check(deepEqual(sim.fetches[0].json, copy(want)), "create-body", () => `sent ${show(sim.fetches[0].json)} instead of ${show(want)}`);
      judge(d.value, s.want, "created prompt");
      o.count("creations");
    } else if (op === "update") {
      const answer = { ...serverPrompt(name).body, marker: r.hex(4) }, version = r.pick([0, 1, 12]), newLabels = labelsOf(r);
      sim.onFetch = () => ({ status: 200, body: answer });
      const d: any = await sim.drive(legacy ? client.updatePrompt({ name, version, newLabels }) : client.prompt.update({ name, version, newLabels }));
      o.equal(d.status, "fulfilled", "update");
      const q = sim.fetches[0], m = /^\/api\/public\/v2\/prompts\/([^/]+)\/versions\/([^/]+)$/.exec(q.path);
      o.check(sim.fetches.length === 1 && q.method === "PATCH" && m && decodeURIComponent(m[1]) === name && m[2] === String(version) && deepEqual(q.json, { newLabels }), "update-request", () => `${q.method} ${q.path} ${q.body} for ${show([name, version, newLabels])}`);
      o.check(deepEqual(copy(d.value), copy(answer)), "update-result", () => show(d.value));
      o.count("updates");
    } else {
      sim.onFetch = () => ({ status: 204 });
      const opts: any = r.pick<any>([undefined, {}, { version: r.pick([0, 3]) }, { label: r.pick(["production", "a b&c=d"]) }, { version: r.pick([0, 3]), label: "staging" }, { version: undefined, label: undefined }]);
      const d: any = await sim.drive(client.prompt.delete(name, opts));
      o.equal(d.status, "fulfilled", "delete");
      const q = sim.fetches[0], m = /^\/api\/public\/v2\/prompts\/([^/]+)$/.exec(q.path);
      o.check(sim.fetches.length === 1 && q.method === "DELETE" && m && decodeURIComponent(m[1]) === name, "delete-request", () => `${q.method} ${q.path} for ${name}`);
      // deleting more than asked for would be the worst of outcomes
      o.equal(Object.fromEntries(new URLSearchParams(q.search)), { ...(opts?.version !== undefined ? { version: String(opts.version) } : {}), ...(opts?.label !== undefined ? { label: opts.label } : {}) }, "delete-request", `query ${q.search} for ${show(opts)}`);
      o.count("deletions");
    }
  }
  o.seen(shape.join("") + sim.ev);
}
defineCheck("C35", {
  rule: "A case is a random sequence of reads, fallbacks, creations, label updates and deletions of prompts with random content and fields; every public member and request is compared with what the server or the caller gave. Distinct by operations and number of events.",
  required: ["prompts", "reads", "cached", "fallbacks", "creations", "updates", "deletions"],
}, [{ name: "prompts", quick: 2000, run }]);
