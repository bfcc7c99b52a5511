import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv } from "../lib/env";
import { LangfuseBrowserClient, LangfuseBrowserError } from "@langfuse/browser";
import { LANGFUSE_SDK_VERSION } from "@langfuse/core";

const reserved = ["authorization", "content-type", "x-langfuse-public-key", "x-langfuse-sdk-name", "x-langfuse-sdk-version", "x-langfuse-sdk-variant", "x-langfuse-sdk-integration"];
const recase = (r: Rng, s: string) => r.pick([s, s.toUpperCase(), s.replace(/(^|-)([a-z])/g, (_, a, b) => a + b.toUpperCase()), [...s].map((c) => (r.bool() ? c.toUpperCase() : c)).join("")]);
const brokenStream = (first?: string) => { let n = 0; return new ReadableStream({ pull(c) { if (first && n++ === 0) c.enqueue(new TextEncoder().encode(first)); else c.error(new TypeError("terminated")); } }); };

// like a browser's, this fetch refuses to be called as the method of another object
const plainFetch = globalThis.fetch;
const windowFetch: any = function (this: any, ...a: any[]) { if (this !== undefined && this !== globalThis) throw new TypeError("Illegal invocation"); return (plainFetch as any)(...a); };
async function run(r: Rng, o: Obs) {
  globalThis.fetch = windowFetch;
  try { await scores(r, o); } finally { globalThis.fetch = plainFetch; }
}
async function scores(r: Rng, o: Obs) {
  // the key pair of a server-side configuration must not matter to the browser client
  setEnv(r.bool() ? { LANGFUSE_SECRET_KEY: "sk-lf-env-secret", LANGFUSE_PUBLIC_KEY: "pk-env", LANGFUSE_BASE_URL: "https://env.test" } : {});
  const publicKey = "pk-lf-" + r.plain(3, 10);
  const base = r.pick<string | undefined>([undefined, "https://cloud.langfuse.com", "https://lf.test", "https://lf.test/", "https://lf.test///", "https://lf.test/prefix", "https://lf.test/prefix/"]);
  const environment = r.pick<string | undefined>([undefined, "prod", "staging-1"]);
  const headers: Record<string, string> = {};
  if (r.bool(0.7)) for (let k = r.int(0, 5); k > 0; k--) if (r.bool(0.6)) headers[recase(r, r.pick(reserved))] = r.pick(["Basic EVIL-X-VALUE", "text/EVIL-X-VALUE", "EVIL-X-VALUE", "Bearer sk-lf-other"]); else headers[recase(r, "x-custom-" + r.plain(1, 4))] = r.pick(["", "v" + r.plain(0, 4), "v" + r.plain(0, 4)]);
  const useOwn = r.bool(0.4);
  let ownCalls = 0;
  const client = new LangfuseBrowserClient({ publicKey, ...(base !== undefined ? { baseUrl: base } : {}), ...(environment ? { environment } : {}), ...(Object.keys(headers).length || r.bool(0.3) ? { additionalHeaders: headers } : {}), ...(useOwn ? { fetch: ((u: any, i: any) => { ownCalls++; return globalThis.fetch(u, i); }) as any } : {}) });
  const N = r.int(1, 5);
  type Plan = { kind: string; reply: (ev: any) => any; ok: boolean; status?: number; errors?: any; body?: any; thrown?: any };
  const jobs = r.list(N, (k) => {
    const cyc: any = {}; cyc.self = cyc;
    const body: any = { name: r.pick(["n" + k, r.text(8) || "n"]), value: r.pick<any>([0, 1, -2.5, "yes", "", r.text(5), true]) };
    if (r.bool(0.5)) body.traceId = r.hex(32); if (r.bool(0.4)) body.observationId = r.hex(16); if (r.bool(0.3)) body.sessionId = "s" + r.plain(1, 4);
    if (r.bool(0.3)) body.comment = r.text(20); if (r.bool(0.3)) body.dataType = r.pick(["NUMERIC", "CATEGORICAL", "BOOLEAN", "TEXT"]); if (r.bool(0.3)) body.metadata = r.json(3);
    if (r.bool(0.3)) body.id = r.pick(["", "", "", " "]) + "id-" + k + r.plain(1, 4) + r.pick(["", "", "", " ", "\n"]); if (r.bool(0.3)) body.environment = r.pick(["", "env" + r.plain(1, 4), "env" + r.plain(1, 4)]); if (r.bool(0.2)) body.configId = "cfg"; if (r.bool(0.15)) body.queueId = "q";
    for (const f of ["id", "environment", "comment", "traceId", "metadata", "dataType"]) if (!(f in body) && r.bool(0.1)) body[f] = undefined;
    const cyclic = r.bool(0.04); if (cyclic) body.metadata = cyc;
    const good = (ev: any) => ({ successes: [{ id: ev.id, status: 201 }], errors: [] });
    const status = r.pick([300, 302, 308, 400, 401, 403, 404, 409, 413, 422, 429, 500, 502, 503]);
    const errBody = r.json(2); const longText = "<html>" + "upstream error ".repeat(r.pick([20, 700]));
    const err: any = r.bool(0.75) ? { id: "?", status: r.pick([400, 401, 404, 500]), message: "bad", error: r.json(1) } : r.pick<any>([{ id: "?", message: "no status" }, { id: "?", status: 0 }, { status: 207, message: "m" }, { id: "?", status: "400" }, {}, null, "text", 5, []]);
    const plan = r.weighted<Plan>([
      [6, { kind: "ok", ok: true, reply: (ev) => ({ status: r.pick([200, 201, 207]), body: good(ev) }) }],
      [1, { kind: "ok-extra", ok: true, reply: (ev) => ({ status: 207, body: { successes: [{ id: "other", status: 201 }, { id: ev.id, status: 200, extra: 1 }], errors: [], more: true } }) }],
      [2, { kind: "status-json", ok: false, status, body: errBody, reply: () => ({ status, body: JSON.stringify(errBody), headers: { "content-type": "application/json" } }) }],
      [1, { kind: "status-accepting", ok: false, status, reply: (ev) => ({ status, body: good(ev) }) }],
      [1, { kind: "status-text", ok: false, status, body: "<html>no</html>", reply: () => ({ status, body: "<html>no</html>" }) }],
      [0.4, { kind: "status-text", ok: false, status, body: longText, reply: () => ({ status, body: longText }) }],
      [0.6, { kind: "status-empty", ok: false, status, body: undefined, reply: () => ({ status, body: r.pick<any>(["", undefined]) }) }],
      [0.3, { kind: "not-modified", ok: false, status: 304, body: undefined, reply: () => ({ status: 304 }) }],
      [0.6, { kind: "status-broken-body", ok: false, status, body: undefined, reply: () => ({ status, body: brokenStream(r.pick([undefined, "{\"a\""])) }) }],
      [1.5, { kind: "partial", ok: false, errors: [err], reply: (ev) => ({ status: 207, body: { successes: r.bool() ? [{ id: ev.id, status: 201 }] : [], errors: [err] } }) }],
      [1, { kind: "other-success", ok: false, reply: (ev) => ({ status: 207, body: { successes: r.pick<any>([[], [{ id: ev.id + "x", status: 201 }], [{ id: ev.body.id, status: 201 }], [null], ["x"], [{}], [ev.id]]), errors: [] } }) }],
      [1, { kind: "bad-shape", ok: false, reply: () => ({ status: 200, body: r.pick<any>(["{}", "[]", "null", "1", "\"ok\"", "true", "{\"successes\":[]}", "{\"errors\":[]}", "{\"successes\":{},\"errors\":[]}", "{\"successes\":[],\"errors\":null}"]) }) }],
      [0.5, { kind: "bad-shape", ok: false, reply: (ev) => ({ status: 207, body: r.pick<any>([{ ...good(ev), errors: null }, { ...good(ev), errors: {} }, { successes: { 0: { id: ev.id } }, errors: [] }, { successes: good(ev).successes }, [good(ev)]]) }) }],
      [0.7, { kind: "not-json", ok: false, status: 200, reply: () => ({ status: 200, body: r.pick(["<html>", "{", "ok"]) }) }],
      [0.5, { kind: "empty", ok: false, reply: () => ({ status: r.pick([200, 204]), body: r.pick<any>([undefined]) }) }],
      [0.5, { kind: "ok-broken-body", ok: false, reply: () => ({ status: 200, body: brokenStream("{\"succ") }) }],
      [1, (() => { const e = r.pick<any>([new TypeError("Failed to fetch"), new DOMException("x", "AbortError"), "str", undefined === 1 ? 0 : { odd: 1 }]); return { kind: "net", ok: false, thrown: e, reply: () => ({ error: e }) }; })()],
    ]);
    return { k, body, cyclic, plan, frozen: cyclic ? null : JSON.stringify(body), delay: r.pick([0, 0, 5, 100]), recs: [] as any[], d: undefined as any };
  });
  const key = (b: any) => jobs.find((j) => j.frozen !== null && b && b.name === j.body.name && (j.body.id === undefined || j.body.id === b.id) && deepEqual({ ...JSON.parse(j.frozen), id: 0, environment: 0 }, { ...b, id: 0, environment: 0 }) && !(j.body.environment !== undefined && b.environment !== j.body.environment) && j.recs.length === 0);
  const strays: any[] = [];
  sim.onFetch = (q) => {
    const j = q.json?.batch?.length === 1 ? key(q.json.batch[0].body) : undefined;
    if (!j) { strays.push(q); return { status: 400, body: {} }; }
    j.recs.push(q);
    return { ...j.plan.reply(q.json.batch[0]), delay: j.delay };
  };
  o.note = jobs.map((j) => [j.frozen, j.plan.kind]);
  const t0 = sim.now;
  const all = sim.drive(Promise.all(jobs.map((j) => client.score(j.body).then((v) => { j.d = { ok: true, v }; }, (e) => { j.d = { ok: false, e }; }))));
  const res = await all;
  o.check(res.status === "fulfilled", "never-settles", () => show(jobs.map((j) => [j.plan.kind, j.d])));
  o.check(strays.length === 0, "event-fields", () => `request for no score call: ${show(strays.map((q) => q.body))}; calls ${show(jobs.map((j) => j.frozen))}`);
  const ids = new Set<string>(), evIds = new Set<string>();
  for (const j of jobs) {
    const what = () => `${j.plan.kind} ${show(j.body)}: ${show(j.d)} ${show(j.recs.map((q) => q.body))}`;
    if (j.cyclic) { o.check(!j.d.ok && j.d.e instanceof LangfuseBrowserError && j.recs.length === 0, "error-type", what); o.count("cyclic"); continue; }
    o.check(JSON.stringify(j.body) === j.frozen, "argument-mutated", what);
    o.check(j.recs.length === 1, "one-request", what);
    const q = j.recs[0], ev = q.json.batch[0];
    o.check(q.t === t0, "immediate", what);
    o.check(q.method === "POST" && q.url === (base ?? "https://cloud.langfuse.com").replace(/\/+$/, "") + "/api/public/ingestion", "address", () => `${q.method} ${q.url}`);
    o.check(ev.type === "score-create" && typeof ev.id === "string" && ev.id && !evIds.has(ev.id), "event", what);
    evIds.add(ev.id);
    o.check(Date.parse(ev.timestamp) === Date.now() - (sim.now - q.t) || Math.abs(Date.parse(ev.timestamp) - (1_700_000_000_000 + q.t)) < 2, "event-timestamp", what);
    const want = { ...JSON.parse(j.frozen!), id: j.body.id ?? ev.body.id, ...((j.body.environment ?? environment) !== undefined ? { environment: j.body.environment ?? environment } : {}) };
    o.check(deepEqual(ev.body, want), "event-fields", () => `sent ${show(ev.body)} instead of ${show(want)}`);
    o.check(typeof ev.body.id === "string" && ev.body.id && !ids.has(ev.body.id), "score-id", what); ids.add(ev.body.id);
    // authentication: exact header values, whatever the configured headers are
    const h = q.headers;
    o.check(h["authorization"] === `Bearer ${publicKey}`, "authorization", () => show(h));
    o.check(h["content-type"] === "application/json" && h["x-langfuse-public-key"] === publicKey && h["x-langfuse-sdk-name"] === "javascript" && h["x-langfuse-sdk-version"] === LANGFUSE_SDK_VERSION && h["x-langfuse-sdk-integration"] === "browser", "sdk-headers", () => show(h));
    const given = Object.entries(headers).filter(([k]) => !reserved.includes(k.toLowerCase()));
    const lastOf = new Map<string, string[]>(); for (const [k, v] of given) lastOf.set(k.toLowerCase(), [...(lastOf.get(k.toLowerCase()) ?? []), v]);
    for (const [k, vs] of lastOf) o.check(h[k] !== undefined && vs.every((v) => h[k].includes(v)), "additional-header", () => `${k} ${vs} in ${show(h)}`);
    o.check(h["x-langfuse-sdk-variant"] === undefined, "reserved-header", () => show(h));
    const wire = JSON.stringify(h) + q.body;
    o.check(!wire.includes("sk-lf-env-secret") && !wire.includes("EVIL-X-VALUE"), "foreign-credentials", () => wire);
    if (j.plan.ok) { o.check(j.d.ok && deepEqual(j.d.v, { id: ev.body.id }), "resolves", what); o.count("accepted"); }
    else {
      o.check(!j.d.ok, "claims-success", what);
      o.check(j.d.e instanceof LangfuseBrowserError, "error-type", what);
      if (j.plan.status !== undefined) o.check(j.d.e.status === j.plan.status, "error-status", what);
      if (j.plan.kind === "status-json" || j.plan.kind === "status-text") o.check(deepEqual(j.d.e.response, j.plan.body), "error-response", what);
      if (j.plan.kind === "partial") o.check(deepEqual(j.d.e.errors, j.plan.errors), "error-details", what);
      if (j.plan.kind === "net") o.check(j.d.e.originalError === j.plan.thrown, "original-error", what);
      o.count("rejected"); o.count("plan." + j.plan.kind);
    }
    o.seen(j.plan.kind + Object.keys(j.body).length);
  }
  if (Object.keys(headers).some((k) => reserved.includes(k.toLowerCase()))) o.count("reserved-headers");
  if (useOwn) o.check(ownCalls === jobs.filter((j) => !j.cyclic).length, "own-fetch", String(ownCalls));
  o.check(sim.fetches.length === jobs.filter((j) => !j.cyclic).length, "one-request", String(sim.fetches.length));
  await sim.drain(600_000);
  o.check(sim.fetches.length === jobs.filter((j) => !j.cyclic).length, "resent", String(sim.fetches.length));
  for (const bad of [{}, { publicKey: "" }, { publicKey: undefined }]) { let e: any; try { new LangfuseBrowserClient(bad as any); } catch (x) { e = x; } o.check(e instanceof LangfuseBrowserError, "missing-key", () => show(e)); }
  (globalThis as any).fetch = undefined;
  let e: any; try { new LangfuseBrowserClient({ publicKey }); } catch (x) { e = x; }
  o.check(e instanceof LangfuseBrowserError, "no-fetch", () => show(e));
}
defineCheck("C28", { rule: "a score call is non-trivial when its request was matched to it on the wire; distinct by server answer and set of fields", required: ["accepted", "rejected", "cyclic", "reserved-headers", "plan.partial", "plan.net", "plan.bad-shape", "plan.status-broken-body", "plan.ok-broken-body", "plan.other-success", "plan.empty", "plan.not-json"] },
  [{ name: "scores", quick: 2500, run }]);
