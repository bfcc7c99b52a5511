import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv } from "../lib/env";
import { endpoints, makeCall, invoke, matchPath } from "../lib/endpoints";
import { LangfuseClient } from "@langfuse/client";
import { LANGFUSE_SDK_VERSION } from "@langfuse/core";

const bases = ["https://cloud.langfuse.com", "http://langfuse.test:3000", "http://localhost", "https://lf.example.com/", "https://proxy.example.com/langfuse", "https://proxy.example.com/a/b/"];
function makeClient(r: Rng) {
  const src = <T>(mk: () => T) => ({ explicit: r.bool(0.6) ? mk() : undefined, env: r.bool(0.5) ? mk() : undefined });
  const pk = src(() => "pk-lf-" + r.plain(3, 8)), sk = src(() => "sk-lf-" + r.pick([r.plain(3, 8), "a:b", "ü" + r.plain(2, 3)])), bu = src(() => r.pick(bases)), legacy = r.bool(0.3) ? r.pick(bases) : undefined;
  if (!pk.explicit && !pk.env) pk.env = "pk-env";
  if (!sk.explicit && !sk.env) sk.env = "sk-env";
  setEnv({ LANGFUSE_PUBLIC_KEY: pk.env, LANGFUSE_SECRET_KEY: sk.env, LANGFUSE_BASE_URL: bu.env, LANGFUSE_BASEURL: legacy });
  const headers = r.bool(0.4) ? Object.fromEntries(r.list(r.int(1, 3), (i) => [`X-Custom-${r.plain(1, 4)}-${i}`, r.pick(["v", "some value", "", r.plain(1, 9)])])) : undefined;
  const client = new LangfuseClient({ ...(pk.explicit ? { publicKey: pk.explicit } : {}), ...(sk.explicit ? { secretKey: sk.explicit } : {}), ...(bu.explicit ? { baseUrl: bu.explicit } : {}), ...(headers ? { additionalHeaders: headers } : {}) });
  return { client, publicKey: pk.explicit ?? pk.env!, secretKey: sk.explicit ?? sk.env!, base: bu.explicit ?? bu.env ?? legacy ?? "https://cloud.langfuse.com", headers, how: `${!!pk.explicit}${!!pk.env}${!!bu.explicit}${!!bu.env}${!!legacy}` };
}
function checkCommon(o: Obs, q: any, c: ReturnType<typeof makeClient>, opts?: any) {
  const b = new URL(c.base);
  o.check(q.host === b.host && q.url.startsWith(b.protocol), "host", () => `${q.url} instead of ${c.base}`);
  o.check(q.headers["authorization"] === "Basic " + Buffer.from(`${c.publicKey}:${c.secretKey}`, "utf8").toString("base64"), "authorization", () => `${q.headers["authorization"]} for ${c.publicKey} ${c.secretKey}`);
  o.check(q.headers["x-langfuse-public-key"] === (opts?.xLangfusePublicKey ?? c.publicKey), "public-key-header", () => show(q.headers));
  o.check(q.headers["x-langfuse-sdk-name"] === (opts?.xLangfuseSdkName ?? "javascript"), "sdk-name", () => show(q.headers));
  o.check(q.headers["x-langfuse-sdk-version"] === LANGFUSE_SDK_VERSION, "sdk-version", () => show(q.headers));
  for (const [k, v] of Object.entries({ ...c.headers, ...opts?.headers })) o.check(q.headers[k.toLowerCase()] === (v ?? undefined), "additional-header", () => `${k}: ${v} in ${show(q.headers)}`); // null takes a configured header off one call
  if (opts?.headers?.["X-Call"] === undefined) o.check(q.headers["x-call"] === undefined, "header-of-another-call", () => show(q.headers));
}
async function endpoint(r: Rng, o: Obs, i: number) {
  const c = makeClient(r);
  sim.onFetch = () => ({ status: 200, body: { data: [], meta: {} } });
  const calls = r.list(r.int(1, 4), (k) => { const e = endpoints[k === 0 ? i % endpoints.length : r.int(0, endpoints.length - 1)]; return { e, call: makeCall(r, e), opts: r.bool(0.25) ? { headers: { ...(r.bool(0.7) ? { "X-Call": r.pick(["", r.plain(1, 5)]) } : {}), ...(c.headers && r.bool(0.4) ? { [r.pick(Object.keys(c.headers))]: r.pick([null, "own"]) } : {}) }, ...(r.bool(0.3) ? { queryParams: { extra: "é &" + r.plain(1, 3) } } : {}) } : undefined }; });
  o.note = calls.map((x) => [x.e.path.join(".") + "." + x.e.method, show(x.call.args)]);
  for (const { e, call, opts } of calls) {
    const before = JSON.stringify(call.args), n = sim.fetches.length;
    const d = await sim.drive(invoke(c.client.api, e, call.args, opts));
    const what = () => `${e.path.join(".")}.${e.method}(${show(call.args)}): ${show(d)} ${show(sim.fetches.slice(n).map((q) => q.method + " " + q.url))}`;
    o.check(d.status === "fulfilled", "call-fails", what);
    o.check(sim.fetches.length === n + 1, "one-request", what);
    o.check(JSON.stringify(call.args) === before, "arguments-mutated", what);
    const q = sim.fetches[n];
    checkCommon(o, q, c, opts);
    o.check(q.method === e.http, "http-method", what);
    const got = matchPath(call.path, new URL(c.base).pathname.replace(/\/+$/, ""), q.path);
    o.check(got, "path", () => `${call.path}: ${what()}`);
    const wantPath = Object.fromEntries(Object.entries(call.byName).map(([k, v]) => [k, String(v)]));
    o.check(deepEqual(got, wantPath), "path-parameter", () => `server decodes ${show(got)}, caller gave ${show(wantPath)}`);
    const qs = [...new URLSearchParams(q.search)].map(([k, v]) => `${k}=${v}`).sort();
    const want = [...call.query, ...(opts?.queryParams ? [["extra", (opts.queryParams as any).extra] as [string, string]] : [])].map(([k, v]) => `${k}=${v}`).sort();
    if (!(opts?.queryParams && call.query.length)) { o.check(deepEqual(qs, want), "query", () => `server decodes ${show(qs)}, caller gave ${show(want)}: ${what()}`); }
    else for (const w of want) o.check(qs.includes(w), "query", () => `${w} missing from ${show(qs)}`);
    if (call.hasBody) {
      o.check((q.headers["content-type"] ?? "").startsWith("application/json"), "content-type", () => show(q.headers));
      o.check(deepEqual(q.json, call.body), "body", () => `server receives ${show(q.body)}, caller gave ${show(call.body)}`);
    } else o.check(q.body === undefined || q.body === null, "no-body", () => show(q.body));
    o.count("requests"); o.count("endpoint." + e.path.join(".") + "." + e.method);
    if (Object.keys(wantPath).length) o.count("path-params"); if (want.length) o.count("query-params", want.length); if (call.hasBody) o.count("bodies");
    o.seen(`${e.path.join(".")}.${e.method} ${call.query.length} ${c.how}`);
  }
  o.check(sim.pendingTimers().length === 0, "timer-left", () => show(sim.pendingTimers()));
}
/** The same through the managers of the client. */
async function managers(r: Rng, o: Obs) {
  const c = makeClient(r);
  const seenPrompt: string[] = [];
  sim.onFetch = (q) => {
    if (q.path.includes("/v2/prompts")) { seenPrompt.push(q.path); return { status: 200, body: { type: "text", name: "n", version: 1, prompt: "x", config: {}, labels: [], tags: [] } }; }
    if (q.path.endsWith("/ingestion")) return { status: 207, body: { successes: [], errors: [] } };
    if (q.path.endsWith("/projects")) return { status: 200, body: { data: [{ id: "proj-1" }] } };
    if (q.path.includes("/dataset")) return { status: 200, body: { id: "d", name: "n", data: [], meta: { page: 1, totalPages: 1 } } };
    return { status: 200, body: {} };
  };
  const name = (() => { for (;;) { const s = (r.text(10) as any).toWellFormed?.() ?? r.word(); if (s.trim() && !/^\.+$/.test(s)) return s; } })();
  const op = r.pick(["prompt", "score", "dataset", "url", "legacy"]);
  const base = new URL(c.base).pathname.replace(/\/+$/, "");
  if (op === "prompt") {
    const version = r.bool(0.4) ? r.int(1, 99) : undefined, label = version === undefined && r.bool(0.5) ? "l " + r.text(5) : undefined;
    const d = await sim.drive(c.client.prompt.get(name, { ...(version ? { version } : {}), ...(label ? { label } : {}), cacheTtlSeconds: 0 }));
    o.check(d.status === "fulfilled", "call-fails", () => show(d));
    const q = sim.fetches[0];
    o.check(deepEqual(matchPath("/api/public/v2/prompts/{n}", base, q.path), { n: name }), "path-parameter", () => `${q.path} for ${show(name)}`);
    const qs = Object.fromEntries(new URLSearchParams(q.search));
    o.equal(qs, version ? { version: String(version) } : label ? { label } : Object.keys(qs).length ? { label: "production" } : {}, "query", q.search);
  } else if (op === "score") {
    c.client.score.create({ name, value: 1, traceId: "t" } as any);
    const d = await sim.drive(c.client.flush());
    o.check(d.status === "fulfilled" && sim.fetches.length === 1, "one-request", () => show(d));
    o.check(sim.fetches[0].path === base + "/api/public/ingestion", "path", sim.fetches[0].path);
  } else if (op === "dataset") {
    const d = await sim.drive(c.client.dataset.get(name));
    o.check(d.status === "fulfilled", "call-fails", () => show(d));
    const q = sim.fetches.find((x) => x.path.includes("/v2/datasets/"))!;
    const m = q && matchPath("/api/public/v2/datasets/{n}", base, q.path);
    o.check(m && m.n === name, "path-parameter", () => `${q?.path} for ${show(name)}`);
  } else if (op === "url") {
    const d = await sim.drive(c.client.getTraceUrl("tr-1"));
    o.check(d.status === "fulfilled" && d.value === `${c.base}/project/proj-1/traces/tr-1`, "trace-url", () => show(d));
    await sim.drive(c.client.getTraceUrl("tr-2"));
    o.check(sim.fetches.filter((q) => q.path.endsWith("/projects")).length === 1, "project-cached");
  } else {
    const [f, tmpl] = r.pick<[() => any, string]>([[() => c.client.fetchTrace(name), "/api/public/traces/{n}"], [() => c.client.fetchObservation(name), "/api/public/observations/{n}"], [() => c.client.fetchSessions(name), "/api/public/sessions/{n}"], [() => c.client.getDatasetItem(name), "/api/public/dataset-items/{n}"], [() => c.client.fetchMedia(name), "/api/public/media/{n}"]]);
    const d = await sim.drive(f());
    o.check(d.status === "fulfilled" && deepEqual(matchPath(tmpl, base, sim.fetches[0].path), { n: name }), "path-parameter", () => `${sim.fetches[0]?.path} for ${show(name)}: ${show(d)}`);
  }
  for (const q of sim.fetches) checkCommon(o, q, c);
  o.count("manager." + op); o.seen(`${op} ${c.how}`);
}

defineCheck("C27", { rule: "a call of an endpoint is non-trivial when its request was seen on the wire; distinct by endpoint, number of query values and sources of configuration", required: ["requests", "path-params", "query-params", "bodies", ...endpoints.map((e) => "endpoint." + e.path.join(".") + "." + e.method), "manager.prompt", "manager.score", "manager.dataset", "manager.url", "manager.legacy"],
  assumptions: ["path parameters are non-empty, not '.' or '..' and well-formed Unicode", "base URLs carry no query string; configured additional headers are other than the SDK's own"] },
  [{ name: "endpoints", quick: 2400, run: endpoint }, { name: "managers", quick: 500, run: managers }]);
