import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, installContextManager, RecExporter, idOf, isIngestion } from "../lib/env";
import { fakeHttp } from "../lib/fakehttp";
import { BasicTracerProvider } from "@opentelemetry/sdk-trace-base";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { LangfuseClient } from "@langfuse/client";
import { setLangfuseTracerProvider, startObservation, startActiveObservation } from "@langfuse/tracing";

type World = {
  k: number; pk: string; sk: string; base: string; header?: string; environment?: string; release?: string; masks: boolean; filters: boolean; down: boolean; closed: boolean;
  client: LangfuseClient; processor: LangfuseSpanProcessor; provider: BasicTracerProvider; exporter?: RecExporter;
  scores: string[]; lostScores: Set<string>; spans: { id: string; name: string; drop: boolean; input: string; root?: boolean; lost: boolean }[];
};
const strv = (v: any): any => v?.stringValue ?? v?.intValue ?? v?.boolValue ?? v?.doubleValue;
const NAMES = ["greeting", "folder/p", "x"];

async function run(r: Rng, o: Obs) {
  fakeHttp.reset(); installContextManager();
  const N = r.int(2, 3), sameHost = r.bool(0.4), samePk = !sameHost && r.bool(0.3), worlds: World[] = [];
  const spare = { LANGFUSE_PUBLIC_KEY: "pk-stray", LANGFUSE_SECRET_KEY: "sk-stray", LANGFUSE_BASE_URL: "http://stray.test", LANGFUSE_TRACING_ENVIRONMENT: "stray-env", LANGFUSE_RELEASE: "stray-rel" };
  for (let k = 0; k < N; k++) {
    const w: any = { k, pk: samePk ? "pk-same" : `pk-${k}-${r.plain(2, 4)}`, sk: `sk-${k}-${r.plain(2, 4)}`, base: (sameHost ? "http://shared.test" : `http://w${k}.test:30${k}0`) + (r.bool(0.2) ? "/lf" + k : ""), header: r.bool(0.6) ? `h-${k}` : undefined, environment: r.bool(0.6) ? `env-${k}` : undefined, release: r.bool(0.6) ? `rel-${k}` : undefined, masks: r.bool(), filters: r.bool(), down: false, closed: false, scores: [], lostScores: new Set(), spans: [] };
    const viaEnv = r.bool(0.4);
    setEnv(viaEnv ? { LANGFUSE_PUBLIC_KEY: w.pk, LANGFUSE_SECRET_KEY: w.sk, [r.bool(0.7) ? "LANGFUSE_BASE_URL" : "LANGFUSE_BASEURL"]: w.base, LANGFUSE_TRACING_ENVIRONMENT: w.environment, LANGFUSE_RELEASE: w.release } : r.bool(0.3) && w.environment && w.release ? spare : {});
    const creds = viaEnv ? {} : { publicKey: w.pk, secretKey: w.sk, baseUrl: w.base };
    const headers = w.header ? { additionalHeaders: { "X-World": w.header } } : {};
    w.client = new LangfuseClient({ ...creds, ...headers });
    w.exporter = r.bool() ? new RecExporter() : undefined;
    w.processor = new LangfuseSpanProcessor({
      ...creds, ...headers, ...(viaEnv ? {} : { environment: w.environment, release: w.release }), exportMode: r.pick(["immediate", "batched"]), exporter: w.exporter as any,
      ...(w.masks ? { mask: ({ data }: any) => `${data}#mask${k}` } : {}),
      ...(w.filters ? { shouldExportSpan: ({ otelSpan }: any) => !otelSpan.name.endsWith(`-drop${k}`) } : {}),
    });
    w.provider = new BasicTracerProvider({ spanProcessors: [w.processor] });
    worlds.push(w);
  }
  setEnv(r.pick<any>([{}, spare, { LANGFUSE_PUBLIC_KEY: worlds[0].pk, LANGFUSE_SECRET_KEY: worlds[0].sk, LANGFUSE_BASE_URL: worlds[0].base }]));
  // ---- one server per project; whom a request belongs to is decided by its credentials alone
  const owner = (headers: any, what: string) => {
    const w = worlds.find((x) => headers["authorization"] === "Basic " + Buffer.from(`${x.pk}:${x.sk}`).toString("base64"));
    o.check(w, "foreign-credentials", () => `${what} sent with ${headers["authorization"]}`);
    return w!;
  };
  const own = (w: World, url: string, headers: any, body: string, what: string) => {
    o.check(url.startsWith(w.base + "/api/public/"), "base-url", () => `${what} of world ${w.k} sent to ${url} instead of ${w.base}`);
    o.check(headers["x-world"] === w.header, "additional-headers", () => `${what} of world ${w.k} carries x-world ${headers["x-world"]} instead of ${w.header}`);
    o.check(headers["x-langfuse-public-key"] === w.pk, "public-key-header", () => `${what} of world ${w.k}: ${headers["x-langfuse-public-key"]}`);
    for (const m of (decodeURIComponent(url) + body).matchAll(/\bW(\d)-/g)) o.check(Number(m[1]) === w.k, "foreign-data", () => `${what} of world ${w.k} carries data of world ${m[1]}: ${url} ${body.slice(0, 300)}`);
    o.count("requests");
  };
  const uploads = new Map<string, number>();
  const received: string[][] = worlds.map(() => []);
  const fail: any[] = []; // violations seen inside the server
  const guarded = <T>(f: () => T, dflt: T): T => { try { return f(); } catch (e) { fail.push(e); return dflt; } };
  sim.onFetch = (q) => guarded(() => {
    if (q.host === "bucket.test") {
      o.check(!q.headers["authorization"] && uploads.has(q.path), "upload-address", () => `${q.url} ${show(q.headers)}`);
      return { status: 200, body: "" };
    }
    const w = owner(q.headers, `${q.method} ${q.url}`);
    own(w, q.url, q.headers, String(q.body ?? ""), `${q.method} ${q.path}`);
    if (w.down) return r.pick<any>([{ status: 401, body: { message: "no" } }, { status: 503, body: {} }, { status: 429, body: {}, headers: { "retry-after": "20" } }, { error: new TypeError("fetch failed") }, { hang: true }]);
    const p = q.path.slice(q.path.indexOf("/api/public/") + 11), delay = r.pick([0, 0, 5, 80]);
    if (isIngestion(q)) { for (const e of q.json.batch) received[w.k].push(e.body.name); return { status: 207, body: { successes: [], errors: [] }, delay }; }
    if (p === "/projects") return { status: 200, body: { data: [{ id: `W${w.k}-project` }] }, delay };
    if (p.startsWith("/v2/prompts/")) return { status: 200, body: { name: decodeURIComponent(p.slice(12)), version: 1, type: "text", prompt: `W${w.k}-text`, config: {}, labels: [], tags: [] }, delay };
    if (p.startsWith("/v2/datasets/")) return { status: 200, body: { id: `W${w.k}-ds`, name: decodeURIComponent(p.slice(13)) }, delay };
    if (p === "/dataset-items") return { status: 200, body: { data: [{ id: `W${w.k}-item`, datasetId: `W${w.k}-ds`, input: `W${w.k}-in`, expectedOutput: null, status: "ACTIVE" }], meta: { page: 1, totalPages: 1, limit: 50, totalItems: 1 } }, delay };
    if (p === "/dataset-run-items") return { status: 200, body: { id: "ri", datasetRunId: `W${w.k}-run` }, delay };
    if (p.startsWith("/traces/")) return { status: 200, body: { id: p.slice(8), name: `W${w.k}-trace` }, delay };
    if (p === "/media" && q.method === "POST") { const path = `/u${uploads.size}`; uploads.set(path, w.k); const id = q.json.sha256Hash.replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22); return { status: 200, body: { mediaId: id, uploadUrl: "https://bucket.test" + path }, delay }; }
    if (p.startsWith("/media/")) return q.method === "PATCH" ? { status: 200, body: {}, delay } : { status: 200, body: { mediaId: "m", contentType: "text/plain", url: `https://bucket.test/get`, urlExpiry: "", contentLength: 1, uploadedAt: "" }, delay };
    return { status: 200, body: {}, delay };
  }, { status: 500, body: {} } as any);
  const delivered: { k: number; id: string; name: string; attrs: any }[] = [];
  fakeHttp.onRequest = (q) => guarded(() => {
    const w = owner(q.headers, "span export");
    own(w, q.url, q.headers, JSON.stringify(q.json), "span export");
    for (const rs of q.json?.resourceSpans ?? []) for (const ss of rs.scopeSpans) for (const s of ss.spans) delivered.push({ k: w.k, id: s.spanId, name: s.name, attrs: Object.fromEntries(s.attributes.map((a: any) => [a.key, strv(a.value)])) });
    return w.down ? { status: 400, body: "no" } : { status: 200, body: "{}" };
  }, { status: 500 } as any);

  const jobs: Promise<any>[] = [];
  const shape: string[] = [];
  let n = 0;
  /** the result of a read by world w: only its own data, and success unless its own server fails */
  const read = (w: World, what: string, p: Promise<any>, text: (v: any) => string) => {
    const wasDown = w.down, t0 = sim.now, quiet = () => !w.down && !wasDown;
    jobs.push(p.then((v) => { o.count("reads"); if (quiet()) { o.check(sim.now - t0 <= 1_500, "foreign-fault", () => `${what} of world ${w.k}, whose server answers each request within 80 ms, took ${sim.now - t0} ms`); o.count("prompt-reads"); } for (const m of text(v).matchAll(/\bW(\d)-/g)) o.check(Number(m[1]) === w.k, "foreign-answer", () => `${what} of world ${w.k} got ${text(v)}`); o.check(text(v).includes(`W${w.k}-`), "foreign-answer", () => `${what} of world ${w.k} got ${text(v)}`); }, (e) => { o.check(wasDown || w.down, "foreign-fault", () => `${what} of world ${w.k} failed although its server works: ${show(e)}`); })
      .catch((e) => { fail.push(e); }));
  };
  const span = (w: World, parent?: () => void) => {
    setLangfuseTracerProvider(w.provider);
    const drop = r.bool(0.3) ? r.int(0, N - 1) : -1, name = `W${w.k}-s${n++}` + (drop >= 0 ? `-drop${drop}` : ""), media = r.bool(0.2);
    const input = `W${w.k}-in` + (media ? ` data:text/plain;base64,${Buffer.from("W" + w.k + "-" + r.plain(3, 6)).toString("base64")}` : "");
    const rec = { id: "", name, drop: w.filters && drop === w.k, input, root: true, lost: false };
    return { name, rec, input };
  };
  for (let steps = r.int(6, 24); steps > 0; steps--) {
    const w = r.pick(worlds), op = r.weighted<string>([[4, "score"], [3, "prompt"], [2, "url"], [1, "dataset"], [1, "trace"], [5, "span"], [2, "nested"], [1, "experiment"], [1.5, "flush"], [0.7, "down"], [0.5, "shutdown"], [1.5, "time"], [0.7, "env"]]);
    shape.push(op[0] + w.k);
    if (op === "score") {
      if (w.closed) continue;
      for (let c = r.pick([1, 1, 3, 12]); c > 0; c--) { const name = `W${w.k}-score${n++}`; w.client.score.create({ name, value: 1, traceId: `W${w.k}-t` }); w.scores.push(name); }
    } else if (op === "prompt") { const name = r.pick(NAMES), cacheTtlSeconds = r.pick([0, 60, 60]); read(w, `prompt ${name}`, r.bool() ? w.client.prompt.get(name, { cacheTtlSeconds, maxRetries: 0 }) : w.client.getPrompt(name, { cacheTtlSeconds, maxRetries: 0 }), (p) => p.prompt); }
    else if (op === "url") read(w, "trace url", w.client.getTraceUrl("t1"), (u) => { o.check(u.startsWith(w.base + "/project/"), "trace-url", () => `${u} for ${w.base}`); return u; });
    else if (op === "dataset") read(w, "dataset", r.bool() ? w.client.dataset.get("shared") : w.client.getDataset("shared"), (d) => `${d.id} ${d.items.map((i: any) => i.id + " " + i.input)}`);
    else if (op === "trace") read(w, "trace", r.bool() ? w.client.api.trace.get("t") : w.client.fetchTrace("t"), (t) => t.name);
    else if (op === "span") {
      if (w.closed) continue;
      const { name, rec, input } = span(w);
      const s = startObservation(name, { input }); rec.id = s.id; w.spans.push(rec); s.end();
    } else if (op === "nested") {
      // a child recorded for another project than its parent
      const v = r.pick(worlds);
      if (w.closed || v.closed) continue;
      const a = span(w);
      const detached = r.bool(), go = (f: (ob: any) => void) => { if (detached) { const ob = startObservation(a.name); f(ob); ob.end(); } else startActiveObservation(a.name, f); };
      go((ob: any) => {
        a.rec.id = ob.id; w.spans.push(a.rec); ob.update({ input: a.input });
        const b = span(v), c = startObservation(b.name, { input: b.input }, detached ? { parentSpanContext: ob.otelSpan.spanContext() } : undefined);
        // under an active observation the trace is claimed by the context, whichever project it belongs to
        b.rec.id = c.id; b.rec.root = detached ? !(v === w && !a.rec.drop) : undefined; v.spans.push(b.rec); c.end();
        o.count("nested");
      });
    } else if (op === "experiment") {
      if (w.closed || w.down) continue;
      setLangfuseTracerProvider(w.provider);
      const before = r.bool() ? await sim.drive(w.client.dataset.get("shared")) : undefined;
      if (fail.length) break;
      o.check(!before || before.status === "fulfilled", "foreign-fault", () => show(before));
      const cfg: any = { name: `W${w.k}-exp`, task: async (i: any) => { await new Promise((f) => setTimeout(f, 5)); return i.input; }, evaluators: [async () => ({ name: `W${w.k}-eval`, value: 1 })] };
      const d: any = await sim.drive(before ? (before as any).value.runExperiment(cfg) : w.client.experiment.run({ ...cfg, data: [{ input: `W${w.k}-in` }] }));
      if (fail.length) break;
      o.check(d.status === "fulfilled", "foreign-fault", () => `experiment of world ${w.k}: ${show(d)}`);
      o.check(d.value.itemResults.length === 1 && d.value.itemResults[0].output === `W${w.k}-in`, "foreign-answer", () => show(d.value));
      w.scores.push(`W${w.k}-eval`);
      o.count("experiments");
    } else if (op === "flush") {
      const t0 = sim.now, d: any = await sim.drive(Promise.all([w.client.flush(), w.processor.forceFlush().catch(() => {})]), 3_600_000);
      if (fail.length) break;
      o.check(d.status === "fulfilled", "flush-settles", () => `flush of world ${w.k} never settles`);
      if (!w.down) { o.check(sim.now - t0 <= 5_000, "foreign-fault", () => `flush of world ${w.k}, whose server answers within 80 ms, took ${sim.now - t0} ms`); o.count("flushes"); }
    } else if (op === "down") {
      if (worlds.filter((x) => !x.down).length < 2) continue;
      // what was handed over before is delivered first, so that what may be lost is known
      await sim.drive(Promise.all([w.client.flush(), w.processor.forceFlush().catch(() => {})]));
      w.down = true; o.count("faults");
      o.count("down");
    } else if (op === "shutdown") {
      const d: any = await sim.drive(Promise.all([w.client.shutdown(), w.processor.shutdown().catch(() => {})]), 3_600_000);
      o.check(d.status === "fulfilled", "flush-settles", () => `shutdown of world ${w.k} never settles`);
      w.closed = true; o.count("shutdowns");
    } else if (op === "time") await sim.advance(r.pick([1, 30, 1500]));
    else if (op === "env") setEnv(r.pick<any>([{}, spare, { LANGFUSE_PUBLIC_KEY: w.pk, LANGFUSE_SECRET_KEY: w.sk, LANGFUSE_BASE_URL: w.base, LANGFUSE_TRACING_ENVIRONMENT: "late", LANGFUSE_RELEASE: "late" }]));
    if (fail.length) throw fail[0];
  }
  if (fail.length) throw fail[0];
  for (const w of worlds.filter((x) => !x.down)) await sim.drive(Promise.all([w.client.flush(), w.processor.forceFlush().catch(() => {})]), 60_000);
  await sim.drive(Promise.all(jobs), 3_600_000);
  for (const w of worlds) await sim.drive(Promise.all([w.client.shutdown(), w.processor.shutdown().catch(() => {})]), 3_600_000);
  if (fail.length) throw fail[0];
  for (const w of worlds) if (w.exporter) for (const s of w.exporter.spans) delivered.push({ k: w.k, id: idOf(s.span), name: s.name, attrs: s.attributes });
  for (const d of delivered) {
    const w = worlds[d.k], rec = w.spans.find((s) => s.id === d.id);
    if (!rec && (d.name === "experiment-item-run" || !/^W/.test(d.name))) continue;
    o.check(rec, "foreign-span", () => `span ${d.name} delivered to world ${d.k}`);
    o.check(!rec!.drop, "filter", () => `span ${d.name} of world ${d.k} exported although its filter drops it`);
    o.check((d.attrs["langfuse.environment"] ?? undefined) === w.environment && (d.attrs["langfuse.release"] ?? undefined) === w.release, "environment", () => `span of world ${d.k}: ${d.attrs["langfuse.environment"]}/${d.attrs["langfuse.release"]} instead of ${w.environment}/${w.release}`);
    const inp = String(d.attrs["langfuse.observation.input"]);
    o.check(inp.startsWith(`W${w.k}-in`) && (w.masks ? inp.endsWith(`#mask${w.k}`) : !/#mask/.test(inp)), "mask", () => `input of world ${d.k} (masks: ${w.masks}): ${inp}`);
    o.check(rec!.root === undefined || (d.attrs["langfuse.internal.is_app_root"] === true) === rec!.root, "app-root", () => `span ${d.name} of world ${d.k}: ${d.attrs["langfuse.internal.is_app_root"]}, its parent ${rec!.root ? "is not" : "is"} recorded for the same project`);
  }
  for (const w of worlds) {
    for (const s of w.spans) if (!s.drop && !w.down) { o.check(delivered.filter((d) => d.id === s.id).length === 1, "span-lost", () => `span ${s.name} of world ${w.k} delivered ${show(delivered.filter((d) => d.id === s.id).map((d) => d.k))}`); o.count("spans"); }
    if (!w.down) { o.equal([...received[w.k]].sort(), [...w.scores].sort(), "scores", `scores received by world ${w.k}:`); o.count("scores", w.scores.length); }
    else for (const s of received[w.k]) o.check(w.scores.includes(s), "scores", () => `world ${w.k} received ${s}`);
  }
  o.seen(shape.join("") + sim.ev);
}
/** Two clients keep the same prompt: what one of them has under way says nothing about the other. */
async function refreshes(r: Rng, o: Obs) {
  setEnv({});
  const n = r.int(2, 3), ttl = r.pick([1, 5]), label = r.pick([undefined, "staging"]);
  const clients = r.list(n, (k) => new LangfuseClient({ publicKey: "pk-" + k, secretKey: "sk-" + k, baseUrl: `http://w${k}.test` }));
  let gen = 0;
  const slow: (number | "hang" | "fail")[] = r.list(n, () => r.pick<any>([0, 20_000, 20_000, "hang", "fail"])), healthy = r.int(0, n - 1);
  slow[healthy] = 0;
  sim.onFetch = (q) => {
    const k = Number(/w(\d)/.exec(q.host)![1]), s = gen ? slow[k] : 0;
    if (s === "hang") return { hang: true };
    if (s === "fail") return { status: 400, body: {} };
    return { status: 200, body: { name: "p", version: 1, type: "text", prompt: `W${k} g${gen}`, config: {}, labels: [], tags: [] }, delay: s };
  };
  const get = (k: number) => sim.drive(clients[k].prompt.get("p", { ...(label ? { label } : {}), cacheTtlSeconds: ttl, maxRetries: 0, fetchTimeoutMs: 60_000 }), 100_000) as Promise<any>;
  for (const k of r.shuffle(r.list(n, (i) => i))) o.equal((await get(k)).value?.prompt, `W${k} g0`, "foreign-answer");
  await sim.advance(ttl * 1000 + 1);
  gen = 1;
  const order = r.bool(0.7) ? [...r.shuffle(r.list(n, (i) => i).filter((i) => i !== healthy)), healthy] : r.shuffle(r.list(n, (i) => i));
  for (const k of order) { // stale reads, each starting a refresh of its own
    const before = sim.fetches.length;
    o.equal((await get(k)).value?.prompt, `W${k} g0`, "foreign-answer", "stale read");
    o.equal(sim.fetches.slice(before).map((q) => q.host), [`w${k}.test`], "own-refresh", `requests started by the stale read of client ${k}`);
    if (r.bool(0.3)) { const other = r.pick(clients); await sim.drive(other.prompt.update({ name: "q", version: 1, newLabels: [] }), 100); }
  }
  await sim.advance(10);
  o.equal((await get(healthy)).value?.prompt, `W${healthy} g1`, "foreign-fault", "the refresh of a healthy client");
  o.count("own-refreshes", n);
  o.seen(`${n}${ttl}${label}${slow}${order}`);
}
defineCheck("C36", {
  rule: "A case is a random interleaving of scores, reads, spans, experiments, flushes, shutdowns, faults and changes of environment variables over two or three projects in one process. Each request is attributed by its credentials alone and must carry only that project's address, headers and data; every read must answer from its own project; healthy projects must get everything exactly once. Distinct by operations and number of events.",
  required: ["requests", "reads", "nested", "experiments", "flushes", "faults", "shutdowns", "spans", "scores", "own-refreshes"],
}, [{ name: "worlds", quick: 500, run }, { name: "refreshes", quick: 100, run: refreshes }]);
