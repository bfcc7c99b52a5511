import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf, MediaServer, mediaIdOf } from "../lib/env";
import { trace, context } from "@opentelemetry/api";
import { configureGlobalLogger, LogLevel } from "@langfuse/core";
import { startObservation, startActiveObservation, setActiveTraceIO, propagateAttributes } from "@langfuse/tracing";

const NOTICE = "<fully masked due to failed mask function>";
const isMasked = (k: string) => /^langfuse\.(observation|trace)\.(input|output|metadata)$/.test(k) || /^langfuse\.(observation|trace)\.metadata\./.test(k);

async function run(r: Rng, o: Obs, p: { faults: boolean; media: boolean }) {
  setEnv({});
  const logged = r.bool(0.5);
  configureGlobalLogger({ level: logged ? LogLevel.DEBUG : LogLevel.INFO } as any);
  const filtering = r.bool(0.3);
  const media = new MediaServer(() => ({ put: () => ({ status: 200, body: "", delay: r.pick([0, 10]) }), noUrl: r.bool(0.3) }));
  sim.onFetch = (q) => media.handle(q) ?? { status: 404, body: {} };
  const style = r.pick(["redact", "tag", "object", "constant", "stripmedia", "erase"]);
  const calls: { data: any; out?: any; threw?: boolean }[] = [];
  const transform = (d: any): any => {
    if (style === "constant") return "[hidden]";
    if (style === "erase") return [undefined, null, "", 0, false][String(d).length % 5];
    if (style === "object") return { masked: true, len: String(d).length };
    if (typeof d !== "string") return style === "tag" ? ["m", String(d).replace(/SECRET-\w+/g, "***")] : String(d).replace(/SECRET-\w+/g, "***");
    let x = d.replace(/SECRET-\w+/g, "***");
    if (style === "stripmedia") x = x.replace(/data:[a-z]+\/[a-z]+;base64,[A-Za-z0-9+/=]+/g, "[media]");
    return style === "tag" ? "M:" + x : x;
  };
  const mask = ({ data }: any) => {
    const c: any = { data };
    calls.push(c);
    const bad = p.faults && String(data).includes("FAIL");
    const fin = () => { if (bad) { c.threw = true; throw r.pick<any>([new Error("mask failed" + (logged ? "" : " for " + String(data))), "text", undefined, null, Symbol("odd"), Object.create(null), { toString() { throw new Error("unprintable"); } }]); } return (c.out = transform(data)); };
    const how = r.pick(["sync", "async", "slow", "slow"]);
    if (how === "sync") return fin();
    if (how === "async") return Promise.resolve().then(fin);
    return new Promise((x) => setTimeout(x, r.pick([1, 20, 400, 400, r.bool(0.1) ? 45_000 : 900]))).then(fin);
  };
  const dropped = (name: string) => /[02]$/.test(name);
  const raw = new Map<string, Record<string, any>>();
  const snap: any = { onStart() {}, onEnd(s: any) { if (filtering && dropped(s.name)) { o.count("filtered"); return; } raw.set(idOf(s), { ...s.attributes }); }, async forceFlush() {}, async shutdown() {} };
  const made = makeTracing({ exportMode: r.pick(["immediate", "batched"]), mask, ...(filtering ? { shouldExportSpan: ({ otelSpan }: any) => !dropped(otelSpan.name) } : {}), environment: "SECRET-env-is-not-content" });
  const { exporter, processor } = made;
  const { BasicTracerProvider } = require("@opentelemetry/sdk-trace-base");
  const provider = new BasicTracerProvider({ spanProcessors: [snap, processor] });
  require("@langfuse/tracing").setLangfuseTracerProvider(provider);
  const uris: { uri: string; bytes: Buffer }[] = [];
  const secret = () => "SECRET-" + r.hex(8);
  const piece = (): any => {
    const s = r.weighted<string>([[4, "plain"], [4, "secret"], [p.media ? 3 : 0, "media"], [p.faults ? 2 : 0, "fail"]]);
    if (s === "plain") return r.text(10);
    if (s === "secret" && r.bool(0.04)) { o.count("long-values"); return "lorem ipsum ".repeat(r.pick([1000, 6000, 12_000, 25_000])) + secret(); }
    if (s === "secret" && r.bool(0.3)) return "The same long introduction precedes every secret of this application, word for word: " + secret();
    if (s === "secret") return `my key is ${secret()} ok`;
    if (s === "fail") return r.bool(0.2) ? "FAIL" : `FAIL ${secret()}`;
    const bytes = Buffer.from(r.hex(40)); const uri = `data:image/png;base64,${bytes.toString("base64")}`;
    uris.push({ uri, bytes });
    return uri;
  };
  const value = (d = 2): any => d <= 0 || r.bool(0.4) ? piece() : r.bool() ? r.list(r.int(1, 3), () => value(d - 1)) : Object.fromEntries(r.list(r.int(1, 3), (i) => ["k" + i, value(d - 1)]));
  const meta = (): any => r.weighted<() => any>([[4, () => Object.fromEntries(r.list(r.int(1, 4), (i) => [r.pick(["a", "b.c", "user", "nested"]) + i, value(1)]))], [1, () => piece()], [1, () => [piece()]], [0.3, () => Object.fromEntries(r.list(r.int(60, 90), (i) => ["k" + i, i % 3 ? i : piece()]))]])();
  const content = () => ({ ...(r.bool(0.8) ? { input: value() } : {}), ...(r.bool(0.8) ? { output: value() } : {}), ...(r.bool(0.8) ? { metadata: meta() } : {}) });
  const flushes: Promise<any>[] = [];
  const n = r.int(1, 8);
  for (let i = 0; i < n; i++) {
    const kind = r.pick(["obs", "active", "otel", "update", "prop"]);
    if (kind === "obs") { const ob = startObservation("n" + i, content(), { asType: r.pick(["span", "generation", "tool"]) as any }); ob.end(); }
    else if (kind === "update") { const ob = startObservation("n" + i, content()); if (r.bool()) await sim.advance(5); ob.update(content()); ob.end(); }
    else if (kind === "active") startActiveObservation("n" + i, (ob: any) => { setActiveTraceIO({ input: value(), output: value() }); ob.update(content()); if (r.bool()) ob.startObservation("c" + i, content()).end(); });
    else if (kind === "prop") propagateAttributes({ metadata: { who: r.bool() ? secret() : "FAIL " + secret(), other: "x" }, userId: "u" }, () => { startObservation("n" + i, content()).end(); });
    else {
      const s = provider.getTracer("langfuse-sdk").startSpan("raw" + i, { attributes: { "langfuse.observation.input": r.pick<any>([5, true, [secret(), "b"], secret()]), "langfuse.trace.metadata": JSON.stringify({ z: piece() }), "langfuse.trace.metadata.deep.key": r.pick<any>([piece(), piece(), [secret()], 5]), "langfuse.observation.inputs": "not content", "langfuse.observation.metadatax": "not content " + r.plain(), "app.x": "SECRET-app" } });
      s.end();
    }
    if (r.bool(0.3)) flushes.push(processor.forceFlush());
    if (r.bool(0.4)) await sim.advance(r.pick([1, 50, 1000]));
  }
  flushes.push(processor.forceFlush());
  await sim.drive(Promise.all(flushes));
  await sim.drain(60_000);
  let failed = 0, values = 0;
  const tags = (s: string) => { let x = s; for (const u of uris) x = x.split(u.uri).join(`@@@langfuseMedia:type=image/png|id=${mediaIdOf(u.bytes)}|source=base64_data_uri@@@`); return x; };
  for (const [id, attrs] of raw) {
    const e = exporter.spans.filter((x) => idOf(x.span) === id);
    o.check(e.length === 1, "span-lost", () => `span with attributes ${show(attrs)} exported ${e.length} times`);
    const got = e[0].attributes;
    o.equal(Object.keys(got).filter((k) => style !== "erase" || got[k] !== undefined).sort(), Object.keys(attrs).filter((k) => style !== "erase" || got[k] !== undefined).sort(), "keys-changed");
    for (const [k, v] of Object.entries(attrs)) {
      if (!isMasked(k)) { o.check(deepEqual(got[k], v), "other-changed", () => `${k} ${show(v)} became ${show(got[k])}`); continue; }
      values++;
      const bad = p.faults && String(v).includes("FAIL");
      if (bad) failed++;
      const want = bad ? NOTICE : transform(v);
      const w2 = typeof want === "string" ? tags(want) : want;
      o.check(deepEqual(got[k], w2), "not-masked", () => `${k}: original ${show(v)} must be exported as ${show(w2)}, was ${show(got[k])}`);
      o.check(calls.some((c) => deepEqual(c.data, v)), "mask-not-called", () => `${k} ${show(v)}`);
      if (style !== "tag" || typeof v === "string") o.check(!/SECRET-/.test(String(JSON.stringify(got[k]))), "leak", () => `${k} exported with a secret: ${show(got[k])}`);
    }
  }
  o.check(exporter.spans.length === raw.size, "invented");
  // what may be uploaded is what the masked content still holds
  const allowed = new Set<string>();
  for (const c of calls) if (!c.threw && typeof c.out === "string") for (const u of uris) if (c.out.includes(u.uri)) allowed.add(mediaIdOf(u.bytes));
  for (const reg of media.regs) o.check(allowed.has(reg.mediaId), "media-leak", () => `media removed by the mask was registered: ${show(reg.mediaId)}`);
  for (const f of sim.fetches) if (f.body && typeof f.body === "string") o.check(!/SECRET-/.test(f.body), "leak-http");
  // nor may the SDK's own log lines hold what the mask removed
  if (logged) { for (const l of sim.logs) o.check(!/SECRET-[0-9a-f]{2}/.test(l.args.map((x) => (typeof x === "string" ? x : show(x))).join(" ")), "leak-log", () => `log line with unmasked content: ${show(l.args).slice(0, 300)}`); o.count("log-lines", sim.logs.length); }
  o.count("masked-values", values); o.count("mask-failures", failed); o.count("media-registered", media.regs.length); o.count("media-removed", uris.filter((u) => !allowed.has(mediaIdOf(u.bytes))).length);
  o.note = { style, spans: raw.size, calls: calls.length, failed };
  o.seen(`${style}/${[...raw.values()].map((a) => Object.keys(a).filter(isMasked).length).join(",")}/${failed}/${calls.map((c) => String(c.data).length).join(",")}`);
}

defineCheck("C09", {
  rule: "A case is a random set of spans (SDK observations, updates, trace input/output, propagated metadata, raw OpenTelemetry spans) whose content holds secrets and media, under a random sync/async/slow/failing mask; a snapshot taken before the processor gives the originals. Distinct by mask style and content shape.",
  required: ["masked-values", "mask-failures", "media-registered", "media-removed", "log-lines", "filtered"],
}, [
  { name: "mask", quick: 500, run: (r, o) => run(r, o, { faults: false, media: true }) },
  { name: "mask-faults", quick: 600, run: (r, o) => run(r, o, { faults: true, media: true }) },
]);
