import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, idOf, MediaServer, mediaIdOf, sha256b64 } from "../lib/env";
import { startObservation, startActiveObservation, setActiveTraceIO } from "@langfuse/tracing";

type M = { bytes: Buffer; type: string; uri: string; tag: string; id: string };
const TYPES = ["image/png", "image/jpeg", "audio/mpeg", "application/pdf", "image/svg+xml", "application/vnd.ms-excel", "text/plain", "video/mp4", "application/octet-stream", "IMAGE/PNG", "application/x_custom", "image/*", "application/vnd.openxmlformats-officedocument.presentationml.presentation", "Application/Vnd.Api+JSON"];

async function run(r: Rng, o: Obs, p: { faults: boolean; ai?: boolean; disabled?: boolean }) {
  const viaEnv = p.disabled && r.bool();
  setEnv(viaEnv ? { LANGFUSE_MEDIA_UPLOAD_ENABLED: r.pick(["false", "0", "False"]) } : {});
  let putFaults = 0;
  const media = new MediaServer((reg) => ({
    noUrl: r.bool(0.25), wrongId: p.faults && r.bool(0.1),
    post: p.faults && r.bool(0.2) ? r.pick([{ status: 500, body: {} }, { error: new TypeError("refused") }, { status: 400, body: { message: "no" } }]) : undefined,
    put: () => { if (p.faults && r.bool(0.4)) { putFaults++; return r.pick([{ status: 503, body: "" }, { status: 403, body: "" }, { error: new TypeError("reset") }]); } return { status: r.pick([200, 201]), body: "", delay: r.pick([0, 5, 3000]) }; },
    ...({ postDelay: r.pick([0, 0, 50, 4000]) } as any),
  }));
  sim.onFetch = (q) => media.handle(q) ?? { status: 404, body: {} };
  const { exporter, processor, provider } = makeTracing({ exportMode: r.pick(["immediate", "batched"]), mediaUploadEnabled: p.disabled && !viaEnv ? false : undefined });
  const pool: M[] = [];
  const mk = (): M => {
    if (pool.length && r.bool(0.25)) {
      const m = r.pick(pool);
      if (r.bool(0.5)) return m;
      const type = r.pick(TYPES); // same bytes, other content type
      const n = { ...m, type, uri: `data:${type};base64,${m.bytes.toString("base64")}`, tag: `@@@langfuseMedia:type=${type}|id=${m.id}|source=base64_data_uri@@@` };
      pool.push(n); return n;
    }
    const bytes = pool.length && r.bool(0.3)
      ? Buffer.concat([r.pick(pool).bytes, Buffer.from(r.list(3 * r.int(0, 2), () => r.int(0, 255)))]) // one payload a prefix of another
      : r.bool(0.001) ? Buffer.alloc(r.pick([70_000, 800_000, 2_400_000]), r.int(0, 255) + r.hex(6)) : Buffer.from(r.list(r.pick([1, 2, 3, 4, 10, 31, 64, 200]), () => r.int(0, 255)));
    if (bytes.length > 60_000) o.count("large-media");
    const type = r.pick(TYPES), id = mediaIdOf(bytes);
    const m = { bytes, type, id, uri: `data:${type};base64,${bytes.toString("base64")}`, tag: `@@@langfuseMedia:type=${type}|id=${id}|source=base64_data_uri@@@` };
    pool.push(m); return m;
  };
  // A template value holds \u0001<n>\u0001 markers where media goes, so that the expected text is exact.
  type Ref = { m: M; field: string };
  const uses: { span: string; key: string; expect: string; original: string; media: M[]; field: string; src?: string }[] = [];
  const text = (ms: M[]): string => {
    let s = r.pick(["", "look: ", "data:,x ", "a;base64, ", "data: image/png;base64 ", "$& $1 $$ "]);
    for (let k = r.weighted([[2, 0], [5, 1], [3, 2], [1, 4]]); k > 0; k--) { const m = mk(); ms.push(m); s += `\u0001${ms.length - 1}\u0001` + r.pick([" ", ")", "\n", '"', ", and ", "|", " data:", "; ", "'", "<br>"]); }
    return s + r.text(6).replace(/[\u0001]/g, "");
  };
  const value = (ms: M[], d = 2): any => d <= 0 || r.bool(0.5) ? text(ms) : r.bool() ? r.list(r.int(0, 3), () => value(ms, d - 1)) : Object.fromEntries(r.list(r.int(1, 3), (i) => ["k" + i, value(ms, d - 1)]));
  const fill = (v: any, ms: M[], f: (m: M) => string): any => {
    if (typeof v === "string") return v.replace(/\u0001(\d+)\u0001/g, (_x, i) => f(ms[Number(i)]));
    if (Array.isArray(v)) return v.map((x) => fill(x, ms, f));
    if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, fill(x, ms, f)]));
    return v;
  };
  const ser = (v: any) => (typeof v === "string" ? v : JSON.stringify(v));
  const plan = (key: string, field: string, got: any[]) => {
    const ms: M[] = []; const v = value(ms);
    got.push({ key, field, media: ms, expect: ser(fill(v, ms, (m) => (p.disabled ? m.uri : m.tag))), original: ser(fill(v, ms, (m) => m.uri)) });
    return fill(v, ms, (m) => m.uri);
  };
  const nested = (f: () => void) => { if (r.bool(0.5)) startActiveObservation("parent", () => { f(); o.count("nested"); }); else f(); };
  const n = r.int(1, 5);
  for (let i = 0; i < n; i++) {
    const got: any[] = [];
    let id = "";
    if (p.ai) {
      const mkPart = (fmt: "v6" | "v7", src: M[]) => {
        const prior = pool.length && r.bool(0.4) ? r.pick(pool).bytes : undefined;
        const bytes = prior ? (r.bool() ? prior : Buffer.concat([prior, Buffer.from(r.list(3 * r.int(1, 2), () => r.int(0, 255)))])) : r.bool(0.15) ? Buffer.from(r.pick(["user", "text", "file", "blob", "role", "type"]), "base64") : Buffer.from(r.bool() ? r.list(r.pick([3, 6, 12, 40]), () => r.int(0, 255)) : `${r.hex(24)}-${i}-${src.length}`);
        const type = r.pick(TYPES), mid = mediaIdOf(bytes);
        const b64 = bytes.toString("base64"); const asUri = fmt === "v7" && r.bool(0.3);
        const m: M = { bytes, type, id: mid, uri: asUri ? `data:${type};base64,${b64}` : b64, tag: `@@@langfuseMedia:type=${type}|id=${mid}|source=bytes@@@` };
        src.push(m); pool.push({ ...m, uri: `data:${type};base64,${b64}` }); return m;
      };
      const scope = r.pick(["ai", "gen_ai"]);
      const attrs: any = {};
      for (const key of r.subset(["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"], 0.6)) {
        const ms: M[] = []; const fmt = key.startsWith("ai.") ? "v6" : "v7";
        const msgs = (sel: (m: M) => string, plan: any[]) => plan.map((x: any) => x.plain ?? ({ role: x.role, [fmt === "v6" ? "content" : "parts"]: x.parts.map((y: any) => y.m ? (fmt === "v6" ? { type: "file", mediaType: y.m.type, [y.f]: sel(y.m) } : { type: "blob", mime_type: y.m.type, content: sel(y.m), modality: "image" }) : y.raw) }));
        const planned: any[] = r.list(r.int(1, 4), () => r.bool(0.2) ? { plain: r.pick<any>([{ role: "system", content: "be brief" }, { role: "user", content: r.text(9) }, { role: "assistant" }, { role: "tool", parts: null, content: "" }, { role: "tool", parts: {}, content: {} }]) } : ({ role: r.pick(["user", "assistant", "tool", "system"]), parts: r.list(r.int(0, 4), () => r.bool(0.5) ? { m: mkPart(fmt, ms), f: r.pick(["data", "image"]) } : { raw: r.pick<any>([{ type: "text", text: r.text(8) }, { type: "file", mediaType: "image/png", data: "https://x.test/a.png" }, { type: "blob", mime_type: "image/png", content: "http://x.test/b.png" }, { type: "text", content: r.plain() }]) }) }));
        attrs[key] = JSON.stringify(msgs((m) => m.uri, planned));
        got.push({ key, field: key.includes("output") ? "output" : "input", media: ms, expect: JSON.stringify(msgs((m) => (p.disabled ? m.uri : m.tag), planned)), original: attrs[key] });
      }
      for (const key of ["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"]) if (!(key in attrs) && r.bool(0.15)) attrs[key] = r.pick<any>(["not json", "{}", "null", "5", 5, ["a"], "", JSON.stringify({ role: "user", content: "x" })]);
      nested(() => { const s = provider.getTracer(scope).startSpan("ai" + i, { attributes: { "gen_ai.system": "x", ...attrs } });
      id = idOf(s); s.end(); });
    } else {
      const body: any = {};
      if (r.bool(0.7)) body.input = plan("langfuse.observation.input", "input", got);
      if (r.bool(0.6)) body.output = plan("langfuse.observation.output", "output", got);
      if (r.bool(0.6)) body.metadata = Object.fromEntries(r.subset(["a", "b.c", "input", "output", "inputFile", "x.output.y", "trace.input", "metadata", "observation.output", "é k", "0"], 0.25).map((k) => [k, plan("langfuse.observation.metadata." + k, "metadata", got)]));
      nested(() => startActiveObservation("s" + i, (ob: any) => {
        if (r.bool(0.25)) ob.otelSpan.setAttribute("langfuse.observation.metadata." + r.pick(["count", "flag"]), r.pick<any>([5, true, 0, [1, 2]]));
        ob.update(body);
        // content attributes another library set to something that is not text
        if (!("input" in body) && r.bool(0.4)) ob.otelSpan.setAttribute("langfuse.observation.input", r.pick<any>([5, true, ["a", "b"], 0, ""]));
        if (!("output" in body) && r.bool(0.2)) ob.otelSpan.setAttribute("langfuse.observation.output", r.pick<any>([5, false, [1, 2]]));
        id = idOf(ob.otelSpan);
        if (r.bool(0.3)) setActiveTraceIO({ input: plan("langfuse.trace.input", "input", got), output: plan("langfuse.trace.output", "output", got) });
        if (r.bool(0.2)) ob.otelSpan.setAttribute("langfuse.trace.metadata", ser(plan("langfuse.trace.metadata", "metadata", got)));
      }));
    }
    for (const g of got) uses.push({ span: id, ...g });
    if (r.bool(0.4)) await sim.advance(r.pick([1, 100, 5000]));
  }
  // every upload of a span that ended before the flush was called is finished when the flush settles
  let flushedEv = 0;
  const f = await sim.drive(processor.forceFlush().then(() => { flushedEv = sim.tick(); }));
  o.check(f.status === "fulfilled", "flush-failed", () => show(f));
  await sim.drain(600_000);
  let refs = 0;
  if (!p.disabled) for (const q of sim.fetches) { o.check(q.doneEv !== undefined && q.doneEv < flushedEv, "flush-before-upload", () => `forceFlush settled before ${q.method} ${q.path} finished`); o.count("flush-after-upload"); }
  for (const u of uses) {
    const e = exporter.spans.find((x) => idOf(x.span) === u.span);
    o.check(e, "span-lost", () => `span with media not exported`);
    const got = e!.attributes[u.key];
    if (typeof got === "string" || u.media.length) o.check(typeof got === "string" && got === u.expect, "content", () => `${u.key}: expected ${show(u.expect)} got ${show(got)}`);
    const traceId = e!.span.spanContext().traceId;
    for (const m of u.media) {
      refs++;
      if (p.disabled) continue;
      const regs = media.regs.filter((x) => x.observationId === u.span && x.traceId === traceId && x.field === u.field && x.mediaId === m.id && x.contentType === m.type);
      o.check(regs.length >= 1, "not-registered", () => `media ${m.id} ${m.type} of ${u.key} was not registered for field ${u.field}: ${show(media.regs.map((x) => [x.observationId, x.field, x.mediaId, x.contentType]))}`);
      for (const x of regs) { o.equal(x.contentLength, m.bytes.length, "length"); o.equal(x.sha256Hash, sha256b64(m.bytes), "hash"); }
    }
  }
  for (const reg of media.regs) {
    const m = uses.filter((u) => u.span === reg.observationId && u.field === reg.field).flatMap((u) => u.media).find((x) => x.id === reg.mediaId && x.type === reg.contentType);
    o.check(m, "invented-registration", () => show({ ...reg, q: 0 }));
    const occurrences = uses.filter((u) => u.span === reg.observationId && u.field === reg.field).flatMap((u) => u.media).filter((x) => x.id === reg.mediaId && x.type === reg.contentType).length;
    const same = media.regs.filter((x) => x.observationId === reg.observationId && x.field === reg.field && x.mediaId === reg.mediaId && x.contentType === reg.contentType).length;
    o.check(same <= occurrences * (p.faults ? 4 : 1), "over-registered", () => `${same} registrations for ${occurrences} occurrences`);
    const puts = media.puts.filter((x) => x.token === `u${reg.seq}`);
    const ok = puts.filter((x) => x.q.status === 200 || x.q.status === 201);
    o.check(ok.length <= 1, "uploaded-twice", () => `${ok.length} successful uploads for one registration`);
    for (const x of puts) { o.check(x.q.bodyBytes && Buffer.from(x.q.bodyBytes).equals(m!.bytes), "bytes", () => `uploaded bytes differ for ${reg.mediaId}`); o.equal(x.q.headers["content-type"], m!.type, "put-type"); }
    if (!p.faults) o.check(ok.length === (reg.q.status === 200 && (media as any).plans.get(`u${reg.seq}`)?.plan.noUrl ? 0 : 1), "upload-missing", () => `uploads for registration: ${ok.length}`);
  }
  if (p.disabled) { o.equal(sim.fetches.length, 0, "disabled-uploads"); o.count("disabled", 1); }
  o.count("references", refs); o.count("registrations", media.regs.length); o.count("uploads", media.puts.length); o.count("upload-faults", putFaults);
  o.note = { attributes: uses.length, refs, regs: media.regs.length, sample: uses[0]?.expect?.slice(0, 200) };
  if (uses.length) o.seen(uses.map((u) => `${u.key}:${u.media.map((m) => m.type + m.bytes.length)}`).join(";"));
}

defineCheck("C10", {
  rule: "A case is a set of spans whose content holds data URIs (repeated, prefixes of each other, same bytes under several types, next to hostile text) or AI SDK file/blob parts, with a scripted media server that answers, declines, delays or fails. Expected text is built from a template. Distinct by keys, media types and sizes.",
  required: ["references", "registrations", "uploads", "upload-faults", "disabled", "nested", "large-media", "flush-after-upload"],
  assumptions: ["data URIs are of the form data:<type>;base64,<data> and are delimited by a character outside the base64 alphabet"],
}, [
  { name: "spans", quick: 500, run: (r, o) => run(r, o, { faults: false }) },
  { name: "faults", quick: 350, run: (r, o) => run(r, o, { faults: true }) },
  { name: "ai-sdk", quick: 300, run: (r, o) => run(r, o, { faults: r.bool(0.3), ai: true }) },
  { name: "disabled", quick: 80, run: (r, o) => run(r, o, { faults: false, disabled: true, ai: r.bool(0.3) }) },
]);
