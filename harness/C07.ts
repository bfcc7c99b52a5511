import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, KEYS, makeTracing, RecExporter, MediaServer, idOf } from "../lib/env";
import { startObservation, startActiveObservation } from "@langfuse/tracing";
import { propagateAttributes } from "@langfuse/core";

type S = { id: string; name: string; endEv: number; dropped: boolean; media?: string };

async function run(r: Rng, o: Obs, p: { faults: boolean; media: boolean; slowMask: boolean; big?: boolean; burst?: number }) {
  setEnv({});
  const mode = (p.burst ?? 0) > 2000 ? "immediate" : r.pick(["immediate", "batched", "batched"]);
  const flushAt = r.pick([undefined, 1, 2, 5, 20, 100]);
  const flushInterval = r.pick([undefined, 1, 5]);
  const filterThrows = p.faults && r.bool(0.4);
  const useFilter = r.bool(0.5);
  const useMask = p.slowMask || r.bool(0.3);
  const media = new MediaServer((reg) => ({
    put: (n) => p.faults && r.bool(0.4) ? r.pick([{ status: 500, body: "x", delay: 20 }, { error: new TypeError("reset") }, { status: 403, body: "no" }]) : { status: 200, body: "", delay: p.burst ? r.int(0, 20_000) : r.weighted([[5, 0], [5, 30], [5, 2000], [0.7, 100_000]]) },
    noUrl: r.bool(0.2), post: p.faults && r.bool(0.2) ? r.pick([{ status: 500, body: {} }, { error: new TypeError("refused") }, { status: 400, body: {} }]) : undefined,
    ...({ postDelay: r.pick([0, 10, 900]) } as any),
  }));
  sim.onFetch = (q) => media.handle(q) ?? { status: 404, body: {} };
  let exporterFaults = 0;
  const { exporter, processor } = makeTracing({
    exportMode: mode, flushAt, flushInterval,
    mask: useMask ? async ({ data }: any) => {
      const d = p.slowMask ? r.weighted([[5, 0], [5, 1], [5, 40], [5, 700], [5, 5000], [0.5, 45_000], [0.3, 200_000]]) : 0;
      if (d) await new Promise((x) => setTimeout(x, d));
      if (p.faults && r.bool(0.1)) throw new Error("mask");
      return data;
    } : undefined,
    shouldExportSpan: useFilter ? ({ otelSpan }: any) => {
      if (filterThrows && otelSpan.name.includes("boom")) throw new Error("filter");
      return !otelSpan.name.includes("drop");
    } : undefined,
  }, () => {
    if (p.faults && r.bool(0.3)) { exporterFaults++; return r.pick([{ code: 1 }, { code: 1, delay: 50 }, { throws: new Error("exporter threw") }, mode === "batched" ? { hang: true } : { code: 1, delay: 9000 }]); }
    return { delay: r.pick([0, 0, 5, 300, 4000]) };
  });
  const spans: S[] = [];
  const open: { ob: any; s: S }[] = [];
  const flushes: { kind: string; callEv: number; doneEv?: number; rejected?: any }[] = [];
  let seq = 0;
  const ids = new Set<string>();
  const start = () => {
    const kind = useFilter ? r.weighted<string>([[6, "keep"], [2, "drop"], [filterThrows ? 2 : 0, "boom"]]) : "keep";
    const name = `${kind}-${seq++}`;
    const hasMedia = p.media && r.bool(0.5);
    const uniq = Buffer.from(`media-${name}-${r.hex(8)}`).toString("base64");
    const attrs: any = { input: hasMedia ? { img: `data:image/png;base64,${uniq}` } : { q: name }, output: r.text(10), metadata: { a: 1 } };
    const parent = open.length && r.bool(0.6) ? r.pick(open).ob : undefined;
    const ob = parent ? parent.startObservation(name, attrs) : startObservation(name, attrs, { asType: r.pick(["span", "generation", "tool"]) as any });
    const s: S = { id: idOf(ob.otelSpan), name, endEv: 0, dropped: kind !== "keep", media: hasMedia ? uniq : undefined };
    open.push({ ob, s });
  };
  const end = (i: number) => {
    const [{ ob, s }] = open.splice(i, 1);
    s.endEv = sim.tick();
    spans.push(s); ids.add(s.id);
    ob.end();
    if (r.bool(0.1)) ob.end();
    o.count("spans-ended");
  };
  const flush = (kind: string) => {
    const f: any = { kind, callEv: sim.tick() };
    flushes.push(f);
    (kind === "shutdown" ? processor.shutdown() : processor.forceFlush()).then(() => { f.doneEv = sim.tick(); }, (e: any) => { f.rejected = e; f.doneEv = sim.tick(); });
    o.count("flushes");
  };
  const shape: string[] = [];
  const steps = p.big ? r.int(100, 400) : r.int(5, 40);
  for (let i = 0; i < steps; i++) {
    const k = r.weighted<string>([[5, "start"], [5, "end"], [1.2, "flush"], [2, "step"], [1, "micro"], [0.5, "long"]]);
    if (k === "start") start();
    else if (k === "end") { if (open.length) end(r.int(0, open.length - 1)); }
    else if (k === "flush") flush("forceFlush");
    else if (k === "step") await sim.advance(r.pick([1, 30, 500]));
    else if (k === "long") await sim.advance(r.pick([2000, 6000]));
    else await sim.settle(r.int(1, 2));
    shape.push(k[0]);
  }
  if (p.burst) {
    // many spans ended at once while masks are slow: all of them are pending when the flush is called
    const n = r.int(p.burst > 2000 ? 2600 : p.burst >> 2, p.burst);
    for (let i = 0; i < n; i++) { start(); if (r.bool(0.9)) end(open.length - 1); }
    if (r.bool()) flush("forceFlush");
    if (r.bool(0.3)) await sim.advance(1);
    o.count("burst-spans", n);
  }
  while (open.length) end(0);
  flush(r.bool() ? "shutdown" : "forceFlush");
  // a second call while the first is under way is a barrier of its own
  for (let k = r.pick([0, 0, 1, 2]); k > 0; k--) { if (r.bool(0.6)) await sim.advance(r.pick([0, 1, 30, 500])); flush(r.bool() ? "shutdown" : "forceFlush"); o.count("repeated-final-flushes"); }
  await sim.drain(10_000_000);
  // ---- oracle --------------------------------------------------------------------------------
  const got = new Map<string, any[]>();
  for (const e of exporter.spans) { const id = idOf(e.span); got.set(id, [...(got.get(id) ?? []), e]); }
  for (const id of got.keys()) o.check(ids.has(id), "invented", () => `exported span ${id} was never ended`);
  for (const s of spans) {
    const g = got.get(s.id) ?? [];
    if (s.dropped) o.check(g.length === 0, "filter-ignored", () => `span ${s.name} rejected by the filter was exported`);
    else {
      o.check(g.length >= 1, "lost", () => `span ${s.name} (${mode}, flushAt=${flushAt}) ended and never reached the exporter: ${shape.join("")}`);
      o.check(g.length <= 1, "duplicated", () => `span ${s.name} reached the exporter ${g.length} times`);
    }
  }
  for (const f of flushes) {
    o.check(f.doneEv !== undefined, "flush-hangs", () => `${f.kind} never settled`);
    if (f.rejected !== undefined) o.check(exporterFaults > 0, "flush-rejects", () => `${f.kind} rejected without exporter failure: ${show(f.rejected)}`);
    for (const s of spans) {
      if (s.endEv > f.callEv || s.dropped) continue;
      o.check(got.get(s.id)![0].ev < f.doneEv!, "barrier", () => `${f.kind} (${mode}) settled before span ${s.name}, ended before the call, was handed to the exporter`);
      o.count("barrier-pairs");
      if (s.media) {
        const regs = media.regs.filter((x) => x.observationId === s.id);
        const masked = got.get(s.id)![0].attributes["langfuse.observation.input"] === "<fully masked due to failed mask function>";
        if (!masked) o.check(regs.length >= 1, "media-missing", () => `media of ${s.name} never registered`);
        const reqs = [...regs.map((x) => x.q), ...media.puts.filter((x) => regs.some((y) => x.token === `u${y.seq}`)).map((x) => x.q), ...media.patches.filter((x) => regs.some((y) => y.mediaId === x.mediaId)).map((x) => x.q)];
        for (const q of reqs) o.check(q.doneEv !== undefined && q.doneEv < f.doneEv!, "media-barrier", () => `${f.kind} settled before ${q.method} ${q.path} of the media of ${s.name} finished`);
        o.count("media-barrier-pairs");
      }
    }
  }
  const overlapped = flushes.some((a) => flushes.some((b) => a !== b && a.callEv < b.callEv && b.callEv < a.doneEv!));
  o.count("exporter-faults", exporterFaults);
  if (overlapped) o.count("overlapping-flushes");
  o.note = { mode, flushAt, flushInterval, useFilter, useMask, shape: shape.join(""), exports: exporter.calls.length };
  if (spans.length) o.seen(`${mode}/${flushAt}/${shape.join("")}/${exporter.calls.map((c) => c.n).join(",")}`);
}

/** No flush is ever called: the processor exports by itself, within its configured interval. */
async function auto(r: Rng, o: Obs) {
  const mode = r.pick(["immediate", "batched", "batched"]);
  const flushAt = r.pick([undefined, 1, 2, 5, 20, 100]);
  const flushInterval = r.pick([undefined, 1, 2, 5, 8, 0.5]);
  const viaEnv = r.bool(0.3);
  const env: any = {};
  if (viaEnv) { if (flushAt) env.LANGFUSE_FLUSH_AT = String(flushAt); if (flushInterval) env.LANGFUSE_FLUSH_INTERVAL = String(flushInterval); }
  setEnv(env);
  sim.onFetch = () => ({ status: 404, body: {} });
  const { exporter } = makeTracing({ exportMode: mode, ...(viaEnv ? {} : { flushAt, flushInterval }), mediaUploadEnabled: r.bool() }, () => ({ delay: 0 }));
  const bound = mode === "immediate" ? 0 : (flushInterval ?? 5) * 1000;
  const spans: { id: string; name: string; at: number }[] = [];
  const seen = new Map<string, number>();
  const scan = () => { for (const e of exporter.spans) { const id = idOf(e.span); if (!seen.has(id)) seen.set(id, sim.now); } };
  const shape: string[] = [];
  const rounds = r.int(1, 5);
  for (let k = 0; k < rounds; k++) {
    const n = r.int(1, 12);
    for (let i = 0; i < n; i++) {
      const ob = startObservation(`s-${k}-${i}`, { input: r.text(6) });
      spans.push({ id: idOf(ob.otelSpan), name: `s-${k}-${i}`, at: sim.now });
      ob.end();
      if (r.bool(0.2)) { await sim.advance(r.pick([1, 50, 300])); scan(); }
    }
    shape.push(String(n));
    await sim.settle(3);
    if (r.bool()) { await sim.advance(r.pick([10, 400, 1500, bound])); scan(); }
  }
  await sim.settle(3);
  const end = sim.now;
  await sim.advance(bound + 50);
  scan();
  for (const s of spans) {
    o.check(seen.has(s.id), "auto-flush", () => `span ${s.name} (${mode}, flushAt=${flushAt}, flushInterval=${flushInterval}${viaEnv ? " from the environment" : ""}) was still not exported ${sim.now - s.at} ms after it ended, with no flush called and an idle exporter`);
    o.count("auto-exports");
  }
  o.check(exporter.calls.every((c) => mode === "immediate" ? c.n === 1 : c.n <= (flushAt ?? 512)), "batch-size", () => `exporter was handed batches of ${exporter.calls.map((c) => c.n).join(",")} with ${mode} flushAt=${flushAt}`);
  o.note = { mode, flushAt, flushInterval, viaEnv, shape: shape.join(",") , end };
  o.seen(`auto/${mode}/${flushAt}/${flushInterval}/${viaEnv}/${shape.join(",")}`);
}

defineCheck("C07", {
  rule: "A case is a random program starting/ending nested observations with forceFlush/shutdown calls and clock steps, slow/failing exporter, slow/failing masks, throwing filters and media uploads; distinct by configuration, operation string and export batch sizes.",
  required: ["spans-ended", "flushes", "barrier-pairs", "media-barrier-pairs", "exporter-faults", "overlapping-flushes", "auto-exports", "burst-spans"],
  assumptions: ["in batched mode fewer spans are buffered than the OpenTelemetry batch queue holds (2048)", "spans end before shutdown is called", "in immediate mode the exporter eventually calls back"],
}, [
  { name: "calm", quick: 250, run: (r, o) => run(r, o, { faults: false, media: false, slowMask: false }) },
  { name: "slow", quick: 350, run: (r, o) => run(r, o, { faults: false, media: true, slowMask: true }) },
  { name: "faults", quick: 350, run: (r, o) => run(r, o, { faults: true, media: true, slowMask: r.bool() }) },
  { name: "big", quick: 20, run: (r, o) => run(r, o, { faults: r.bool(), media: true, slowMask: true, big: true }) },
  { name: "burst", quick: 14, run: (r, o) => run(r, o, { faults: false, media: r.bool(0.7), slowMask: true, burst: r.pick([200, 400, 1000]) }) },
  { name: "huge", quick: 1, run: (r, o) => run(r, o, { faults: false, media: false, slowMask: true, burst: 3400 }) },
  { name: "auto", quick: 250, run: (r, o) => auto(r, o) },
]);
