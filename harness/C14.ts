import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, idOf } from "../lib/env";
import { propagation, context, trace, ROOT_CONTEXT, Context, TraceFlags } from "@opentelemetry/api";
import { startObservation, startActiveObservation, observe } from "@langfuse/tracing";

const MARK = "langfuse.internal.is_app_root";
type Rec = { span: any; expected: boolean; ended: boolean; parent?: string; traceId: string; mark: boolean; why: string };

async function run(r: Rng, o: Obs, mode: "default" | "custom") {
  setEnv({});
  const throwing = r.bool(0.3);
  const { exporter, processor, provider } = makeTracing({
    exportMode: r.pick(["immediate", "batched"]),
    shouldExportSpan: mode === "custom" ? ({ otelSpan }: any) => { if (otelSpan.name.includes("throw")) throw new Error("f"); return !otelSpan.name.includes("drop"); } : undefined,
  });
  const recs = new Map<string, Rec>();
  const open: Rec[] = [];
  let n = 0, upstream = 0, foreign = 0;
  const shape: string[] = [];
  const claimOf = (c: Context) => propagation.getBaggage(c)?.getEntry("langfuse_trace_id")?.value?.toLowerCase();
  const note = (span: any, name: string, scope: string, genai: boolean, claims: Set<string>): Rec => {
    const expected = mode === "custom" ? !/drop|throw/.test(name) : scope === "langfuse-sdk" || scope.startsWith("openinference") || genai;
    const parent = span.parentSpanContext?.spanId;
    const p = parent ? recs.get(parent) : undefined;
    const parentLive = !!p && !p.ended && p.expected;
    const traceId = span.spanContext().traceId;
    const rec: Rec = { span, expected, ended: false, parent, traceId, mark: expected && !parentLive && !claims.has(traceId), why: `expected=${expected} parentLiveExpected=${parentLive} claimed=${claims.has(traceId)}` };
    recs.set(idOf(span), rec); open.push(rec);
    return rec;
  };
  const end = (x: Rec) => { if (x.ended) return; x.ended = true; open.splice(open.indexOf(x), 1); x.span.end(); };
  const name = () => (mode === "custom" ? r.weighted([[5, "keep"], [2, "drop"], [throwing ? 1 : 0, "throw"]]) : "s") + n++;
  let budget = r.int(5, 60);
  const body = async (claims: Set<string>, depth: number): Promise<void> => {
    for (let k = r.int(1, 5); k > 0 && budget > 0; k--) {
      budget--;
      const op = r.weighted<string>([[4, "sdk"], [3, "otel"], [3, "active"], [2, "end"], [1, "hop"], [1, "remote"], [1, "par"], [1, "observe"], [1, "child"], [1, "flush"]]);
      shape.push(op[0]);
      if (r.bool(0.002)) for (let j = r.int(60, 400); j > 0; j--) { const many = name(); note(startObservation(many).otelSpan, many, "langfuse-sdk", false, claims); }
      const nm = name();
      // an enclosing observation may be of any type and may be attached to an explicit parent, ended or not
      const all0 = [...recs.values()];
      const opts: any = { asType: r.pick([undefined, undefined, "span", "generation", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding", "event"]), ...(all0.length && r.bool(0.3) ? { parentSpanContext: r.pick(all0).span.spanContext() } : {}), endOnExit: false };
      const begun = (rec: Rec) => { if (opts.asType === "event") { rec.ended = true; open.splice(open.indexOf(rec), 1); o.count("enclosing-events"); } if (opts.parentSpanContext) o.count("enclosing-with-parent"); return rec; };
      if (op === "sdk") note(startObservation(nm).otelSpan, nm, "langfuse-sdk", false, claims);
      else if (op === "otel") {
        const scope = r.pick(["http", "openinference.x", "my-app", "express"]); const genai = r.bool(0.2);
        if (scope === "http" || scope === "my-app" || scope === "express") foreign++;
        const parent = open.length && r.bool(0.4) ? r.pick(open) : undefined;
        const ctx = parent ? trace.setSpan(context.active(), parent.span) : context.active();
        note(provider.getTracer(scope).startSpan(nm, { attributes: genai ? { "gen_ai.system": "x" } : {} }, ctx), nm, scope, genai, claims);
      } else if (op === "child") {
        const all = [...recs.values()];
        if (all.length) { const p = r.pick(all); note(startObservation(nm, {}, { parentSpanContext: p.span.spanContext() }).otelSpan, nm, "langfuse-sdk", false, claims); }
      } else if (op === "end") { if (open.length) end(r.pick(open)); }
      else if (op === "flush") { if (r.bool()) await processor.forceFlush(); else void processor.forceFlush(); o.count("flushes"); }
      else if (op === "hop") await new Promise((x) => setTimeout(x, r.int(1, 20)));
      else if (op === "active" && depth < 6) {
        await startActiveObservation(nm, async (ob: any) => {
          const rec = begun(note(ob.otelSpan, nm, "langfuse-sdk", false, claims));
          // baggage holds one claim: the innermost one
          await body(new Set([rec.traceId]), depth + 1);
          end(rec);
        }, opts);
      } else if (op === "observe" && depth < 6) {
        await observe(async () => {
          const span = trace.getActiveSpan();
          const rec = begun(note(span, nm, "langfuse-sdk", false, claims));
          await body(new Set([rec.traceId]), depth + 1);
          end(rec);
        }, { name: nm, ...opts })();
      } else if (op === "par" && depth < 4) await Promise.all(r.list(2, () => body(claims, depth + 1)));
      else if (op === "remote" && depth < 6) {
        const traceId = r.hex(32), spanId = r.hex(16);
        let ctx = trace.setSpanContext(ROOT_CONTEXT, { traceId, spanId, traceFlags: TraceFlags.SAMPLED, isRemote: true });
        const c = r.pick(["same", "same", "upper", "other", "none"]);
        const inner = new Set<string>();
        if (c !== "none") { upstream++; const v = c === "same" ? traceId : c === "upper" ? traceId.toUpperCase() : r.hex(32); ctx = propagation.setBaggage(ctx, propagation.createBaggage({ langfuse_trace_id: { value: v }, other: { value: "x" } })); inner.add(v.toLowerCase()); }
        await context.with(ctx, () => body(inner, depth + 1));
      }
    }
  };
  const d = await sim.drive(Promise.all(r.list(r.int(1, 3), () => body(new Set(), 0))));
  if (d.status === "rejected") throw d.reason;
  for (const x of r.shuffle([...open])) end(x);
  await sim.drive(processor.forceFlush());
  await sim.drain(20_000);
  let roots = 0;
  for (const rec of recs.values()) {
    const got = rec.span.attributes[MARK];
    o.check((got === true) === rec.mark && (got === true || got === undefined), rec.mark ? "root-missing" : "root-extra", () => `span ${rec.span.name} parent=${rec.parent} marked=${got}, ${rec.why} (${shape.join("")})`);
    if (rec.mark) roots++;
  }
  for (const e of exporter.spans) { const rec = recs.get(idOf(e.span))!; o.equal(e.attributes[MARK], rec.mark ? true : undefined, "exported-mark"); }
  o.count("spans", recs.size); o.count("roots", roots); o.count("non-roots", recs.size - roots); o.count("upstream-claims", upstream); o.count("foreign-spans", foreign);
  o.note = { mode, shape: shape.join(""), roots };
  if (recs.size) o.seen(mode + shape.join("") + [...recs.values()].map((x) => +x.mark).join(""));
}

async function tree(r: Rng, o: Obs) {
  // A single tree of Langfuse observations, children start before their parent ends: one mark.
  setEnv({});
  const { exporter, processor } = makeTracing({});
  const trees = r.list(r.int(1, 4), (i) => { const root = startObservation("t" + i); return { root, open: [root] as any[], all: [root] as any[] }; });
  for (let k = r.int(5, 60); k > 0; k--) {
    const t = r.pick(trees);
    if (t.open.length && r.bool(0.6)) { const c = r.pick(t.open).startObservation("c"); t.open.push(c); t.all.push(c); }
    else if (t.open.length > 1) { const [x] = t.open.splice(r.int(1, t.open.length - 1), 1); x.end(); }
    if (r.bool(0.1)) await sim.advance(5);
    if (r.bool(0.05)) await sim.drive(processor.forceFlush());
  }
  for (const t of trees) for (const x of r.shuffle(t.open)) x.end();
  await sim.drive(processor.forceFlush());
  for (const t of trees) {
    const traceId = t.root.otelSpan.spanContext().traceId;
    const spans = exporter.spans.filter((e) => e.span.spanContext().traceId === traceId);
    o.equal(spans.length, t.all.length, "tree-size");
    o.equal(spans.filter((e) => e.attributes[MARK] === true).map((e) => idOf(e.span)), [idOf(t.root.otelSpan)], "tree-root");
  }
  o.count("trees", trees.length);
  o.seen(trees.map((t) => t.all.length).join(","));
}

defineCheck("C14", {
  rule: "A case is a random program over several concurrent traces: SDK, active, observed and foreign spans, children of live and ended parents, remote parents with and without an upstream claim, under the default or a custom (throwing) filter; a model follows liveness, expectation and claims. Distinct by operation string and marks.",
  required: ["flushes", "spans", "roots", "non-roots", "upstream-claims", "foreign-spans", "trees"],
  assumptions: ["the filter decides equally at the start of a span and later"],
}, [
  { name: "default", quick: 500, run: (r, o) => run(r, o, "default") },
  { name: "custom", quick: 400, run: (r, o) => run(r, o, "custom") },
  { name: "tree", quick: 300, run: tree },
]);
