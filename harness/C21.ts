import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { idOf, parentOf, setEnv, makeTracing, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { runExperiment, runnable, successes, evalsOf } from "../lib/exprun";
import { startObservation } from "@langfuse/tracing";
import { createHash } from "node:crypto";

const X = "langfuse.experiment.";
const J = (v: any) => (v === undefined || v === null ? undefined : typeof v === "string" ? v : jsonOr(v));
const jsonOr = (v: any) => { try { return JSON.stringify(v); } catch { return "<failed to serialize>"; } };
async function run(r: Rng, o: Obs) {
  const rec = await runExperiment(r, o, { faults: true });
  const res = rec.d.value;
  const after = startObservation("after"); after.end();
  await sim.drive(rec.processor.forceFlush());
  const byId = new Map<string, any>(rec.exporter.spans.map((s: any) => [idOf(s.span), s]));
  // the root span of each task execution: the topmost ancestor of the spans the task created
  const rootOf = (id: string) => { let s = byId.get(id); while (s && parentOf(s.span) && byId.has(parentOf(s.span)!)) s = byId.get(parentOf(s.span)!); return s; };
  const roots = new Map<number, any>();
  for (const c of rec.calls) {
    const rs = new Set(c.spans.map(rootOf));
    o.check(rs.size === 1 && ![...rs].includes(undefined), "one-root", () => `item ${c.idx}: ${c.spans.length} spans under ${rs.size} roots`);
    roots.set(c.idx, [...rs][0]);
  }
  o.equal(new Set([...roots.values()].map((s) => idOf(s.span))).size, roots.size, "own-root");
  o.equal(new Set([...roots.values()].map((s) => s.span.spanContext().traceId)).size, roots.size, "own-trace");
  // scores
  const sent = sim.fetches.filter((q) => q.path === "/api/public/ingestion").flatMap((q) => q.json.batch.map((e: any) => ({ e, q })));
  o.equal(new Set(sent.map((s: any) => s.e.id)).size, sent.length, "duplicate-event");
  o.equal(new Set(sent.map((s: any) => s.e.body.id)).size, sent.length, "score-ids", "distinct ids of the scores sent:");
  for (const s of sent) o.check(s.q.doneEv !== undefined && s.q.doneEv < rec.resolvedEv!, "sent-before-resolve", () => `score ${show(s.e.body)} sent at event ${s.q.ev}/${s.q.doneEv}, run resolved at ${rec.resolvedEv}`);
  let expected = 0;
  for (const it of successes(rec)) {
    const root = roots.get(it.idx), sid = idOf(root.span), tid = root.span.spanContext().traceId;
    const mine = sent.filter((s: any) => s.e.body.traceId === tid).map((s: any) => s.e.body);
    const want = evalsOf(it); expected += want.length;
    o.equal(mine.length, want.length, "score-count", `item ${it.idx}`);
    for (const e of want) { const like = (b: any) => deepEqual([b.name, b.value, b.comment, b.dataType, b.metadata], [e.name, e.value, e.comment, e.dataType, e.metadata]); const hit = mine.filter(like); o.check(hit.length === want.filter(like).length && hit.every((b: any) => b.observationId === sid), "score-target", () => `evaluation ${show(e)} of item ${it.idx} (trace ${tid}, root ${sid}): ${show(mine)}`); o.count("item-scores"); }
    o.equal(res.itemResults.find((x: any) => x.item === it.item)?.traceId, tid, "result-trace");
  }
  const runEv = rec.runEvals.flatMap((p) => (p.fail ? [] : Array.isArray(p.result) ? p.result : [p.result]));
  const linkedRun = successes(rec).some((x) => x.item.id && !rec.linkFail.has(x.idx)) ? "run-1" : undefined;
  o.equal(res.datasetRunId, linkedRun, "run-id");
  for (const it of successes(rec)) o.equal(res.itemResults.find((x: any) => x.item === it.item)?.datasetRunId, it.item.id && !rec.linkFail.has(it.idx) ? "run-1" : undefined, "run-id", `of item ${it.idx}`);
  const runScores = sent.filter((s: any) => s.e.body.datasetRunId).map((s: any) => s.e.body);
  o.equal(runScores.map((b: any) => [b.name, b.value, b.comment, b.metadata, b.datasetRunId, b.traceId]), linkedRun ? runEv.map((e: any) => [e.name, e.value, e.comment, e.metadata, linkedRun, undefined]) : [], "run-scores");
  o.count("run-scores", runScores.length);
  o.equal(sent.length, expected + runScores.length, "score-total");
  // links
  for (const it of rec.items) {
    const ls = rec.links.filter((l) => l.idx === it.idx);
    if (!it.item.id || !runnable(it)) { o.equal(ls.length, 0, "unexpected-link"); continue; }
    const root = roots.get(it.idx);
    o.check(ls.length >= 1 && ls.filter((l) => !l.failed).length <= 1, "linked-once", () => `item ${it.idx}: ${ls.length} link requests, ${ls.filter((l) => !l.failed).length} accepted`);
    for (const l of ls) o.equal(l.q.json, { runName: res.runName, ...(rec.config.description !== undefined ? { runDescription: rec.config.description } : {}), ...(rec.config.metadata ? { metadata: rec.config.metadata } : {}), datasetItemId: it.item.id, traceId: root.span.spanContext().traceId, observationId: idOf(root.span), ...(rec.config.datasetVersion ? { datasetVersion: rec.config.datasetVersion } : {}) }, "link-body");
    o.count("links"); if (rec.linkFail.has(it.idx)) o.count("link-failures");
  }
  // identifiers on the spans of each execution
  const fallback = new Set<string>();
  for (const c of rec.calls) {
    const it = rec.items[c.idx], root = roots.get(c.idx);
    const spans = rec.exporter.spans.filter((s: any) => s.span.spanContext().traceId === root.span.spanContext().traceId);
    const want: any = { "item.id": it.item.id ?? createHash("sha256").update(J(it.item.input) ?? "").digest("hex").slice(0, 16), name: res.runName, metadata: J(rec.config.metadata), "dataset.id": it.item.datasetId, "item.metadata": J(it.item.metadata), "item.root_observation_id": idOf(root.span) };
    for (const s of spans) {
      for (const [k, v] of Object.entries(want)) o.check(s.attributes[X + k] === v, "identifier", () => `span ${s.name} of item ${c.idx}: ${k} expected ${show(v)} got ${show(s.attributes[X + k])}`);
      if (it.item.id && !rec.linkFail.has(c.idx)) o.equal(s.attributes[X + "id"], "run-1", "experiment-id"); else fallback.add(s.attributes[X + "id"]);
      o.equal(s.attributes["langfuse.environment"], "sdk-experiment", "environment");
      o.count("spans");
    }
    if (it.item.expectedOutput !== "") o.equal(root.attributes[X + "item.expected_output"], J(it.item.expectedOutput), "expected-output");
    if (rec.config.description !== "") o.equal(root.attributes[X + "description"], rec.config.description, "description");
    if (!it.taskFails) { o.equal(root.attributes["langfuse.observation.input"], J(it.item.input), "root-input"); o.equal(root.attributes["langfuse.observation.output"], J(c.outcome), "root-output");
      const P = "langfuse.observation.metadata.", meta = Object.fromEntries(Object.entries(root.attributes).filter(([k]) => k.startsWith(P)).map(([k, v]) => [k.slice(P.length), v]));
      const wantMeta = { ...it.item.metadata, ...rec.config.metadata, experiment_name: rec.config.name, experiment_run_name: res.runName, ...(it.item.id ? { dataset_id: it.item.datasetId, dataset_item_id: it.item.id } : {}) };
      o.equal(meta, Object.fromEntries(Object.entries(wantMeta).map(([k, v]) => [k, J(v)])), "root-metadata", `item ${c.idx}`); }
    else o.count("failed-executions");
  }
  o.check(fallback.size <= 1 && ![...fallback].includes(undefined as any), "fallback-id", () => `several ids for one experiment: ${[...fallback]}`);
  if (!res.datasetRunId && fallback.size) o.equal([...fallback][0], res.experimentId, "experiment-id"); else if (res.datasetRunId) o.equal(res.experimentId, res.datasetRunId, "experiment-id");
  const a = rec.exporter.spans.find((s: any) => s.name === "after");
  o.check(!Object.keys(a.attributes).some((k) => k.startsWith(X)), "leak", () => show(a.attributes));
  if (rec.maxActive > 1) o.count("concurrent-cases");
  o.note = { items: rec.items.length, scores: sent.length, links: rec.links.length };
  o.seen(`${rec.items.length}:${rec.limit}:${rec.maxActive}:${sent.length}:${rec.links.length}:` + rec.calls.slice().sort((x, y) => x.endEv! - y.endEv!).map((c) => c.idx).join());
}
/** The same dataset items executed again: within one run, in a later run, and in runs side by side. */
async function again(r: Rng, o: Obs) {
  setEnv({});
  const t = makeTracing({ mediaUploadEnabled: false });
  const client = new LangfuseClient(KEYS);
  const links: any[] = [];
  sim.onFetch = (q) => {
    if (q.path === "/api/public/dataset-run-items") { links.push(q.json); return { status: 200, body: { id: "x", datasetRunId: "run of " + q.json.runName }, delay: r.pick([0, 0, 5, 30]) }; }
    if (q.path === "/api/public/projects") return { status: 200, body: { data: [{ id: "p" }] } };
    return { status: 207, body: { successes: [], errors: [] }, delay: r.pick([0, 10]) };
  };
  const pool = r.list(r.int(1, 3), (i) => ({ input: "in" + i, id: "item" + i, datasetId: "ds" }));
  const runs: any[] = [];
  const one = async (name: string) => {
    const data = r.list(r.int(1, 4), () => r.pick(pool));
    const execs: any[] = [];
    const res: any = await client.experiment.run({ name: "e", runName: name, data, maxConcurrency: r.pick([1, 2, 50]), task: async (item: any) => { const s = startObservation("t"); execs.push({ item, span: s.otelSpan }); await new Promise((x) => setTimeout(x, r.pick([0, 1, 7]))); s.end(); return "o"; }, evaluators: [async () => ({ name: "s", value: 1 })], runEvaluators: [async () => ({ name: "r", value: 2 })] } as any);
    runs.push({ name, data, execs, res });
  };
  const names = r.list(r.int(2, 4), () => r.pick(["run A", "run A", "run B"]));
  const d: any = await sim.drive(r.bool(0.5) ? Promise.all(names.map(one)) : (async () => { for (const n of names) await one(n); })());
  o.check(d.status === "fulfilled", "experiment-rejects", () => show(d));
  await sim.drive(t.processor.forceFlush());
  const sent = sim.fetches.filter((q) => q.path === "/api/public/ingestion").flatMap((q) => q.json.batch.map((e: any) => e.body));
  o.equal(links.length, runs.reduce((a, x) => a + x.data.length, 0), "linked-once", "link requests against executions");
  for (const x of runs) {
    o.equal(x.res.datasetRunId, "run of " + x.name, "run-id");
    x.res.itemResults.forEach((ir: any, i: number) => {
      const l = links.filter((y) => y.traceId === ir.traceId);
      o.check(l.length === 1 && l[0].datasetItemId === x.data[i].id && l[0].runName === x.name, "linked-once", () => `execution of ${x.data[i].id} in ${x.name}: ${show(l)}`);
      o.equal(sent.filter((b: any) => b.traceId === ir.traceId && b.observationId === l[0].observationId).length, 1, "score-count");
      for (const s of t.exporter.spans.filter((y: any) => y.span.spanContext().traceId === ir.traceId)) o.equal([s.attributes[X + "id"], s.attributes[X + "name"], s.attributes[X + "item.id"], s.attributes[X + "item.root_observation_id"]], ["run of " + x.name, x.name, x.data[i].id, l[0].observationId], "identifier", `span ${s.name} in ${x.name}`);
      o.count("repeated-executions");
    });
  }
  o.equal(sent.filter((b: any) => b.datasetRunId).map((b: any) => b.datasetRunId).sort(), runs.map((x) => "run of " + x.name).sort(), "run-scores");
  o.seen(names.join() + runs.map((x) => x.data.map((y: any) => y.id).join()).join("|"));
}
defineCheck("C21", {
  rule: "A case is a random experiment (as for C20) whose tasks create nested observations with awaits in between; the monitor matches every ingestion event, link request and exported span with the item whose execution produced it. Distinct by counts and completion order.",
  required: ["item-scores", "run-scores", "links", "link-failures", "spans", "failed-executions", "concurrent-cases", "repeated-executions"],
  assumptions: ["the ingestion endpoint accepts the scores (losses there are the subject of C01/C02)"],
}, [{ name: "experiments", quick: 600, run }, { name: "again", quick: 200, run: again }]);
