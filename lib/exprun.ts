// Runs one random experiment against a scripted server and records everything observable.
import { sim, Rng, Obs, show } from "./check";
import { setEnv, makeTracing, KEYS, idOf } from "./env";
import { LangfuseClient } from "@langfuse/client";
import { startObservation, startActiveObservation, observe } from "@langfuse/tracing";

export type Item = { idx: number; item: any; taskFails: boolean; evals: ({ fail?: boolean; sync?: boolean; result?: any })[]; delay: () => number };
export type Rec = {
  client: LangfuseClient; exporter: any; processor: any; items: Item[]; config: any; d: any; resolvedEv?: number; linkFail: Set<number>;
  calls: { idx: number; arg: any; startEv: number; endEv?: number; spans: string[]; outcome?: any; rootId?: string; traceId?: string }[];
  evalCalls: { idx: number; e: number; params: any; ev: number; doneEv?: number }[]; runEvals: any[]; runEvalParams: any[]; maxActive: number; limit: number; projectsFail: boolean; links: any[]; dataset: boolean;
};

/** Whether a value carries the number of its item, so that it can be told from those of other items. */
export const marked = (v: any) => { try { return /(in|out)<\d+>/.test(JSON.stringify(v) ?? ""); } catch { return false; } };
export async function runExperiment(r: Rng, o: Obs, opts: { faults: boolean }): Promise<Rec> {
  setEnv({});
  const t = makeTracing({ mediaUploadEnabled: false });
  const client = new LangfuseClient(KEYS);
  const n = r.weighted<number>([[1, 0], [2, 1], [6, r.int(2, 8)], [2, r.int(9, 25)], [0.4, r.int(51, 70)]]);
  const dataset = r.bool(0.55), mixed = r.bool(0.1);
  const wait = (ms: number) => (ms > 0 ? new Promise((x) => setTimeout(x, ms)) : Promise.resolve());
  const nEval = r.weighted<number>([[4, r.int(0, 3)], [1, r.int(4, 7)]]), nRun = r.int(0, 3), evalFails = r.weighted<number>([[5, 1.2], [1, 20]]), slow = r.bool(0.08);
  const dl = () => (slow && r.bool(0.1) ? r.pick([45_000, 400_000, 7_200_000]) : r.pick([0, 0, 0, 1, 3, 10, 50, 200]));
  const items: Item[] = r.list(n, (idx) => {
    const ds = mixed ? r.bool() : dataset;
    const item: any = { ...(r.bool(0.04) ? {} : { input: r.bool(0.08) ? r.pick<any>(["", 0, null, false, [], {}]) : r.pick<any>([`in<${idx}>`, { q: `in<${idx}>` }, [`in<${idx}>`], { q: `in<${idx}>`, big: r.text(30) }, `in<${idx}> ` + "w".repeat(r.pick([30, 43, 44, 45, 46, 200]))]) }) };
    if (r.bool(0.7)) item.expectedOutput = r.bool(0.1) ? r.pick<any>([0, false, null, [], {}, ""]) : r.pick<any>([`exp<${idx}>`, { a: `exp<${idx}>` }, `exp<${idx}> ` + "w".repeat(r.int(40, 46))]);
    if (r.bool(0.5)) item.metadata = { tag: `meta<${idx}>`, ...(r.bool(0.3) ? { m: "of item", deep: { a: [1] } } : {}), ...(r.bool(0.2) ? { experiment_name: "own" } : {}) };
    if (ds) Object.assign(item, { id: `item<${idx}>`, datasetId: "ds-1", datasetName: "d" });
    return {
      idx, item, taskFails: r.bool(0.15), delay: dl,
      evals: r.list(nEval, (e) => r.weighted<any>([[evalFails, { fail: true, sync: r.bool() }], [4, { result: { name: `e${e}`, value: idx + e / 10, comment: `c<${idx}>.${e}` } }], [0.6, { result: { name: `e${e}`, value: r.pick<any>([0, -1, 1e6, "", false]), ...(r.bool() ? { comment: "" } : {}), ...(r.bool() ? { metadata: { why: `c<${idx}>.m` } } : {}) } }], [0.2, { result: r.list(r.int(9, 40), (k) => ({ name: `e${e}.${k}`, value: idx + k })) }], [1, { result: [{ name: `e${e}a`, value: idx }, { name: `e${e}b`, value: `cat${idx}`, dataType: r.pick(["CATEGORICAL", "TEXT"]) }, ...(r.bool(0.3) ? [{ name: `e${e}c`, value: r.pick([0, 1]), dataType: r.pick(["BOOLEAN", "NUMERIC"]) }] : [])] }], [0.7, { result: [{ name: "same", value: idx }, { name: "same", value: r.pick([idx, 0]), comment: `c<${idx}>.s${e}` }] }], [0.5, { result: [] }]])),
    };
  });
  const rec: Rec = { client, exporter: t.exporter, processor: t.processor, items, config: undefined, d: undefined, linkFail: new Set(), calls: [], evalCalls: [], runEvals: [], runEvalParams: [], maxActive: 0, limit: 50, projectsFail: opts.faults && r.bool(0.15), links: [], dataset };
  sim.onFetch = (q) => {
    if (q.path === "/api/public/ingestion") return { status: 207, body: { successes: [], errors: [] }, delay: r.pick([0, 0, 5, 100, 900]) };
    if (q.path === "/api/public/projects") return rec.projectsFail ? r.pick<any>([{ status: 403, body: {} }, { error: new TypeError("fetch failed") }, { status: 200, body: { data: [] } }]) : { status: 200, body: { data: [{ id: "proj" }] }, delay: r.pick([0, 20]) };
    if (q.path === "/api/public/dataset-run-items") {
      const idx = Number(/\d+/.exec(q.json.datasetItemId)![0]);
      if (opts.faults && r.bool(0.12)) { rec.linkFail.add(idx); rec.links.push({ idx, q, failed: true }); return r.pick<any>([{ status: 400, body: {} }, { error: new TypeError("fetch failed") }, { status: 404, body: "x" }]); }
      if (opts.faults && r.bool(0.05)) { rec.linkFail.add(idx); rec.links.push({ idx, q, failed: true, transient: true }); return { status: 503, body: {} }; }
      rec.linkFail.delete(idx); rec.links.push({ idx, q, failed: false });
      return { status: 200, body: { id: "ri" + idx, datasetRunId: "run-1", datasetRunName: q.json.runName, datasetItemId: q.json.datasetItemId, traceId: q.json.traceId, createdAt: "x", updatedAt: "x" }, delay: r.pick([0, 0, 2, 30]) };
    }
    return { status: 404, body: {} };
  };
  const active = new Map<number, number>(); // item -> outstanding user callbacks
  const mark = () => { rec.maxActive = Math.max(rec.maxActive, [...active.values()].filter((x) => x > 0).length); };
  const task = async (item: any) => {
    const idx = items.findIndex((x) => x.item === item), it = items[idx];
    const call: any = { idx, arg: item, startEv: sim.tick(), spans: [] };
    rec.calls.push(call);
    active.set(idx, (active.get(idx) ?? 0) + 1); mark();
    try {
      const mk = (name: string) => { const s = startObservation(name); call.spans.push(idOf(s.otelSpan)); return s; };
      const s1 = mk(`t${idx}.a`);
      if (r.bool(0.7)) await wait(it.delay());
      s1.end();
      if (r.bool(0.5)) await startActiveObservation(`t${idx}.b`, async (s) => { call.spans.push(idOf(s.otelSpan)); if (r.bool()) await wait(it.delay()); const c = mk(`t${idx}.c`); await wait(it.delay()); c.end(); });
      if (r.bool(0.3)) await observe(async () => { await wait(it.delay()); mk(`t${idx}.d`).end(); }, { name: `t${idx}.o` })();
      if (it.taskFails) throw r.pick<any>([new Error(`task<${idx}>`), "string failure", undefined, { code: 1 }, null, Object.create(null), { toString() { throw new Error("unprintable"); } }, Symbol("s")]);
      call.outcome = marked(it.item.input) && r.bool(0.1) ? r.pick<any>([undefined, null, "", 0, false, 10n, cyclic(), { big: [10n] }, { toJSON() { throw new Error("no json"); } }]) : r.pick<any>([`out<${idx}>`, { o: `out<${idx}>` }, [`out<${idx}>`]]);
      return call.outcome;
    } finally { call.endEv = sim.tick(); if (!nEval || it.taskFails) active.set(idx, 0); }
  };
  const evaluators = Array.from({ length: nEval }, (_, e) => (params: any) => {
    const idx = (marked(params.output) ? rec.calls.find((c) => Object.is(c.outcome, params.output))?.idx : items.find((x) => marked(params.input) && Object.is(x.item.input, params.input))?.idx) ?? -1;
    const ec: any = { idx, e, params, ev: sim.tick() };
    rec.evalCalls.push(ec); mark();
    const sc = items[idx]?.evals[e];
    const left = () => { if (rec.evalCalls.filter((x) => x.idx === idx && x.doneEv).length === nEval) active.set(idx, 0); };
    if (sc?.fail && sc.sync) { ec.doneEv = sim.tick(); left(); throw new Error(`eval<${idx}>`); }
    return (async () => { await wait(items[idx]?.delay() ?? 0); ec.doneEv = sim.tick(); left(); if (sc?.fail) throw r.pick<any>([new Error(`eval<${idx}>`), "x", undefined]); return sc?.result; })();
  });
  const runEvaluators = Array.from({ length: nRun }, (_, e) => {
    const plan = r.weighted<any>([[1, { fail: true, sync: r.bool() }], [3, { result: { name: `r${e}`, value: e + 0.5, comment: "rc" } }], [1, { result: { name: `r${e}`, value: r.pick([0, -2.5]), ...(r.bool() ? { comment: "" } : {}), ...(r.bool() ? { metadata: { a: [e] } } : {}) } }], [0.3, { result: r.list(r.int(9, 30), (k) => ({ name: `r${e}.${k}`, value: k })) }], [1, { result: [{ name: `r${e}a`, value: 1 }, { name: `r${e}b`, value: 2 }] }], [0.5, { result: [{ name: "same", value: 1 }, { name: "same", value: r.pick([1, 2]) }] }]]);
    rec.runEvals.push(plan);
    return (p: any) => { rec.runEvalParams.push(p); if (plan.fail && plan.sync) throw new Error("run eval"); return (async () => { await wait(dl()); if (plan.fail) throw new Error("run eval"); return plan.result; })(); };
  });
  const max = r.pick<any>([undefined, 1, 2, 3, 5, 10, 100]);
  rec.limit = max ?? 50;
  rec.config = { name: "exp" + r.plain(), ...(r.bool() ? { runName: "run " + r.plain() + (r.bool(0.1) ? "n".repeat(r.pick([80, 110, 150])) : "") } : {}), ...(r.bool() ? { description: r.weighted<string>([[4, "desc"], [1, ""], [0.5, "long ".repeat(50)]]) } : {}), ...(r.bool() ? { metadata: { m: "em", ...(r.bool(0.3) ? { dataset_id: "mine" } : {}) } } : {}), data: items.map((x) => x.item), task, ...(nEval || r.bool() ? { evaluators } : {}), ...(nRun || r.bool() ? { runEvaluators } : {}), ...(max ? { maxConcurrency: max } : {}), ...(r.bool(0.2) ? { datasetVersion: "2026-01-01T00:00:00Z" } : {}) };
  const before = JSON.stringify(rec.config.data);
  const p = client.experiment.run(rec.config);
  p.then(() => { rec.resolvedEv = sim.tick(); }, () => {});
  rec.d = await sim.drive(p, 40 * 24 * 3_600_000);
  o.check(rec.d.status === "fulfilled", rec.d.status === "pending" ? "never-settles" : "experiment-rejects", () => `${show(rec.d)} projectsFail=${rec.projectsFail}`);
  o.equal(JSON.stringify(rec.config.data), before, "data-mutated");
  return rec;
}
function cyclic() { const c: any = { a: 1 }; c.self = c; return c; }
export const runnable = (x: Item) => x.item.input !== undefined;
export const successes = (rec: Rec) => rec.items.filter((x) => runnable(x) && !x.taskFails);
export const evalsOf = (x: Item) => x.evals.flatMap((e) => (e.fail ? [] : Array.isArray(e.result) ? e.result : [e.result]));
