import { setEnv, makeTracing, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { runExperiment, runnable, successes, evalsOf, marked } from "../lib/exprun";

const UNJSON = Symbol("not serialisable");
const json = (v: any) => { try { return JSON.stringify(v); } catch { return UNJSON; } };
async function run(r: Rng, o: Obs) {
  const rec = await runExperiment(r, o, { faults: true });
  const res = rec.d.value;
  // task invocations
  for (const it of rec.items) {
    const calls = rec.calls.filter((c) => c.idx === it.idx);
    if (runnable(it)) { o.check(calls.length === 1 && calls[0].arg === it.item, "task-once", () => `task called ${calls.length} times for item ${it.idx}`); o.count("tasks"); }
    else o.check(calls.length === 0, "task-without-input");
  }
  o.check(rec.calls.every((c) => c.idx >= 0), "foreign-item");
  o.check(rec.maxActive <= rec.limit, "concurrency", () => `${rec.maxActive} items in progress, limit ${rec.limit}`);
  // results
  const ok = successes(rec);
  o.check(Array.isArray(res.itemResults) && deepEqual(res.itemResults.map((x: any) => rec.items.findIndex((i) => i.item === x.item)), ok.map((x) => x.idx)), "result-order", () => `expected items ${ok.map((x) => x.idx)} got ${res.itemResults?.map((x: any) => rec.items.findIndex((i) => i.item === x.item))}`);
  ok.forEach((it, k) => {
    const x = res.itemResults[k], call = rec.calls.find((c) => c.idx === it.idx)!;
    o.check(Object.is(x.output, call.outcome), "output", () => `item ${it.idx}: ${show(x.output)}`);
    o.check(deepEqual(x.evaluations, evalsOf(it)), "evaluations", () => `item ${it.idx}: expected ${show(evalsOf(it))} got ${show(x.evaluations)}`);
    it.evals.forEach((_, e) => {
      const ecs = rec.evalCalls.filter((c) => c.idx === it.idx && c.e === e);
      o.check(ecs.length === 1, "evaluator-once", () => `evaluator ${e} called ${ecs.length} times for item ${it.idx}`);
      const p = ecs[0].params;
      o.check(deepEqual([p.input, p.expectedOutput, p.metadata], [it.item.input, it.item.expectedOutput, it.item.metadata]), "evaluator-params", () => show(p));
      o.count("evaluations"); if (_.fail) o.count("evaluator-failures");
    });
    if (it.evals.length > 1) o.count("multi");
  });
  o.check(rec.evalCalls.every((c) => ok.some((x) => x.idx === c.idx)), "evaluator-foreign");
  o.count("task-failures", rec.items.filter((x) => x.taskFails).length);
  // run level
  const wantRun = rec.runEvals.flatMap((p) => (p.fail ? [] : Array.isArray(p.result) ? p.result : [p.result]));
  o.equal(res.runEvaluations, wantRun, "run-evaluations");
  o.equal(rec.runEvalParams.length, rec.runEvals.length, "run-evaluator-once");
  for (const p of rec.runEvalParams) o.check(deepEqual(p.itemResults, res.itemResults), "run-evaluator-params");
  o.count("run-evaluator-failures", rec.runEvals.filter((p) => p.fail).length);
  // identity of the run
  if (rec.config.runName) o.equal(res.runName, rec.config.runName, "run-name"); else o.check(res.runName.startsWith(rec.config.name + " - "), "run-name", res.runName);
  const linked = ok.filter((x) => x.item.id && !rec.linkFail.has(x.idx));
  o.equal(res.datasetRunId, linked.length ? "run-1" : undefined, "run-id");
  if (rec.items[0]?.item.datasetId && linked.length && !rec.projectsFail) o.equal(res.datasetRunUrl, "http://langfuse.test:3000/project/proj/datasets/ds-1/runs/run-1", "run-url");
  // formatting
  if (!rec.projectsFail) {
    const brief = await sim.drive(res.format()), full = await sim.drive(res.format({ includeItemResults: true }));
    o.check(brief.status === "fulfilled" && full.status === "fulfilled", "format-fails", () => show([brief, full]));
    const text: string = (full as any).value, short: string = (brief as any).value;
    if (ok.length) {
      o.check(!/out<|in</.test(short), "format-brief", short);
      const sections = text.split(/Item \d+:/).slice(1);
      o.equal(sections.length, ok.length, "format-sections");
      ok.forEach((it, k) => {
        const s = k === ok.length - 1 ? sections[k].split("─")[0] : sections[k];
        for (const [what, re] of [["input", /in<(\d+)>/g], ["expected output", /exp<(\d+)>/g], ["output", /out<(\d+)>/g], ["score comment", /c<(\d+)>/g], ["dataset item", /item<(\d+)>/g]] as const) {
          const found = [...s.matchAll(re)].map((m) => Number(m[1]));
          o.check(found.every((f) => f === it.idx), "format-attribution", () => `section of item ${it.idx} shows the ${what} of item ${found}: ${s}`);
        }
        o.check((!marked(res.itemResults[k].output) || s.includes(`out<${it.idx}>`)) && (!marked(it.item.input) || s.includes(`in<${it.idx}>`)), "format-missing", () => `section of item ${it.idx}: ${s}`);
        for (const e of evalsOf(it)) o.check(s.includes(e.name) && s.includes(typeof e.value === "number" ? e.value.toFixed(3) : e.value), "format-scores", () => `${show(e)} missing in ${s}`);
        o.check(s.includes(res.itemResults[k].traceId), "format-trace");
        const shown = (v: any) => (typeof v === "string" ? (v.length > 50 ? v.slice(0, 47) + "..." : v) : json(v));
        const line = (label: string, v: any) => o.check(s.split("\n").some((l) => l.trim().startsWith(label) && (shown(v) === UNJSON || l.includes(String(shown(v))))), "format-value", () => `${label} ${show(v)} of item ${it.idx}: ${s}`);
        line("Input", it.item.input); line("Expected", it.item.expectedOutput ?? null); line("Actual", res.itemResults[k].output);
        for (const e of evalsOf(it)) if (e.comment) o.check(s.includes(e.comment), "format-comment", () => `${show(e)} missing in ${s}`);
        o.check(s.includes(`http://langfuse.test:3000/project/proj/traces/${res.itemResults[k].traceId}`), "format-trace", s);
        o.equal(s.includes(`/project/proj/datasets/${it.item.datasetId}/items/${it.item.id}`), !!it.item.id, "format-item-url", s);
        o.equal(/\/datasets\//.test(s), !!it.item.id, "format-item-url", s);
        if ([it.item.input, it.item.expectedOutput].some((v) => typeof v === "string" && v.length > 50)) o.count("formatted-long");
      });
      const overview = (f: string) => f.slice(f.lastIndexOf("─") + 1);
      o.equal(overview(short), overview(text), "format-overview");
      const ov = overview(text);
      for (const want of [rec.config.name, res.runName, rec.config.description, `${ok.length} items`, res.datasetRunUrl, ...wantRun.map((e: any) => e.comment), ...ok.flatMap(evalsOf).map((e: any) => `• ${e.name}`)]) if (want) o.check(ov.includes(want), "format-overview", () => `${want} missing in ${ov}`);
      if (!res.datasetRunUrl) o.check(!/https?:|undefined/.test(ov), "format-overview", ov);
      if (!rec.config.description) o.check(!/undefined/.test(ov), "format-overview", ov);
      const names = new Set(ok.flatMap(evalsOf).map((e) => e.name));
      for (const f of [text, short]) {
        for (const nme of names) { const v = ok.flatMap(evalsOf).filter((e) => e.name === nme && typeof e.value === "number").map((e) => e.value); if (v.length) o.check(f.slice(f.indexOf("Average")).includes(`${nme}: ${(v.reduce((a, b) => a + b, 0) / v.length).toFixed(3)}`), "format-average", () => `${nme} ${v}: ${f}`); }
        for (const e of wantRun) o.check(f.includes(`${e.name}: ${e.value.toFixed(3)}`), "format-run-evaluation");
      }
    }
    else for (const f of [text, short]) o.check(typeof f === "string" && f.length > 0 && !/Average|Item \d|undefined/.test(f), "format-empty", () => show(f));
    o.count("formatted");
  }
  if (rec.maxActive > 1) o.count("concurrent-cases");
  if (rec.maxActive === rec.limit) o.count("limit-reached");
  o.note = { items: rec.items.length, ok: ok.length, limit: rec.limit, peak: rec.maxActive };
  o.seen(`${rec.items.length}:${rec.limit}:${rec.maxActive}:${ok.length}:${rec.evalCalls.length}:` + rec.calls.map((c) => c.idx).join() + ":" + rec.calls.slice().sort((a, b) => a.endEv! - b.endEv!).map((c) => c.idx).join());
}
/** The same item object several times in the data: every entry is an execution of its own. */
async function repeats(r: Rng, o: Obs) {
  setEnv({});
  makeTracing({ mediaUploadEnabled: false });
  const client = new LangfuseClient(KEYS);
  sim.onFetch = (q) => q.path === "/api/public/dataset-run-items" ? { status: 200, body: { id: "x", datasetRunId: "run" }, delay: r.pick([0, 5]) } : q.path === "/api/public/projects" ? { status: 200, body: { data: [{ id: "p" }] } } : { status: 207, body: { successes: [], errors: [] } };
  const pool = r.list(r.int(1, 3), (i) => ({ input: r.bool(0.3) ? "same" : i, ...(r.bool() ? { id: "i" + r.int(0, i), datasetId: "d" } : {}) }));
  const data: any[] = r.list(r.int(2, 10), () => r.pick(pool));
  let n = 0, active = 0, peak = 0;
  const args: any[] = [], outs: any[] = [], limit = r.pick([1, 2, 3, 50]);
  const d: any = await sim.drive(client.experiment.run({ name: "e", data, maxConcurrency: limit, task: async (item: any) => {
    peak = Math.max(peak, ++active); const k = n++; args.push(item);
    const w = r.pick([0, 1, 5, 20]); if (w) await new Promise((x) => setTimeout(x, w));
    active--; const out = { k, item }; outs.push(out); return out;
  }, evaluators: [async ({ output }: any) => ({ name: "k", value: output.k })] } as any));
  o.check(d.status === "fulfilled", "experiment-rejects", () => show(d));
  o.check(args.length === data.length && data.every((x) => args.filter((a) => a === x).length === data.filter((a) => a === x).length), "task-once", () => `${args.length} task calls for ${data.length} entries`);
  const res = d.value.itemResults;
  o.check(res.length === data.length && res.every((x: any, i: number) => x.item === data[i]), "result-order", () => `${res.length} results for ${data.length} entries`);
  o.equal(new Set(res.map((x: any) => x.output)).size, data.length, "output-shared");
  o.equal(new Set(res.map((x: any) => x.traceId)).size, data.length, "trace-shared");
  for (const x of res) { o.check(x.output.item === x.item, "output", () => show(x)); o.equal(x.evaluations, [{ name: "k", value: x.output.k }], "evaluations"); }
  o.check(peak <= limit, "concurrency");
  o.count("repeats"); o.seen(`${data.map((x) => pool.indexOf(x)).join("")}:${limit}:${outs.map((x) => x.k).join()}`);
}
defineCheck("C20", {
  rule: "A case is a random experiment: 0-70 items (local, dataset or mixed), random concurrency limit, task and evaluator latencies and failures (synchronous throws, rejections with anything), failing link and URL requests. Distinct by counts, start order and completion order.",
  required: ["tasks", "evaluations", "evaluator-failures", "task-failures", "run-evaluator-failures", "formatted", "formatted-long", "concurrent-cases", "limit-reached", "repeats"],
  assumptions: ["item inputs and metadata are JSON values; items without an input are skipped by contract; maxConcurrency is a positive integer; evaluators return promises or throw"],
}, [{ name: "experiments", quick: 700, run }, { name: "repeats", quick: 150, run: repeats }]);
