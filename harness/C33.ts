import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, KEYS } from "../lib/env";
import { LangfuseClient, RunnerContext, RegressionError, createEvaluatorFromAutoevals } from "@langfuse/client";

const meta = (r: Rng) => r.weighted<any>([[2, undefined], [1, {}], [4, Object.fromEntries(r.list(r.int(1, 4), () => [r.pick(["a", "b", "c", "commit", "__x"]), r.pick<any>([1, "s", null, { n: 1 }, [1], false, undefined])]))]]);
const dataset = (r: Rng, tag: string) => r.list(r.int(0, 4), (i) => ({ input: `${tag}${i}`, expectedOutput: r.bool() ? `exp ${tag}${i}` : undefined, metadata: r.bool() ? { i } : undefined }));

async function resolve(r: Rng, o: Obs) {
  setEnv({});
  makeTracing({ mediaUploadEnabled: false });
  sim.onFetch = () => ({ status: 207, body: { successes: [], errors: [] } });
  const client = new LangfuseClient(KEYS);
  const stub = r.bool(0.5);
  const seen: any[] = [];
  const own = { token: r.plain() } as any, boom = new Error("run failed");
  const fails = stub && r.bool(0.2);
  const realRun = client.experiment.run.bind(client.experiment);
  let realResult: any;
  (client as any).experiment.run = async (p: any) => { seen.push(p); if (stub) { await new Promise((x) => setTimeout(x, 5)); if (fails) throw boom; return own; } return (realResult = await realRun(p)); };
  const ctxOpts: any = { client };
  if (r.bool(0.6)) ctxOpts.data = dataset(r, "ctx");
  if (r.bool(0.5)) ctxOpts.datasetVersion = r.pick(["2024-01-01T00:00:00Z", "v1", ""]);
  const cm = meta(r); if (cm !== undefined || r.bool()) ctxOpts.metadata = cm;
  const snapshot = JSON.stringify({ ...ctxOpts, client: 0 });
  const ctx = new RunnerContext(ctxOpts);
  o.check(ctx.client === client && ctx.data === ctxOpts.data && ctx.metadata === ctxOpts.metadata && ctx.datasetVersion === ctxOpts.datasetVersion, "context-fields");
  const ran: any[] = [];
  const calls = r.int(1, 3);
  for (let c = 0; c < calls; c++) {
    seen.length = 0; ran.length = 0; realResult = undefined;
    const params: any = { name: "exp" + c, task: async (x: any) => { ran.push(x.input); return "out:" + x.input; } };
    if (r.bool(0.4)) params.data = dataset(r, "call" + c);
    else if (r.bool(0.2)) params.data = undefined;
    if (r.bool(0.3)) params.datasetVersion = r.pick(["v2", "2025", ""]);
    const pm = meta(r); if (pm !== undefined || r.bool()) params.metadata = pm;
    if (r.bool(0.5)) params.description = r.pick(["d" + c, "d" + c, ""]);
    if (r.bool(0.5)) params.runName = "run" + c;
    if (r.bool(0.5)) params.maxConcurrency = r.int(1, 4);
    if (r.bool(0.5)) params.evaluators = [async ({ output }: any) => ({ name: "e", value: String(output).length })];
    if (r.bool(0.5)) params.runEvaluators = [async () => ({ name: "avg", value: 1 })];
    const given = { ...params };
    const d: any = await sim.drive(ctx.runExperiment(params));
    o.equal(Object.keys(params), Object.keys(given), "params-untouched");
    const data = given.data ?? ctxOpts.data;
    if (data === undefined) {
      o.check(d.status === "rejected" && d.reason instanceof Error, "missing-data", () => show(d));
      o.equal([seen.length, ran.length, sim.fetches.length > 0 && c === 0], [0, 0, false], "missing-data", "something ran");
      o.count("missing-data");
      continue;
    }
    o.equal(seen.length, 1, "runs-once");
    const p = seen[0];
    o.check(p.data === data, "data", () => show(p.data));
    o.equal(p.datasetVersion, given.datasetVersion ?? ctxOpts.datasetVersion, "dataset-version");
    const m = cm === undefined && given.metadata === undefined ? undefined : { ...(cm ?? {}), ...(given.metadata ?? {}) };
    o.equal(p.metadata, m, "metadata");
    for (const k of Object.keys(given)) if (!["data", "datasetVersion", "metadata"].includes(k)) o.check(p[k] === given[k], "options", () => `option ${k}`);
    for (const k of Object.keys(p)) if (p[k] !== undefined && !["data", "datasetVersion", "metadata"].includes(k)) o.check(k in given, "options", () => `option ${k} was not given`);
    if (fails) o.check(d.status === "rejected" && d.reason === boom, "error", () => show(d));
    else {
      o.equal(d.status, "fulfilled", "result", show(d));
      o.check(d.value === (stub ? own : realResult), "result", "not the experiment's own result");
      if (!stub) {
        o.equal([...ran].sort(), data.map((x: any) => x.input).sort(), "items");
        o.equal(d.value.itemResults.map((x: any) => x.output), data.map((x: any) => "out:" + x.input), "items");
        o.count("real-runs");
      }
    }
    o.count("runs");
  }
  o.equal(JSON.stringify({ ...ctxOpts, client: 0 }), snapshot, "context-untouched");
  o.seen(snapshot + calls);
}

async function regression(r: Rng, o: Obs) {
  const result: any = { itemResults: [], token: r.plain() };
  const opts: any = { result };
  const metric = r.bool(0.6);
  if (metric) { opts.metric = r.pick(["acc", "", "a b`c", r.text(5)]); opts.value = r.pick([0, -1, 0.5, NaN, 1e21, Infinity]); if (r.bool(0.6)) opts.threshold = r.pick([0, 0.9, -3]); else if (r.bool(0.3)) opts.threshold = undefined; }
  else if (r.bool(0.5)) { if (r.bool()) opts.metric = "lonely"; else opts.value = 0.5; } // half of a metric describes nothing
  if (r.bool(0.4)) opts.message = r.pick(["custom", "", r.text(8)]);
  const e = new RegressionError(opts);
  o.check(e instanceof Error && e instanceof RegressionError, "class");
  o.equal(e.name, "RegressionError", "name");
  o.check(e.result === result, "regression-result");
  o.equal([e.metric, e.value, e.threshold], [opts.metric, opts.value, opts.threshold], "regression-fields");
  if (opts.message !== undefined) o.equal(e.message, opts.message, "message");
  else if (metric) { o.check(e.message.includes(opts.metric) && e.message.includes(String(opts.value)), "message", () => e.message); if (opts.threshold !== undefined) o.check(e.message.includes(`threshold ${opts.threshold}`), "message", () => e.message); else o.check(!e.message.includes("threshold"), "message", () => e.message); }
  else o.check(e.message.length > 0 && !/undefined/.test(e.message), "message", () => e.message);
  o.count("regressions");
  o.seen(show({ ...opts, result: 0 }));
}

async function autoevals(r: Rng, o: Obs) {
  const params = r.pick<any>([undefined, {}, { model: "m", choices: [1] }, { input: "wrong", output: "wrong", expected: "wrong", keep: 1 }]);
  const snapshot = JSON.stringify(params);
  const score: any = { name: r.plain(), score: r.pick<any>([0, 1, 0.25, null, undefined, -1, 1.0001, 5, 1e-9]), metadata: r.pick<any>([undefined, { a: 1 }]), extra: 1 };
  const calls: any[] = [];
  const fail = r.bool(0.2), err = new Error("ae");
  const sync = r.bool();
  const ev = createEvaluatorFromAutoevals(((x: any) => { calls.push(x); if (fail) throw err; return sync ? score : new Promise((res) => setTimeout(() => res(score), 3)); }) as any, params);
  for (let k = r.int(1, 3); k > 0; k--) {
    calls.length = 0;
    const input: any = { input: r.json(1), output: r.json(1), expectedOutput: r.pick<any>([undefined, r.json(1)]), metadata: { z: 1 } };
    const d: any = await sim.drive(ev(input));
    o.equal(calls.length, 1, "autoevals-call");
    o.equal({ ...calls[0] }, { ...(params ?? {}), input: input.input, output: input.output, expected: input.expectedOutput }, "autoevals-params");
    if (fail) o.check(d.status === "rejected" && d.reason === err, "autoevals-error", () => show(d));
    else { o.equal(d.status, "fulfilled", "autoevals-result", show(d)); const v: any = d.value; o.equal([v.name, v.value, v.metadata], [score.name, score.score ?? 0, score.metadata], "autoevals-result"); }
  }
  o.equal(JSON.stringify(params), snapshot, "autoevals-params", "mutated");
  o.count("autoevals");
  o.seen(`${snapshot}/${show(score.score)}/${fail}/${sync}`);
}

defineCheck("C33", {
  rule: "a case is non-trivial when a resolution, regression error or adapted evaluator was exercised; distinct by option combination",
  required: ["runs", "real-runs", "missing-data", "regressions", "autoevals"],
}, [
  { name: "resolve", quick: 600, run: resolve },
  { name: "regression", quick: 200, run: regression },
  { name: "autoevals", quick: 200, run: autoevals },
]);
