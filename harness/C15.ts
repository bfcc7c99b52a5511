import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing, idOf, parentOf } from "../lib/env";
import { trace, context } from "@opentelemetry/api";
import { startObservation, startActiveObservation, observe } from "@langfuse/tracing";

const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"];
const nullProto = () => Object.assign(Object.create(null), { code: 1 });
class Odd extends Error { constructor() { super("odd"); this.name = "Odd"; } }
class Sub<T> extends Promise<T> {}
function* gen() { yield 1; yield 2; }
/** An object with a then method that is no promise: a query builder, a lazy request. Calling then runs it. */
const lazy = (o: { ran: number }): any => ({ query: "q", then(ok: any) { o.ran++; ok("rows"); }, limit() { return this; } });
const value = (r: Rng): any => r.weighted<() => any>([
  [3, () => r.json(2)], [1, () => 0], [1, () => false], [1, () => ""], [1, () => null], [1, () => undefined], [1, () => NaN], [1, () => "text " + r.text(5)], [1, () => ({ deep: { a: [1, 2, r.plain()] } })],
  [0.7, () => { const c: any = { a: 1 }; c.self = c; return c; }], [0.5, () => 10n], [0.5, () => Symbol("s")], [0.5, () => () => 1], [0.5, () => nullProto()], [0.4, () => new Date(0)], [0.3, () => new Map([[1, 2]])], [0.4, () => gen()], [0.3, () => new Proxy({ p: 1 }, {})],
])();
const error = (r: Rng): any => r.weighted<() => any>([[4, () => new Error("boom " + r.plain())], [1, () => new Error("")], [1, () => new Odd()], [1, () => r.pick([() => new DOMException("stopped", "AbortError"), () => Object.assign(new Error("named"), { name: r.pick(["AbortError", "TimeoutError", "CancelledError"]), code: "ABORT_ERR" }), () => new AggregateError([new Error("a")], "several"), () => new TypeError("tt")])()], [1, () => "string error"], [1, () => undefined], [1, () => null], [1, () => 0], [1, () => ({ message: "obj" })], [1, () => nullProto()], [0.5, () => Symbol("e")], [0.5, () => 5n]])();
const ser = (v: any): any => { if (v === null || v === undefined) return undefined; if (typeof v === "string") return v; try { return JSON.stringify(v); } catch { return "<failed to serialize>"; } };

async function run(r: Rng, o: Obs) {
  setEnv({});
  const ends = new Map<string, number[]>();
  const hook: any = { onStart() {}, onEnd(s: any) { ends.set(idOf(s), [...(ends.get(idOf(s)) ?? []), sim.tick()]); }, async forceFlush() {}, async shutdown() {} };
  const made = makeTracing({}, undefined);
  const { BasicTracerProvider } = require("@opentelemetry/sdk-trace-base");
  const provider = new BasicTracerProvider({ spanProcessors: [hook, made.processor] });
  require("@langfuse/tracing").setLangfuseTracerProvider(provider);
  type Rec = { id: string; span: any; kind: string; type: string; doneEv?: number; failed?: boolean; err?: any; endOnExit: any; parent?: string; input?: any; output?: any; captureIn?: boolean; captureOut?: boolean; ob?: any; name: string; traceId?: string };
  const recs: Rec[] = [];
  let budget = r.int(1, 14), n = 0;
  const shape: string[] = [];
  /** What the caller does next comes after the observation. */
  const endedBy = (rec: Rec, how: string) => { if (rec.type !== "event" && rec.endOnExit !== false) o.check(ends.has(rec.id), "ended-late", () => `${rec.kind}/${rec.type}: the call had ${how} and its observation was still open`); };
  const call = (depth: number, parent?: string): any => {
    budget--;
    const kind = r.pick(["active", "observe"]), type = r.pick(TYPES), style = r.pick(["sync", "async", "delayed", "subclass", "sync"]);
    const fails = r.bool(0.3), err = fails ? error(r) : undefined, ran = { ran: 0 }, val = style === "sync" && !fails && r.bool(0.08) ? lazy(ran) : value(r);
    const endOnExit = r.pick<any>([undefined, undefined, true, false]);
    const name = "f" + n++;
    shape.push(kind[0] + style[0] + (fails ? "!" : "") + (endOnExit === false ? "o" : ""));
    // an explicit parent (of another trace, of this one, or remote) replaces the active one
    const given = r.bool(0.2) ? (r.bool(0.5) && recs.some((x) => x.span) ? r.pick(recs.filter((x) => x.span)).span.spanContext() : { traceId: r.hex(31) + "1", spanId: r.hex(15) + "1", traceFlags: 1, isRemote: r.bool() }) : undefined;
    if (given) o.count("explicit-parents");
    const rec: Rec = { id: "", span: undefined, kind, type, endOnExit, parent: given ? given.spanId : parent, name, traceId: given?.traceId };
    recs.push(rec);
    const kids = () => { const out: any[] = []; while (depth < 4 && budget > 0 && r.bool(0.5)) out.push(call(depth + 1, rec.id)); return out; };
    const plainKid = () => { if (r.bool(0.3)) { const s = startObservation("kid"); o.equal(parentOf(s.otelSpan), rec.id, "child-parent"); s.end(); } };
    const self = { me: 1 };
    const args = kind === "observe" ? r.list(r.int(0, 3), () => value(r)) : [];
    const serArgs = args.length === 0 ? undefined : ser(args.length === 1 ? args[0] : args);
    let seenArgs: any, seenThis: any, hits = 0;
    const fn = function (this: any, ...a: any[]): any {
      hits++;
      seenArgs = a; seenThis = this;
      rec.span = trace.getActiveSpan(); rec.id = idOf(rec.span);
      if (rec.type !== "event") o.check(!ends.has(rec.id), "ended-early", () => "ended before the function ran");
      const finish = () => { rec.doneEv = sim.tick(); if (fails) { rec.failed = true; rec.err = err; throw err; } return val; };
      plainKid();
      if (style === "sync") {
        const ks = kids();
        for (const k of ks) if (k && typeof k.catch === "function") k.catch(() => {});
        return finish();
      }
      const go = async () => { for (const k of kids()) { try { await k; } catch {} } if (style === "delayed") await new Promise((x) => setTimeout(x, r.int(1, 50))); plainKid(); return finish(); };
      if (style === "subclass") return new Sub((res, rej) => go().then(res, rej));
      return go();
    };
    const captureIn = r.pick<any>([undefined, true, false]), captureOut = r.pick<any>([undefined, true, false]);
    rec.captureIn = kind === "observe" && captureIn !== false; rec.captureOut = kind === "observe" && captureOut !== false;
    rec.input = serArgs; rec.output = ser(val);
    let res: any, threw: any, didThrow = false;
    try {
      if (kind === "active") res = startActiveObservation(name, ((ob: any) => { rec.ob = ob; return fn(); }) as any, { asType: type as any, ...(given ? { parentSpanContext: given } : {}), ...(endOnExit === undefined ? {} : { endOnExit }) });
      else res = observe(fn, { name, asType: type as any, ...(given ? { parentSpanContext: given } : {}), ...(captureIn === undefined ? {} : { captureInput: captureIn }), ...(captureOut === undefined ? {} : { captureOutput: captureOut }), ...(endOnExit === undefined ? {} : { endOnExit }) }).apply(self, args);
    } catch (e) { threw = e; didThrow = true; }
    o.equal(hits, 1, "called-once");
    if (kind === "observe") { o.check(seenThis === self, "this-changed"); o.check(seenArgs.length === args.length && args.every((x, i) => x === seenArgs[i] || (x !== x && seenArgs[i] !== seenArgs[i])), "args-changed"); }
    if (style === "sync") {
      if (fails) o.check(didThrow && Object.is(threw, err), "error-changed", () => `${kind}/${type}: threw ${show(err)}, caller saw ${didThrow ? show(threw) : "no error"}`);
      else o.check(!didThrow && Object.is(res, val), "result-changed", () => `${kind}/${type}: returned ${show(val)}, caller saw ${didThrow ? "error " + show(threw) : show(res)}`);
      o.equal(ran.ran, 0, "thenable-run", `${kind}/${type}`); if (val && val.query) o.count("thenables");
      endedBy(rec, "returned");
      o.count("sync-calls");
      return undefined;
    }
    o.check(!didThrow && res && typeof res.then === "function", "not-async", () => `${kind}/${type}: asynchronous function ${didThrow ? "threw " + show(threw) : "returned " + show(res)}`);
    o.count("async-calls");
    const checked = res.then(
      (v: any) => { endedBy(rec, "resolved"); o.check(!fails && Object.is(v, val), "result-changed", () => `${kind}/${type}: resolved ${show(val)}, caller saw ${show(v)}`); },
      (e: any) => { if (e?.constructor?.name === "Violation") throw e; endedBy(rec, "rejected"); o.check(fails && Object.is(e, err), "error-changed", () => `${kind}/${type}: rejected with ${fails ? show(err) : "nothing"}, caller saw ${show(e)}`); });
    pending.push(checked); checked.catch(() => {});
    return checked;
  };
  const pending: Promise<any>[] = [];
  while (budget > 0) call(0, undefined);
  for (let i = 0; i < pending.length; i++) { const d = await sim.drive(pending[i]); if (d.status === "rejected") throw d.reason; o.check(d.status === "fulfilled", "never-settles"); }
  await sim.drain(20_000);
  for (const rec of recs) {
    const e = ends.get(rec.id) ?? [];
    o.equal(parentOf(rec.span), rec.parent, "parent", `${rec.kind} ${rec.name}`);
    o.equal(rec.span.name, rec.name, "name");
    if (rec.traceId) o.equal(rec.span.spanContext().traceId, rec.traceId, "trace-id");
    const a = rec.span.attributes;
    o.equal(a["langfuse.observation.type"], rec.type, "type");
    if (rec.type !== "event") {
      if (rec.endOnExit === false) o.check(e.length === 0, "ended-although-disabled", () => `${rec.kind}`);
      else {
        o.check(e.length === 1, "not-ended-once", () => `${rec.kind}/${rec.type} ended ${e.length} times, failed=${rec.failed}`);
        o.check(e[0] > rec.doneEv!, "ended-early", () => `${rec.kind}/${rec.type} ended before its function had completed`);
      }
      if (rec.failed) {
        o.count("failures");
        if (rec.kind === "active") {
          o.equal(rec.span.status.code, 2, "error-status");
          if (rec.err instanceof Error) o.equal(rec.span.status.message, rec.err.message, "error-message");
        } else {
          o.equal(a["langfuse.observation.level"], "ERROR", "error-level");
          const m = a["langfuse.observation.status_message"];
          o.check(typeof m === "string" && m.length > 0, "error-message", () => show(m));
          if (rec.err instanceof Error && rec.err.message) o.equal(m, rec.err.message, "error-message");
          if (typeof rec.err === "string") o.equal(m, rec.err, "error-message");
        }
      } else {
        o.check(rec.span.status.code !== 2 && a["langfuse.observation.level"] !== "ERROR", "error-invented");
      }
      if (rec.kind === "observe") {
        const wantIn = rec.captureIn ? rec.input : undefined;
        o.check(a["langfuse.observation.input"] === wantIn, rec.captureIn ? "input-not-captured" : "input-captured", () => `expected ${show(wantIn)} got ${show(a["langfuse.observation.input"])}`);
        if (!rec.failed) { const wantOut = rec.captureOut ? rec.output : undefined; o.check(a["langfuse.observation.output"] === wantOut, rec.captureOut ? "output-not-captured" : "output-captured", () => `expected ${show(wantOut)} got ${show(a["langfuse.observation.output"])}`); }
        else if (!rec.captureOut) o.check(a["langfuse.observation.output"] === undefined, "output-captured");
      }
    }
  }
  o.count("observations", recs.length);
  o.note = { shape: shape.join(" ") };
  o.seen(shape.join(" ") + recs.map((x) => x.type[0]).join(""));
}

defineCheck("C15", {
  rule: "A case is a random program of nested and concurrent wrapped functions (startActiveObservation, observe) over all observation types, synchronous, asynchronous, delayed and with Promise subclasses, returning and throwing arbitrary values. Distinct by operation string.",
  required: ["explicit-parents", "thenables", "sync-calls", "async-calls", "failures", "observations"],
  assumptions: ["asynchronous functions return Promise instances", "events end at their timestamp by definition"],
}, [{ name: "programs", quick: 1500, run }]);
