import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, makeTracing } from "../lib/env";
import { genCall, makeClient, perform, Call } from "../lib/fakeopenai";
import { observeOpenAI } from "@langfuse/openai";

const snapshot = (x: any, depth = 0): any => x && typeof x === "object" && depth < 3 && !(x instanceof Date) ? Object.fromEntries(Reflect.ownKeys(x).map((k) => [String(k), snapshot(x[k], depth + 1)])) : x;
const same = (a: any[], b: any[]) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));

async function run(r: Rng, o: Obs) {
  setEnv({});
  makeTracing({});
  const calls = r.list(r.int(1, 6), (i) => genCall(r, i));
  const runs: any[] = [];
  const config = r.pick<any>([undefined, {}, { generationName: "g", userId: "u", tags: ["t"], sessionId: "s", traceName: "tn", generationMetadata: { a: 1 } }, { langfusePrompt: { name: "p", version: 1, isFallback: false } }]);
  for (const wrapped of [false, true]) {
    const queue = calls.map((c) => ({ ...c, hits: [], returned: 0, pulled: 0 }) as Call);
    const todo = [...queue];
    const client = makeClient((path) => { const i = todo.findIndex((c) => c.path.join(".") === path); return todo.splice(i, 1)[0]; });
    const before = snapshot(client);
    const app = wrapped ? observeOpenAI(client, config) : client;
    const argCopies = queue.map((c) => JSON.stringify([c.args, c.items, c.value]));
    const out = queue.map(() => undefined as any);
    const sequential = r.bool(0.5);
    const d = await sim.drive((async () => { if (sequential) for (let i = 0; i < queue.length; i++) out[i] = await perform(app, queue[i]); else await Promise.all(queue.map(async (c, i) => { out[i] = await perform(app, c); })); })());
    o.check(d.status === "fulfilled", "never-settles", () => show(d));
    if (wrapped) {
      o.check(deepEqual(snapshot(client), before), "client-altered", () => "wrapping or calling changed the client");
      queue.forEach((c, i) => o.equal(JSON.stringify([c.args, c.items, c.value]), argCopies[i], "mutated", "arguments, chunks and result of a call"));
      // members
      for (const k of ["apiKey", "baseURL", "maxRetries", "organization", "project", "flag", "zero"]) o.check(Object.is(app[k], client[k]), "member", () => `${k}: ${show(app[k])}`);
      o.check(app.tags === client.tags && app.created === client.created, "member", () => "array or date member replaced");
      o.equal(app.created.getTime(), 0, "member");
      o.equal(app.computed, "hidden!", "getter");
      o.equal(app.chat.completions.limit, 5, "nested-member");
      o.check(app instanceof client.constructor && "chat" in app && deepEqual(Object.keys(app), Object.keys(client)), "shape");
      o.equal(String(app), String(client), "symbol-member");
      // members stay writable through the wrapper
      for (const k of ["apiKey", "maxRetries", "flag"]) if (r.bool(0.3)) { const v = r.pick<any>(["set-" + r.plain(1, 3), "set-" + r.plain(1, 3), null, undefined, 0, "", false]); app[k] = v; o.check(client[k] === v && app[k] === v, "member-write", () => `${k} = ${v}: the client has ${show(client[k])}, the wrapper shows ${show(app[k])}`); o.count("member-writes"); }
      if (r.bool(0.2)) { app.chat.completions.limit = 9; o.equal([client.chat.completions.limit, app.chat.completions.limit], [9, 9], "member-write"); }
      o.equal(await app.ownMethodUsingPrivate(), "hidden", "private-method");
    }
    runs.push({ queue, out, client });
  }
  const [u, w] = runs;
  calls.forEach((c, i) => {
    const a = u.out[i], b = w.out[i], qa = u.queue[i] as Call, qb = w.queue[i] as Call;
    const what = () => `${c.path.join(".")} (${c.kind}${c.failAt !== undefined ? " fails at " + c.failAt : ""}${c.breakAt !== undefined ? " break at " + c.breakAt : ""}) value ${show(c.value)} items ${show(c.items)}: unwrapped ${show(a)}, wrapped ${show(b)}`;
    o.equal(qb.hits.length, 1, "invoked-once", c.path.join("."));
    const holder = c.path.slice(0, -1).reduce((x: any, p) => x[p], w.client);
    o.check(qb.hits[0].self === holder, "this", what);
    o.check(same(qb.hits[0].args, c.args), "arguments", what);
    for (const k of ["threw", "rejected", "value", "streamError"]) {
      o.check((a[k] === undefined) === (b[k] === undefined), "outcome", what);
      if (a[k]) o.check(Object.is(a[k][0], b[k][0]), "outcome-identity", what);
    }
    o.check(same(a.items, b.items), "stream-items", what);
    o.check(!!a.finished === !!b.finished && !!a.broke === !!b.broke, "stream-end", what);
    o.check((qa.returned > 0) === (qb.returned > 0), "stream-release", () => `consumer stopped early but the underlying stream was ${qb.returned ? "" : "not "}released: ${what()}`);
    o.count("calls-" + c.kind); if (c.failAt !== undefined) o.count("stream-failures"); if (b.broke) o.count("abandoned-streams");
  });
  o.note = { calls: calls.map((c) => c.path.join(".") + ":" + c.kind) };
  o.seen(calls.map((c) => `${c.path.join(".")}:${c.kind}:${c.items?.length ?? ""}:${c.failAt ?? ""}:${c.breakAt ?? ""}`).join(";"));
}

defineCheck("C17", {
  rule: "A case is a random set of sequential or concurrent calls on a scripted OpenAI-like client (values, rejections, throws, streams failing or abandoned at any chunk, all response shapes including empty choices), run once unwrapped and once wrapped; everything the application can see is compared by identity. Distinct by methods, kinds, stream lengths and cut points.",
  required: ["calls-value", "calls-reject", "calls-throw", "calls-stream", "calls-directstream", "calls-sync", "stream-failures", "abandoned-streams", "member-writes"],
  assumptions: ["stream objects are consumed by asynchronous iteration; other members of the SDK's own stream and promise classes are outside the property"],
}, [{ name: "differential", quick: 1500, run }]);
