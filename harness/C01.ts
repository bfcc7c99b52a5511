import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, KEYS, isIngestion, installContextManager } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { configureGlobalLogger } from "@langfuse/core";

installContextManager();

type Created = { uid: string; ev: number; t: number };
type FlushRec = { callEv: number; doneEv?: number; rejected?: any; kind: string };

/** Random history of creations, flushes and clock steps under a faulty ingestion endpoint. */
async function history(r: Rng, o: Obs, profile: { burst: boolean; faults: boolean; slow: boolean }) {
  const flushAt = r.pick([undefined, "1", "2", "3", "5", "10", "50", "100", "150", "250", "600"]);
  const interval = r.pick([undefined, "1", "0.5", "2", "5"]);
  setEnv({ LANGFUSE_FLUSH_AT: flushAt, LANGFUSE_FLUSH_INTERVAL: interval });
  const client = new LangfuseClient(KEYS);
  const created: Created[] = [];
  const flushes: FlushRec[] = [];
  let faultsSeen = 0;
  sim.onFetch = (q) => {
    if (!isIngestion(q)) return { status: 404, body: {} };
    const delay = profile.slow ? r.pick([0, 0, 5, 50, 300, 1200, 2500, 7000]) : r.pick([0, 0, 1, 3]);
    if (profile.faults && r.bool(0.3)) {
      faultsSeen++;
      const k = r.int(0, 5);
      if (k === 0) return { error: new TypeError("fetch failed"), delay };
      if (k === 1) return { status: r.pick([400, 402, 403, 404, 405, 409, 410, 413, 413, 414, 415, 422, 431]), body: { message: "bad" }, delay };
      if (k === 2) return { status: 401, body: "nope", headers: { "content-type": "text/plain" }, delay };
      if (k === 3) return { status: 500, body: { message: "boom" }, delay };
      if (k === 4) { const ids = (q.json?.batch ?? []).map((e: any) => e.id).filter(() => r.bool(0.6)); return { status: 207, body: { successes: [], errors: [...ids, "x"].map((id) => ({ id, status: r.pick([400, 401, 404, 409, 429, 500, 503]), message: "m" })) }, delay }; }
      return { hang: true };
    }
    return { status: 207, body: { successes: [], errors: [] }, delay };
  };
  let n = 0;
  const create = () => {
    const uid = `s${n++}`;
    const ev = sim.tick();
    created.push({ uid, ev, t: sim.now });
    let threw: any;
    try { client.score.create({ name: uid, value: 1, traceId: "t".repeat(32), ...(r.bool(0.3) ? { id: r.bool(0.3) ? "reused" : `id-${uid}` } : {}) } as any); } catch (e) { threw = e; }
    o.check(threw === undefined, "create-throws", () => show(threw));
    o.count("scores");
  };
  /** A score no JSON request can carry: dropped alone, never thrown back and never taking others with it. */
  const bad = () => {
    const c: any = {}; c.self = c;
    let threw: any;
    try { client.score.create({ name: "unserialisable", value: 1, traceId: "t".repeat(32), metadata: r.pick<any>([{ n: 10n }, c, { toJSON() { throw new Error("no json"); } }]) } as any); } catch (e) { threw = e; }
    o.check(threw === undefined, "create-throws", () => `create() of a score with metadata that cannot be serialised threw ${show(threw)}`);
    o.count("unserialisable-scores");
  };
  const hostile = r.bool(0.25);
  const flush = () => {
    const kind = r.pick(["flush", "flush", "score.flush", "shutdown", "score.shutdown"]);
    const rec: FlushRec = { callEv: sim.tick(), kind };
    flushes.push(rec);
    const p: Promise<any> = kind === "flush" ? client.flush() : kind === "score.flush" ? client.score.flush() : kind === "shutdown" ? client.shutdown() : client.score.shutdown();
    p.then(() => { rec.doneEv = sim.tick(); }, (e) => { rec.rejected = e; rec.doneEv = sim.tick(); });
    o.count("flush-calls");
  };
  const steps = r.int(4, 25);
  const shape: string[] = [];
  for (let i = 0; i < steps; i++) {
    const k = r.weighted<string>([[5, "create"], [profile.burst ? 2 : 0.3, "burst"], [2, "flush"], [3, "step"], [1, "wait"], [2, "micro"]]);
    shape.push(k[0]);
    if (hostile && r.bool(0.15)) bad();
    if (k === "create") create();
    else if (k === "burst") { for (let j = r.int(2, profile.burst ? 260 : 30); j > 0; j--) create(); }
    else if (k === "flush") flush();
    else if (k === "step") await sim.advance(r.pick([1, 10, 100, 400, 1000]));
    else if (k === "wait") await sim.advance(r.pick([1500, 3000, 8000]));
    else await sim.settle(r.int(1, 2));
  }
  o.log({ flushAt, interval, shape: shape.join("") });
  o.note = { flushAt, interval, shape: shape.join("") };
  // final barrier: process exit would follow here; or the process just stays alive and the timers do the rest
  const idle = r.bool(0.3);
  if (!idle) flush();
  else o.count("without-final-flush");
  await sim.drain(4_000_000);

  // ---- offline oracle over the recorded log -------------------------------------------------
  // A retried request repeats the same body; group attempts by the identity of the batch.
  const reqs = sim.fetches.filter(isIngestion);
  const batches = new Map<string, { uids: string[]; attempts: typeof reqs }>();
  for (const q of reqs) {
    o.check(Array.isArray(q.json?.batch), "malformed", () => "ingestion body without batch: " + show(q.body));
    const key = q.json.batch.map((e: any) => e.id).join(",");
    const b = batches.get(key) ?? { uids: q.json.batch.map((e: any) => e.body?.name), attempts: [] };
    b.attempts.push(q);
    batches.set(key, b);
  }
  for (const b of batches.values()) b.attempts.forEach((a, i) => { if (i) { const prev = b.attempts[i - 1]; o.check(i <= 2 && [408, 429].includes(prev.status!) || i <= 2 && prev.status! >= 500, "sent-again", () => `scores ${b.uids.slice(0, 3)} were sent again (attempt ${i + 1}) after ${prev.status ?? show(prev.outcome)}`); } });
  const where = new Map<string, string[]>();
  for (const [key, b] of batches) for (const u of b.uids) where.set(u, [...(where.get(u) ?? []), key]);
  for (const u of where.keys()) o.check(created.some((c) => c.uid === u), "invented", () => `event ${u} was never created`);
  for (const c of created) {
    const w = where.get(c.uid) ?? [];
    o.check(w.length !== 0, "lost", () => `score ${c.uid} created at t=${c.t} is in no ingestion request although flush() was called later or the flush interval passed (flushAt=${flushAt}, interval=${interval}, ${shape.join("")})`);
    o.check(w.length === 1, "duplicated", () => `score ${c.uid} is in ${w.length} ingestion requests`);
  }
  for (const f of flushes) {
    o.check(f.doneEv !== undefined, "flush-hangs", () => `${f.kind} never settled`);
    o.check(f.rejected === undefined, "flush-rejects", () => `${f.kind} rejected with ${show(f.rejected)}`);
    for (const c of created) {
      if (c.ev > f.callEv) break;
      const b = batches.get(where.get(c.uid)![0])!;
      const first = b.attempts[0];
      const last = b.attempts[b.attempts.length - 1];
      o.check(first.ev < f.doneEv!, "barrier-not-sent", () => `${f.kind} resolved before score ${c.uid} (created before the call) was sent`);
      // the attempts of that batch that belong to one call are over when flush resolves
      const finished = last.doneEv !== undefined && last.doneEv < f.doneEv!;
      const gaveUp = last.outcome === undefined; // a hanging attempt that was given up on
      o.check(finished || gaveUp, "barrier-in-flight", () => `${f.kind} resolved while the request carrying score ${c.uid} was still in flight`);
      o.count("barrier-pairs");
    }
  }
  const overl = reqs.some((a, i) => reqs.some((b, j) => j > i && b.ev > a.ev && (a.doneEv === undefined || b.ev < a.doneEv)));
  if (overl) o.count("overlapping-requests");
  o.count("requests", reqs.length);
  o.count("faults", faultsSeen);
  if (created.length && flushes.length) o.seen(`${flushAt}/${interval}/${shape.join("")}/${reqs.length}/${overl}/${faultsSeen}`);
}

/** A backlog up to and beyond the bound of the queue: whatever is accepted below the bound is delivered, once. */
async function backlog(r: Rng, o: Obs, index: number) {
  const BOUND = 100_000;
  setEnv({ LANGFUSE_FLUSH_AT: "1000000", LANGFUSE_FLUSH_INTERVAL: "300" });
  const client = new LangfuseClient(KEYS);
  const got = new Int32Array(2 * BOUND);
  sim.onFetch = (q) => { for (const e of q.json?.batch ?? []) got[Number(e.body.name)]++; q.json = undefined; (q as any).body = undefined; return { status: 207, body: { successes: [], errors: [] }, delay: r.pick([0, 5]) }; };
  const n = index === 0 ? BOUND + r.int(1, 2000) : r.pick([11_000, 21_000, 33_000, 51_000, BOUND]);
  for (let i = 0; i < n; i++) client.score.create({ name: String(i), value: 1, traceId: "t" } as any);
  const d = await sim.drive(client.flush());
  o.equal(d.status, "fulfilled", "flush-rejects");
  let lost = 0, twice = 0;
  for (let i = 0; i < Math.min(n, BOUND); i++) { if (got[i] === 0) lost++; if (got[i] > 1) twice++; }
  o.check(lost === 0, "lost", () => `${lost} of the first ${Math.min(n, BOUND)} of ${n} queued scores, all accepted below the bound of the queue, were never sent`);
  o.check(twice === 0, "duplicated", () => `${twice} scores were sent more than once`);
  o.count("backlog-scores", n); o.count(n > BOUND ? "beyond-bound" : "within-bound");
  o.seen(`backlog ${n}`);
}

defineCheck("C01", {
  rule: "A case is a random history of score creations (single and bursts), explicit flush/shutdown calls and clock steps against a scripted ingestion endpoint (slow, failing, hanging); non-trivial when at least one score and one flush occurred; distinct by configuration, operation string, number of requests, overlap and faults.",
  required: ["scores", "requests", "barrier-pairs", "overlapping-requests", "faults", "unserialisable-scores", "backlog-scores", "beyond-bound"],
  assumptions: ["fetch is the only way out of the process", "at most 100,000 scores are queued (the documented bound)"],
}, [
  { name: "calm", quick: 150, run: (r, o) => history(r, o, { burst: false, faults: false, slow: false }) },
  { name: "slow", quick: 400, run: (r, o) => history(r, o, { burst: false, faults: false, slow: true }) },
  { name: "burst", quick: 120, run: (r, o) => history(r, o, { burst: true, faults: false, slow: true }) },
  { name: "faults", quick: 300, run: (r, o) => history(r, o, { burst: r.bool(0.3), faults: true, slow: true }) },
  { name: "backlog", quick: 3, run: backlog },
]);
