import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { EPOCH } from "../lib/sim";
import { setEnv, KEYS } from "../lib/env";
import { endpoints, makeCall, invoke } from "../lib/endpoints";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseAPIError, LangfuseAPITimeoutError } from "@langfuse/core";

type Reply = { kind: "ok" | "fail" | "retry" | "net" | "hang" | "nonjson"; status?: number; body?: string; headers?: Record<string, string>; delay: number; error?: any; value?: any; hasValue?: boolean; wait?: { min: number; max: number } | null };
const jsonTypes = ["application/json", "application/json; charset=utf-8", "application/problem+json", "text/json", "application/json;charset=utf-8", "Application/JSON ; charset=UTF-8", "application/vnd.langfuse.v1+json", "application/ld+json", "application/hal+json;v=1"];
function body(r: Rng): { body: string | undefined; headers: Record<string, string>; value: any; isJson: boolean } {
  const k = r.weighted<string>([[5, "json"], [1, "empty"], [2, "text"], [1, "html"], [1, "broken"], [1, "json-as-text"], [0.6, "untyped"]]);
  if (k === "json") { const v = r.json(3); return { body: JSON.stringify(v), headers: { "Content-Type": r.pick(jsonTypes) }, value: v, isJson: true }; }
  if (k === "empty") return { body: r.pick<any>([undefined, ""]), headers: r.bool() ? { "Content-Type": r.pick([...jsonTypes, "text/plain"]) } : {}, value: undefined, isJson: true };
  if (k === "text") { const t = "Service says no " + r.text(8); return { body: t, headers: { "Content-Type": r.pick(["text/plain", "text/plain; charset=utf-8"]) }, value: t, isJson: false }; }
  if (k === "html") { const t = `<html><body>${r.text(5)}</body></html>`; return { body: t, headers: { "Content-Type": "text/html" }, value: t, isJson: false }; }
  if (k === "broken") { const t = r.pick(['{"a": 1', "{'a':1}", "upstream connect error", "[1,2,", "{}{}", " ", "\n \n"]); return { body: t, headers: { "Content-Type": r.pick(jsonTypes) }, value: t, isJson: false }; }
  if (k === "json-as-text") { const t = JSON.stringify({ a: r.int(0, 9) }); return { body: t, headers: { "Content-Type": "text/plain" }, value: t, isJson: true }; }
  const v = { u: r.int(0, 9) }; return { body: JSON.stringify(v), headers: { "Content-Type": "" }, value: v, isJson: true };
}
function reply(r: Rng, now: () => number): Reply {
  const delay = r.weighted([[3, 0], [3, r.int(1, 400)], [0.5, r.int(1000, 20000)]]);
  const k = r.weighted<Reply["kind"]>([[3, "ok"], [2, "fail"], [6, "retry"], [0.7, "net"], [0.7, "hang"]]);
  if (k === "net") return { kind: k, delay, error: r.pick<any>([new TypeError("fetch failed"), new Error("ECONNRESET"), "string failure", Object.assign(new Error("getaddrinfo ENOTFOUND"), { code: "ENOTFOUND" }), { weird: 1 }]) };
  if (k === "hang") return { kind: k, delay: 0 };
  const b = body(r);
  if (k === "ok") {
    const status = r.pick([200, 200, 200, 201, 202, 203, 204, 206, 207, 299]);
    if (status === 204) return { kind: "ok", status, delay, headers: {}, value: undefined };
    if (b.isJson) return { kind: "ok", status, delay, body: b.body, headers: b.headers, value: b.body ? JSON.parse(b.body) : undefined };
    return { kind: "nonjson", status, delay, body: b.body, headers: b.headers, value: b.body };
  }
  const status = k === "fail" ? r.bool(0.3) ? r.pick([r.int(400, 407), r.int(409, 428), r.int(430, 499)]) : r.pick([400, 401, 402, 403, 404, 405, 406, 409, 410, 412, 413, 418, 422, 423, 451, 499]) : r.pick([408, 429, 429, 500, 501, 502, 503, 503, 504, 520, 529, 599]);
  const headers: Record<string, string> = { ...b.headers };
  let wait: Reply["wait"] = null; // null: exponential backoff
  if (k === "retry" && r.bool(0.5)) {
    const h = r.pick(["seconds", "date", "reset", "junk", "zero", "past", "both"]);
    if (h === "seconds" || h === "both") { const n = r.pick([1, 2, 7, 30, 59, 60, 61, 600, 86400]); headers["Retry-After"] = String(n); wait = { min: Math.min(n * 1000, 60000), max: Math.min(n * 1000, 60000) * 1.2 + 5 }; if (h === "both") headers["X-RateLimit-Reset"] = String(Math.floor(now() / 1000) + 5); }
    else if (h === "date") headers["Retry-After"] = "DATE:" + r.pick([1, 2, 5, 45, 90, 4000]);
    else if (h === "reset") headers["X-RateLimit-Reset"] = "RESET:" + r.pick([2, 5, 45, 90, 4000]);
    else if (h === "past") { headers["Retry-After"] = new Date(now() - 100000).toUTCString(); wait = { min: 0, max: 72000 }; }
    else { headers["Retry-After"] = h === "zero" ? "0" : r.pick(["soon", "", "-5", "NaN"]); wait = { min: 0, max: 72000 }; }
  }
  return { kind: k, status, delay, body: b.body, headers, value: b.value, wait };
}
async function run(r: Rng, o: Obs, i: number) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const N = r.weighted([[5, 1], [2, 2], [1, 3]]);
  const jobs = r.list(N, (k) => {
    const e = endpoints[k === 0 ? i % endpoints.length : r.int(0, endpoints.length - 1)];
    const maxRetries = r.pick<number | undefined>([undefined, undefined, 0, 1, 2, 3, 5]);
    const timeoutInSeconds = r.pick<number | undefined>([undefined, undefined, 1, 5, 30, 0.2, 2.5, 600, 3600]);
    const abortAt = r.bool(0.1) ? r.int(1, 3000) : undefined;
    return { k, e, call: makeCall(r, e), maxRetries, timeoutInSeconds, abortAt, ctl: new AbortController(), replies: r.list(8, () => { const p = reply(r, () => EPOCH); return { ...p, delay: p.delay === (timeoutInSeconds ?? 60) * 1000 ? p.delay + 1 : p.delay }; }), used: [] as Reply[], recs: [] as any[], d: undefined as any, raw: r.bool(0.3) };
  });
  sim.onFetch = (q) => {
    const j = jobs.find((x) => q.headers["x-job"] === String(x.k));
    o.check(j, "request-headers", () => show(q.headers));
    const p = { ...(j!.replies[j!.recs.length] ?? { kind: "ok", status: 200, delay: 0, body: "{}", headers: {}, value: {} }) } as Reply;
    j!.recs.push(q);
    if (p.headers) {
      p.headers = { ...p.headers };
      const at = () => EPOCH + q.t + p.delay; // when the answer arrives
      if (p.headers["Retry-After"]?.startsWith("DATE:")) { const s = Number(p.headers["Retry-After"].slice(5)); const d = Math.floor((at() + s * 1000) / 1000) * 1000; p.headers["Retry-After"] = new Date(d).toUTCString(); const w = Math.min(d - at(), 60000); p.wait = { min: Math.max(0, w - 2), max: w * 1.2 + 5 }; }
      if (p.headers["X-RateLimit-Reset"]?.startsWith("RESET:")) { const s = Number(p.headers["X-RateLimit-Reset"].slice(6)); const d = Math.floor((at() + s * 1000) / 1000) * 1000; p.headers["X-RateLimit-Reset"] = String(d / 1000); const w = Math.min(d - at(), 60000); p.wait = { min: Math.max(0, w - 2), max: w * 1.2 + 5 }; }
    }
    j!.used.push(p);
    if (p.kind === "hang") return { hang: true };
    if (p.kind === "net") return { error: p.error, delay: p.delay };
    return { status: p.status, body: p.body, headers: p.headers, delay: p.delay };
  };
  o.note = jobs.map((j) => [j.e.path.join(".") + "." + j.e.method, j.maxRetries, j.timeoutInSeconds, j.abortAt, j.replies.slice(0, 4).map((p) => p.status ?? p.kind)]);
  const start = sim.now;
  const one = (j: (typeof jobs)[0]) => {
    if (j.abortAt !== undefined) setTimeout(() => j.ctl.abort(), j.abortAt);
    const p = invoke(client.api, j.e, j.call.args, { headers: { "X-Job": String(j.k) }, ...(j.maxRetries !== undefined ? { maxRetries: j.maxRetries } : {}), ...(j.timeoutInSeconds !== undefined ? { timeoutInSeconds: j.timeoutInSeconds } : {}), ...(j.abortAt !== undefined ? { abortSignal: j.ctl.signal } : {}) });
    const q = j.raw ? p.withRawResponse().then((x: any) => x.data) : p;
    return q.then((v: any) => { j.d = { ok: true, v, t: sim.now }; }, (e: any) => { j.d = { ok: false, e, t: sim.now }; });
  };
  const all = await sim.drive(Promise.all(jobs.map(one)), 24 * 3600_000);
  o.check(all.status === "fulfilled", "never-settles", () => show(all));
  for (const j of jobs) {
    const max = j.maxRetries ?? 2, timeout = (j.timeoutInSeconds ?? 60) * 1000;
    const what = () => `${j.e.path.join(".")}.${j.e.method} retries ${j.maxRetries} timeout ${j.timeoutInSeconds} abort ${j.abortAt}: replies ${show(j.used.map((p) => [p.kind, p.status, p.headers, p.body, p.delay]))}; sent at ${show(j.recs.map((q) => q.t))}; ${show(j.d)}`;
    o.check(j.recs.length >= 1 && j.recs.length <= max + 1, "retry-bound", what);
    // Every attempt but the last must have been a transient answer; every transient answer within the bound is retried.
    const late = (p: Reply) => p.kind === "hang" || p.delay > timeout;
    j.used.slice(0, -1).forEach((p, n) => {
      o.check(p.kind === "retry" && !late(p), "retried-final-answer", what);
      const gap = j.recs[n + 1].t - j.recs[n].doneAt!;
      const w = p.wait ?? { min: 900 * 2 ** n - 2, max: 1100 * 2 ** n + 2 };
      const cap = p.wait ? w : { min: Math.min(w.min, 54000 - 2), max: Math.min(w.max, 66002) };
      o.check(gap >= cap.min - 1, "retry-too-early", () => `after ${gap} ms instead of ${show(cap)} ${what()}`);
      o.check(gap <= cap.max, "retry-too-late", () => `after ${gap} ms instead of ${show(cap)} ${what()}`);
      o.count("retries"); if (p.wait) o.count("server-asked-delays");
    });
    const last = j.used[j.used.length - 1], rec = j.recs[j.recs.length - 1];
    const abortT = j.abortAt === undefined ? Infinity : start + j.abortAt;
    const inFlight = rec.aborted && rec.doneAt === abortT, backingOff = last.kind === "retry" && rec.outcome === "response" && j.recs.length < max + 1 && j.d.t >= abortT;
    if (inFlight || backingOff) {
      o.check(!j.d.ok, "aborted-call-resolves", what);
      if (inFlight) o.check(j.d.t <= abortT + 1, "abort-ignored", what);
      else o.check(j.d.t <= rec.doneAt! + 72005, "abort-ignored", what);
      o.count("aborts");
    } else if (late(last)) {
      o.check(!j.d.ok && j.d.e instanceof LangfuseAPITimeoutError, "timeout-error", what);
      o.check(Math.abs(j.d.t - (rec.t + timeout)) <= 2, "timeout-time", what);
      o.count("timeouts");
    } else if (last.kind === "net") {
      o.check(!j.d.ok && j.d.e instanceof LangfuseAPIError && j.d.e.statusCode === undefined, "network-error", what);
      if (last.error instanceof Error) o.check(j.d.e.message.includes(last.error.message), "network-error", what);
      o.count("network-errors");
    } else if (last.kind === "ok") {
      o.check(j.d.ok && deepEqual(j.d.v, j.e.void ? undefined : last.value), "resolved-value", what);
      o.count("resolved");
    } else {
      if (last.kind === "retry" && j.abortAt === undefined) o.check(j.recs.length === max + 1, "gave-up-early", what);
      o.check(!j.d.ok && j.d.e instanceof LangfuseAPIError && j.d.e.statusCode === last.status, "rejected-status", what);
      const b = j.d.e.body;
      // the API defines these two errors without a body
      const bodyless = (j.e.path[0] === "health" && last.status === 503) || (j.e.path[0] === "feedback" && last.status === 409);
      if (!bodyless) o.check(deepEqual(b, last.value) || (last.value === undefined && b === "") , "rejected-body", () => `body ${show(b)} instead of ${show(last.value)} ${what()}`);
      o.count(last.kind === "nonjson" ? "nonjson" : "rejected");
    }
    o.seen(`${max} ${j.used.map((p) => (p.status ?? p.kind) + (p.wait ? "w" : "")).join(",")} ${j.d.ok}`);
  }
  await sim.settle();
  const left = sim.pendingTimers().filter((t) => t.at > sim.now + 3001 || jobs.every((j) => j.abortAt === undefined));
  o.check(left.length === 0, "timer-left", () => `${left.length} timers left: ${show(left.map((t) => t.at - sim.now))}`);
}
/** The documented client-wide timeout (see known-findings.json). */
async function clientTimeout(r: Rng, o: Obs, i: number) {
  const seconds = [2, 7, 20][i % 3], viaEnv = i % 2 === 1;
  setEnv(viaEnv ? { LANGFUSE_TIMEOUT: String(seconds) } : {});
  const client = new LangfuseClient(viaEnv ? KEYS : { ...KEYS, timeout: seconds });
  sim.onFetch = () => ({ hang: true });
  const d: any = await sim.drive(client.api.health.health({ maxRetries: 0 }));
  o.check(d.status === "rejected" && d.reason instanceof LangfuseAPITimeoutError, "timeout-error", () => show(d));
  o.count("client-timeouts"); o.seen(`${seconds} ${viaEnv}`);
  o.check(Math.abs(d.t - seconds * 1000) <= 2, "client-timeout", () => `an attempt of a client with timeout ${seconds} s was given up after ${d.t} ms`);
}
defineCheck("C26", { rule: "a call is non-trivial when at least one answer, failure or timeout was scripted for it; distinct by the sequence of answers and the outcome", required: ["retries", "server-asked-delays", "timeouts", "network-errors", "resolved", "rejected", "nonjson", "aborts"],
  assumptions: ["the body of an answer arrives with it; Node's own fetch is replaced by a scripted one with the same abort semantics"] },
  [{ name: "answers", quick: 9000, run }, { name: "client-timeout", quick: 6, quickExact: 6, thorough: 6, run: clientTimeout }]);
