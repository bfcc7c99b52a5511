// Deterministic simulation of the environment: clock, timers, fetch, console, unhandled errors.
// Must be imported before anything from /repo.
import { AsyncResource } from "node:async_hooks";
import { createHash } from "node:crypto";

export const real = {
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setImmediate: globalThis.setImmediate,
  Date: globalThis.Date,
  fetch: globalThis.fetch,
  now: () => real.Date.now(),
  console: { ...console },
  random: Math.random,
};

export const EPOCH = 1_700_000_000_000;
type Timer = { id: number; at: number; fn: () => void; every?: number; ref: boolean; active: boolean; seq: number; handle?: any };

export type FetchRec = {
  seq: number; t: number; ev: number; method: string; url: string; path: string; host: string; search: string;
  headers: Record<string, string>; body: any; json: any; bodyBytes?: Uint8Array; signal?: AbortSignal;
  redirect?: string; credentials?: string; keepalive?: boolean;
  doneAt?: number; doneEv?: number; outcome?: string; status?: number; aborted?: boolean; init: any;
};
export type FetchReply = {
  status?: number; headers?: Record<string, string>; body?: any; delay?: number; error?: any; hang?: boolean; statusText?: string;
};

class Sim {
  now = 0;
  ev = 0; // global event sequence number
  timers = new Map<number, Timer>();
  tid = 1;
  fetches: FetchRec[] = [];
  maxFetches = 20_000;
  onFetch: (r: FetchRec) => FetchReply | Promise<FetchReply> = () => ({ status: 200, body: {} });
  logs: { level: string; args: any[]; t: number }[] = [];
  unhandled: any[] = [];
  fired = 0;
  maxFired = 200_000;
  gen = 0;

  tick() { return ++this.ev; }

  reset() {
    this.gen++;
    this.now = 0; this.ev = 0; this.timers.clear(); this.fetches = []; this.logs = []; this.unhandled = []; this.fired = 0;
    this.maxFetches = 20_000;
    this.onFetch = () => ({ status: 200, body: {} });
  }

  addTimer(fn: (...a: any[]) => void, ms: any, args: any[], every: boolean) {
    let d = Number(ms);
    if (!(d >= 1)) d = 1;
    if (d > 2147483647) d = 1;
    const id = this.tid++;
    const bound = AsyncResource.bind(() => (fn as any)(...args));
    const t: Timer = { id, at: this.now + d, fn: bound as any, every: every ? d : undefined, ref: true, active: true, seq: id };
    this.timers.set(id, t);
    const handle = {
      _vt: id,
      ref() { t.ref = true; return handle; },
      unref() { t.ref = false; return handle; },
      hasRef() { return t.ref; },
      refresh() { t.at = sim.now + d; if (!sim.timers.has(id)) sim.timers.set(id, t); return handle; },
      close() { sim.timers.delete(id); return handle; },
      [Symbol.toPrimitive]() { return id; },
      [Symbol.dispose ?? Symbol.for("dispose")]() { sim.timers.delete(id); },
    };
    t.handle = handle;
    return handle;
  }
  clear(h: any) {
    if (h === undefined || h === null) return;
    const id = typeof h === "object" ? h._vt : Number(h);
    if (id !== undefined) this.timers.delete(id);
  }
  pendingTimers(onlyRef = false) {
    return [...this.timers.values()].filter((t) => !onlyRef || t.ref);
  }
  nextTimer(): Timer | undefined {
    let best: Timer | undefined;
    for (const t of this.timers.values())
      if (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq)) best = t;
    return best;
  }
  /** Let all pending microtasks and already-queued immediates run (no virtual time passes). */
  async settle(turns = 6) {
    for (let i = 0; i < turns; i++) await new Promise<void>((r) => real.setImmediate(r));
  }
  private fire(t: Timer) {
    if (t.every !== undefined) t.at = this.now + t.every;
    else this.timers.delete(t.id);
    if (++this.fired > this.maxFired) throw new Error("simulation: too many timers fired (no quiescence)");
    t.fn();
  }
  async advance(ms: number) {
    const target = this.now + ms;
    await this.settle();
    for (;;) {
      const t = this.nextTimer();
      if (!t || t.at > target) break;
      this.now = Math.max(this.now, t.at);
      this.fire(t);
      await this.settle();
    }
    this.now = target;
    await this.settle();
  }
  /** Drive virtual time until p settles, or `budget` virtual ms have passed. */
  async drive<T>(p: Promise<T> | T, budget = 3_600_000): Promise<{ status: "fulfilled"; value: T; t: number; ev: number } | { status: "rejected"; reason: any; t: number; ev: number } | { status: "pending" }> {
    let out: any;
    Promise.resolve(p).then(
      (value) => { out = { status: "fulfilled", value, t: this.now, ev: this.tick() }; },
      (reason) => { out = { status: "rejected", reason, t: this.now, ev: this.tick() }; },
    );
    const limit = this.now + budget;
    await this.settle();
    let idle = 0;
    while (!out) {
      const t = this.nextTimer();
      if (!t || t.at > limit) {
        // Work that runs on real threads (crypto, fs) may still be under way: give it real time.
        if (++idle > 40) break;
        await new Promise<void>((r) => real.setTimeout(r, idle < 20 ? 0 : 2));
        await this.settle(2);
        continue;
      }
      idle = 0;
      this.now = Math.max(this.now, t.at);
      this.fire(t);
      await this.settle();
    }
    return out ?? { status: "pending" };
  }
  /** Run all timers up to `budget` virtual ms, i.e. until quiescence. */
  async drain(budget = 600_000) {
    const limit = this.now + budget;
    await this.settle();
    for (;;) {
      const t = this.nextTimer();
      if (!t || t.at > limit) break;
      this.now = Math.max(this.now, t.at);
      this.fire(t);
      await this.settle();
    }
    await this.settle(10);
  }
}
export const sim = new Sim();

// ---- clock -----------------------------------------------------------------------------------
class VDate extends real.Date {
  constructor(...a: any[]) {
    if (a.length === 0) super(EPOCH + sim.now);
    else super(...(a as [any]));
  }
  static now() { return EPOCH + Math.floor(sim.now); }
}
// `new Date() instanceof Date` and Date() as function are both used in the wild; the latter is not used here.
(globalThis as any).Date = VDate;
Object.defineProperty(performance, "now", { value: () => sim.now, configurable: true, writable: true });
try { Object.defineProperty(performance, "timeOrigin", { value: EPOCH, configurable: true }); } catch {}
(globalThis as any).setTimeout = (fn: any, ms?: any, ...args: any[]) => sim.addTimer(fn, ms, args, false);
(globalThis as any).setInterval = (fn: any, ms?: any, ...args: any[]) => sim.addTimer(fn, ms, args, true);
(globalThis as any).clearTimeout = (h: any) => sim.clear(h);
(globalThis as any).clearInterval = (h: any) => sim.clear(h);
(AbortSignal as any).timeout = (ms: number) => {
  const c = new AbortController();
  const h: any = sim.addTimer(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms, [], false);
  h.unref();
  return c.signal;
};

// ---- crypto.subtle.digest without the thread pool (same function, deterministic schedule) -----
Object.defineProperty(globalThis.crypto.subtle, "digest", {
  configurable: true,
  value: async (alg: any, data: any) => {
    const name = String(typeof alg === "string" ? alg : alg.name).toLowerCase().replace("-", "");
    const bytes = ArrayBuffer.isView(data) ? new Uint8Array(data.buffer, data.byteOffset, data.byteLength) : new Uint8Array(data);
    const h = createHash(name).update(bytes).digest();
    return h.buffer.slice(h.byteOffset, h.byteOffset + h.byteLength);
  },
});

// ---- fetch -----------------------------------------------------------------------------------
function toBytes(b: any): Uint8Array | undefined {
  if (b == null) return undefined;
  if (typeof b === "string") return new TextEncoder().encode(b);
  if (ArrayBuffer.isView(b)) return new Uint8Array(b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength) as ArrayBuffer);
  if (b instanceof ArrayBuffer) return new Uint8Array(b.slice(0));
  return undefined;
}
const NULL_BODY = new Set([101, 204, 205, 304]);
async function vfetch(input: any, init: any = {}): Promise<Response> {
  const gen = sim.gen;
  let url: string, method = init?.method, headers = init?.headers, body = init?.body, signal = init?.signal;
  if (typeof input === "string") url = input;
  else if (input instanceof URL) url = input.toString();
  else {
    url = input.url; method ??= input.method; headers ??= input.headers; signal ??= input.signal;
    if (body === undefined && input.body) body = new Uint8Array(await input.arrayBuffer());
  }
  if (typeof Blob !== "undefined" && body instanceof Blob) body = new Uint8Array(await body.arrayBuffer());
  const u = new URL(url); // throws TypeError for invalid URLs, like the real fetch
  const hs: Record<string, string> = {};
  new Headers(headers ?? {}).forEach((v, k) => { hs[k] = v; }); // throws on invalid headers like the real fetch
  let json: any;
  if (typeof body === "string") { try { json = JSON.parse(body); } catch {} }
  const rec: FetchRec = {
    seq: sim.fetches.length, t: sim.now, ev: sim.tick(), method: String(method ?? "GET").toUpperCase(), url, path: u.pathname, host: u.host, search: u.search,
    headers: hs, body, json, bodyBytes: toBytes(body), signal, redirect: init?.redirect, credentials: init?.credentials, keepalive: init?.keepalive, init,
  };
  sim.fetches.push(rec);
  if (sim.fetches.length > sim.maxFetches) throw new Error("simulation: too many requests in one case");
  const finish = (o: string, st?: number) => { if (gen !== sim.gen) return; rec.doneAt = sim.now; rec.doneEv = sim.tick(); rec.outcome = o; rec.status = st; };
  return new Promise<Response>((resolve, reject) => {
    let done = false, replyTimer: any;
    const abort = () => {
      if (done) return;
      sim.clear(replyTimer);
      done = true; rec.aborted = true; finish("aborted");
      reject(signal!.reason ?? new DOMException("This operation was aborted", "AbortError"));
    };
    if (signal) {
      if (signal.aborted) return abort();
      signal.addEventListener("abort", abort, { once: true });
    }
    Promise.resolve()
      .then(() => sim.onFetch(rec))
      .then((r) => {
        const go = () => {
          if (done) return;
          done = true;
          signal?.removeEventListener("abort", abort);
          if (r.error !== undefined) { finish("error"); return reject(r.error); }
          const st = r.status ?? 200;
          let b = r.body;
          const h = new Headers(r.headers ?? {});
          if (b !== undefined && b !== null && typeof b !== "string" && !ArrayBuffer.isView(b) && !(b instanceof ArrayBuffer) && !(b instanceof ReadableStream)) {
            b = JSON.stringify(b);
            if (!h.has("content-type")) h.set("content-type", "application/json");
          }
          finish("response", st);
          const resp = new Response(NULL_BODY.has(st) ? null : b ?? null, { status: st, headers: h, statusText: r.statusText });
          Object.defineProperty(resp, "url", { value: url });
          resolve(resp);
        };
        if (r.hang) return;
        if (r.delay && r.delay > 0) { if (!done) replyTimer = sim.addTimer(go, r.delay, [], false); }
        else go();
      })
      .catch((e) => { if (!done) { done = true; finish("harness-error"); reject(e); } });
  });
}
(globalThis as any).fetch = vfetch;

// ---- console ---------------------------------------------------------------------------------
for (const level of ["log", "info", "warn", "error", "debug", "trace"] as const)
  (console as any)[level] = (...args: any[]) => { sim.logs.push({ level, args, t: sim.now }); };
process.emitWarning = (() => {}) as any;

process.on("unhandledRejection", (e) => { sim.unhandled.push(e); });
process.on("uncaughtException", (e) => { sim.unhandled.push(e); });

// Environment variables of the SDK never leak in from outside.
for (const k of Object.keys(process.env)) if (/^(LANGFUSE|OTEL)_/.test(k)) delete process.env[k];
