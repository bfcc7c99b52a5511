import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";

const faults = (r: Rng, delay: number) => r.pick([
  () => ({ status: 404, body: { message: "nf" }, delay }),
  () => ({ status: 400, body: "not json", headers: { "content-type": "application/json" }, delay }),
  () => ({ status: 500, body: {}, delay }),
  () => ({ status: 429, body: {}, delay }),
  () => ({ status: r.pick([401, 403, 405, 409, 422, 451]), body: { message: "no" }, delay }),
  () => ({ error: new TypeError("fetch failed"), delay }),
  () => ({ hang: true }),
])();
const prompt = (q: any, chat: boolean) => ({ name: decodeURIComponent(q.path.split("/").pop()!), version: 7, type: chat ? "chat" : "text", prompt: chat ? [{ role: "user", content: "hi" }] : "hi", labels: [], tags: [], config: { req: q.seq } });

/** Warm keys, many concurrent readers, faulty refreshes. */
async function refresh(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const same = r.bool(0.5);
  const keys: any[] = r.list(r.int(1, 3), (i) => ({ name: same ? "p" : `p${i}`, ...(same ? [{ label: undefined }, { label: "staging" }, { label: undefined, version: 3 }][i] : { label: r.pick([undefined, "staging"]) }), chat: r.bool(0.3) }));
  const ttl = r.pick([1, 5, 60, 60]), implicit = ttl === 60 && r.bool();
  let failing = false;
  const isFor = (q: any, k: any) => q.path.endsWith("/" + k.name) && (new URL(q.url).searchParams.get("label") ?? "production") === (k.version ? "production" : k.label ?? "production") && new URL(q.url).searchParams.get("version") === (k.version ? String(k.version) : null);
  sim.onFetch = (q) => {
    const delay = r.pick([0, 10, 500, 1900]);
    const k = keys.find((x) => isFor(q, x))!;
    return failing && r.bool(0.7) ? faults(r, delay) : { status: 200, body: prompt(q, k.chat), delay };
  };
  const maxRetries = r.pick([0, 0, 2]);
  const timeoutMs = r.pick([undefined, 2000, 10_000, 2150, 7325]), withFallback = r.bool(0.4); // readers with a fallback of their own read the cache all the same
  const get = (k: any) => client.prompt.get(k.name, { ...(k.label ? { label: k.label } : {}), ...(k.version ? { version: k.version } : {}), ...(implicit ? {} : { cacheTtlSeconds: ttl }), maxRetries, fetchTimeoutMs: timeoutMs, type: k.chat ? "chat" : undefined, ...(withFallback && r.bool(0.7) ? { fallback: k.chat ? [{ role: "user", content: "fb" }] : "fb" } : {}) } as any);
  for (const k of keys) { const d = await sim.drive(get(k)); o.equal(d.status, "fulfilled", "warm-up"); }
  const warm = sim.fetches.length;
  const byKey = (k: any) => sim.fetches.filter((q) => isFor(q, k));
  const shape: string[] = [];
  const storedAt = new Map<string, number>();
  let stale = 0, refreshes = 0, replaced = 0;
  const refreshing = (k: any) => { const q = byKey(k).pop()!; return maxRetries > 0 && q.seq >= warm && q.status !== 200 && sim.now - (q.doneAt ?? q.t) < 120_000; };
  const lastOk = (k: any) => byKey(k).filter((q) => q.status === 200 && q.doneEv !== undefined).pop()!;
  for (let step = r.int(6, 30); step > 0; step--) {
    const op = r.weighted<string>([[5, "read"], [4, "wait"], [1, "toggle"]]);
    if (op === "toggle") { failing = !failing; shape.push(failing ? "X" : "O"); continue; }
    if (op === "wait") { await sim.advance(r.pick([1, 400, 1000, 5000, 20_000, 61_000])); shape.push("w"); continue; }
    const k = r.pick(keys);
    await sim.settle();
    const pre = lastOk(k);
    const preCount = byKey(k).length;
    const inFlightBefore = byKey(k).some((q) => q.doneEv === undefined);
    const n = r.int(1, 6);
    const t = sim.now;
    const results: any[] = [];
    for (let i = 0; i < n; i++) { const slot: any = {}; results.push(slot); get(k).then((v) => { slot.v = v; slot.t = sim.now; }, (e) => { slot.e = e; }); if (r.bool(0.3)) await null; }
    await sim.settle();
    for (const s of results) {
      o.check(!s.e, "read-rejects", () => `read of a cached prompt rejected: ${show(s.e)}`);
      o.check(s.v, "read-waits", () => `read of a cached prompt (stored t=${pre.doneAt}, ttl ${ttl}s) did not resolve at once at t=${t}`);
      o.check(!s.v.isFallback, "read-fallback");
      // requests answered in zero time may already have replaced the value for readers of the same burst
      const post = lastOk(k);
      o.check(s.v.config.req === pre.seq || s.v.config.req === post.seq, "wrong-value", () => `read returned the answer to request ${s.v.config.req}; the latest successful one is ${pre.seq}`);
    }
    o.equal(results[0].v.config.req, pre.seq, "latest-value", `first read of ${k.name} returns the latest stored value`);
    const made = byKey(k).length - preCount;
    const expired = t - pre.doneAt! > ttl * 1000;
    const fresh = t - pre.doneAt! < ttl * 1000;
    if (fresh) { o.equal(made, 0, "fresh-requests", "requests made by reads within the TTL"); shape.push("h"); }
    if (expired) {
      stale += n;
      o.check(made >= 1 || inFlightBefore || refreshing(k), "no-refresh", () => `stale read of ${show(k)} started no refresh although none was under way`);
      // a request answered in zero time with a failure may legitimately be followed by another refresh in the same burst
      const instantFail = byKey(k).slice(preCount).some((q) => q.doneEv !== undefined);
      if (!instantFail) o.check(made <= 1, "single-flight", () => `${made} refreshes started by ${n} concurrent reads`);
      if (inFlightBefore) o.check(made === 0 || instantFail || maxRetries > 0, "single-flight", () => `refresh started while one was in flight`);
      refreshes += made;
      shape.push("s" + made);
    }
    if (pre.seq >= warm) replaced++;
    o.count("reads", n);
  }
  // no two requests for one key ever overlap after warm-up (retries are sequential, refreshes single-flight)
  for (const k of keys) {
    const qs = byKey(k).filter((q) => q.seq >= warm);
    for (let i = 1; i < qs.length; i++)
      o.check(qs[i - 1].doneEv !== undefined && qs[i - 1].doneEv! < qs[i].ev, "single-flight", () => `request ${qs[i].seq} for ${k.name} started while ${qs[i - 1].seq} was in flight`);
    o.count("refresh-requests", qs.length);
    for (const q of qs) if (q.aborted && timeoutMs !== undefined) o.check(Math.abs(q.doneAt! - q.t - timeoutMs) <= 1, "timeout", () => `refresh given up after ${q.doneAt! - q.t} ms, timeout ${timeoutMs}`);
  }
  await sim.drain(4_000_000);
  // recovery: bounded progress. After the server is healthy, one expired read refreshes the value.
  failing = false;
  for (const k of keys) {
    await sim.advance(ttl * 1000 + 200_000);
    const before = lastOk(k).seq;
    const d: any = await sim.drive(get(k));
    o.equal(d.status, "fulfilled", "recovery");
    await sim.advance(5000);
    const d2: any = await sim.drive(get(k));
    o.check(d2.value.config.req !== before, "refresh-lost", () => `the successful refresh of ${k.name} is not visible to later reads`);
    o.count("recoveries");
  }
  o.count("stale-reads", stale);
  o.count("reads-after-refresh", replaced);
  o.note = { keys, ttl, maxRetries, timeoutMs, shape: shape.join(" ") };
  o.seen(`${keys.length}/${ttl}/${maxRetries}/${shape.join("")}`);
}

/** Cold reads against a failing server: fallback or rejection, never cached. */
async function cold(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const shape: string[] = [];
  let mode: "fail" | "ok" = "fail";
  let last: any;
  sim.onFetch = (q) => {
    const delay = r.pick([0, 10, 700]);
    if (mode === "ok") return { status: 200, body: prompt(q, false), delay };
    last = faults(r, delay);
    return last;
  };
  const name = r.pick(["greeting", "a/b c", "ü?#"]);
  for (let i = r.int(1, 5); i > 0; i--) {
    const chat = r.bool(0.4);
    const fb: any = r.weighted<any>([[2, undefined], [3, chat ? [{ role: "system", content: "fb {{x}}" }, { role: "user", content: r.text(8) }] : "fallback " + r.text(10)], [1, chat ? [] : ""]]);
    const label = r.pick([undefined, "staging"]);
    const version = label === undefined && r.bool(0.3) ? r.int(1, 9) : undefined;
    const timeoutMs = r.pick([undefined, 1000, 5000, 20_000, 750, 1250, 90_500]);
    const maxRetries = r.pick([0, 1, 3, undefined]);
    const before = sim.fetches.length;
    const t0 = sim.now;
    const d: any = await sim.drive(client.prompt.get(name, { version, label, fallback: fb, type: chat ? "chat" : r.pick([undefined, "text"]), fetchTimeoutMs: timeoutMs, maxRetries, cacheTtlSeconds: r.pick([undefined, 60, 300]) } as any));
    const made = sim.fetches.slice(before);
    o.check(made.length >= 1, "no-request", () => "a read after a failed one made no request: the failure or fallback was cached");
    o.check(made.length <= (maxRetries ?? 2) + 1, "retries", () => `${made.length} attempts with maxRetries=${maxRetries}`);
    for (const q of made) if (q.aborted && timeoutMs !== undefined) o.check(Math.abs(q.doneAt! - q.t - timeoutMs) <= 1, "timeout", () => `request given up after ${q.doneAt! - q.t} ms, timeout ${timeoutMs}`);
    if (fb !== undefined) {
      o.equal(d.status, "fulfilled", "fallback", `read with fallback ${show(fb)}`);
      const v = d.value;
      o.equal(v.isFallback, true, "fallback-flag");
      o.equal(v.name, name, "fallback-name");
      o.equal(v.version, version ?? 0, "fallback-version");
      o.equal(v.labels, label ? [label] : [], "fallback-labels");
      o.equal(v.type, chat ? "chat" : "text", "fallback-type");
      if (chat) o.equal(v.prompt.map((m: any) => ({ role: m.role, content: m.content })), fb, "fallback-content");
      else o.equal(v.prompt, fb, "fallback-content");
      shape.push("F");
      o.count("fallbacks");
    } else {
      o.equal(d.status, "rejected", "rejects", "failed read without fallback");
      o.check(d.reason instanceof Error, "reject-type", () => show(d.reason));
      const fin = made[made.length - 1];
      if (fin.status !== undefined) o.equal(d.reason.statusCode, fin.status, "reject-status", "status carried by the error");
      shape.push("E");
      o.count("rejections");
    }
    shape.push(String(made.length));
  }
  mode = "ok";
  const d: any = await sim.drive(client.prompt.get(name, { fallback: "unused" }));
  o.equal(d.status, "fulfilled", "recovery");
  o.equal(d.value.isFallback, false, "recovery-not-fallback");
  const c = sim.fetches.length;
  const d2: any = await sim.drive(client.prompt.get(name));
  o.equal(sim.fetches.length, c, "recovery-cached");
  o.equal(d2.value.config.req, d.value.config.req, "recovery-value");
  if (r.bool(0.4)) {
    // caching bypassed: a failing fetch is not answered from the cache
    mode = "fail";
    const fb = r.pick([undefined, "bypass"]), b0 = sim.fetches.length;
    const z: any = await sim.drive(client.prompt.get(name, { cacheTtlSeconds: 0, fallback: fb, maxRetries: 0, fetchTimeoutMs: 1000 } as any));
    o.check(sim.fetches.length > b0, "bypass-requests", () => "a read with a TTL of zero made no request");
    o.equal(z.status, fb === undefined ? "rejected" : "fulfilled", "bypass", "failing read with a TTL of zero");
    if (fb) { o.equal(z.value.isFallback, true, "bypass-fallback"); o.equal(z.value.prompt, fb, "bypass-fallback"); }
    o.count("bypass");
  }
  o.note = { name, shape: shape.join("") };
  o.seen(shape.join(""));
}

/** A slow refresh is overtaken by an update of the prompt: still one refresh per key at a time, and the next one is not lost. */
async function overtaken(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const ttl = r.pick([1, 2]), label = r.pick([undefined, "staging"]);
  let delay = 0;
  sim.onFetch = (q) => q.method === "GET" ? { status: 200, body: prompt(q, false), delay } : { status: 200, body: {}, delay: 0 };
  const gets = () => sim.fetches.filter((q) => q.method === "GET");
  const get = () => client.prompt.get("p", { ...(label ? { label } : {}), cacheTtlSeconds: ttl, fetchTimeoutMs: 50_000, maxRetries: 0 } as any);
  await sim.drive(get());
  await sim.advance(ttl * 1000 + 1);
  delay = r.pick([10_000, 20_000]);
  await sim.drive(get()); // stale: starts the slow refresh
  o.equal(gets().length, 2, "refresh-started");
  const slow = gets()[1];
  const steps = r.int(1, 3);
  for (let k = 0; k < steps; k++) {
    delay = 0;
    if (k === 0 && r.bool(0.3)) {
      // the overtaken refresh settles while nothing is cached: it must not be remembered for ever
      await sim.drive(client.prompt.update({ name: "p", version: 1, newLabels: ["x"] }));
      await sim.advance(30_000);
      await sim.drive(get());
      await sim.advance(ttl * 1000 + 1);
      const n = gets().length;
      await sim.drive(get());
      o.equal(gets().length, n + 1, "refresh-after", "a stale read after the overtaken refresh was over asks the server");
      o.count("settled-empty");
      break;
    }
    await sim.drive(r.bool() ? client.prompt.update({ name: "p", version: 1, newLabels: ["x"] }) : client.prompt.delete("p", { version: 2 }));
    const n = gets().length;
    await sim.drive(get()); // a miss
    o.equal(gets().length, n + 1, "miss-asks");
    await sim.advance(ttl * 1000 + 1);
    const burst = r.int(1, 4), before = gets().length;
    delay = 3_000;
    await sim.drive(Promise.all(r.list(burst, () => get())));
    const running = gets().filter((q, i) => (i === 1 || i >= before) && q.doneEv === undefined);
    o.check(running.length <= 1, "single-flight", () => `${running.length} refreshes of one prompt are in flight (${burst} stale reads after an update overtook a refresh)`);
    o.check(running.length >= 1, "no-refresh", () => "a stale read started no refresh although none was under way");
    o.count("overtaken-refreshes");
    if (slow.doneEv !== undefined) break;
    await sim.advance(100);
  }
  await sim.advance(60_000);
  const n = gets().length;
  delay = 0;
  await sim.drive(get());
  o.equal(gets().length, n + 1, "refresh-after", "a stale read after all refreshes are over asks the server");
  o.seen(`${ttl}/${label}/${steps}/${gets().length}`);
}

defineCheck("C04", {
  rule: "A case is either a set of cached prompts read by bursts of concurrent readers while the server is slow, failing, hanging and recovering, or a series of cold reads against a failing server with and without fallback; distinct by the sequence of operations and answers.",
  required: ["stale-reads", "refresh-requests", "reads-after-refresh", "fallbacks", "rejections", "recoveries", "bypass", "overtaken-refreshes", "settled-empty"],
}, [
  { name: "refresh", quick: 600, run: refresh },
  { name: "cold", quick: 600, run: cold },
  { name: "overtaken", quick: 60, run: overtaken },
]);
