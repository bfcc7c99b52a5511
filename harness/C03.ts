import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, KEYS } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";

const NAMES = ["a", "A", "a ", "ab", "a-label:production", "folder/prompt one", "a-version:1", "ünï", "b?x=1&y#z", "a%2Fb", "a label", "ab-label", "a-label:x"];
const FAMILIES = [["production", "latest", "staging", "prod-a", "v1.0"], ["production", "Production"], ["prod", "prod-a", "prod-b"], ["v1", "v1.0", "v10"], ["1", "2"], ["latest", "LATEST"], ["a_b", "a-b", "a.b"], ["x", "production"], ["production", " production", "production ", "prod uction"], ["x-label:production", "production", "x", "production-label:production", "1-label:production"]];

type Read = { i: number; name: string; version?: number; label?: string; ttl?: number; startEv: number; startT: number; endEv?: number; endT?: number; value?: any; error?: any; fallback?: any };
type Inval = { name: string; ev: number };

async function history(r: Rng, o: Obs, p: { mutate: boolean; faults: boolean; slow: boolean }) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const labels = r.pick(FAMILIES), versions = r.pick([[1, 2, 3], [1, 11], [0, 1], [2, 20, 200], [1, 4294967297, 4294967296]]);
  const names = r.shuffle(NAMES).slice(0, r.int(1, 4));
  const reqMeta = new Map<number, { name: string; version?: number; label?: string; ttl?: number; reader: number }>();
  let epoch = 0;
  const rollback = r.bool(0.3); // labels may move back to an older version
  sim.onFetch = (q) => {
    const delay = p.slow ? r.pick([0, 1, 50, 400, 3000]) : 0;
    const m = /^\/api\/public\/v2\/prompts\/([^/]+)$/.exec(q.path);
    if (q.method === "PATCH") return { status: 200, body: { name: "x", version: 1, type: "text", prompt: "", labels: [], config: {}, tags: [] }, delay };
    if (q.method === "DELETE") return { status: 204, delay };
    if (q.method === "POST") return { status: 200, body: { name: q.json?.name, version: 9, type: "text", prompt: "created", labels: [], config: {}, tags: [] }, delay };
    if (q.method === "GET" && m) {
      const name = decodeURIComponent(m[1]);
      const sp = new URLSearchParams(q.search);
      if (p.faults && r.bool(0.25)) return r.pick([{ status: 404, body: { message: "nf" }, delay }, { error: new TypeError("fetch failed"), delay }, { status: 500, body: {}, delay }]);
      const version = sp.get("version"), label = sp.get("label");
      return {
        status: 200, delay,
        body: {
          name, version: version ? Number(version) : rollback ? r.int(1, 6) : 100 + q.seq, type: r.bool(0.7) ? "text" : "chat", labels: label ? [label] : [], tags: [],
          prompt: "unused", config: { req: q.seq, name, version, label, epoch: epoch++ },
          ...(0 ? {} : {}),
        },
      };
    }
    return { status: 404, body: {} };
  };
  // chat prompts need a list
  const inner = sim.onFetch;
  sim.onFetch = async (q) => { const a: any = await inner(q); if (a.body?.type === "chat") a.body.prompt = [{ role: "user", content: "c" }]; return a; };

  const reads: Read[] = [];
  const invals: Inval[] = [];
  const calls: Promise<any>[] = [];
  const doRead = () => {
    const name = r.pick(names);
    const rd: Read = { i: reads.length, name, startEv: sim.tick(), startT: sim.now };
    const k = r.int(0, 4);
    if (k === 0) rd.version = r.pick(versions);
    else if (k === 1 || k === 2) rd.label = r.pick(labels);
    else if (k === 3 && r.bool(0.3)) { rd.version = r.pick(versions); rd.label = r.pick(labels); }
    rd.ttl = r.pick([undefined, undefined, 0, 1, 5, 60, 300]);
    rd.fallback = r.bool(0.2) ? "fb-" + rd.i : undefined;
    reads.push(rd);
    const fn = r.bool(0.5) ? client.prompt.get.bind(client.prompt) : client.getPrompt;
    const pr: Promise<any> = (fn as any)(name, { version: rd.version, label: rd.label, cacheTtlSeconds: rd.ttl, fallback: rd.fallback, maxRetries: r.pick([0, 0, 1]) });
    calls.push(pr.then((v) => { rd.value = v; rd.endEv = sim.tick(); rd.endT = sim.now; }, (e) => { rd.error = e; rd.endEv = sim.tick(); rd.endT = sim.now; }));
    o.count("reads");
  };
  const steps = r.int(6, 40);
  for (let i = 0; i < steps; i++) {
    const k = r.weighted<string>([[6, "read"], [p.mutate ? 1.2 : 0, "update"], [p.mutate ? 0.8 : 0, "delete"], [p.mutate ? 0.3 : 0, "create"], [3, "wait"], [1, "long"], [1, "settle"]]);
    if (k === "read") { for (let j = r.int(1, 3); j > 0; j--) doRead(); }
    else if (k === "wait") await sim.advance(r.pick([10, 500, 1500, 4900, 6000]));
    else if (k === "long") await sim.advance(r.pick([30_000, 59_000, 61_000, 301_000]));
    else if (k === "settle") await sim.settle(2);
    else {
      const name = r.pick(names);
      const pr: Promise<any> = k === "update" ? (r.bool() ? client.prompt.update({ name, version: 1, newLabels: ["production"] }) : client.updatePrompt({ name, version: 1, newLabels: ["x"] }))
        : k === "delete" ? client.prompt.delete(name, r.bool() ? { version: 1 } : undefined)
        : client.prompt.create({ name, prompt: "p", labels: [] } as any);
      calls.push(pr.then(() => { if (k !== "create") invals.push({ name, ev: sim.tick() }); }, () => {}));
      o.count(k);
    }
  }
  await sim.drain(4_000_000);
  // ---- oracle --------------------------------------------------------------------------------
  const canon = (v: any, l: any) => (v !== undefined && v !== null ? `v${v}` : `l${l ?? "production"}`);
  const gets = sim.fetches.filter((q) => q.method === "GET");
  const qname = (q: any) => decodeURIComponent(q.path.split("/").pop()!);
  const ttlOf = new Map<number, number>(); // request seq -> ttl of the read that issued it (upper bound over candidates)
  const shape: string[] = [];
  for (const rd of reads) {
    o.check(rd.endEv !== undefined, "hangs", () => `read of ${rd.name} never settled`);
    if (rd.error !== undefined) {
      o.check(rd.fallback === undefined, "fallback-ignored", () => show(rd.error));
      o.check(p.faults, "rejects", () => `read rejected although no request failed: ${show(rd.error)}`);
      shape.push("E");
      continue;
    }
    const v = rd.value;
    if (v.isFallback) {
      o.equal(v.prompt, rd.fallback, "fallback-value");
      o.check(rd.fallback !== undefined, "fallback-invented");
      shape.push("F");
      continue;
    }
    const c = v.config;
    o.check(c && typeof c.req === "number", "not-from-server", () => show(v));
    const q = sim.fetches[c.req];
    o.equal(v.name, rd.name, "wrong-name", `read #${rd.i}`);
    o.equal(c.name, rd.name, "wrong-name", `read #${rd.i} request`);
    o.equal(canon(c.version, c.label), canon(rd.version, rd.label), "wrong-key", `read #${rd.i} of ${rd.name}`);
    for (const iv of invals)
      if (iv.name === rd.name && iv.ev < rd.startEv) {
        o.check(q.ev > iv.ev, "stale-after-invalidation", () => `read #${rd.i} of ${rd.name} started after an update/delete completed but was answered with the response to request ${q.seq} sent before that completed`);
        o.count("reads-after-invalidation");
      }
    if (q.ev > rd.startEv) { shape.push("f"); o.count("answered-by-fetch"); continue; } // fetched during the read
    o.check(rd.ttl !== 0, "ttl-zero-cached", () => `read #${rd.i} with TTL 0 was answered from the cache`);
    // Answered from the cache. TTL is that of a read which could have issued q: started before q and (if a miss) ended after it.
    const cand = reads.filter((x) => x.name === rd.name && canon(x.version, x.label) === canon(rd.version, rd.label) && x.startEv < q.ev && (x.endEv! > q.ev || true));
    const ttl = Math.max(...cand.map((x) => (x.ttl ?? 60) * 1000));
    // the issuing read is the latest read of that key before q was sent
    const issuer = cand[cand.length - 1];
    const exact = cand.filter((x) => x.startEv > (gets.filter((g) => g.seq < q.seq).pop()?.ev ?? 0)).length === 1;
    const limit = exact ? (issuer.ttl ?? 60) * 1000 : ttl;
    const age = rd.startT - q.doneAt!;
    if (age <= limit) { shape.push("c"); o.count("answered-fresh"); continue; }
    // stale: a refresh of this key must be in flight or started by this read
    const refreshing = gets.some((g) => g.seq !== q.seq && qname(g) === rd.name && canon(new URLSearchParams(g.search).get("version"), new URLSearchParams(g.search).get("label")) === canon(rd.version, rd.label)
      && g.ev < rd.endEv! + 40 && (g.doneEv === undefined || g.doneEv > rd.startEv));
    // with retries a refresh may also be between two attempts
    const between = gets.some((g) => qname(g) === rd.name && g.ev < rd.startEv && g.doneAt !== undefined && g.doneAt <= rd.startT && (g.status ?? 0) >= 500 && gets.some((h) => qname(h) === rd.name && h.ev > rd.startEv && h.t - g.doneAt! < 3000));
    o.check(refreshing || between, "stale-without-refresh", () => `read #${rd.i} of ${rd.name} at t=${rd.startT} returned a value stored at t=${q.doneAt} (TTL ${limit}) and no refresh was under way`);
    shape.push("s");
    o.count("answered-stale");
  }
  // a cached fresh value is actually used: with a single sequential reader no request is made within the TTL
  o.note = { names, shape: shape.join(""), invalidations: invals.length };
  if (reads.length) o.seen(shape.join("") + names.length + "/" + invals.length);
}

/** Sequential reader against an exact reference cache: decides precisely which reads make requests. */
async function sequential(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const labels = r.pick(FAMILIES), versions = r.pick([[1, 2, 3], [1, 11], [0, 1], [2, 20, 200], [1, 4294967297, 4294967296]]);
  const names = r.shuffle(NAMES).slice(0, r.int(1, 3));
  sim.onFetch = (q) => q.method === "GET" ? { status: 200, body: { name: decodeURIComponent(q.path.split("/").pop()!), version: Number(new URLSearchParams(q.search).get("version") ?? r.int(1, 6)), type: "text", prompt: "p", labels: [], tags: [], config: { req: q.seq } } } : q.method === "DELETE" ? { status: 204 } : { status: 200, body: { name: "x", version: 1, type: "text", prompt: "", labels: [], config: {}, tags: [] } };
  const ref = new Map<string, { req: number; until: number; name: string }>();
  const shape: string[] = [];
  for (let i = r.int(8, 50); i > 0; i--) {
    const k = r.weighted<string>([[7, "read"], [1, "update"], [0.6, "delete"], [4, "wait"]]);
    if (k === "wait") {
      // also to within a millisecond of the expiry of some entry
      const e = [...ref.values()].filter((x) => x.until > sim.now + 2);
      if (e.length && r.bool(0.5)) { await sim.advance(r.pick(e).until - sim.now + r.pick([-1, -1, 1, 0])); o.count("near-expiry"); }
      else await sim.advance(r.pick([3, 700, 2100, 6100, 61_003]));
      continue;
    }
    const name = r.pick(names);
    if (k === "update" || k === "delete") {
      const d = await sim.drive(k === "update" ? client.prompt.update({ name, version: 1, newLabels: [] }) : client.prompt.delete(name));
      o.equal(d.status, "fulfilled", "mutation");
      for (const [key, e] of ref) if (e.name === name) ref.delete(key);
      // entries of names that have this one as a prefix may or may not be dropped as well: forget what we know
      for (const e of ref.values()) if (e.name.startsWith(name) || name.startsWith(e.name)) (e as any).maybe = true;
      shape.push(k[0]);
      continue;
    }
    const version = r.bool(0.3) ? r.pick(versions) : undefined, label = r.bool(version === undefined ? 0.5 : 0.25) ? r.pick(labels) : undefined;
    const ttl = r.pick([undefined, undefined, 0, 1, 5, 0.5, 60, 120]);
    const key = JSON.stringify([name, version !== undefined ? "v" + version : "l" + (label ?? "production")]);
    const before = sim.fetches.length;
    const d: any = await sim.drive(client.prompt.get(name, { version, label, cacheTtlSeconds: ttl } as any));
    o.equal(d.status, "fulfilled", "read");
    await sim.settle();
    const made = sim.fetches.length - before;
    const e: any = ref.get(key);
    const store = (seq: number) => ref.set(key, { req: seq, until: sim.now + (ttl ?? 60) * 1000, name });
    if (!e || ttl === 0) {
      o.equal(made, 1, "miss-requests", `requests made by an uncached read of ${key}`);
      o.equal(d.value.config.req, before, "miss-value", "uncached read returns the response just fetched");
      store(before); shape.push("m");
    } else if (e.maybe) {
      if (made) store(before);
      else delete e.maybe;
      shape.push("?");
    } else if (sim.now < e.until) {
      o.equal(made, 0, "hit-requests", `requests made by a read of ${key} within its TTL`);
      o.equal(d.value.config.req, e.req, "hit-value", "cached read returns the stored response");
      shape.push("h");
    } else if (sim.now > e.until) {
      o.equal(d.value.config.req, e.req, "stale-value", "expired read returns the stale response");
      o.equal(made, 1, "stale-requests", `background requests made by an expired read of ${key}`);
      store(before); shape.push("s");
    } else { if (made) store(before); shape.push("="); }
    o.count("sequential-reads");
    if (r.bool(0.02)) { // a prompt read very often within its TTL expires all the same
      const held: any = ref.get(key), n = sim.fetches.length;
      if (held && !held.maybe && sim.now < held.until) {
        for (let j = r.int(60, 200); j > 0; j--) { const x: any = await client.prompt.get(name, { version, label } as any); o.equal(x.config.req, held.req, "hit-value", "frequently read"); }
        o.equal(sim.fetches.length, n, "hit-requests", `requests made by frequent reads of ${key} within its TTL`);
        o.count("hot-reads");
        await sim.advance(held.until - sim.now + r.pick([-1, 1, 1]));
      }
    }
  }
  o.note = { names, shape: shape.join("") };
  o.seen(shape.join(""));
}

defineCheck("C03", {
  rule: "A case is a random history of concurrent prompt reads (names that are prefixes of each other, versions, labels, TTLs), updates, deletions and clock steps against a server that stamps each answer with its request; distinct by the sequence of answer kinds (fetched/cached/stale/fallback/error).",
  required: ["reads", "answered-fresh", "answered-stale", "answered-by-fetch", "reads-after-invalidation", "sequential-reads", "near-expiry", "hot-reads"],
  assumptions: ["labels contain no ':' (the server's alphabet has none)"],
}, [
  { name: "concurrent", quick: 500, run: (r, o) => history(r, o, { mutate: false, faults: false, slow: true }) },
  { name: "mutations", quick: 700, run: (r, o) => history(r, o, { mutate: true, faults: false, slow: true }) },
  { name: "faults", quick: 400, run: (r, o) => history(r, o, { mutate: true, faults: true, slow: true }) },
  { name: "sequential", quick: 500, run: sequential },
]);
