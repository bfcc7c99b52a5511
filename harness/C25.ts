import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, KEYS, mediaIdOf, sha256b64 } from "../lib/env";
import { LangfuseClient, MediaManager } from "@langfuse/client";
import { LangfuseMedia, LangfuseMediaReference } from "@langfuse/core";
import { inspect } from "node:util";

const TYPES = ["image/png", "image/svg+xml", "audio/mpeg", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "text/plain", "video/mp4"];
const randBytes = (r: Rng, n: number) => { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = r.int(0, 255); return b; };

async function ids(r: Rng, o: Obs) {
  setEnv({});
  const seen = new Map<string, string>();
  for (let k = r.int(2, 8); k > 0; k--) {
    const n = r.weighted<number>([[1, 0], [2, r.int(1, 3)], [4, r.int(4, 100)], [0.5, r.int(30000, 80000)], [0.25, r.int(130_000, 300_000)]]);
    const bytes = randBytes(r, n), type = r.pick(TYPES);
    const a = new LangfuseMedia({ source: "bytes", contentBytes: bytes, contentType: type as any });
    const id = await a.getId(), tag = await a.getTag();
    o.equal(id, mediaIdOf(bytes), "id"); o.equal(await a.getSha256Hash(), sha256b64(bytes), "hash"); o.equal(a.contentLength, n, "length");
    const hex = Buffer.from(bytes).toString("hex");
    if (seen.has(id!)) o.equal(seen.get(id!), hex, "id-collision"); seen.set(id!, hex);
    const p = MediaManager.parseReferenceString(tag!);
    o.equal({ ...p }, { mediaId: id, source: "bytes", contentType: type }, "token-roundtrip");
    o.equal(a.base64DataUri, `data:${type};base64,${Buffer.from(bytes).toString("base64")}`, "data-uri"); o.equal(JSON.stringify(a), JSON.stringify(a.base64DataUri), "to-json");
    if (n) {
      const extra = r.pick(["", ";charset=utf-8", ";name=x"]);
      const b = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${type}${extra};base64,${Buffer.from(bytes).toString("base64")}` });
      o.equal(await b.getId(), id, "id-across-sources");
      o.equal(Buffer.from(b._contentBytes!).toString("hex"), hex, "decoded-bytes");
      o.equal({ ...MediaManager.parseReferenceString((await b.getTag())!) }, { mediaId: id, source: "base64_data_uri", contentType: type }, "token-roundtrip");
      // a view into a larger buffer has the id of the viewed bytes only
      const big = new Uint8Array(n + 7); big.set(bytes, 3); const view = big.subarray(3, 3 + n);
      const mv = new LangfuseMedia({ source: "bytes", contentBytes: view, contentType: type as any });
      o.equal(await mv.getId(), id, "id-of-view"); o.equal(await mv.getTag(), tag, "id-of-view"); o.equal(mv.contentLength, n, "id-of-view"); o.check(mv.base64DataUri === a.base64DataUri, "data-uri-of-view", () => show(mv.base64DataUri));
    }
    const fl = bytes.slice(); if (n) { fl[r.int(0, n - 1)] ^= 1 << r.int(0, 7); o.check((await new LangfuseMedia({ source: "bytes", contentBytes: fl, contentType: type as any }).getId()) !== id, "id-distinct"); }
    o.count("media");
  }
  for (const bad of ["", "x", "data:", "data:,", "data:image/png,AAAA", "data:;base64,AAAA", "http://x", "data:image/png;base64", undefined, null, 5] as any[]) {
    const m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: bad });
    o.equal([await m.getId(), await m.getTag(), m.base64DataUri, m.contentLength], [null, null, null, undefined], "invalid-uri", show(bad));
  }
  for (const bad of ["", "@@@langfuseMedia:@@@", "langfuseMedia:type=a|id=b|source=c", "@@@langfuseMedia:type=a|id=b@@@", "@@@langfuseMedia:id=b|source=c@@@", "@@@langfuseMedia:type=a|source=c@@@", "@@@langfuseMedia:type=a|id=b|source=c@@", "###langfuseMedia:type=a|id=b|source=c@@@", "@@@langfuseMedia|type=a|id=b|source=c@@@", "@@@langfuseMedia:type=a|id=b|source=c", "x@@@langfuseMedia:type=a|id=b|source=c@@@", "@@@langfuseMedia:type=a|id=b|source=c@@@ "]) {
    let threw = false; try { MediaManager.parseReferenceString(bad); } catch { threw = true; } o.check(threw, "malformed-token", bad);
  }
  // expiry of signed urls
  for (let k = 0; k < 4; k++) {
    const th = r.pick<number | undefined>([undefined, 0, 60, 120]), delta = r.pick([r.int(-200, 400), th ?? 60, (th ?? 60) + 1, (th ?? 60) - 1]);
    const ref = new LangfuseMediaReference({ mediaId: "m", contentType: "image/png", url: "https://s.test/x", urlExpiry: new Date(Date.now() + delta * 1000).toISOString(), referenceString: "REF" });
    o.equal(th === undefined ? ref.isUrlExpired() : ref.isUrlExpired(th), delta <= (th ?? 60), "expiry", `delta ${delta} threshold ${th}`);
    o.equal(JSON.stringify({ a: ref }), '{"a":"REF"}', "reference-json");
    const bytes = randBytes(r, r.int(0, 50)), status = r.pick([200, 200, 206, 404, 403, 500]);
    sim.onFetch = () => ({ status, body: bytes });
    const d: any = await sim.drive(ref.fetchDataUri());
    if (status < 300) o.equal(d.value, `data:image/png;base64,${Buffer.from(bytes).toString("base64")}`, "fetch"); else o.check(d.status === "rejected", "fetch-failure");
    o.check(!sim.fetches.at(-1)!.headers.authorization, "credentials");
  }
  o.seen([...seen.values()].map((x) => x.slice(0, 4) + x.length).join());
}

async function resolve(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const pool = r.list(r.int(1, 5), (i) => { const bytes = randBytes(r, r.int(0, 30)); return { id: r.bool(0.2) ? `id/${i} ü?` : mediaIdOf(Uint8Array.from([...bytes, i])), bytes, type: r.pick(TYPES), fail: r.weighted<string>([[6, ""], [1, "api"], [1, "store"], [0.5, "neturl"], [0.5, "netapi"]]) }; });
  const tok = (m: any, src = "bytes") => { const pairs = [`type=${r.pick([m.type, "image/jpeg"])}`, `id=${m.id}`, `source=${src}`]; return `@@@langfuseMedia:${(r.bool(0.1) ? r.shuffle([...pairs, ...(r.bool() ? ["v=2"] : [])]) : pairs).join("|")}@@@`; };
  sim.onFetch = (q) => {
    if (q.path.startsWith("/api/public/media/")) {
      const m = pool.find((x) => x.id === decodeURIComponent(q.path.slice(18))); o.check(m, "asked-id", () => `unexpected media id in ${q.path}`);
      if (m!.fail === "api") return { status: r.pick([404, 403]), body: {} };
      if (m!.fail === "netapi") return { error: new TypeError("fetch failed") };
      return { status: 200, body: { mediaId: m!.id, contentType: m!.type, contentLength: 1, uploadedAt: "x", url: `https://store.test/m/${pool.indexOf(m!)}?sig=1`, urlExpiry: "x" }, delay: r.pick([0, 3, 20]) };
    }
    const k = /^\/m\/(\d+)$/.exec(q.path)!; const m = pool[+k[1]];
    o.check(!q.headers.authorization, "credentials");
    if (m.fail === "store") return { status: r.pick([403, 404, 500, 204]), body: "no" };
    if (m.fail === "neturl") return { error: new TypeError("reset") };
    return { status: 200, body: m.bytes, delay: r.pick([0, 3, 20]) };
  };
  let tokens = 0, unresolved = 0, maxD = 0;
  const str = (): { v: string; e: string } => {
    let v = "", e = "";
    for (let k = r.int(0, 4); k > 0; k--) {
      if (r.bool(0.5)) { const m = r.pick(pool), t = tok(m, r.pick(["bytes", "base64_data_uri", "file"])); v += t; if (m.fail) { e += t; unresolved++; } else e += `data:${m.type};base64,${Buffer.from(m.bytes).toString("base64")}`; tokens++; }
      else { const x = r.pick(["plain ", r.text(6).replaceAll("@", "a"), "@@@langfuseMedia:type=a|id=b@@@", "$& $1 $$", "\n", " langfuseMedia "]); v += x; e += x; }
    }
    return { v, e };
  };
  const gen = (d: number, level: number): { v: any; e: any } => {
    maxD = Math.max(maxD, level);
    return r.weighted<() => { v: any; e: any }>([
      [3, str], [1, () => { const v = r.pick<any>([null, 0, 5.5, true, undefined, 10n]); return { v, e: v }; }],
      [0.6, () => { const v = r.pick<any>([new Date(12345), new Map([["a", 1]]), Uint8Array.from([1, 2]), /x/g, new Set([1])]); return { v, e: v }; }],
      [d > 0 ? 2 : 0, () => { const xs = r.list(r.int(0, 3), () => gen(d - 1, level + 1)); return { v: xs.map((x) => x.v), e: xs.map((x) => x.e) }; }],
      [d > 0 ? 3 : 0, () => { const v: any = {}, e: any = {}; for (let k = r.int(0, 3); k > 0; k--) { const key = r.pick(["a", "b", "image url", "toString", "é", "type", "toJSON", "id", "source", "url", "content", "mediaId", "constructor", ""]) + (r.bool() ? k : ""); const c = gen(d - 1, level + 1); v[key] = c.v; e[key] = c.e; } return { v, e }; }],
    ])();
  };
  const depth = r.pick([0, 1, 2, 3, 4, 5]);
  let { v, e } = gen(depth, 0);
  // deep chains: content at every level up to the limit, the documented one or one given
  let maxDepth: number | undefined = r.bool(0.2) ? 10 : undefined;
  if (r.bool(0.2)) {
    if (r.bool(0.3)) maxDepth = r.int(0, 30);
    const lim = maxDepth ?? 10, len = r.weighted([[2, lim], [2, r.int(0, lim)], [1, lim + 1], [1, lim + r.int(1, 5)]]);
    // below the limit nothing is looked at
    const at = (x: { v: any; e: any }, depth: number) => (depth > lim ? { v: x.v, e: x.v } : x);
    ({ v, e } = at(str(), len));
    if (len > lim) o.count("below-limit");
    for (let k = len; k > 0; k--) { const side = at(r.bool(0.3) ? str() : { v: 1, e: 1 }, k); if (r.bool()) { v = [side.v, v]; e = [side.e, e]; } else { v = { n: v, s: side.v }; e = { n: e, s: side.e }; } }
    o.count("deep");
  }
  const before = inspect(v, { depth: 60 });
  const d: any = await sim.drive(client.media.resolveReferences({ obj: v, resolveWith: "base64DataUri", ...(maxDepth !== undefined ? { maxDepth } : {}) }));
  o.check(d.status === "fulfilled", "rejects", () => show(d));
  o.check(deepEqual(d.value, e), "resolved", () => `of ${show(v)}: expected ${show(e)} got ${show(d.value)}`);
  o.equal(inspect(v, { depth: 60 }), before, "mutated");
  o.count("tokens", tokens); o.count("unresolvable", unresolved); o.count("objects");
  o.note = { tokens, unresolved };
  o.seen(`${tokens}:${unresolved}:${before.replace(/[^{}\[\]]/g, "").slice(0, 50)}`);
}
defineCheck("C25", {
  rule: "ids: random contents through both constructors, views and malformed inputs against an independent hash. resolve: random nested values (including dates, maps, byte arrays) with several tokens per string and scripted API and store failures, compared with a model. Distinct by contents or by token counts and structure.",
  required: ["media", "tokens", "unresolvable", "objects", "deep", "below-limit"],
  assumptions: ["content types contain no '=' or '|'; nesting within the documented depth limit of 10; class instances are outside the property"],
}, [{ name: "ids", quick: 400, run: ids }, { name: "resolve", quick: 2000, run: resolve }]);
