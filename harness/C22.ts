import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, KEYS, installContextManager, makeTracing, idOf } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseMediaReference } from "@langfuse/core";
import { startObservation } from "@langfuse/tracing";

installContextManager();
const KEYCHARS = ["a", "img", "my image", "O'connor", 'a"b', "arr[0]", "a.b", "é", "$", "@", "*", "..", "0x", "__proto__", "constructor", "toString", "", "x]", "[", "'"];
const token = (id: string) => `@@@langfuseMedia:type=image/png|id=${id}|source=bytes@@@`;
const pathOf = (segs: (string | number)[]) => "$" + segs.map((s) => (typeof s === "number" ? `[${s}]` : `['${s}']`)).join("");
const clone = (x: any) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));

/** A random JSON value with tokens planted at known places. */
function plant(r: Rng, places: { segs: (string | number)[]; id: string }[], segs: (string | number)[], depth: number, uid: () => string, long = false): any {
  const at = typeof segs.at(-1) === "number" ? (segs.at(-1) as number) : 0;
  if (long && at < 99) return "text";
  if (r.bool(at >= 10 ? 0.6 : 0.35) && places.filter((p) => !p.segs.some((x) => typeof x === "number" && x >= 10)).length < 4 && places.length < 12) { const id = uid(); places.push({ segs, id }); return token(id); }
  if (depth <= 0 || r.bool(0.3)) return r.pick<any>([null, 0, 1.5, true, "text", r.text(6), "", [], {}]);
  if (r.bool(0.5)) { const n = r.weighted<number>([[9, r.int(0, 3)], [1, r.int(10, 14)], [0.3, r.int(100, 105)], [0.05, r.int(1000, 1003)]]); return r.list(n, (i) => plant(r, places, [...segs, i], depth - 1, uid, n >= 100 && i < n - 6)); }
  const o: any = Object.create(null);
  const keys = r.subset(KEYCHARS, 0.15).filter((k) => !(k === "'" || k === "x]"));
  for (const k of keys) o[k] = plant(r, places, [...segs, k], depth - 1, uid);
  return JSON.parse(JSON.stringify(o)); // own __proto__ keys, as from the wire
}

// a path segment of dots cannot be addressed in a URL, encoded or not
const dots = (s: string) => (/^\.\.?$/.test(s) ? "x" + s : s);
async function run(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const name = r.weighted<() => string>([[2, () => "plain-" + r.plain()], [2, () => dots(r.text(14) || "x")], [1, () => r.pick(["folder/sub name", "a?b=c&d#e", "100%", "ü/ö", "+ +", "%2F", "a\\b", "日本"])]])();
  const size = r.pick([undefined, 1, 2, 3, 7, 50, 100]);
  const cap = r.pick([1000, 1000, 100, 50, 10, 4]); // the largest page the server is willing to return
  const n = r.weighted<number>([[1, 0], [4, r.int(1, 8)], [2, r.int(9, 40)], [0.5, r.int(51, 130)]]);
  const version = r.pick<any>([undefined, undefined, "2026-01-01T00:00:00Z"]);
  let u = 0;
  const uid = () => `m${u++}`;
  const expected: any[] = [];
  let refs = 0, bad = 0;
  const server = r.list(n, (i) => {
    const item: any = { id: `it${i}`, status: r.pick(["ACTIVE", "ARCHIVED"]), datasetId: "d1", datasetName: name, sourceTraceId: r.pick([null, "t"]), sourceObservationId: null, createdAt: "2026-01-01T00:00:00Z", updatedAt: "x" };
    const mediaReferences: any[] = [];
    const exp = { ...item };
    for (const field of ["input", "expectedOutput", "metadata"]) {
      const places: any[] = [];
      const v = plant(r, places, [], 3, uid);
      item[field] = v;
      exp[field] = clone(v);
      for (const p of places) {
        if (!r.bool(0.8)) continue; // a token the server did not list stays a string
        const broken = r.bool(0.12);
        const media: any = r.bool(0.08) ? null : { mediaId: p.id, contentType: "image/png", url: `https://store.test/${p.id}`, urlExpiry: "2030-01-01T00:00:00Z", contentLength: 5 };
        let jsonPath = pathOf(p.segs);
        if (broken) { bad++; jsonPath = r.pick([() => pathOf([...p.segs, "nope"]), () => pathOf(["missing" + r.plain()]), () => pathOf(["missing", "deeper"]), () => pathOf([...p.segs, 0]), () => jsonPath + "x", () => jsonPath.slice(1), () => "$['__proto__']['polluted']", () => "$['constructor']['prototype']['polluted']", () => pathOf([...p.segs.slice(0, -1), "zz" + r.plain()]), () => pathOf([...p.segs.slice(0, -1), 9999]), () => "$[", () => "$[]", () => jsonPath + "[", () => jsonPath + "[]", () => jsonPath + "['", () => jsonPath + "]", () => "$x" + jsonPath.slice(1), () => "$" + jsonPath, () => jsonPath.replace(/\]$/, ""), () => jsonPath.replace(/\d+\]$/, "$&x").replace(/^\$$/, "$$[0x]"), () => "", () => "$[-1]", () => "$[1x]", () => "$['a"])(); }
        if (broken && jsonPath === pathOf(p.segs)) jsonPath = "$.";
        mediaReferences.push({ field: r.bool(0.03) && media && !broken ? (() => { bad++; return "future_field"; })() : field, referenceString: token(p.id), jsonPath, media });
        const last = mediaReferences.at(-1);
        if (!broken && media && last.field === field) {
          refs++;
          const rep = { $ref: p.id };
          if (!p.segs.length) exp[field] = rep;
          else { let t = exp[field]; for (const s of p.segs.slice(0, -1)) t = Object.getOwnPropertyDescriptor(t, s)!.value; Object.defineProperty(t, p.segs.at(-1), { value: rep, enumerable: true, configurable: true, writable: true }); }
        }
      }
    }
    if (r.bool(0.9)) item.mediaReferences = mediaReferences; else if (!mediaReferences.length) item.mediaReferences = r.pick<any>([null, undefined, []]); else item.mediaReferences = mediaReferences;
    expected.push(exp);
    return item;
  });
  const dsFields = { id: "d1", name, description: r.text(8), metadata: r.json(2), projectId: "p", createdAt: "c", updatedAt: "u", inputSchema: r.pick<any>([null, { type: "object" }]) };
  const pagesAsked: any[] = [];
  const failDataset = r.bool(0.05), failPage = r.bool(0.08) ? r.int(1, 3) : 0;
  // a server that fills its pages unevenly (items hidden from a page still count): some may be empty
  const ragged: [number, number][] | undefined = r.bool(0.1) ? (() => { const cuts = r.list(r.int(0, 4), () => r.int(0, n)).sort((a, b) => a - b); return [0, ...cuts].map((a, i) => [a, cuts[i] ?? n] as [number, number]); })() : undefined;
  if (ragged) o.count("uneven-pages");
  const posts: any[] = [];
  sim.onFetch = (q) => {
    if (q.method === "GET" && /^\/api\/public\/v2\/datasets\//.test(q.path)) {
      o.equal(decodeURIComponent(q.path.slice("/api/public/v2/datasets/".length)), name, "dataset-name"); o.equal(q.search, "", "dataset-name");
      return failDataset ? { status: 404, body: { message: "no" } } : { status: 200, body: dsFields, delay: r.pick([0, 5]) };
    }
    if (q.method === "GET" && q.path === "/api/public/dataset-items") {
      const s = new URLSearchParams(q.search), page = Number(s.get("page") ?? 1), limit = Math.min(cap, Number(s.get("limit") ?? 50));
      o.equal(s.get("datasetName"), name, "items-name");
      if (version) o.equal(s.get("version"), version, "version"); else o.check(!s.has("version"), "version");
      pagesAsked.push(page);
      if (failPage === page) return { status: 400, body: {} };
      if (ragged) { const [a, b] = ragged[page - 1] ?? [0, 0]; return { status: 200, body: { data: JSON.parse(JSON.stringify(server.slice(a, b))), meta: { page, limit, totalItems: n, totalPages: ragged.length } }, delay: r.pick([0, 5]) }; }
      return { status: 200, body: { data: JSON.parse(JSON.stringify(server.slice((page - 1) * limit, page * limit))), meta: { page, limit, totalItems: n, totalPages: Math.ceil(n / limit) } }, delay: r.pick([0, 5]) };
    }
    if (q.method === "POST" && q.path === "/api/public/dataset-run-items") { posts.push(q.json); return { status: 200, body: { id: "x", datasetRunId: "r" } }; }
    return { status: 404, body: {} };
  };
  const opts = size || version ? { ...(size ? { fetchItemsPageSize: size } : {}), ...(version ? { version } : {}) } : undefined;
  const d: any = await sim.drive(client.dataset.get(name, opts));
  const limit = Math.min(cap, size ?? 50), pages = ragged ? ragged.length : Math.max(1, Math.ceil(n / limit));
  o.check(({} as any).polluted === undefined, "pollution", () => { delete (Object.prototype as any).polluted; return "Object.prototype was modified"; });
  if (failDataset || (failPage && pagesAsked.includes(failPage))) { o.check(d.status === "rejected", "failure-hidden", () => show(d)); o.count("fetch-failures"); o.seen("fail"); return; }
  o.check(d.status === "fulfilled", "rejects", () => show(d));
  const ds = d.value;
  for (const [k, v] of Object.entries(dsFields)) o.check(deepEqual(ds[k], v), "dataset-field", () => `${k}: ${show(ds[k])}`);
  o.equal(ds.version, version, "version");
  o.equal(ds.items.map((x: any) => x.id), server.map((x) => x.id), "items");
  const norm = (x: any): any => x instanceof LangfuseMediaReference ? { $ref: x.mediaId } : Array.isArray(x) ? x.map(norm) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, norm(v)])) : x;
  ds.items.forEach((x: any, i: number) => {
    for (const [k, v] of Object.entries(expected[i])) o.check(deepEqual(JSON.stringify(norm(x[k])), JSON.stringify(v)), "item-field", () => `item ${i} ${k}: expected ${show(v)} got ${show(x[k])} (server ${show(server[i][k])}, references ${show(server[i].mediaReferences)})`);
    o.check(Object.keys(x).every((k) => k in server[i] || k === "link"), "item-keys", () => `item ${i} has ${Object.keys(x)}`);
    for (const m of server[i].mediaReferences ?? []) { /* each hydrated reference carries the server's record */
      const find = (y: any): any => y instanceof LangfuseMediaReference ? (y.referenceString === m.referenceString ? y : undefined) : y && typeof y === "object" ? Object.values(y).map(find).find(Boolean) : undefined;
      const hit = find(x[m.field]); if (hit) o.equal({ ...hit }, { ...m.media, referenceString: m.referenceString }, "reference-record");
    }
  });
  o.check(new Set(pagesAsked).size === pagesAsked.length && pagesAsked.every((q) => Number.isInteger(q) && q >= 1 && q <= pages), "pages", () => `asked ${show(pagesAsked)} of ${pages}`);
  if (n && r.bool(0.5)) {
    makeTracing({});
    const i = r.int(0, n - 1), span = startObservation("s");
    const args = r.pick<any>([undefined, { description: "d", metadata: { a: 1 } }, { description: "", metadata: {} }, { metadata: r.pick<any>([0, false, "", [1]]) }, { description: " d " }]);
    const l = await sim.drive(ds.items[i].link(span, "my run", args));
    o.check(l.status === "fulfilled", "link", () => show(l));
    o.equal(posts, [{ runName: "my run", datasetItemId: `it${i}`, traceId: span.otelSpan.spanContext().traceId, observationId: idOf(span.otelSpan), ...(args?.description !== undefined ? { runDescription: args.description } : {}), ...(args?.metadata !== undefined ? { metadata: args.metadata } : {}) }], "link-body");
    posts.length = 0;
    const seen: any[] = [];
    const own = r.bool(0.3) ? "2025-05-05T00:00:00Z" : undefined;
    const e = await sim.drive(ds.runExperiment({ name: "e", ...(own ? { datasetVersion: own } : {}), task: async (x: any) => { seen.push(x.id); return 1; }, maxConcurrency: 1 }));
    o.check(e.status === "fulfilled", "run-experiment", () => show(e));
    const runnableIds = server.filter((_, k) => expected[k].input !== undefined).map((x) => x.id);
    o.equal(seen, runnableIds, "run-experiment-items");
    o.equal(posts.map((p) => p.datasetVersion), runnableIds.map(() => own ?? version), "run-experiment-version");
    o.count("experiments");
  }
  o.count("items", n); o.count("pages", pages); o.count("hydrated", refs); o.count("unmatched-paths", bad); if (pages > 1) o.count("multi-page");
  o.note = { name, n, size, pages, refs, bad };
  o.seen(`${n}:${size}:${refs}:${bad}:${name.length}`);
}
defineCheck("C22", {
  rule: "A case is a scripted dataset (0-130 items, any page size, odd names) whose items hold media tokens at random locations with matching, missing, malformed and hostile paths; the fetched dataset is compared with a model computed from the server's data. Distinct by item count, page size, reference counts.",
  required: ["items", "multi-page", "hydrated", "unmatched-paths", "experiments", "fetch-failures"],
  assumptions: ["the server's paging metadata is truthful", "object keys that the server's path notation cannot express (containing ']) are outside the property"],
}, [{ name: "fetch", quick: 900, run }]);
