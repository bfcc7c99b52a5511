import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, KEYS, installContextManager, MediaServer, mediaIdOf } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseMedia, LangfuseMediaReference } from "@langfuse/core";
import { inspect } from "node:util";

installContextManager();
class Money { constructor(public cents: number) {} toJSON() { return { amount: this.cents / 100 }; } }
class Point { constructor(public x: number, public y: number) {} }
async function run(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const used = new Map<string, { bytes: Uint8Array; type: string }>();
  const many = r.bool(0.01);
  const pool = r.list(many ? r.int(26, 110) : r.int(1, 5), (i) => { const bytes = Uint8Array.from(r.list(r.int(1, 40), () => r.int(0, 255)).concat([i])); return { bytes, type: r.pick(["image/png", "audio/wav", "application/pdf", "text/plain"]) }; });
  let invalid = false, deep = false, refs = 0;
  const media = (): { v: any; e: any } => {
    if (!many && r.bool(0.03)) { invalid = true; return { v: new LangfuseMedia({ source: "base64_data_uri", base64DataUri: r.pick(["nonsense", "data:image/png;base64,", "data:,x"]) }), e: null }; }
    if (r.bool(0.12)) { const s = `@@@langfuseMedia:type=image/png|id=old${refs}|source=bytes@@@`; refs++; return { v: new LangfuseMediaReference({ mediaId: "old", contentType: "image/png", url: "u", referenceString: s }), e: s }; }
    const p = r.pick(pool), id = mediaIdOf(p.bytes), asUri = r.bool(0.4);
    used.set(id, p);
    return { v: asUri ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${p.type};base64,${Buffer.from(p.bytes).toString("base64")}` }) : new LangfuseMedia({ source: "bytes", contentBytes: p.bytes, contentType: p.type as any }), e: `@@@langfuseMedia:type=${p.type}|id=${id}|source=${asUri ? "base64_data_uri" : "bytes"}@@@` };
  };
  const shared: any[] = [];
  const gen = (depth: number): { v: any; e: any } => {
    if (shared.length && r.bool(0.06)) return r.pick(shared);
    const k = r.weighted<string>([[2, "media"], [3, "leaf"], [depth > 0 ? 3 : 0, "arr"], [depth > 0 ? 4 : 0, "obj"], [0.4, "date"]]);
    let out: { v: any; e: any };
    if (k === "media") out = media();
    else if (k === "leaf") { const v = r.pick<any>([null, 0, false, "", r.text(8), 1.25, "@@@langfuseMedia:broken", []]); out = { v, e: v }; }
    else if (k === "date") { const v = r.pick<() => any>([() => new Date(1234567890), () => new URL("https://a.test/x?y=1"), () => new Money(r.int(0, 99)), () => new Map([["k", 1]]), () => new Set([1]), () => new Point(1, r.int(0, 9)), () => new String("boxed"), () => new Number(3)])(); out = { v, e: JSON.parse(JSON.stringify(v)) }; o.count("class-instances"); }
    else if (k === "arr") { const xs = r.list(r.int(0, 4), () => (r.bool(0.04) ? { v: undefined, e: null } : gen(depth - 1))); out = { v: xs.map((x) => x.v), e: xs.map((x) => x.e) }; }
    else { const v: any = r.bool(0.2) ? Object.create(null) : {}, e: any = {}; for (let i = r.int(0, 4); i > 0; i--) { const key = r.pick(["a", "b", "img", "x y", "toString", "length", "é"]) + (r.bool() ? i : ""); if (Object.hasOwn(v, key)) continue; const c = gen(depth - 1); v[key] = c.v; e[key] = c.e; } if (r.bool(0.1)) v.undef = undefined; out = { v, e }; }
    if (k === "arr" || k === "obj") shared.push(out);
    return out;
  };
  const field = () => { if (r.bool(0.25)) return { v: r.pick<any>([undefined, null]), e: undefined as any, skip: true }; const g = gen(r.int(0, 5)); return { ...g, skip: false }; };
  let cyclic = false;
  const special = r.weighted([[18, "none"], [1, "deep"], [1, "cyclic"]]);
  const f: any = { input: special === "deep" ? undefined : field(), expectedOutput: field(), metadata: special === "cyclic" || (many && special === "none") ? undefined : field() };
  if (special === "deep") { let { v, e } = media(); for (let i = r.pick([20, 20, r.int(1, 19)]); i > 0; i--) { if (r.bool()) { v = [v]; e = [e]; } else { v = { n: v }; e = { n: e }; } } f.input = { v, e, skip: false }; deep = true; }
  if (many && special === "none") { const xs = r.list(pool.length * 2 + 5, () => media()); f.metadata = { v: { all: xs.map((x) => x.v) }, e: { all: xs.map((x) => x.e) }, skip: false }; o.count("many-media"); }
  if (special === "cyclic") { const c: any = { m: media().v }; c.self = c; f.metadata = { v: c, e: undefined, skip: false }; cyclic = true; }
  const name = r.pick(["ds", "a/b c", (r.text(8) || "z").replace(/^\.\.?$/, "dots")]);
  const req: any = { datasetName: name, ...(r.bool(0.4) ? { id: r.pick(["given-id", " padded id ", "i/d", "Id\n"]) } : {}), ...(r.bool(0.2) ? { status: "ARCHIVED" } : {}), ...(r.bool(0.2) ? { sourceTraceId: "t" } : {}), ...(r.bool(0.2) ? { sourceObservationId: "obs" } : {}) };
  for (const k of Object.keys(f)) if (f[k].v !== undefined || r.bool()) req[k] = f[k].v;
  const snap = inspect(req, { depth: 40, maxArrayLength: null }), types = JSON.stringify(Object.keys(req));
  // server
  const plans = new Map<string, any>();
  const failing = new Set<string>();
  const faults = r.bool(0.4);
  const ms = new MediaServer((reg) => {
    if (!plans.has(reg.mediaId)) {
      const k = faults ? r.weighted<string>([[4, "ok"], [1, "post"], [1, "put"], [1, "retry"], [0.6, "wrong"], [1, "dup"]]) : r.pick(["ok", "ok", "dup"]);
      if (k === "post" || k === "put" || k === "wrong") failing.add(reg.mediaId);
      plans.set(reg.mediaId, k === "post" ? { post: r.pick<any>([{ status: 400, body: {} }, { error: new TypeError("x") }]) } : k === "put" ? { put: () => r.pick<any>([{ status: 403, body: "denied" }, { error: new TypeError("reset") }, { status: 500, body: "" }]) } : k === "retry" ? { put: (a: number) => (a === 0 ? { status: 503, body: "" } : { status: 200, body: "" }) } : k === "wrong" ? { wrongId: true } : k === "dup" ? { noUrl: true } : { put: () => ({ status: 200, body: "", delay: r.pick([0, 10, 300, 300, 45_000, 400_000]) }) });
    }
    return plans.get(reg.mediaId);
  });
  const created: any[] = [], dsGets: any[] = [];
  const createFails = r.bool(0.07), dsFails = r.bool(0.04);
  sim.onFetch = (q) => {
    const m = ms.handle(q); if (m) return m;
    if (q.method === "GET" && q.path.startsWith("/api/public/v2/datasets/")) { dsGets.push(decodeURIComponent(q.path.slice(24))); return dsFails ? { status: 404, body: {} } : { status: 200, body: { id: "ds-id", name } }; }
    if (q.method === "POST" && q.path === "/api/public/dataset-items") { created.push(q); return createFails ? { status: 400, body: {} } : { status: 200, body: { ...q.json, echoed: true } }; }
    return { status: 404, body: {} };
  };
  const d: any = await sim.drive(client.dataset.createItem(req));
  o.check(d.status !== "pending", "never-settles");
  o.equal(inspect(req, { depth: 40, maxArrayLength: null }), snap, "mutated"); o.equal(JSON.stringify(Object.keys(req)), types, "mutated");
  await sim.drain();
  const anyMedia = used.size > 0;
  const mustFail = invalid || cyclic || createFails || (anyMedia && (dsFails || [...used.keys()].some((id) => failing.has(id))));
  o.check((d.status === "rejected") === mustFail, d.status === "rejected" ? "rejects" : "failure-hidden", () => `${show(d)} invalid=${invalid} dsFails=${dsFails} failing=${[...failing]} cyclic=${cyclic}`);
  const uploadsOk = !invalid && !(anyMedia && (dsFails || [...used.keys()].some((id) => failing.has(id))));
  o.check(created.length === (uploadsOk && !cyclic ? 1 : 0), "item-created", () => `${created.length} create requests; uploads ${uploadsOk ? "succeeded" : "failed"}`);
  if (!uploadsOk) { o.count("failed-uploads"); o.seen("fail:" + used.size); return; }
  if (cyclic) { o.count("cyclic"); o.seen("cyclic"); return; }
  const body = created[0].json;
  for (const k of Object.keys(f)) if (req[k] === null) o.check(body[k] === null, "body", () => `${k}: null was given, ${show(body[k])} sent`);
  for (const k of Object.keys(f)) o.check(deepEqual(body[k] ?? undefined, f[k].skip ? undefined : f[k].e === undefined ? undefined : f[k].e ?? undefined), "body", () => `${k}: expected ${show(f[k].e)} got ${show(body[k])}`);
  o.equal(body.datasetName, name, "body-name");
  const id = req.id ?? body.id;
  o.check(typeof id === "string" && id.length > 0 && body.id === id, "body-id");
  for (const k of ["status", "sourceTraceId", "sourceObservationId"]) o.equal(body[k], req[k], "body-field");
  if (anyMedia) {
    o.equal(dsGets, [name], "dataset-lookup");
    o.equal([...ms.regs.map((g) => g.mediaId)].sort(), [...used.keys()].sort(), "uploaded-once");
    for (const g of ms.regs) {
      const m = used.get(g.mediaId)!;
      o.equal({ c: g.contentLength, d: g.datasetId, i: g.datasetItemId }, { c: m.bytes.length, d: "ds-id", i: id }, "registration");
      o.check(["input", "expectedOutput", "metadata"].includes(g.field), "registration-field", g.field);
      const has = (x: any): boolean => typeof x === "string" ? x.includes(`id=${g.mediaId}|`) : x && typeof x === "object" ? Object.values(x).some(has) : false;
      o.check(has(body[g.field]), "registration-field", () => `registered for ${g.field}, where the medium does not occur`);
      o.check(g.q.doneEv < created[0].ev, "upload-before-create");
      if (!plans.get(g.mediaId).noUrl) {
        const puts = ms.puts.filter((p) => p.token === `u${g.seq}`);
        o.check(puts.length && puts.at(-1).q.status === 200 && puts.at(-1).q.doneEv < created[0].ev && deepEqual([...puts.at(-1).q.bodyBytes], [...m.bytes]), "upload-before-create", () => `medium ${g.mediaId}`);
      }
      o.count("uploads");
    }
  } else o.check(sim.fetches.length === 1, "extra-requests", () => show(sim.fetches.map((q) => q.method + q.path)));
  if (!createFails) o.check(d.value.echoed === true, "result");
  o.count("items"); o.count("references", refs); if (deep) o.count("deep"); if (ms.regs.length > 1) o.count("several-media");
  o.note = { media: used.size, refs };
  o.seen(`${used.size}:${refs}:${JSON.stringify(body).replace(/[^{}\[\]]/g, "").slice(0, 60)}`);
}
defineCheck("C23", {
  rule: "A case creates a dataset item with a random nested structure holding media (several, duplicated by content, shared substructures, references, invalid media) against a scripted server with upload faults; requests are compared with a structural model. Distinct by media count and structure.",
  required: ["items", "uploads", "several-media", "failed-uploads", "references", "deep", "cyclic", "class-instances", "many-media"],
  assumptions: ["media nested at most 20 levels deep in plain objects and arrays"],
}, [{ name: "create", quick: 1500, run }]);
