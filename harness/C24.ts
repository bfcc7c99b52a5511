import { sim, defineCheck, Rng, Obs, show, deepEqual } from "../lib/check";
import { setEnv, KEYS, sha256b64, mediaIdOf } from "../lib/env";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseMedia, uploadMedia } from "@langfuse/core";

const flip = (s: string) => s.replace(/[a-zA-Z]/, (c) => (c === c.toLowerCase() ? c.toUpperCase() : c.toLowerCase()));
type Put = { status?: number; body?: string; error?: any; delay?: number };
async function run(r: Rng, o: Obs) {
  setEnv({});
  const client = new LangfuseClient(KEYS);
  const N = r.int(1, 4);
  const jobs = r.list(N, (i) => {
    const len = r.weighted<number>([[0.3, 0], [6, r.int(1, 60)], [1, r.int(1000, 70000)]]);
    const bytes = r.bool(0.3) ? new Uint8Array(new ArrayBuffer(len + 40), r.int(1, 20), len) : r.bool(0.2) ? Buffer.alloc(len) : new Uint8Array(len); for (let k = 0; k < len; k++) bytes[k] = (k * 7 + i * 31 + (k < 40 ? r.int(0, 255) : 0)) & 255;
    if (len) bytes[0] = i;
    const type = r.pick(["image/png", "audio/mpeg", "application/pdf", "video/mp4", "text/plain"]);
    const maxRetries = r.pick<number | undefined>([undefined, 0, 1, 2, 3, 5]), baseDelay = r.pick<number | undefined>([undefined, 10, 100, 1000]);
    const puts: Put[] = r.list(8, () => r.weighted<Put>([[3, { status: r.pick([200, 201]) }], [2, { status: r.pick([500, 502, 503, 504, 429, 408]) , body: "busy" }], [1.5, { error: r.pick<any>([new TypeError("fetch failed"), new Error("ECONNRESET"), new DOMException("x", "AbortError")]) }], [1, { status: r.pick([400, 403, 404, 412]), body: "denied" }], [0.4, { status: r.pick([204, 202, 206]) }]]));
    if (r.bool(0.3)) puts[0] = { status: 200 };
    for (const p of puts) p.delay = r.pick([0, 0, 5, 200, 9000]);
    return { i, bytes, type, maxRetries, baseDelay, puts, host: r.pick(["bucket.s3.amazonaws.com", "acct.blob.core.windows.net", "storage.googleapis.com", "b.storage.googleapis.com", "storage.googleapis.com.evil.test", "evilstorage.googleapis.com", "minio.local:9000"]), mode: r.weighted<string>([[7, "url"], [1, "nourl"], [1, "wrongid"], [1, "regfail"]]), patch: r.weighted<any>([[6, "ok"], [1, "fail"]]), ctx: r.pick<any>([{ traceId: "t" + i, observationId: "o" + i, field: "input" }, { traceId: "t" + i, field: "output" }, { datasetId: "d", datasetItemId: "di", field: "metadata" }]), uri: r.bool(0.3), regs: [] as any[], sent: [] as any[], patches: [] as any[], d: undefined as any };
  });
  const jobOfHash = (h: string) => jobs.find((j) => sha256b64(j.bytes) === h);
  sim.onFetch = (q) => {
    if (q.method === "POST" && q.path === "/api/public/media") {
      const j = jobOfHash(q.json.sha256Hash); o.check(j, "hash", () => `registered hash ${q.json.sha256Hash} matches no medium`);
      j!.regs.push(q);
      if (j!.mode === "regfail") return { status: r.pick([400, 401, 404]), body: {} };
      return { status: 200, body: { mediaId: j!.mode === "wrongid" ? r.pick([() => "other-id", () => flip(mediaIdOf(j!.bytes)), () => mediaIdOf(j!.bytes) + "A", () => mediaIdOf(j!.bytes).slice(0, -1), () => " " + mediaIdOf(j!.bytes)])() : mediaIdOf(j!.bytes), uploadUrl: j!.mode === "nourl" ? r.pick<any>([null, undefined]) : `https://${j!.host}/put/${j!.i}?X-Sig=a%2Bb` } };
    }
    const m = /^\/put\/(\d+)$/.exec(q.path);
    if (q.method === "PUT" && m) { const j = jobs[+m[1]]; j.sent.push(q); return j.puts[j.sent.length - 1] ?? { status: 200 }; }
    if (q.method === "PATCH" && q.path.startsWith("/api/public/media/")) { const id = decodeURIComponent(q.path.slice(18)); const j = jobs.find((x) => mediaIdOf(x.bytes) === id)!; o.check(j, "patch-id"); j.patches.push(q); return j.patch === "ok" ? { status: 200, body: {} } : { status: 400, body: {} }; }
    return { status: 404, body: {} };
  };
  const one = async (j: (typeof jobs)[0]) => {
    const media = j.uri && j.bytes.length ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${j.type};base64,${Buffer.from(j.bytes).toString("base64")}` }) : new LangfuseMedia({ source: "bytes", contentBytes: j.bytes, contentType: j.type as any });
    await uploadMedia({ apiClient: client.api, media, ...j.ctx, ...(j.maxRetries !== undefined ? { maxRetries: j.maxRetries } : {}), ...(j.baseDelay !== undefined ? { baseDelay: j.baseDelay } : {}) }).then((v) => { j.d = { ok: true, v }; }, (e) => { j.d = { ok: false, e }; });
  };
  const all = await sim.drive(Promise.all(jobs.map(one)));
  o.check(all.status === "fulfilled", "never-settles", () => show(all));
  for (const j of jobs) {
    const what = () => `len ${j.bytes.length} mode ${j.mode} retries ${j.maxRetries} puts ${show(j.puts.map((p) => p.status ?? "net"))}: ${j.sent.length} sent, ${show(j.d)}`;
    if (!j.bytes.length) { o.check(!j.d.ok && j.regs.length === 0 && j.sent.length === 0, "empty-medium", what); o.count("empty"); continue; }
    o.check(j.regs.length === 1, "registered-once", what);
    o.equal(j.regs[0].json, { contentType: j.type, contentLength: j.bytes.length, sha256Hash: sha256b64(j.bytes), ...j.ctx }, "registration");
    if (j.mode !== "url") {
      o.check(j.sent.length === 0, "sent-without-url", what);
      o.check(j.d.ok === (j.mode === "nourl"), "outcome", what);
      o.check(j.patches.length === 0, "patch-without-upload", what);
      o.count("mode-" + j.mode); continue;
    }
    const max = j.maxRetries ?? 3, base = j.baseDelay ?? 1000;
    const good = (p: Put) => p.status === 200 || p.status === 201;
    const upto = j.puts.slice(0, max + 1), firstGood = upto.findIndex(good);
    const last = j.puts[j.sent.length - 1];
    o.check(j.sent.length >= 1 && j.sent.length <= max + 1, "retry-bound", what);
    // transient failures must be retried; after a success nothing is sent; rejections by the store may or may not be retried
    const transient = (p: Put) => p.error !== undefined || (p.status !== undefined && (p.status >= 500 || p.status === 429 || p.status === 408));
    j.sent.slice(0, -1).forEach((_, k) => o.check(!good(j.puts[k]), "resent-after-success", what));
    if (j.sent.length < max + 1) o.check(!transient(last), "gave-up-early", what);
    if (firstGood >= 0 && j.puts.slice(0, firstGood).every(transient)) o.check(j.sent.length === firstGood + 1 && (j.d.ok || j.patch === "fail"), "not-recovered", what);
    for (const q of j.sent) {
      o.check(q.bodyBytes && deepEqual(Buffer.from(q.bodyBytes), Buffer.from(j.bytes)), "bytes", what);
      o.equal(q.headers["content-type"], j.type, "content-type");
      o.equal(q.url, `https://${j.host}/put/${j.i}?X-Sig=a%2Bb`, "url");
      const gcs = j.host === "storage.googleapis.com" || j.host.endsWith(".storage.googleapis.com");
      o.equal(q.headers["x-amz-checksum-sha256"], gcs ? undefined : sha256b64(j.bytes), "hash-header");
      o.equal(q.headers["x-ms-blob-type"], gcs ? undefined : "BlockBlob", "blob-header");
      o.check(!q.headers.authorization, "credentials");
    }
    for (let k = 1; k < j.sent.length; k++) { const gap = j.sent[k].t - j.sent[k - 1].doneAt; o.check(gap >= base * 2 ** (k - 1) - 1 && gap <= base * 2 ** (k - 1) + 1001, "backoff", () => `gap ${gap} before attempt ${k + 1}, base ${base}; ${what()}`); o.count("retries"); }
    if (last.error !== undefined) { o.check(!j.d.ok, "failure-hidden", what); o.check(j.patches.length === 0, "patch-without-status", what); o.count("network-failures"); }
    else {
      o.check(j.patches.length === 1, "status-reported", what);
      const p = j.patches[0].json;
      o.equal(p.uploadHttpStatus, last.status, "status-reported");
      o.check(!Number.isNaN(Date.parse(p.uploadedAt)), "uploaded-at"); o.check(j.patches[0].ev > j.sent.at(-1).doneEv, "status-order");
      if (last.status! >= 400) o.equal(p.uploadHttpError, last.body ?? "", "error-reported");
      o.check(p.uploadTimeMs === undefined || (p.uploadTimeMs >= j.sent.at(-1).doneAt - j.sent[0].t - 2 && p.uploadTimeMs <= j.patches[0].t - j.regs[0].t + 2), "time", () => `upload time ${p.uploadTimeMs} reported; first sent ${j.sent[0].t}, last answered ${j.sent.at(-1).doneAt}; ${what()}`);
      o.check(j.d.ok === (good(last) && j.patch === "ok"), good(last) ? "outcome" : "failure-hidden", what);
      o.count(good(last) ? "successes" : "http-failures");
    }
  }
  o.note = jobs.map((j) => ({ mode: j.mode, sent: j.sent.length, ok: j.d.ok }));
  o.seen(jobs.map((j) => `${j.mode}:${j.maxRetries}:${j.sent.map((_, k) => j.puts[k].status ?? "n").join("-")}:${j.host.slice(0, 8)}`).join(";"));
}
defineCheck("C24", {
  rule: "A case runs 1-4 concurrent uploads with random bytes, sources, retry settings, store hosts and scripts of store answers (success, 2xx that is not success, 4xx, 5xx, network errors) under a virtual clock; every request and delay is compared with the protocol. Distinct by mode, retry setting and answer sequence.",
  required: ["successes", "http-failures", "network-failures", "retries", "mode-nourl", "mode-wrongid", "mode-regfail", "empty"],
}, [{ name: "uploads", quick: 1500, run }]);
