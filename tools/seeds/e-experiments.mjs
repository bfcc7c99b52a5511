const EM = "packages/client/src/experiment/ExperimentManager.ts", RC = "packages/client/src/experiment/RunnerContext.ts", AD = "packages/client/src/experiment/adapters.ts", DS = "packages/client/src/dataset/index.ts", JP = "packages/client/src/dataset/jsonPath.ts", MU = "packages/core/src/mediaUpload.ts", ME = "packages/core/src/media.ts", MM = "packages/client/src/media/index.ts", UT = "packages/core/src/utils.ts";
const cl = `quiet(); const { LangfuseClient } = lf("client"); const client = new LangfuseClient(KEYS); const core = lf("core");
`;
// A small Langfuse server: datasets, items, links, scores, media.
const srv = `const items = []; const store = new Map(); let over = async () => undefined; const puts = [], patches = [];
  const base = async (r) => { const o = await over(r); if (o) return o;
    if (r.path === "/api/public/projects") return { body: { data: [{ id: "prj" }] } };
    if (r.path === "/api/public/dataset-items" && r.method === "GET") { const limit = Math.min(+r.query.get("limit"), 50), page = +r.query.get("page"); return { body: { data: structuredClone(items.slice((page - 1) * limit, page * limit)), meta: { page, limit, totalItems: items.length, totalPages: Math.ceil(items.length / limit) } } }; }
    if (r.path === "/api/public/dataset-items") return { body: r.json };
    if (r.path === "/api/public/dataset-run-items") return { body: { id: "l", datasetRunId: "run-" + r.json.runName } };
    if (r.path.startsWith("/api/public/v2/datasets/")) return { body: { id: "ds", name: decodeURIComponent(r.path.split("/").pop()) } };
    if (r.path === "/api/public/media" && r.method === "POST") { const id = r.json.sha256Hash.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22); return { body: { mediaId: id, uploadUrl: "http://bucket.test/" + id } }; }
    if (r.method === "PUT") { puts.push(r); return { status: 200, body: "" }; }
    if (r.method === "PATCH") { patches.push(r); return { status: 200, body: {} }; }
    if (r.path.startsWith("/api/public/media/")) { const id = decodeURIComponent(r.path.split("/").pop()); return store.has(id) ? { body: { mediaId: id, contentType: "text/plain", contentLength: 1, url: "http://bucket.test/get/" + id, urlExpiry: "2030-01-01T00:00:00Z", uploadedAt: "2020-01-01T00:00:00Z" } } : { status: 404, body: {} }; }
    if (r.path.startsWith("/get/")) return { body: store.get(r.path.slice(5)) };
    return { status: 207, body: { successes: [], errors: [] } }; };
  serve(base);
`;
const bytes = `const M = (s, t = "text/plain") => new core.LangfuseMedia({ source: "bytes", contentBytes: new TextEncoder().encode(s), contentType: t });
`;
export default [
{ id: "C20-sync-evaluator-throw", property: "C20",
  edits: [[EM, `    const evalPromises: Promise<Evaluation[]>[] = evaluators.map(
      async (evaluator) => {`, `    const evalPromises: Promise<Evaluation[]>[] = evaluators.map(
      (evaluator) => {`]],
  needs: "an evaluator that throws before returning a promise",
  breaks: "the item loses its result and its other evaluations",
  demo: cl + srv + `tracing(); const r = await client.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => "o", evaluators: [() => { throw new Error("x"); }, async () => ({ name: "ok", value: 1 })] });
  assert.equal(r.itemResults.length, 1); assert.equal(r.itemResults[0].evaluations.length, 1);` },
{ id: "C20-sync-run-evaluator-throw", property: "C20",
  edits: [[EM, `      const promises = runEvaluators.map(async (runEvaluator) => {`, `      const promises = runEvaluators.map((runEvaluator) => {`]],
  needs: "a run-level evaluator that throws before returning a promise",
  breaks: "the whole experiment rejects",
  demo: cl + srv + `tracing(); const r = await client.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => "o", runEvaluators: [() => { throw new Error("x"); }] });
  assert.equal(r.itemResults.length, 1);` },
{ id: "C20-falsy-input-skipped", property: "C20",
  edits: [[EM, `        if (input === undefined) {`, `        if (input == null || input === "") {`]],
  needs: "an item whose input is null or the empty string",
  breaks: "the task is never called for that item",
  demo: cl + srv + `tracing(); const seen = []; await client.experiment.run({ name: "e", data: [{ input: "" }, { input: null }, { input: 0 }], task: async (i) => { seen.push(i.input); } });
  assert.equal(seen.length, 3);` },
{ id: "C20-average-drops-zero", property: "C20",
  edits: [[EM, `          .filter((e) => e.name === evalName && typeof e.value === "number")
          .map((e) => e.value as number);`, `          .filter((e) => e.name === evalName && typeof e.value === "number")
          .map((e) => e.value as number)
          .filter(Number);`]],
  needs: "a numeric evaluation of value zero",
  breaks: "the formatted average leaves the zero out",
  demo: cl + srv + `tracing(); const r = await client.experiment.run({ name: "e", data: [{ input: 0 }, { input: 1 }], task: async (i) => i.input, evaluators: [async ({ output }) => ({ name: "s", value: output })] });
  assert.match(await r.format(), /s: 0\\.500/);` },
{ id: "C20-completion-order", property: "C20",
  edits: [[EM, `    const itemResultsByIndex: Array<
      ExperimentItemResult<Input, ExpectedOutput, Metadata> | undefined
    > = new Array(data.length);`, `    const itemResultsByIndex: Array<
      ExperimentItemResult<Input, ExpectedOutput, Metadata> | undefined
    > = [];`], [EM, `        const index = nextIndex++;
        const item = data[index];`, `        const item = data[nextIndex++];
        const index = data.indexOf(item as any);`]],
  needs: "the same item object listed twice in the data",
  breaks: "the second execution overwrites the first; fewer results than successful items",
  demo: cl + srv + `tracing(); const a = { input: 1 }, b = { input: 2 }; let n = 0; const r = await client.experiment.run({ name: "e", data: [a, b, a], task: async () => n++ });
  assert.equal(r.itemResults.length, 3);` },
{ id: "C21-link-once-per-item-id", property: "C21",
  edits: [[EM, `  private langfuseClient: LangfuseClient;
`, `  private langfuseClient: LangfuseClient;
  private linkedRunIds = new Map<string, string>();
`], [EM, `        if (datasetItemId) {
          try {`, `        const linkKey = \`\${params.experimentRunName}:\${datasetItemId}\`;
        if (this.linkedRunIds.has(linkKey)) {
          datasetRunId = this.linkedRunIds.get(linkKey);
        } else if (datasetItemId) {
          try {`], [EM, `            datasetRunId = result.datasetRunId;
`, `            datasetRunId = result.datasetRunId;
            this.linkedRunIds.set(linkKey, result.datasetRunId);
`]],
  needs: "the same dataset item executed a second time under the same run name",
  breaks: "the second execution is not linked to the run",
  demo: cl + srv + `tracing(); const go = () => client.experiment.run({ name: "e", runName: "r", data: [{ id: "i1", datasetId: "ds", input: 1 }], task: async () => 1 });
  await go(); await go(); assert.equal(requests.filter((r) => r.path.endsWith("dataset-run-items")).length, 2);` },
{ id: "C21-flush-detached", property: "C21",
  edits: [[EM, `    await this.langfuseClient.score.flush();
`, `    const scoresFlushed = this.langfuseClient.score.flush();
    if (runEvaluations.length > 0 || !datasetRunId) await scoresFlushed;
`]],
  needs: "a dataset experiment without run-level evaluations and a slow ingestion endpoint",
  breaks: "the experiment resolves while scores are still in flight",
  demo: cl + srv + `tracing(); over = async (r) => { if (r.path.endsWith("/ingestion")) await sleep(150); };
  await client.experiment.run({ name: "e", data: [{ id: "i1", datasetId: "ds", input: 1 }], task: async () => 1, evaluators: [async () => ({ name: "s", value: 1 })] });
  assert.ok(requests.filter((r) => r.path.endsWith("/ingestion")).length === 1 && requests.every((r) => r.done));` },
{ id: "C21-same-name-merged", property: "C21",
  edits: [[EM, `    for (const ev of evals) {
      this.langfuseClient.score.create({`, `    for (const ev of new Map(evals.map((e) => [e.name, e])).values()) {
      this.langfuseClient.score.create({`]],
  needs: "two evaluations of the same name for one item",
  breaks: "only the last of them becomes a score",
  demo: cl + srv + `tracing(); await client.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => 1, evaluators: [async () => ({ name: "s", value: 1 }), async () => ({ name: "s", value: 0 })] });
  assert.equal(ingested().length, 2);` },
{ id: "C22-stop-on-short-page", property: "C22",
  edits: [[DS, `      if (itemsResponse.meta.totalPages <= page) {`, `      if (
        itemsResponse.meta.totalPages <= page ||
        itemsResponse.data.length < (options?.fetchItemsPageSize ?? 50)
      ) {`]],
  needs: "a server that caps the page size below the requested one",
  breaks: "only the first page of items is returned",
  demo: cl + srv + `for (let i = 0; i < 120; i++) items.push({ id: "i" + i, input: i });
  assert.equal((await client.dataset.get("d", { fetchItemsPageSize: 100 })).items.length, 120);` },
{ id: "C22-one-digit-index", property: "C22",
  edits: [[JP, `      while (i < n && jsonPath[i] >= "0" && jsonPath[i] <= "9") {`, `      if (i < n && jsonPath[i] >= "0" && jsonPath[i] <= "9") {`]],
  needs: "a media reference at array index 10 or more",
  breaks: "the reference is not hydrated",
  demo: cl + srv + `const tok = "@@@langfuseMedia:type=text/plain|id=x|source=bytes@@@"; const media = { mediaId: "x", contentType: "text/plain", url: "http://b/", urlExpiry: "2030", contentLength: 1 };
  items.push({ id: "i", input: Array.from({ length: 12 }, () => tok), mediaReferences: [{ field: "input", jsonPath: "$[11]", referenceString: tok, media }] });
  assert.equal((await client.dataset.get("d")).items[0].input[11].mediaId, "x");` },
{ id: "C22-archived-not-run", property: "C22",
  edits: [[DS, `        data: items,
        datasetVersion: options?.version,
        ...params,`, `        datasetVersion: options?.version,
        ...params,
        data: itemsWithLinkMethod.filter(
          (item) => item.status !== "ARCHIVED",
        ),`]],
  needs: "a dataset with an archived item among those the server returned",
  breaks: "the experiment does not run on that item",
  demo: cl + srv + `tracing(); items.push({ id: "a", input: 1, status: "ARCHIVED", datasetId: "ds" }, { id: "b", input: 2, status: "ACTIVE", datasetId: "ds" }); const seen = [];
  const d = await client.dataset.get("d"); await d.runExperiment({ name: "e", task: async (i) => { seen.push(i.id); } }); assert.deepEqual(seen, d.items.map((i) => i.id));` },
{ id: "C23-shared-object-not-walked", property: "C23",
  edits: [[DS, `  const nextAncestors = new Set(ancestors).add(data);`, `  const nextAncestors = ancestors.add(data);`]],
  needs: "the same object, holding a medium, at two places of a field",
  breaks: "the second occurrence is sent with the raw medium instead of its token",
  demo: cl + srv + bytes + `const part = { m: M("a") }; await client.dataset.createItem({ datasetName: "d", input: { x: part, y: part } });
  const sent = requests.find((r) => r.path.endsWith("dataset-items")).json.input; assert.deepEqual(sent.x, sent.y); assert.match(sent.y.m, /^@@@/);` },
{ id: "C23-depth-off-by-one", property: "C23",
  edits: [[DS, `  if (level > MAX_MEDIA_TRAVERSAL_DEPTH) {`, `  if (level >= MAX_MEDIA_TRAVERSAL_DEPTH) {`]],
  needs: "a medium inside exactly twenty levels of nesting",
  breaks: "the medium is neither uploaded nor replaced",
  demo: cl + srv + bytes + `let v = M("a"); for (let i = 0; i < 20; i++) v = [v]; await client.dataset.createItem({ datasetName: "d", input: v });
  assert.match(requests.find((r) => r.path.endsWith("dataset-items")).body, /@@@langfuseMedia/); assert.equal(puts.length, 1);` },
{ id: "C23-null-proto-skipped", property: "C23",
  edits: [[DS, `  return proto === Object.prototype || proto === null;`, `  return proto?.constructor === Object;`]],
  needs: "a medium inside an object without a prototype",
  breaks: "the medium is not uploaded and no token is put in place",
  demo: cl + srv + bytes + `const o = Object.create(null); o.m = M("a"); await client.dataset.createItem({ datasetName: "d", metadata: o });
  assert.equal(puts.length, 1);` },
{ id: "C24-gcs-anywhere-in-url", property: "C24",
  edits: [[MU, `        parsedHostname === "storage.googleapis.com" ||
        parsedHostname.endsWith(".storage.googleapis.com");`, `        parsedHostname.endsWith("storage.googleapis.com");`]],
  needs: "a store whose host name ends with the Google one without being it",
  breaks: "the content hash header is not sent to that store",
  demo: cl + srv + bytes + `over = async (r) => r.path === "/api/public/media" ? { body: { mediaId: await M("a").getId(), uploadUrl: "https://my-storage.googleapis.com/x" } } : undefined;
  await core.uploadMedia({ apiClient: client.api, media: M("a"), field: "input" }); assert.ok(puts[0].headers["x-amz-checksum-sha256"]);` },
{ id: "C24-retry-limit-plus-one", property: "C24",
  edits: [[MU, `      if (attempt === maxRetries) {
        throw e;
      }
`, `      if (attempt === maxRetries) {
        if (!(e instanceof TypeError)) throw e;
        return await fetch(uploadUrl, {
          method: "PUT",
          body: contentBytes as Uint8Array<ArrayBuffer>,
          headers: { "Content-Type": contentType },
        });
      }
`]],
  needs: "connection failures on every attempt",
  breaks: "one attempt more than the retry limit, without the hash header",
  demo: cl + srv + bytes + `let n = 0; over = async (r) => { if (r.method === "PUT") { n++; return { error: new TypeError("fetch failed") }; } };
  await assert.rejects(core.uploadMedia({ apiClient: client.api, media: M("a"), field: "input", maxRetries: 0, baseDelay: 1 })); assert.equal(n, 1);` },
{ id: "C25-view-of-larger-buffer", property: "C25",
  edits: [[ME, `      const hash = await crypto.subtle.digest("SHA-256", this._contentBytes);`, `      const hash = await crypto.subtle.digest(
        "SHA-256",
        this._contentBytes.buffer as ArrayBuffer,
      );`]],
  needs: "content bytes that are a view of a larger buffer",
  breaks: "equal bytes get different ids",
  demo: cl + `const b = new Uint8Array([1, 2, 3, 4]); const a = new core.LangfuseMedia({ source: "bytes", contentBytes: b.subarray(1, 3), contentType: "text/plain" }), c = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([2, 3]), contentType: "text/plain" });
  assert.equal(await a.getId(), await c.getId());` },
{ id: "C25-first-occurrence-only", property: "C25",
  edits: [[MM, `          result = result.replaceAll(referenceString, base64MediaContent) as T &`, `          result = result.replace(referenceString, base64MediaContent) as T &`]],
  needs: "a string holding the same token twice",
  breaks: "the second token stays unresolved",
  demo: cl + srv + `store.set("x", "abc"); const t = "@@@langfuseMedia:type=text/plain|id=x|source=bytes@@@"; const r = await client.media.resolveReferences({ obj: t + t, resolveWith: "base64DataUri" }); assert.ok(!r.includes("@@@"));` },
{ id: "C25-arrays-in-place", property: "C25",
  edits: [[MM, `        return Promise.all(
          obj.map(async (item) => await traverse(item, depth + 1)),
        ) as Promise<T>;`, `        await Promise.all(
          obj.map(async (item, i) => {
            obj[i] = await traverse(item, depth + 1);
          }),
        );
        return obj;`]],
  needs: "tokens inside an array",
  breaks: "the caller's array is mutated",
  demo: cl + srv + `store.set("x", "abc"); const t = "@@@langfuseMedia:type=text/plain|id=x|source=bytes@@@"; const o = { a: [t] }; await client.media.resolveReferences({ obj: o, resolveWith: "base64DataUri" }); assert.deepEqual(o, { a: [t] });` },
{ id: "C25-depth-off-by-one", property: "C25",
  edits: [[MM, `      if (depth > maxDepth) {`, `      if (depth >= maxDepth) {`]],
  needs: "a token at exactly the documented depth",
  breaks: "that token is not resolved",
  demo: cl + srv + `store.set("x", "abc"); let v = "@@@langfuseMedia:type=text/plain|id=x|source=bytes@@@"; for (let i = 0; i < 10; i++) v = [v]; const r = await client.media.resolveReferences({ obj: v, resolveWith: "base64DataUri" }); assert.ok(!JSON.stringify(r).includes("@@@"));` },
{ id: "C25-uri-params-in-type", property: "C25",
  edits: [[ME, `      const contentType = headerParts[0];`, `      const contentType = headerParts
        .filter((part) => part !== "base64")
        .join(";");`]],
  needs: "a data URI with a parameter such as a charset",
  breaks: "the token no longer parses back to the content type",
  demo: cl + `const m = new core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:text/plain;charset=utf-8;base64,aGk=" }); const { MediaManager } = lf("client");
  assert.equal(MediaManager.parseReferenceString(await m.getTag()).contentType, m._contentType);` },
{ id: "C33-empty-data-falls-back", property: "C33",
  edits: [[RC, `    const resolvedData = params.data ?? this.data;`, `    const resolvedData = params.data?.length ? params.data : this.data;`]],
  needs: "a call that gives an empty data list to a context with data",
  breaks: "the context's data is used although the call gave its own",
  demo: cl + srv + `tracing(); let n = 0; await new (lf("client").RunnerContext)({ client, data: [{ input: 1 }] }).runExperiment({ name: "e", data: [], task: async () => { n++; } }); assert.equal(n, 0);` },
{ id: "C33-zero-threshold-lost", property: "C33",
  edits: [[RC, `    this.threshold = threshold;`, `    this.threshold = threshold || undefined;`]],
  needs: "a threshold of zero",
  breaks: "the regression error does not carry the threshold",
  demo: `const e = new (lf("client").RegressionError)({ result: {}, metric: "m", value: -1, threshold: 0 }); assert.equal(e.threshold, 0);` },
{ id: "C33-null-output-defaulted", property: "C33",
  edits: [[AD, `      output: langfuseEvaluatorParams.output,
`, `      output: langfuseEvaluatorParams.output ?? "",
`]],
  needs: "an item whose output is null",
  breaks: "the AutoEvals evaluator is called with another output",
  demo: `let seen; const ev = lf("client").createEvaluatorFromAutoevals(async (a) => { seen = a; return { name: "x", score: 1 }; }); await ev({ input: 1, output: null, expectedOutput: null }); assert.equal(seen.output, null);` },
];
