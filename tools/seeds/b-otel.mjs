const SP = "packages/otel/src/span-processor.ts";
const MS = "packages/otel/src/MediaService.ts";
const SF = "packages/otel/src/span-filter.ts";
const PR = "packages/core/src/propagation.ts";
export default [
{ id: "C07-flush-snapshot-first", property: "C07",
  edits: [[SP, `    await Promise.all(Array.from(this.pendingEndedSpans));
    await this.mediaService.flush();`, `    await Promise.all([
      ...Array.from(this.pendingEndedSpans),
      this.mediaService.flush(),
    ]);`]],
  needs: "a span whose mask is slow, so its upload is scheduled after the flush took its snapshot of uploads",
  breaks: "forceFlush resolves while the media upload of a span ended before the call is still running",
  demo: `quiet();
  serve((r) => r.method === "POST" ? { body: { mediaId: "x", uploadUrl: null }, delay: 200 } : {});
  const { processor } = tracing({ mask: async ({ data }) => { await sleep(30); return data; } });
  lf("tracing").startObservation("a", { input: "data:image/png;base64,AAAA" }).end();
  await processor.forceFlush();
  assert.ok(requests.length === 1 && requests[0].done, "upload not finished at flush");` },
{ id: "C07-pending-by-id", property: "C07",
  edits: [[SP, `    void processEndedSpanPromise.finally(() =>
      this.pendingEndedSpans.delete(processEndedSpanPromise),
    );`, `    void processEndedSpanPromise.finally(() =>
      this.pendingEndedSpans.clear(),
    );`]],
  needs: "two spans in processing, the later one slower than the earlier one",
  breaks: "the first span to finish processing makes flush forget the others",
  demo: `quiet();
  const { processor, exporter } = tracing({ mask: async ({ data }) => { await sleep(Number(data)); return data; } });
  const t = lf("tracing");
  t.startObservation("slow", { input: "300" }).end(); t.startObservation("fast", { input: "10" }).end();
  await sleep(60);
  await processor.forceFlush();
  assert.equal(exporter.spans.length, 2);` },
{ id: "C07-shutdown-skips-media", property: "C07",
  edits: [[SP, `  public async shutdown(): Promise<void> {
    await this.flush();`, `  public async shutdown(): Promise<void> {
    if (this.pendingEndedSpans.size > 0) await this.flush();`]],
  needs: "shutdown when all spans are processed but an upload is still running",
  breaks: "shutdown resolves before the media upload has finished",
  demo: `quiet();
  serve((r) => r.method === "POST" ? { body: { mediaId: "x", uploadUrl: null }, delay: 300 } : {});
  const { processor } = tracing();
  lf("tracing").startObservation("a", { input: "data:image/png;base64,AAAA" }).end();
  await sleep(50);
  await processor.shutdown();
  assert.ok(requests.length === 1 && requests[0].done, "upload not finished at shutdown");` },
{ id: "C08-genai-exact", property: "C08",
  edits: [[SF, `  return Object.keys(span.attributes).some((attributeKey) =>
    attributeKey.startsWith("gen_ai."),
  );`, `  return Object.entries(span.attributes).some(
    ([attributeKey, value]) => attributeKey.startsWith("gen_ai.") && !!value,
  );`]],
  needs: "a span whose only gen_ai attribute has a falsy value (0, false or an empty string)",
  breaks: "such a span is not exported",
  demo: `const { provider, exporter, processor } = tracing();
  provider.getTracer("app").startSpan("x", { attributes: { "gen_ai.usage.input_tokens": 0 } }).end();
  await processor.forceFlush();
  assert.equal(exporter.spans.length, 1);` },
{ id: "C09-mask-only-strings", property: "C09",
  edits: [[SP, `    if (!this.mask) return data;`, `    if (!this.mask || typeof data !== "string" || data.length < 2) return data;`]],
  needs: "a value that is one character long",
  breaks: "very short values are exported without being masked",
  demo: `quiet();
  const { exporter, processor } = tracing({ mask: () => "***" });
  lf("tracing").startObservation("a", { input: "7", output: "12345" }).end();
  await processor.forceFlush();
  const a = exporter.spans[0].attributes;
  assert.equal(a["langfuse.observation.output"], "***"); assert.equal(a["langfuse.observation.input"], "***");` },
{ id: "C09-media-before-mask", property: "C09",
  edits: [[SP, `    await this.applyMaskInPlace(span);

    if (this.mediaUploadEnabled) {
      await this.mediaService.process(span);
    }
`, `    if (this.mediaUploadEnabled) {
      await this.mediaService.process(span);
    }

    await this.applyMaskInPlace(span);
`]],
  needs: "a mask that removes base64 media",
  breaks: "media is uploaded from content the mask removes",
  demo: `quiet(); serve(() => ({ body: { mediaId: "x", uploadUrl: null } }));
  const { exporter, processor } = tracing({ mask: ({ data }) => String(data).replace(/data:[^"]*/g, "[removed]") });
  lf("tracing").startObservation("a", { input: { img: "data:image/png;base64,AAAA" } }).end();
  await processor.forceFlush();
  assert.equal(requests.length, 0, "media was registered");
  assert.ok(!JSON.stringify(exporter.spans[0].attributes).includes("langfuseMedia"));` },
{ id: "C10-field-output-metadata", property: "C10",
  edits: [[MS, `            field: mediaAttribute.includes("input")`, `            field: key.includes("input")`]],
  needs: "media under a metadata key whose name contains the word input",
  breaks: "the media is registered against the wrong field",
  demo: `quiet(); serve(() => ({ body: { mediaId: "x", uploadUrl: null } }));
  const { processor } = tracing();
  lf("tracing").startObservation("a", { metadata: { inputFile: "data:image/png;base64,AAAA" } }).end();
  await processor.forceFlush();
  assert.equal(requests[0].json.field, "metadata");` },
{ id: "C11-metadata-outer-wins", property: "C11",
  edits: [[PR, `    return { ...(existingMetadata as Record<string, string>), ...newMetadata };`, `    const merged = { ...(existingMetadata as Record<string, string>) };
    for (const [k, v] of Object.entries(newMetadata)) {
      if (!(k in merged) || merged[k].length <= v.length) merged[k] = v;
    }
    return merged;`]],
  needs: "nested scopes with the same metadata key where the inner value is shorter",
  breaks: "the outer value wins",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  t.propagateAttributes({ metadata: { k: "long-value" } }, () => t.propagateAttributes({ metadata: { k: "s" } }, () => { t.startObservation("in").end(); }));
  await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.trace.metadata.k"], "s");` },
{ id: "C12-length-boundary", property: "C12",
  edits: [[PR, `  if (value.length > 200) {`, `  if (new TextEncoder().encode(value).length > 200) {`]],
  needs: "a value of at most 200 characters with multi-byte characters",
  breaks: "valid non-ASCII values are dropped",
  demo: `quiet(); const { exporter, processor } = tracing(); const t = lf("tracing");
  t.propagateAttributes({ userId: "é".repeat(150) }, () => t.startObservation("a").end());
  await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["user.id"], "é".repeat(150));` },
{ id: "C12-all-tags-dropped", property: "C12",
  edits: [[PR, `    const validTags = tags.filter((tag) =>
      isValidPropagatedString({
        value: tag,
        attributeName: "tag",
      }),
    );`, `    const firstInvalid = tags.findIndex(
      (tag) => !isValidPropagatedString({ value: tag, attributeName: "tag" }),
    );
    const validTags = firstInvalid > 0 ? tags.slice(0, firstInvalid) : tags.filter((tag) => typeof tag === "string" && tag.length <= 200);`]],
  needs: "an invalid tag that is not the first one, followed by valid ones",
  breaks: "valid tags after an invalid one are dropped too",
  demo: `quiet(); const { exporter, processor } = tracing(); const t = lf("tracing");
  t.propagateAttributes({ tags: ["a", "x".repeat(201), "b"] }, () => t.startObservation("a").end());
  await processor.forceFlush();
  assert.deepEqual(exporter.spans[0].attributes["langfuse.trace.tags"], ["a", "b"]);` },
{ id: "C13-outer-leaks-to-baggage", property: "C13",
  edits: [[PR, `        baggage = baggage.setEntry(\`\${baggageKey}_\${k}\`, { value: v });
      }`, `        baggage = baggage.setEntry(\`\${baggageKey}_\${k.toLowerCase()}\`, {
          value: v,
        });
      }`]],
  needs: "a metadata key with an upper-case letter, propagated as baggage",
  breaks: "downstream spans carry the metadata under another key",
  demo: `const { api, exporter, processor } = tracing(); const t = lf("tracing");
  let ctx; t.propagateAttributes({ metadata: { requestId: "r1" }, asBaggage: true }, () => { ctx = api.context.active(); });
  const b = api.propagation.getBaggage(ctx);
  api.context.with(api.propagation.setBaggage(api.ROOT_CONTEXT, b), () => t.startObservation("down").end());
  await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.trace.metadata.requestId"], "r1");` },
{ id: "C13-foreign-baggage-dropped", property: "C13",
  edits: [[PR, `    let baggage =
      propagation.getBaggage(context) || propagation.createBaggage();
`, `    let baggage =
      propagation.getBaggage(context) || propagation.createBaggage();

    if (key === "tags") {
      for (const [k] of baggage.getAllEntries()) {
        if (k.endsWith("tags") && !k.includes("langfuse")) baggage = baggage.removeEntry(k);
      }
    }
`]],
  needs: "a foreign baggage entry whose key ends in tags, and tags propagated as baggage",
  breaks: "foreign baggage is removed from the outgoing headers",
  demo: `const { api } = tracing(); const t = lf("tracing");
  const base = api.propagation.setBaggage(api.ROOT_CONTEXT, api.propagation.createBaggage({ "team-tags": { value: "x" } }));
  let b; api.context.with(base, () => t.propagateAttributes({ tags: ["a"], asBaggage: true }, () => { b = api.propagation.getBaggage(api.context.active()); }));
  assert.equal(b.getEntry("team-tags")?.value, "x");` },
{ id: "C14-claim-case", property: "C14",
  edits: [[PR, `  return entry.value.toLowerCase();`, `  return entry.value.trim();`]],
  needs: "an upstream service that sends the claimed trace id in upper case",
  breaks: "the claim is not recognised and the span is marked as application root again",
  demo: `const { exporter, processor, api } = tracing(); const t = lf("tracing");
  const traceId = "abcdefabcdefabcdefabcdefabcdefab";
  let ctx = api.trace.setSpanContext(api.ROOT_CONTEXT, { traceId, spanId: "1234567890abcdef", traceFlags: 1, isRemote: true });
  ctx = api.propagation.setBaggage(ctx, api.propagation.createBaggage({ langfuse_trace_id: { value: traceId.toUpperCase() } }));
  api.context.with(ctx, () => t.startObservation("a").end());
  await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.internal.is_app_root"], undefined);` },
{ id: "C34-env-over-explicit", property: "C34",
  edits: [[SP, `      params?.timeout ?? Number(getEnv("LANGFUSE_TIMEOUT") ?? 5);`, `      Number(getEnv("LANGFUSE_TIMEOUT") ?? params?.timeout ?? 5);`],
    [SP, `    this.release = params?.release ?? getEnv("LANGFUSE_RELEASE");`, `    this.release = getEnv("LANGFUSE_RELEASE") ?? params?.release;`]],
  needs: "release given both explicitly and through the environment",
  breaks: "the environment variable overrides the explicit release",
  demo: `process.env.LANGFUSE_RELEASE = "env"; const { exporter, processor } = tracing({ release: "explicit" });
  lf("tracing").startObservation("a").end(); await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.release"], "explicit");` },
];
