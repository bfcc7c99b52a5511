const TI = "packages/tracing/src/index.ts", TA = "packages/tracing/src/attributes.ts", TP = "packages/tracing/src/tracerProvider.ts", SW = "packages/tracing/src/spanWrapper.ts";
const LG = "packages/core/src/logger/index.ts", SP = "packages/otel/src/span-processor.ts", SF = "packages/otel/src/span-filter.ts", PR = "packages/core/src/propagation.ts";
export default [
{ id: "C08-scope-case", property: "C08",
  edits: [[SF, `  const scope = span.instrumentationScope.name;
`, `  const scope = span.instrumentationScope.name.trim().toLowerCase();
`]],
  needs: "an instrumentation scope that equals a known one except for letter case",
  breaks: "spans of unknown scopes are exported",
  demo: `const { exporter, processor, provider } = tracing();
  provider.getTracer("OpenInference").startSpan("x").end(); provider.getTracer("AI").startSpan("x").end();
  await processor.forceFlush();
  assert.equal(exporter.spans.length, 0);` },
{ id: "C11-baggage-tags-win", property: "C11",
  edits: [[PR, `  if (tags && Array.isArray(tags)) {
    const spanKey = getSpanKeyForPropagatedKey("tags");

    propagatedAttributes[spanKey] = tags;
  }`, `  if (tags && Array.isArray(tags)) {
    const spanKey = getSpanKeyForPropagatedKey("tags");

    propagatedAttributes[spanKey] ??= tags;
  }`]],
  needs: "a scope that propagates tags as baggage and a nested scope that adds tags without baggage",
  breaks: "the nested scope's tags are missing on its spans",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  t.propagateAttributes({ tags: ["a"], asBaggage: true }, () => t.propagateAttributes({ tags: ["b"] }, () => t.startObservation("x").end()));
  await processor.forceFlush();
  assert.deepEqual(exporter.spans[0].attributes["langfuse.trace.tags"], ["a", "b"]);` },
{ id: "C11-active-metadata-partial", property: "C11",
  edits: [[PR, `      for (const [k, v] of Object.entries(mergedMetadata)) {
        span.setAttribute(`, `      for (const [k, v] of Object.entries(mergedMetadata)) {
        if (!v) continue;
        span.setAttribute(`]],
  needs: "a scope entered under an active span with an empty metadata value",
  breaks: "the active span does not carry the entry that its children carry",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  t.startActiveObservation("active", () => t.propagateAttributes({ metadata: { k: "" } }, () => {}));
  await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.trace.metadata.k"], "");` },
{ id: "C15-thenable-copied", property: "C15",
  edits: [[TI, `    (value) => {
      if (endOnExit !== false) {
        span.end(); // End span AFTER Promise resolves
      }

      return value;
    },
    (err: unknown) => {
      span.setStatus({`, `    (value) => {
      if (endOnExit !== false) {
        span.end(); // End span AFTER Promise resolves
      }

      return value;
    },
    (err: unknown) => {
      if (err === undefined) err = new Error("Unknown error");

      span.setStatus({`]],
  needs: "an active observation whose async function rejects with undefined",
  breaks: "the caller sees another error than the one thrown",
  demo: `tracing(); const t = lf("tracing"); let e = "none";
  await t.startActiveObservation("a", async () => { await sleep(1); throw undefined; }).catch((x) => { e = x; });
  assert.equal(e, undefined);` },
{ id: "C15-async-no-parent", property: "C15",
  edits: [[TI, `    const activeContext = setLangfuseTraceIdInBaggage(
      trace.setSpan(context.active(), observation.otelSpan),`, `    const activeContext = setLangfuseTraceIdInBaggage(
      parentSpanContext && trace.getActiveSpan()
        ? context.active()
        : trace.setSpan(context.active(), observation.otelSpan),`]],
  needs: "an observed function with an explicit parent called inside another active span",
  breaks: "observations started in the function are not children of its observation",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  const remote = { traceId: "a".repeat(32), spanId: "b".repeat(16), traceFlags: 1 };
  const f = t.observe(() => { t.startObservation("inner").end(); }, { name: "f", parentSpanContext: remote });
  t.startActiveObservation("outer", () => f()); await processor.forceFlush();
  const by = (n) => exporter.spans.find((s) => s.name === n);
  assert.equal(by("inner").parentSpanContext.spanId, by("f").spanContext().spanId);` },
{ id: "C16-update-clears", property: "C16",
  edits: [[TA, `    [LangfuseOtelSpanAttributes.OBSERVATION_COST_DETAILS]:
      _serialize(costDetails),`, `    [LangfuseOtelSpanAttributes.OBSERVATION_COST_DETAILS]: _serialize(
      costDetails &&
        Object.fromEntries(
          Object.entries(costDetails).filter(([, cost]) => cost),
        ),
    ),`]],
  needs: "cost details with a zero entry",
  breaks: "zero costs are dropped from the cost details",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  t.startObservation("g", { costDetails: { input: 0, output: 0.5 } }, { asType: "generation" }).end(); await processor.forceFlush();
  assert.deepEqual(JSON.parse(exporter.spans[0].attributes["langfuse.observation.cost_details"]), { input: 0, output: 0.5 });` },
{ id: "C16-version-falsy", property: "C16",
  edits: [[TA, `    Object.entries(otelAttributes).filter(([_, v]) => v != null),`, `    Object.entries(otelAttributes).filter(([_, v]) => v != null && v !== ""),`]],
  needs: "an update that sets a field to the empty string",
  breaks: "the earlier value stays although a later update overrides it",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  const s = t.startObservation("g", { output: "draft" }); s.update({ output: "" }); s.end(); await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.observation.output"], "");` },
{ id: "C16-metadata-array-object", property: "C16",
  edits: [[TA, `      const serialized = typeof value === "string" ? value : _serialize(value);
      if (serialized !== undefined) {
        metadataAttributes[\`\${prefix}.\${key}\`] = serialized;`, `      const serialized = typeof value === "string" ? value : _serialize(value);
      if (serialized !== undefined) {
        metadataAttributes[\`\${prefix}.\${key.trim()}\`] = serialized;`]],
  needs: "metadata keys with surrounding whitespace",
  breaks: "entries are stored under another key and may overwrite each other",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  t.startObservation("g", { metadata: { "a ": 1, a: 2 } }).end(); await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.observation.metadata.a "], "1");` },
{ id: "C16-embedding-type", property: "C16",
  edits: [[TI, `  // If no 'asType' was provided, drop the observation type OTEL attribute
  // to avoid inadvertendly overwriting the type to "span"
  if (!options?.asType) {`, `  // If no 'asType' was provided, drop the observation type OTEL attribute
  // to avoid inadvertendly overwriting the type to "span"
  if (!options) {`]],
  needs: "updateActiveObservation with an options object without a type, inside a generation",
  breaks: "the observation type is overwritten with span",
  demo: `const { exporter, processor } = tracing(); const t = lf("tracing");
  t.startActiveObservation("g", () => { t.updateActiveObservation({ output: 1 }, {}); }, { asType: "generation" }); await processor.forceFlush();
  assert.equal(exporter.spans[0].attributes["langfuse.observation.type"], "generation");` },
{ id: "C31-seed-trimmed", property: "C31",
  edits: [[TI, `    const data = new TextEncoder().encode(seed);`, `    const data = new TextEncoder().encode(seed.normalize("NFC"));`]],
  needs: "seeds that are not in normal form",
  breaks: "different seeds give the same trace id",
  demo: `const t = lf("tracing");
  assert.notEqual(await t.createTraceId("e\\u0301"), await t.createTraceId("\\u00e9"));` },
{ id: "C32-reset-shares-config", property: "C32",
  edits: [[LG, `    this.config = {
      enableTimestamp: true,
      ...config,
    };`, `    this.config = config;
    this.config.enableTimestamp ??= true;`]],
  needs: "two loggers created from one configuration object and setLevel on one of them",
  breaks: "changing one logger's level changes the other's",
  demo: `const c = lf("core"); const cfg = { level: c.LogLevel.ERROR }; const a = c.createLogger(cfg), b = c.createLogger(cfg);
  a.setLevel(c.LogLevel.DEBUG); assert.equal(b.isLevelEnabled(c.LogLevel.INFO), false);` },
{ id: "C32-empty-prefix-args", property: "C32",
  edits: [[LG, `      console.warn(this.formatMessage("WARN", message), ...args);`, `      console.warn(
        this.formatMessage("WARN", message),
        ...args.filter((arg) => arg !== undefined),
      );`]],
  needs: "a warning logged with an undefined argument",
  breaks: "an argument is dropped from the line",
  demo: `const c = lf("core"); let got; console.warn = (...a) => { got = a; };
  c.createLogger({ level: c.LogLevel.WARN }).warn("m", undefined, 1); assert.equal(got.length, 3);` },
{ id: "C32-debug-env-loses", property: "C32",
  edits: [[LG, `    switch (value) {`, `    switch (value.slice(0, 5)) {`]],
  needs: "an unknown log level in the environment that starts with a known one",
  breaks: "an unknown level silently takes effect",
  demo: `const { spawnSync } = require("node:child_process");
  const run = (v) => spawnSync(process.execPath, ["-e", \`const c=require(\${JSON.stringify(cwd + "/packages/core/dist/index.cjs")});console.log(c.getGlobalLogger().getLevel())\`], { env: { ...process.env, LANGFUSE_LOG_LEVEL: v }, encoding: "utf8" }).stdout.trim();
  assert.equal(run("errors"), "1"); assert.equal(run("error"), "3");` },
];
