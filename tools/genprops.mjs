// Single source of the property texts: `node tools/genprops.mjs` rewrites properties.jsonl.
import { writeFileSync } from "node:fs";
const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, observe_at, state = []) =>
  P.push({
    id, title, statement,
    quantifier: { over, text },
    why_tests_cant: why,
    anchors: { files, state, mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at, hook_needed: null },
  });

p("C01", "Every accepted score is delivered exactly once, and flush is a barrier",
  "Every score accepted by the client's score API while the queue bound is not exceeded is contained in exactly one ingestion request, never in two and never in none. When a flush() or shutdown() call resolves, every score created before that call has been contained in an ingestion request whose attempt has finished, whatever automatic flushes were in flight at the time. A failing ingestion request never rejects or throws into the caller and never prevents the delivery of scores outside that request; a score that no request can carry (cyclic or otherwise unserialisable) is dropped alone, without an exception.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of score creation, timer flushes, size-triggered flushes, explicit flush and shutdown calls, with ingestion requests that are slow, fail or hang for a while.",
  "Tests create a few scores and flush once on an idle manager; they never create scores while a flush is in flight, nor combine failing and slow requests.",
  ["packages/client/src/score/index.ts", "packages/client/src/LangfuseClient.ts"],
  [["handleFlush drains the queue synchronously into batches", "packages/client/src/score/index.ts:handleFlush"], ["flush/shutdown", "packages/client/src/score/index.ts:flush"]],
  ["HTTP POST /api/public/ingestion bodies", "resolution of flush()/shutdown()"]);

p("C02", "Score batches are bounded, timely and carry the caller's fields unchanged",
  "An ingestion request for scores carries at most 100 events; scores leave in creation order; and a score leaves no later than the configured flush interval after its creation, or at once when the configured flush size is reached, without any explicit flush. Each event is a score-create event with its own event id and timestamp whose body carries every field the caller gave unchanged, plus a score id (the caller's, else a fresh unique one) and the environment (the caller's, else the configured default). The observation, trace, active-observation and active-trace variants bind the score to exactly the given or active span's trace id and, for the observation variants only, its span id.",
  ["inputs", "histories", "configurations"],
  "All score payloads, numbers of scores per window, flush-size and interval settings, and active-span contexts.",
  "Tests assert a handful of payloads and one batch; the batch limit, ordering across batches and the timer bound are not exercised over arbitrary arrival patterns.",
  ["packages/client/src/score/index.ts"],
  [["create builds the event", "packages/client/src/score/index.ts:create"], ["MAX_BATCH_SIZE splitting", "packages/client/src/score/index.ts:handleFlush"]],
  ["HTTP POST /api/public/ingestion bodies under a virtual clock"]);

p("C03", "Prompt cache returns only fresh-enough prompts of the requested key",
  "A prompt read returns a prompt that the server gave for exactly the requested name and version-or-label (label production when neither is given), or the caller's fallback. A read within the TTL of a stored value makes no request and returns it; a read answered without waiting for a request uses a value stored no longer ago than the TTL given when it was stored, unless it is the stale answer that accompanies a background refresh; a TTL of zero always asks the server. After update() or the deletion of a prompt by the client completes, no read of that prompt name started later is answered with a value from a request sent before it completed.",
  ["histories", "schedules", "inputs"],
  "All histories of get/create/update/delete over several names, versions, labels and TTLs, under arbitrary request latency and failures.",
  "Tests drive single keys through one or two cache states; they do not run long random histories over colliding names, versions and labels.",
  ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptCache.ts"],
  [["cache key", "packages/client/src/prompt/promptCache.ts:createKey"], ["expiry", "packages/client/src/prompt/promptCache.ts"], ["invalidate", "packages/client/src/prompt/promptCache.ts:invalidate"]],
  ["return values of prompt.get", "HTTP GET /api/public/v2/prompts/*"]);

p("C04", "Prompt reads survive server failures: stale answers, one refresh, fallback",
  "Reading an expired cached prompt resolves with the stale value without waiting for the server and starts a background refresh, of which at most one per key is in flight; a failed refresh never surfaces as an error or unhandled rejection and keeps the stale value. Reading an uncached prompt (or one with caching bypassed by a TTL of zero) whose fetch fails or exceeds its timeout resolves with the caller's fallback when one was given, marked as fallback, never cached, and otherwise rejects. A later successful refresh replaces the stale value for subsequent reads.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of concurrent reads with slow, failing and recovering servers.",
  "Tests sample a single expiry with one reader; the single-flight rule and failure handling are properties of concurrent schedules.",
  ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptCache.ts"],
  [["refreshingKeys single flight", "packages/client/src/prompt/promptCache.ts"], ["fallback construction", "packages/client/src/prompt/promptManager.ts:fetchPromptAndUpdateCache"]],
  ["return values and settlement time of prompt.get", "HTTP GET counts", "unhandledRejection"]);

p("C05", "Prompt compilation substitutes variables and placeholders and nothing else",
  "Compiling a text prompt replaces each {{variable}} with the given value verbatim (no HTML escaping, missing variables become empty) and leaves every other character untouched. Compiling a chat prompt does the same to each message's content, keeps roles and order, and replaces each placeholder in place with the given messages (an empty list removes it, an absent one leaves it as an unresolved placeholder), substituting variables in inserted messages too. Compilation never mutates the prompt or the arguments, so repeated and interleaved compilations of one prompt are independent.",
  ["inputs", "histories"],
  "All templates, variable maps and placeholder lists, and all sequences of compilations on the same prompt object.",
  "Tests check fixed examples; arbitrary text with special characters, values that look like templates, and repeated compilations are not enumerated.",
  ["packages/client/src/prompt/promptClients.ts"],
  [["TextPromptClient.compile", "packages/client/src/prompt/promptClients.ts"], ["ChatPromptClient.compile", "packages/client/src/prompt/promptClients.ts"]],
  ["return value of compile()", "toJSON() before and after"]);

p("C06", "LangChain prompt conversion preserves the rendered prompt",
  "Formatting the LangChain template produced from a prompt (f-string style, with values for its variables) yields the same text as compiling the prompt with those variables, also when the prompt contains JSON objects and arrays with nested braces (strings inside that JSON hold no stray braces). For chat prompts the converted messages keep role and order, provided placeholders are expanded in place, and unresolved ones become LangChain placeholders with the same name.",
  ["inputs"],
  "All templates mixing plain text, variables and JSON blocks with nested braces.",
  "Tests check a list of hand-written templates.",
  ["packages/client/src/prompt/promptClients.ts"],
  [["_transformToLangchainVariables / escapeJsonForLangchain", "packages/client/src/prompt/promptClients.ts"]],
  ["getLangchainPrompt() fed to @langchain/core PromptTemplate/ChatPromptTemplate"]);

p("C07", "Ended spans reach the exporter exactly once, before flush and shutdown resolve",
  "Every sampled span that ends and passes the export filter is given to the exporter exactly once, in both batched mode (up to the queue bound of 2048 waiting spans) and immediate mode. When a forceFlush() or shutdown() call of the span processor resolves, every span ended before the call has been handed to the exporter and the media uploads of those spans have finished, however long masking, media handling or the exporter take and however many spans are pending. Without any flush call, an ended span reaches an idle exporter within the configured flush interval (default 5 s; immediate mode: at once), in batches of at most flushAt spans. Exporter, mask, filter and media failures never throw into application code, raise an unhandled rejection, or lose other spans.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of span ends, flushes and shutdown with slow/failing exporters, async masks, and media uploads.",
  "Tests flush after everything has settled, with an instantaneous in-memory exporter and no concurrent flush.",
  ["packages/otel/src/span-processor.ts", "packages/otel/src/MediaService.ts"],
  [["pending ended spans tracking", "packages/otel/src/span-processor.ts"], ["forceFlush/shutdown", "packages/otel/src/span-processor.ts"]],
  ["SpanExporter.export calls", "settlement of forceFlush()/shutdown()"]);

p("C08", "The export filter decides, per span, exactly what leaves the process",
  "With a custom export filter, a span is exported exactly when the filter, called with that ended span, does not reject it; a filter that throws keeps the span from being exported and affects no other span. Without one, a span is exported exactly when it was produced by the Langfuse SDK, carries an attribute in the gen_ai namespace, or its instrumentation scope is one of the known LLM instrumentations (by whole name or dotted prefix; the scope \"ai\" by whole name only), whatever its other attributes; the predicates the SDK exports for composing filters decide alike. Filtering a span never alters the parent link or attributes of the spans that are exported.",
  ["inputs", "configurations"],
  "All instrumentation scopes, attribute sets and filter outcomes over arbitrary span trees.",
  "Tests check a few scopes; near-miss scope names and mixtures in a tree are not enumerated.",
  ["packages/otel/src/span-filter.ts", "packages/otel/src/span-processor.ts"],
  [["isDefaultExportSpan", "packages/otel/src/span-filter.ts"], ["shouldExportSpan in onEnd", "packages/otel/src/span-processor.ts"]],
  ["exported span set"]);

p("C09", "Masked content never leaves the process",
  "With a mask configured, the input, output and metadata of every exported span, at observation and trace level, including metadata stored under individual keys, are exactly what the mask returned for them, and no media is uploaded from content the mask removed, nor do the SDK's own log lines show it. If the mask throws or rejects for a value, that value is replaced as a whole by a fixed notice and never exported in the clear, while the other values and spans are unaffected. Attributes that are not input, output or metadata are exported unchanged.",
  ["inputs", "schedules", "fault_sequences"],
  "All attribute contents, sync, async, slow and failing masks, and orders of span completion.",
  "Tests assert selected attributes with a simple synchronous mask.",
  ["packages/otel/src/span-processor.ts"],
  [["applyMaskInPlace", "packages/otel/src/span-processor.ts"]],
  ["attributes of exported spans", "media upload bodies"]);

p("C10", "Base64 media in spans is replaced by references and uploaded intact",
  "Each base64 data URI (data:<type>;base64,<data>) in an exported span's input, output or metadata is replaced in place by a media reference token whose id and content type identify exactly the decoded bytes, and everything around it is left unchanged; the same holds for the base64 file and blob parts of AI SDK messages. For every such reference the media is registered against the span's trace, observation and field, and its exact bytes are uploaded at most once per registration, only when the server asks for it; a flush settles only after the uploads of the spans ended before it. With media upload disabled, the content is exported unchanged. Upload failures never prevent the span from being exported.",
  ["inputs", "fault_sequences"],
  "All strings with zero or more data URIs of arbitrary content, repeated and overlapping, and all upload outcomes.",
  "Tests use one or two well-separated data URIs and an always-successful server.",
  ["packages/otel/src/MediaService.ts", "packages/core/src/media.ts", "packages/core/src/mediaUpload.ts"],
  [["findMedia/replace", "packages/otel/src/MediaService.ts"], ["uploadMedia", "packages/core/src/mediaUpload.ts"]],
  ["exported attributes", "POST /api/public/media", "PUT upload bodies"]);

p("C11", "Propagated attributes reach exactly the spans of their scope",
  "Every span started inside a propagation scope, on any asynchronous path and on any instrumentation scope, and the span that is active when the scope is entered, carries the attributes of that scope; a span started outside it, or in a concurrent scope, never carries them. Nested scopes override single-valued attributes, and union tags (without duplicates) and metadata keys (inner value wins) with those of the enclosing scope; leaving a scope restores the enclosing one. The callback's result or error is passed through unchanged.",
  ["schedules", "programs"],
  "All nestings and interleavings of concurrent scopes with awaits at arbitrary points.",
  "Tests exercise a few fixed nestings, mostly sequential.",
  ["packages/core/src/propagation.ts", "packages/otel/src/span-processor.ts"],
  [["propagateAttributes", "packages/core/src/propagation.ts"], ["getPropagatedAttributesFromContext at span start", "packages/core/src/propagation.ts"]],
  ["attributes of exported spans"]);

p("C12", "Invalid propagated values are dropped alone; valid ones always pass",
  "A propagated user id, session id, version, trace name, tag or metadata value that is not a string or is longer than 200 characters is dropped without affecting any other value, and every valid one is propagated unchanged (an empty single-valued attribute counts as absent); an environment is propagated only if it has at most 40 characters of lower-case letters, digits, hyphens and underscores and does not start with langfuse. A prompt is propagated only as a name with an integer version and never if it is a fallback. Invalid values never make propagation throw.",
  ["inputs"],
  "All values, including wrong types and boundary lengths, in all positions and combinations.",
  "Tests cover selected invalid values one at a time.",
  ["packages/core/src/propagation.ts"],
  [["isValidPropagatedString / environment check", "packages/core/src/propagation.ts"]],
  ["attributes of spans started in the scope"]);

p("C13", "Baggage propagation carries the same attributes across processes, and only then",
  "When baggage propagation is requested by every scope that sets attributes, a downstream process that receives the W3C baggage header produced in the scope gives its spans the same propagated attributes as local spans of that scope (values non-empty and within the W3C size limits); a value set by a scope that did not request it never appears in the outgoing headers, also when a nested scope does. Attributes received this way act as an enclosing scope: a scope opened downstream overrides single values and adds to the received tags and metadata. Baggage entries that do not belong to Langfuse are preserved and never become Langfuse attributes.",
  ["inputs", "configurations", "programs"],
  "All attribute values (including separators and non-ASCII), nestings with and without baggage, and pre-existing foreign baggage.",
  "Tests check baggage keys for simple values without the real propagator round trip.",
  ["packages/core/src/propagation.ts"],
  [["baggage write/read in propagation", "packages/core/src/propagation.ts"]],
  ["headers injected by W3CBaggagePropagator", "attributes of downstream spans"]);

p("C14", "Exactly the entry spans of a trace are marked as application root",
  "Among the spans of one trace produced in a process, a span is marked as application root exactly when it is itself expected to be exported, its parent is not a live span expected to be exported, and neither an enclosing active Langfuse observation nor an upstream service (through baggage) has already claimed the root of that trace. In particular a single tree of Langfuse spans in which each child starts before its parent ends has exactly one marked span, whatever the order in which spans end and whatever other traces run concurrently.",
  ["schedules", "programs", "configurations"],
  "All span trees mixing exported and filtered spans, with children ended in any order, under concurrent traces and remote parents.",
  "Tests use small fixed trees.",
  ["packages/otel/src/span-processor.ts", "packages/core/src/propagation.ts"],
  [["app root bookkeeping", "packages/otel/src/span-processor.ts:onStart"]],
  ["langfuse.internal.is_app_root on exported spans"]);

p("C15", "Tracing wrappers are transparent and end every observation exactly once",
  "A function run through the active-observation or observe wrapper returns or resolves to the same value, and throws or rejects with the same error, as without it, with the same this and arguments. Its observation ends exactly once, after the function has completed (when it returned a promise, not before that promise has settled; an event ends at its own timestamp) and no later than the caller sees the outcome, has error status and message when it failed, and is the parent of the observations started in it; if ending on exit is disabled it is left open. The observe wrapper records the arguments as input and the result as output, also when they are falsy, unless capturing is disabled.",
  ["programs", "schedules", "inputs"],
  "All synchronous, asynchronous, throwing and nested functions under concurrent interleavings, for every observation type.",
  "Tests cover typical functions; odd results, thenables, odd thrown values and concurrent nesting are not enumerated.",
  ["packages/tracing/src/index.ts", "packages/tracing/src/spanWrapper.ts"],
  [["startActiveObservation", "packages/tracing/src/index.ts"], ["observe", "packages/tracing/src/index.ts"]],
  ["return values and errors", "exported spans"]);

p("C16", "Observation attributes record faithfully what the application gave",
  "For every observation type, each field the application sets (input, output, level, status message, version, model, model parameters, usage, cost, prompt, completion start time, metadata) is found on the exported span under its documented key, strings verbatim and other values as JSON that parses back to the same value, later updates overriding earlier ones and leaving unmentioned fields alone. Metadata objects are stored one key per entry. Values that cannot be serialised are replaced by a notice, and no update throws.",
  ["inputs", "histories"],
  "All field values and sequences of updates on all observation types, including cyclic, null and oddly typed values.",
  "Tests check representative values per field.",
  ["packages/tracing/src/attributes.ts", "packages/tracing/src/spanWrapper.ts"],
  [["createObservationAttributes", "packages/tracing/src/attributes.ts"], ["createTraceAttributes", "packages/tracing/src/attributes.ts"]],
  ["attributes of exported spans"]);

p("C17", "The OpenAI wrapper never changes what the application sees",
  "Calls through a wrapped OpenAI client reach the underlying method with the same this and arguments and give the application the same results, errors, stream items (consumed by async iteration) in the same order and stream errors as the unwrapped client, for every response shape the service can send. Wrapping does not alter the underlying client, and nested resources and non-function members stay readable and writable.",
  ["inputs", "programs", "fault_sequences"],
  "All methods, sync/async/streaming results, response shapes (including empty or partial ones), errors at any point, and consumers that stop early.",
  "Tests feed well-formed mock responses and consume streams to the end.",
  ["packages/openai/src/traceMethod.ts", "packages/openai/src/observeOpenAI.ts", "packages/openai/src/parseOpenAI.ts"],
  [["Proxy and wrapMethod", "packages/openai/src/observeOpenAI.ts"], ["wrapAsyncIterable", "packages/openai/src/traceMethod.ts"]],
  ["values seen by the caller with and without the wrapper"]);

p("C18", "Each OpenAI call yields exactly one ended, accurate generation",
  "Every call of a traced method through a wrapped OpenAI client yields exactly one generation that ends, whether the call succeeds, fails, streams to the end, fails mid-stream or is abandoned by its consumer mid-stream. The generation records the request input and model, the model parameters, the configured name, metadata, prompt link and user, session and tags, the output (for streams, the concatenation of the chunks, with each tool call kept apart) and the usage, where detail counts (cached, audio, reasoning) are moved out of the totals and nothing is negative; failures are recorded at error level with the message.",
  ["inputs", "fault_sequences", "schedules"],
  "All response and chunk sequences, tool-call interleavings, and stream terminations, with concurrent calls.",
  "Tests consume well-formed streams with one tool call.",
  ["packages/openai/src/traceMethod.ts", "packages/openai/src/parseOpenAI.ts"],
  [["wrapMethod", "packages/openai/src/traceMethod.ts"], ["parseUsage / getToolCallOutput", "packages/openai/src/parseOpenAI.ts"]],
  ["exported spans"]);

p("C19", "The LangChain handler mirrors the run tree and never disturbs the application",
  "For any tree of runs reported by LangChain's callbacks, in which children start while their parent is open, each started chain, model, tool and retriever run yields exactly one observation of the matching kind (model runs are generations, tool runs tools, the others spans) that ends exactly once when the run ends or errors, with the run's input, output and error status, whose parent is the observation of its parent run. A prompt attached to a chain's metadata is linked to the next model run under the same parent, and the configured user, session, tags and metadata apply to top-level chains. The handler's last_trace_id is the trace of the run that ended most recently. Runs of concurrent traces, and several handlers attached to the same runs, never mix. No callback throws, rejects, or causes an unhandled rejection, whatever the payload LangChain's types allow (including null and empty ones), and no per-run state remains after all runs have ended.",
  ["programs", "inputs", "schedules"],
  "All run trees, interleavings of events and payload shapes (missing, null, empty or odd fields).",
  "Tests play a few scripted event sequences with well-formed payloads.",
  ["packages/langchain/src/CallbackHandler.ts"],
  [["runMap", "packages/langchain/src/CallbackHandler.ts"], ["startAndRegisterObservation / handleXEnd", "packages/langchain/src/CallbackHandler.ts"]],
  ["exported spans", "callback settlement", "unhandledRejection"]);

p("C20", "Experiments run every item once, bounded, in order, isolating failures",
  "An experiment calls the task exactly once per data item that has an input, with that item, never has more than the configured (positive) number of items in progress, and reports the successful items in data order, each with its own input, expected output, output and evaluations. A failing task, evaluator, run-level evaluator or result-URL lookup removes only its own result or evaluation and never fails the experiment or affects other items. Formatting the result attributes every input, expected output, output, score, comment and link to the item that produced it, and summarises the run (names, description, item count, average scores, run-level evaluations, run link).",
  ["schedules", "fault_sequences", "inputs"],
  "All item counts, concurrency limits, task latencies and failure patterns of tasks and evaluators.",
  "Tests use a few items with immediate tasks; ordering and bounds depend on the schedule.",
  ["packages/client/src/experiment/ExperimentManager.ts"],
  [["worker pool in run()", "packages/client/src/experiment/ExperimentManager.ts"], ["runItem", "packages/client/src/experiment/ExperimentManager.ts"], ["prettyPrintResults/format", "packages/client/src/experiment/ExperimentManager.ts"]],
  ["task/evaluator invocations", "ExperimentResult"]);

p("C21", "Experiment results are linked and persisted before the run resolves",
  "Every evaluation of an item becomes exactly one score on the trace and root observation of that item's task execution, and every run-level evaluation one score on the dataset run when there is one, all sent before the experiment resolves. For dataset experiments every executed item is linked once to the run with the trace and observation of its execution. The root observation of a successful execution carries the item's input, the task's output and the item's and the experiment's metadata; spans of an item's execution carry that item's experiment identifiers, and never another item's, under any concurrency.",
  ["schedules", "fault_sequences"],
  "All interleavings of concurrently executing items with failing linking, task and evaluator calls.",
  "Tests check counts for sequentially completing items.",
  ["packages/client/src/experiment/ExperimentManager.ts", "packages/core/src/propagation.ts"],
  [["runItem propagation and linking", "packages/client/src/experiment/ExperimentManager.ts"], ["score.flush before return", "packages/client/src/experiment/ExperimentManager.ts"]],
  ["HTTP requests", "exported spans"]);

p("C22", "Fetching a dataset returns all its items, faithfully hydrated",
  "Fetching a dataset returns every item the server holds, once and in server order, for any number of pages, and carries the dataset's and items' fields unchanged; linking and running experiments on it refer to those same items. Requested media references are placed exactly at the location their path names and nowhere else, without altering other content; references whose path does not match anything in the item are ignored. Names with special characters address the right dataset.",
  ["inputs", "configurations"],
  "All item counts, page sizes, dataset names, item shapes and media reference paths.",
  "Tests use one page of items and simple paths.",
  ["packages/client/src/dataset/index.ts", "packages/client/src/dataset/jsonPath.ts"],
  [["pagination loop in get()", "packages/client/src/dataset/index.ts"], ["hydrateMediaReferences/jsonPath", "packages/client/src/dataset/jsonPath.ts"]],
  ["FetchedDataset", "HTTP requests"]);

p("C23", "Dataset items are created only after their media is stored, tokens in place",
  "Creating a dataset item with media anywhere (up to 20 levels of plain objects and arrays) in its input, expected output or metadata sends an item whose media values are replaced by their reference tokens and whose other content is unchanged, and does not mutate the caller's objects. Each distinct medium is uploaded once before the item is created; if any upload fails, or the content is cyclic, the item is not created and the call rejects.",
  ["inputs", "fault_sequences"],
  "All nested structures (including shared and cyclic references) with media at any position, and all upload outcomes.",
  "Tests place one medium in a flat object with a successful upload.",
  ["packages/client/src/dataset/index.ts"],
  [["createItem media walk", "packages/client/src/dataset/index.ts"]],
  ["HTTP requests in order"]);

p("C24", "Media upload follows the server's protocol with bounded retries",
  "Uploading a medium registers its content type, length and hash, sends the exact bytes to the given URL only if the server returned one for the same media id, and reports the final HTTP status back whenever there is one. Server errors and connection failures are retried with growing delays up to the retry limit and no further, client errors are never taken for success, and failure surfaces to the uploader. The content hash header is sent to every store except those that reject it.",
  ["fault_sequences", "inputs"],
  "All sequences of upload responses and failures, and all media contents.",
  "Tests cover one success and a few single failures.",
  ["packages/core/src/mediaUpload.ts"],
  [["uploadMedia / uploadWithBackoff", "packages/core/src/mediaUpload.ts"]],
  ["HTTP requests under a virtual clock"]);

p("C25", "Media references round-trip: content ids, tokens and resolution",
  "Equal bytes always give equal media ids and different bytes different ones, from whichever source the medium was built, and a token produced for a medium parses back to its id, content type and source. Resolving references (up to the documented depth of 10 levels) replaces every well-formed token in any string of a nested structure by the base64 data of the right medium, leaves unresolvable tokens, dates and other built-in objects and all other content unchanged, and does not mutate its argument.",
  ["inputs", "fault_sequences"],
  "All contents, nested structures, several tokens per string, and all fetch failures.",
  "Tests use one or two tokens.",
  ["packages/core/src/media.ts", "packages/client/src/media/index.ts"],
  [["LangfuseMedia.getId/getTag", "packages/core/src/media.ts"], ["MediaManager.resolveReferences", "packages/client/src/media/index.ts"]],
  ["return values", "HTTP requests"]);

p("C26", "API calls retry only transient failures, boundedly, and report the real outcome",
  "An API call is retried only when the server answers 408, 429 or a 5xx status, at most the configured number of times (two by default), waiting what Retry-After (seconds or date, up to a minute) or X-RateLimit-Reset asks and otherwise delays that start at about one second, double with each retry and stay within about a minute; other answers, network errors and aborts are final. A call resolves with the parsed body (nothing for endpoints without one) exactly when the final status is a success with a readable body, and otherwise rejects with an error that carries that status and body, whatever the body contains (the two errors the API defines without a body carry only the status). An attempt whose response does not arrive within its timeout (60 s, or as given for the client or the call) rejects with a timeout error, and every call settles and leaves no timer behind.",
  ["fault_sequences", "inputs", "schedules"],
  "All sequences of statuses, headers, bodies, hangs and network errors.",
  "No test drives the HTTP layer through sequences of failures or malformed bodies.",
  ["packages/core/src/api/core/fetcher/requestWithRetries.ts", "packages/core/src/api/core/fetcher/Fetcher.ts", "packages/core/src/api/core/fetcher/makeRequest.ts"],
  [["requestWithRetries", "packages/core/src/api/core/fetcher/requestWithRetries.ts"], ["fetcherImpl", "packages/core/src/api/core/fetcher/Fetcher.ts"]],
  ["HTTP requests under a virtual clock", "settlement of API calls", "pending timers"]);

p("C27", "Every API request is addressed, authenticated and encoded as the caller asked",
  "Every request of the client goes to the configured base URL with basic credentials made of the configured key pair and the SDK identification headers, with additional configured headers included; headers given for one call apply to that call only, where they override a configured header or, given as null, take it off. Path parameters (non-empty, other than . and ..) and query parameters are percent-encoded so that the server decodes exactly the caller's values, absent parameters are omitted, and JSON bodies decode to the caller's payload. Explicit configuration wins over environment variables, which win over defaults. The legacy method aliases send the same requests, and trace URLs name the given trace in the right project.",
  ["inputs", "configurations"],
  "All resource endpoints, string values including reserved and non-ASCII characters, and configuration combinations.",
  "Tests mock the API client and do not look at the wire for arbitrary values.",
  ["packages/client/src/LangfuseClient.ts", "packages/core/src/api/core/url", "packages/core/src/api/api/resources"],
  [["LangfuseAPIClient request building", "packages/core/src/api/api/resources/*/client/Client.ts"], ["createRequestUrl / toQueryString", "packages/core/src/api/core/url"]],
  ["HTTP requests"]);

p("C28", "The browser client sends each score once, safely, and reports the truth",
  "Each browser score call sends exactly one ingestion request with exactly one score event carrying the given fields, authenticated with the public key only, and no configured header can override the SDK's authentication and identification headers under any letter case. It resolves exactly when the server accepted the event and otherwise rejects with the browser error type, including malformed answers, partial failures and network errors, carrying the status when the server refused the request.",
  ["inputs", "fault_sequences"],
  "All score payloads, configurations and server answers.",
  "Tests cover a few answers.",
  ["packages/browser/src/index.ts", "packages/browser/src/utils.ts"],
  [["LangfuseBrowserClient.score", "packages/browser/src/index.ts"]],
  ["fetch calls", "settlement"]);

p("C29", "The AI SDK integration maps telemetry context onto the right spans only",
  "Runtime context entries that the AI SDK lets through for a call appear on every span of that call as observation metadata (strings verbatim, other values as JSON; entries that are null or functions are dropped, and one that cannot be serialised affects only itself), and concurrent calls never exchange context. A prompt given in the runtime context (a string name and a number version, not a fallback) is linked only on the spans of language-model, embedding and reranking calls and never shows up as metadata. Work done inside a tool or model call nests under that call's span, and results and errors of the call pass through unchanged.",
  ["inputs", "schedules"],
  "All runtime contexts and concurrent calls over all span kinds.",
  "Tests cover typical contexts one at a time.",
  ["packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", "packages/vercel-ai-sdk/src/utils.ts"],
  [["enrichSpan", "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts"]],
  ["span attributes"]);

p("C30", "Secret credentials appear only in the authorization header",
  "The secret key, in the clear or base64-encoded, never appears in any log line at any log level, in any exported span, error message, request URL or body, or in any header other than the authorization header of requests to the configured Langfuse host. In particular media bytes are sent to and fetched from storage URLs without Langfuse credentials.",
  ["histories", "configurations", "fault_sequences"],
  "All operations of all components, at all log levels, with failing and succeeding servers.",
  "Tests never scan outputs for credentials.",
  ["packages/client/src/LangfuseClient.ts", "packages/otel/src/span-processor.ts", "packages/core/src/logger/index.ts", "packages/core/src/mediaUpload.ts"],
  [["auth only via API client options", "packages/core/src/api/Client.ts"]],
  ["console output", "all fetch calls", "exported spans", "errors"]);

p("C31", "Trace ids are valid, deterministic from seeds and inherited by descendants",
  "Creating a trace id from a seed gives the same valid 32-hex-digit id in every process (the first half of the seed's SHA-256) and different ids for different seeds; without a seed it is fresh and valid. Observations started with an explicit parent context, start time or as children get exactly that trace id, parent and time, all descendants share the trace id, and the active trace and span id accessors name the innermost active span. With an isolated tracer provider set, Langfuse observations go only to it and foreign spans only to the global one, until it is reset.",
  ["inputs", "programs", "configurations"],
  "All seeds (including non-ASCII and long ones), parent contexts and provider configurations.",
  "Tests sample a few seeds and one tree.",
  ["packages/tracing/src/index.ts", "packages/tracing/src/tracerProvider.ts"],
  [["createTraceId", "packages/tracing/src/index.ts"], ["getLangfuseTracerProvider", "packages/tracing/src/tracerProvider.ts"]],
  ["span contexts"]);

p("C32", "Logging obeys the level and never disturbs the caller",
  "A log call writes exactly one line to the matching console method when its level is at or above the configured level, and nothing otherwise, for every logger instance and for the global default, whichever way the level was configured (explicitly, or through LANGFUSE_LOG_LEVEL or LANGFUSE_DEBUG when the SDK is loaded). The written line carries the configured prefix, the level, the message and the arguments unchanged, and a timestamp unless disabled. The SDK's own components write nothing below the global level.",
  ["inputs", "configurations", "histories"],
  "All levels, configuration sequences and loggers.",
  "Tests sample some level pairs.",
  ["packages/core/src/logger/index.ts"],
  [["Logger.shouldLog", "packages/core/src/logger/index.ts"]],
  ["console calls"]);

p("C33", "CI experiment context resolves defaults, metadata and regressions faithfully",
  "Running an experiment through the runner context uses the context's defaults for exactly the options the call does not give, merges context metadata under the call's metadata, and returns the experiment's own result. A missing data source is rejected before any item runs, and a regression error carries the given result, metric, value, threshold and message. An adapted AutoEvals evaluator is called with the item's input, output and expected output plus its own parameters, and its score is reported unchanged (no score counts as zero).",
  ["configurations", "inputs"],
  "All combinations of context defaults and call options.",
  "Tests sample some combinations.",
  ["packages/client/src/experiment/RunnerContext.ts"],
  [["RunnerContext.runExperiment", "packages/client/src/experiment/RunnerContext.ts"]],
  ["arguments of the experiment run", "thrown errors"]);

p("C34", "Spans are exported to the configured Langfuse project, batched as configured",
  "Exported spans are posted to the trace ingestion endpoint of the configured base URL with basic credentials made of the configured key pair, the SDK identification headers and the additional configured headers; explicit configuration wins over environment variables, which win over defaults. Every span carries the configured environment and release (an environment propagated in its scope wins). In batched mode a batch never holds more spans than the configured flush size, a full batch leaves at once and a started one within the configured flush interval; in immediate mode every span leaves at once; spans leave in the order in which they ended.",
  ["configurations", "schedules", "inputs"],
  "All combinations of options and environment variables, and all arrival patterns of ended spans.",
  "Tests inject an in-memory exporter and do not look at the wire or at batch boundaries over time.",
  ["packages/otel/src/span-processor.ts"],
  [["LangfuseSpanProcessor constructor", "packages/otel/src/span-processor.ts"], ["onStart attributes", "packages/otel/src/span-processor.ts:onStart"]],
  ["OTLP HTTP requests", "SpanExporter.export calls under a virtual clock"]);

p("C35", "Prompt objects present the server's prompt; writes send what was given",
  "A prompt obtained by a read (fetched or cached) or by creating it presents the server's name, version, type, content, config, labels, tags and commit message unchanged, as does its JSON form; a fallback prompt presents the requested name, version (0 if none) and label with the fallback as content, marked as fallback. Creating a prompt sends exactly the fields the caller gave (type text unless chat), with chat messages and placeholders in order and kind; label updates and deletions address exactly the given name, version and label and nothing more. Arguments are never mutated.",
  ["inputs", "histories"],
  "All prompt contents, messages, placeholders and option combinations, including empty and falsy values.",
  "Tests check single examples of each operation and few of the fields.",
  ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptClients.ts"],
  [["PromptManager create/update/delete/get", "packages/client/src/prompt/promptManager.ts"], ["prompt client constructors and toJSON", "packages/client/src/prompt/promptClients.ts"]],
  ["HTTP requests", "members and toJSON() of the returned objects"]);
p("C36", "Clients and processors of different projects never mix",
  "Several clients, and span processors on their own tracer providers, can live in one process. Every request made for one of them carries that one's credentials, base URL and additional headers and only its own data: scores, prompts (also cached ones), project ids in URLs, datasets, media and spans of one are never sent with the credentials of another nor answered from its state, and the faults, flush and shutdown of one do not affect the others. Each processor's spans get its own environment, release, mask and filter. Changing environment variables after construction does not redirect an existing instance.",
  ["histories", "schedules", "configurations"],
  "All interleavings of operations of several instances, with different or equal hosts, keys from options or environment.",
  "Tests use one client per test file.",
  ["packages/client/src/LangfuseClient.ts", "packages/otel/src/span-processor.ts", "packages/client/src/prompt/promptCache.ts", "packages/client/src/score/index.ts"],
  [["LangfuseClient constructor", "packages/client/src/LangfuseClient.ts"], ["LangfuseSpanProcessor constructor", "packages/otel/src/span-processor.ts"]],
  ["HTTP requests per credential", "SpanExporter.export calls per processor", "results of reads"]);
p("C37", "The SDK neither holds the process open nor acts after shutdown",
  "A score waiting for its batch, a cached prompt, a wrapped client or an idle span processor never keeps the process alive: whenever no call, request or upload is under way, no timer that holds the event loop is pending. Once the shutdown of the client and of the span processor has resolved and all calls have settled, no timer is left and no further request or export happens. Flush and shutdown settle on every history, also when nothing was ever recorded, when called repeatedly or concurrently, and when the server only fails.",
  ["histories", "schedules", "faults"],
  "All histories of use followed by flush and shutdown in any order.",
  "Tests stop their timers with the test process.",
  ["packages/client/src/score/index.ts", "packages/otel/src/span-processor.ts", "packages/core/src/utils.ts"],
  [["safeSetTimeout", "packages/core/src/utils.ts"], ["ScoreManager.flush/shutdown", "packages/client/src/score/index.ts"], ["forceFlush/shutdown", "packages/otel/src/span-processor.ts"]],
  ["timer queue (ref state)", "HTTP requests and exports after shutdown"]);
p("C38", "Finished work is not retained",
  "Memory does not grow with the number of finished operations: repeated start and end of observations (exported, filtered or unsampled), propagation scopes, wrapped functions, scores, prompt reads of the same prompts, API calls, media uploads and resolutions, OpenAI calls and streams (completed, failed or abandoned), LangChain runs, AI SDK calls and experiments leave nothing behind once they have completed and been sent, by an explicit flush or on the regular schedule, whether they succeeded or failed.",
  ["histories", "faults"],
  "Unbounded repetition of every kind of operation in long-lived processes.",
  "Tests run each operation a few times and never look at memory.",
  ["packages/otel/src/span-processor.ts", "packages/otel/src/MediaService.ts", "packages/langchain/src/CallbackHandler.ts", "packages/client/src/score/index.ts", "packages/client/src/prompt/promptCache.ts"],
  [["spanExportExpectationById", "packages/otel/src/span-processor.ts"], ["pendingEndedSpans", "packages/otel/src/span-processor.ts"], ["pendingMediaUploads", "packages/otel/src/MediaService.ts"], ["runMap", "packages/langchain/src/CallbackHandler.ts"], ["refreshing keys", "packages/client/src/prompt/promptCache.ts"]],
  ["heap after garbage collection", "weak references to finished objects"]);

const ids = new Set();
for (const x of P) {
  if (ids.has(x.id)) throw new Error("dup " + x.id);
  ids.add(x.id);
  if (x.title.length > 80) throw new Error(`title of ${x.id} too long: ${x.title.length}`);
}
writeFileSync(new URL("../properties.jsonl", import.meta.url), P.map((x) => JSON.stringify(x)).join("\n") + "\n");
console.log(P.length, "properties");
