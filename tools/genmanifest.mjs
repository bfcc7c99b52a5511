// Rewrites MANIFEST.json: one check per property of properties.jsonl.
import { readFileSync, writeFileSync, existsSync } from "node:fs";
const V = new URL("../", import.meta.url).pathname;
const T = {
  C01: ["exactly-once and barrier monitor over the recorded ingestion log, under simulated schedules with injected latency and failures"],
  C02: ["batch, order, timeliness and payload monitor over the recorded ingestion log on a virtual clock"],
  C03: ["freshness monitor of every prompt read against the recorded request/response history"],
  C04: ["stale-while-revalidate monitor: settlement, single flight and fallback checked on the event log under faults"],
  C05: ["differential monitor: compile() output against an independent reference renderer, with mutation watch"],
  C06: ["differential monitor: real LangChain formatting of the converted template against compile()"],
  C07: ["exactly-once and barrier monitor over SpanExporter calls with slow/failing exporters, masks and uploads"],
  C08: ["per-span export decision monitor over mixed span trees"],
  C09: ["taint monitor: secrets planted in attributes are searched for in everything exported or uploaded"],
  C10: ["conservation monitor: exported strings, registrations and uploaded bytes reconciled with the planted media"],
  C11: ["scope monitor: each span's attributes against a shadow stack carried through the async schedule"],
  C12: ["per-value monitor of propagated attributes against the validity rules"],
  C13: ["round-trip monitor through the real W3C propagator"],
  C14: ["app-root mark of every exported span against a shadow span registry"],
  C15: ["transparency and end-exactly-once monitor on hooked span processors"],
  C16: ["attribute monitor against a shadow record of every update"],
  C17: ["differential monitor: wrapped against unwrapped client on the same scripted responses"],
  C18: ["end-exactly-once and content monitor of exported generations against scripted responses"],
  C19: ["run-tree monitor: exported spans against the played callback log, handler state inspected at the end"],
  C20: ["invocation-log monitor (once, bounded, order, isolation) of real experiment runs under faults"],
  C21: ["link/score/attribute reconciliation of real experiment runs against HTTP and span logs"],
  C22: ["pagination and hydration monitor against a scripted server"],
  C23: ["request-order and content monitor of item creation with media under upload faults"],
  C24: ["protocol monitor of media uploads on a virtual clock under fault sequences"],
  C25: ["round-trip and resolution monitor against a scripted media store"],
  C26: ["retry/timeout/outcome monitor of API calls on a virtual clock under fault sequences, timer-leak monitor"],
  C27: ["wire monitor: every request decoded and compared with the caller's values"],
  C28: ["wire and settlement monitor of the browser client under scripted answers"],
  C29: ["span attribute and nesting monitor of real AI SDK calls with concurrent contexts"],
  C30: ["taint monitor: the secret key is searched for in all logs, requests, spans and errors"],
  C31: ["span-context monitor against a shadow context and SHA-256 reference; per-provider span ledger"],
  C32: ["console monitor of every log call against the configured level, including separate processes per environment"],
  C33: ["argument/result monitor at the experiment entry point for random option combinations"],
  C35: ["field and request monitor of prompt reads, fallbacks and writes against the scripted server and the caller's arguments"],
  C36: ["cross-instance monitor: every request, export and answer is attributed to an instance by its credentials and markers"],
  C37: ["timer-queue monitor (event-loop holding timers when idle, anything left or sent after shutdown)"],
  C38: ["leak sanitizer: heap after forced garbage collection over windows of repeated operations, weak references to finished objects"],
  C34: ["wire monitor of the OTLP exporter and batch-boundary monitor on a virtual clock"],
};
const props = readFileSync(V + "properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l));
const checks = [], na = [];
for (const p of props) {
  if (!existsSync(`${V}harness/${p.id}.ts`)) { na.push({ property: p.id, reason: "no check built yet" }); continue; }
  checks.push({
    property: p.id,
    quick_cmd: `node tools/run.mjs ${p.id} --tier quick`,
    thorough_cmd: `node tools/run.mjs ${p.id} --tier thorough`,
    evidence_file: `evidence/${p.id}.json`,
    technique: "runtime monitoring: " + T[p.id][0],
    level: "exploration",
    level_note: "The real sources of /repo run under seeded, hostile workloads with simulated time, network and faults; monitors check every observed event. Assurance is for the executions explored (counts and distinct behaviours in the evidence file); it trusts the simulation of timers/fetch and the monitor's reference.",
  });
}
writeFileSync(V + "MANIFEST.json", JSON.stringify({
  version: 1,
  setup_cmd: "node --version",
  checks, not_applicable: na,
  notes: "No hooks in /repo: everything is observed at public interfaces (fetch, http, console, SpanProcessor/SpanExporter, callbacks). Replay a violation with: node tools/run.mjs <ID> --replay <file>.",
}, null, 1) + "\n");
console.log(checks.length, "checks", na.length, "not applicable");
