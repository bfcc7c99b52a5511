// Shared helpers around the real SDK: clients, tracer providers, exporters.
import { sim, real, Rng, Obs } from "./check";
import { context, trace, propagation } from "@opentelemetry/api";
import { AsyncLocalStorageContextManager } from "@opentelemetry/context-async-hooks";

export function setEnv(vars: Record<string, string | undefined>) {
  for (const k of Object.keys(process.env)) if (/^LANGFUSE_/.test(k)) delete process.env[k];
  for (const [k, v] of Object.entries(vars)) if (v !== undefined) process.env[k] = v;
}
let cm: AsyncLocalStorageContextManager | undefined;
export function installContextManager() {
  if (cm) return;
  cm = new AsyncLocalStorageContextManager().enable();
  context.setGlobalContextManager(cm);
}
export const KEYS = { publicKey: "pk-lf-test", secretKey: "sk-lf-secret", baseUrl: "http://langfuse.test:3000" };

export const isIngestion = (r: { method: string; path: string }) => r.method === "POST" && r.path.endsWith("/api/public/ingestion");

/** An exporter that records every span handed to it, with scripted latency and failures. */
export class RecExporter {
  spans: any[] = [];
  calls: { ev: number; t: number; n: number; doneEv?: number }[] = [];
  shutdowns = 0;
  flushes = 0;
  constructor(private behave: (n: number) => { delay?: number; code?: number; throws?: any; hang?: boolean } = () => ({})) {}
  export(spans: any[], cb: (r: any) => void) {
    const call: any = { ev: sim.tick(), t: sim.now, n: spans.length };
    const idx = this.calls.push(call) - 1;
    for (const s of spans) this.spans.push({ span: s, ev: call.ev, t: sim.now, call: idx, attributes: { ...s.attributes }, name: s.name });
    const b = this.behave(idx);
    if (b.throws) throw b.throws;
    if (b.hang) return;
    const fin = () => { call.doneEv = sim.tick(); cb({ code: b.code ?? 0, error: b.code ? new Error("export failed") : undefined }); };
    if (b.delay) setTimeout(fin, b.delay);
    else fin();
  }
  async forceFlush() { this.flushes++; }
  async shutdown() { this.shutdowns++; }
}

// ---- tracing ---------------------------------------------------------------------------------
import { BasicTracerProvider } from "@opentelemetry/sdk-trace-base";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { setLangfuseTracerProvider } from "@langfuse/tracing";

export function makeTracing(params: any = {}, behave?: ConstructorParameters<typeof RecExporter>[0], providerOpts: any = {}) {
  installContextManager();
  const exporter = params.exporter ?? new RecExporter(behave);
  const processor = new LangfuseSpanProcessor({ ...KEYS, exportMode: "immediate", ...params, exporter });
  // ids of the spans in the order they were started (exporting may reorder them)
  const started: string[] = [];
  const starts: any = { onStart: (s: any) => void started.push(s.spanContext().spanId), onEnd() {}, async forceFlush() {}, async shutdown() {} };
  const provider = new BasicTracerProvider({ spanProcessors: [starts, processor], ...providerOpts });
  setLangfuseTracerProvider(provider);
  return { exporter: exporter as RecExporter, processor, provider, started };
}
export const idOf = (s: any) => s.spanContext().spanId as string;
export const parentOf = (s: any) => s.parentSpanContext?.spanId as string | undefined;

/** A scripted Langfuse media server. `decide` scripts each step. */
export type MediaPlan = { post?: any; put?: (attempt: number) => any; patch?: any; noUrl?: boolean; wrongId?: boolean; host?: string };
import { createHash } from "node:crypto";
export const sha256b64 = (b: Uint8Array) => createHash("sha256").update(b).digest("base64");
export const mediaIdOf = (b: Uint8Array) => sha256b64(b).replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22);
export class MediaServer {
  regs: any[] = [];
  puts: any[] = [];
  patches: any[] = [];
  constructor(private plan: (reg: any) => MediaPlan = () => ({})) {}
  private plans = new Map<string, { plan: MediaPlan; attempts: number }>();
  handle(q: any): any {
    if (q.method === "POST" && q.path === "/api/public/media") {
      const id = String(q.json.sha256Hash).replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22);
      const reg = { ...q.json, mediaId: id, seq: this.regs.length, q };
      this.regs.push(reg);
      const plan = this.plan(reg);
      if (plan.post) return plan.post;
      const token = `u${reg.seq}`;
      this.plans.set(token, { plan, attempts: 0 });
      return { status: 200, body: { mediaId: plan.wrongId ? "wrong-id" : id, uploadUrl: plan.noUrl ? null : `https://${plan.host ?? "bucket.s3.test"}/${token}?sig=abc` }, delay: (plan as any).postDelay };
    }
    if (q.method === "PUT" && /^\/u\d+$/.test(q.path)) {
      const e = this.plans.get(q.path.slice(1))!;
      this.puts.push({ q, token: q.path.slice(1) });
      return e.plan.put ? e.plan.put(e.attempts++) : { status: 200, body: "" };
    }
    if (q.method === "PATCH" && q.path.startsWith("/api/public/media/")) {
      this.patches.push({ q, mediaId: decodeURIComponent(q.path.slice("/api/public/media/".length)), body: q.json });
      return { status: 200, body: {}, ...(0 ? {} : {}) };
    }
    return undefined;
  }
}
