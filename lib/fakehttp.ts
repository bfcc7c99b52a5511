// Replaces http(s).request, which the OTLP exporter uses, by a scripted server under the virtual clock.
import http from "node:http";
import https from "node:https";
import { syncBuiltinESMExports } from "node:module";
import { Writable, Readable } from "node:stream";
import { sim } from "./sim";

export type HttpRec = { url: string; method: string; headers: Record<string, string>; body: Buffer; json: any; t: number; ev: number; doneAt?: number; status?: number; givenUpAt?: number };
export const fakeHttp = {
  requests: [] as HttpRec[],
  onRequest: (_r: HttpRec): { status?: number; body?: string; headers?: Record<string, string>; delay?: number; error?: any; hang?: boolean } => ({ status: 200, body: "{}" }),
  reset() { this.requests = []; this.onRequest = () => ({ status: 200, body: "{}" }); },
};
function request(url: any, options: any, cb?: (res: any) => void) {
  const u = url instanceof URL ? url : new URL(String(url));
  const chunks: Buffer[] = [];
  let timer: any, current: HttpRec | undefined, timeoutCb: any, timeoutMs = 0, destroyed = false;
  const req: any = new Writable({
    autoDestroy: false,
    write(c, _e, done) { chunks.push(Buffer.from(c)); done(); },
    final(done) {
      done();
      const headers: Record<string, string> = {};
      for (const [k, v] of Object.entries(options?.headers ?? {})) headers[k.toLowerCase()] = String(v);
      const body = Buffer.concat(chunks);
      const rec: HttpRec = { url: u.toString(), method: options?.method ?? "GET", headers, body, json: undefined, t: sim.now, ev: sim.tick() };
      try { rec.json = JSON.parse(body.toString("utf8")); } catch {}
      fakeHttp.requests.push(rec); current = rec;
      const r = fakeHttp.onRequest(rec);
      if (timeoutCb) timer = setTimeout(() => { if (!rec.doneAt) timeoutCb(); }, timeoutMs);
      if (r.hang) return;
      const go = () => {
        if (destroyed) return;
        clearTimeout(timer);
        rec.doneAt = sim.now;
        if (r.error) { req.emit("error", r.error); return; }
        rec.status = r.status ?? 200;
        const res: any = Readable.from([Buffer.from(r.body ?? "")]);
        res.statusCode = rec.status; res.statusMessage = "status " + rec.status; res.headers = Object.fromEntries(Object.entries(r.headers ?? {}).map(([k, v]) => [k.toLowerCase(), v]));
        cb?.(res);
      };
      if (r.delay) setTimeout(go, r.delay); else go();
    },
  });
  req.setTimeout = (ms: number, f: any) => { timeoutMs = ms; timeoutCb = f; return req; };
  const d = req.destroy.bind(req);
  req.destroy = (e?: any) => { destroyed = true; if (current && current.doneAt === undefined) current.givenUpAt ??= sim.now; return d(e); };
  req.setHeader = (k: string, v: string) => { options.headers = { ...options.headers, [k]: v }; };
  return req;
}
(http as any).request = request;
(https as any).request = request;
syncBuiltinESMExports();
