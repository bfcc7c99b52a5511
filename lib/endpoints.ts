// The public REST API as the SDK types describe it (lib/endpoints.json: written once from the
// generated resource clients of the base commit), with a generator of calls and the expected request.
import catalogue from "./endpoints.json";
import { Rng } from "./rng";

export type Endpoint = (typeof catalogue)[number];
export const endpoints = catalogue as any as {
  path: string[]; method: string; http: string; url: string; body: string | null; void: boolean; query: Record<string, string>;
  params: { name: string; optional: boolean; kind?: string; type?: string; fields?: Record<string, { kind: string; optional: boolean }> }[];
}[];

const wellFormed = (s: string) => (s as any).toWellFormed ? (s as any).toWellFormed() : s;
const str = (r: Rng) => wellFormed(r.weighted<() => string>([[3, () => r.text(14)], [2, () => r.word()], [1, () => r.pick(["a/b", "a b", "a+b", "100%", "%2F", "x&y=z", "x#y", "a?b", "ä/ö", "漢字", "😀", "folder/sub/name", "a;b", "a,b", " lead", "trail ", "'q'", "[0]", "\\", "a//b", "."+r.word(), "a.b"])], [0.3, () => r.pick(["null", "undefined", "0", "true", "__proto__", "constructor"])]])());
const pathStr = (r: Rng) => { for (;;) { const s = str(r); if (s !== "" && !/^\.{1,2}$/.test(s)) return s; } };
const value = (r: Rng, kind: string): any => {
  const k = r.pick(kind.split("|"));
  if (k === "number") return r.pick([0, 1, r.int(-5, 100000), 1.5]);
  if (k === "boolean") return r.bool();
  if (k === "string") return str(r);
  if (k.startsWith("array:")) return r.list(r.int(0, 3), () => value(r, k.slice(6)));
  return r.json(2);
};
/** A random call of an endpoint and the request that it must produce. */
export function makeCall(r: Rng, e: (typeof endpoints)[number]) {
  const args: any[] = [];
  const byName: Record<string, any> = {};
  let request: any;
  for (const p of e.params) {
    if (p.name === "request") {
      if (p.optional && r.bool(0.2)) { args.push(undefined); continue; }
      request = {};
      for (const [f, d] of Object.entries(p.fields!)) {
        if (d.optional && r.bool(0.45)) { if (r.bool(0.2)) request[f] = undefined; continue; }
        request[f] = value(r, d.kind);
      }
      if (e.body && Object.keys(p.fields!).length === 0) Object.assign(request, r.json(2) && { anything: r.json(3) });
      args.push(request);
    } else {
      const v = p.kind === "number" ? r.int(0, 9999) : pathStr(r);
      byName[p.name] = v;
      args.push(v);
    }
  }
  const path = e.url.replace(/\{(\w+)\}/g, (_, n) => `{${n}}`);
  const query: [string, string][] = [];
  for (const [k, f] of Object.entries(e.query)) {
    const v = request?.[f];
    if (v === undefined || v === null) continue;
    for (const x of Array.isArray(v) ? v : [v]) query.push([k, String(x)]);
  }
  return { args, path, byName, query, body: e.body ? JSON.parse(JSON.stringify(request ?? {})) : undefined, hasBody: !!e.body };
}
/** Calls it on an API client. `options` is appended as the request options. */
export function invoke(api: any, e: (typeof endpoints)[number], args: any[], options?: any) {
  let c = api;
  for (const p of e.path) c = c[p];
  const a = args.slice();
  while (a.length < e.params.length) a.push(undefined);
  if (options !== undefined) a.push(options);
  return c[e.method](...a);
}
/** Splits the path of a request by the template; undefined if it does not match. Values come back decoded. */
export function matchPath(template: string, base: string, pathname: string): Record<string, string> | undefined {
  if (!pathname.startsWith(base)) return undefined;
  const want = template.split("/"), got = pathname.slice(base.length).split("/");
  if (want.length !== got.length) return undefined;
  const out: Record<string, string> = {};
  for (let i = 0; i < want.length; i++) {
    const m = /^\{(\w+)\}$/.exec(want[i]);
    if (m) { try { out[m[1]] = decodeURIComponent(got[i]); } catch { return undefined; } }
    else if (want[i] !== got[i]) return undefined;
  }
  return out;
}
