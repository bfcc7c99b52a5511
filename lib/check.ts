// Frame of every check: runs seeded cases of named scenarios, counts what the monitors observed,
// records violations with what is needed to replay them, and writes the worker's report.
import { sim, real } from "./sim";
import { Rng } from "./rng";
import { writeFileSync, readFileSync } from "node:fs";
import { isDeepStrictEqual, inspect } from "node:util";

export { sim, real, Rng };
export class Violation extends Error { constructor(public key: string, message: string) { super(message); } }

export class Obs {
  trace: any[] = [];
  sig = "";
  nontrivial = false;
  note: any = undefined;
  constructor(private rep: Report) {}
  count(k: string, n = 1) { this.rep.counters[k] = (this.rep.counters[k] || 0) + n; }
  log(...x: any[]) { if (this.trace.length < 400) this.trace.push(x.length === 1 ? x[0] : x); }
  /** Violation if cond is false. `key` names the kind of violation (stable). */
  check(cond: any, key: string, msg?: string | (() => string)) {
    this.count("oracle." + key);
    if (!cond) throw new Violation(key, `${key}: ${typeof msg === "function" ? msg() : msg ?? ""}`);
  }
  equal(actual: any, expected: any, key: string, what = "") {
    this.count("oracle." + key);
    if (!isDeepStrictEqual(actual, expected))
      throw new Violation(key, `${key}: ${what} expected ${show(expected)} got ${show(actual)}`);
  }
  /** Marks the case as non-trivial with a signature describing the distinct behaviour observed. */
  seen(signature: string) { this.nontrivial = true; this.sig += (this.sig ? "|" : "") + signature; }
}
export const show = (x: any) => { try { return inspect(x, { depth: 6, breakLength: 200, maxStringLength: 400, maxArrayLength: 40 }).slice(0, 1200); } catch { return String(x); } };
export const deepEqual = isDeepStrictEqual;

type Report = {
  evaluations: number; signatures: string[]; counters: Record<string, number>; violations: any[]; samples: any[];
  scenarios: Record<string, number>; rule: string; assumptions: string[]; required: string[];
};
export type Scenario = {
  name: string;
  /** cases in the quick tier; thorough runs `thorough` (default 200x) per worker share */
  quick: number;
  thorough?: number;
  /** exact number of quick cases, for expensive ones (default 8x quick) */
  quickExact?: number;
  run: (r: Rng, o: Obs, i: number) => Promise<void>;
};

function hash(s: string) {
  let a = 0x811c9dc5, b = 0x1000193;
  for (let i = 0; i < s.length; i++) { a = Math.imul(a ^ s.charCodeAt(i), 16777619); b = Math.imul(b + s.charCodeAt(i), 2654435761) ^ (b >>> 13); }
  return (a >>> 0).toString(36) + (b >>> 0).toString(36);
}

export function defineCheck(id: string, opts: { rule: string; assumptions?: string[]; required?: string[]; allowUnhandled?: boolean }, scenarios: Scenario[]) {
  const env = process.env;
  const tier = env.VH_TIER || "quick", seed = Number(env.VH_SEED || 1), worker = Number(env.VH_WORKER || 0), workers = Number(env.VH_WORKERS || 1);
  const rep: Report = { evaluations: 0, signatures: [], counters: {}, violations: [], samples: [], scenarios: {}, rule: opts.rule, assumptions: opts.assumptions ?? [], required: opts.required ?? [] };
  const sigs = new Set<string>();
  let current: { scenario: string; index: number; obs: Obs } | null = null;
  let finished = false;
  const perKey: Record<string, number> = {};
  const violate = (c: { scenario: string; index: number; obs: Obs }, key: string, message: string) => {
    perKey[key] = (perKey[key] || 0) + 1;
    if (perKey[key] <= 3) rep.violations.push({ property: id, seed, scenario: c.scenario, index: c.index, key, message, trace: safe(c.obs.trace), note: safe(c.obs.note) });
  };
  const safe = (x: any) => { try { return JSON.parse(JSON.stringify(x, (_k, v) => (typeof v === "bigint" ? String(v) : v instanceof Error ? String(v) : v instanceof Uint8Array ? `bytes(${v.length})` : v)) ?? "null"); } catch { return show(x); } };
  const flush = () => { rep.signatures = [...sigs]; if (env.VH_REPORT) writeFileSync(env.VH_REPORT, JSON.stringify(rep)); };
  process.on("exit", () => {
    if (!finished && current) violate(current, "never-settles", "never-settles: the event loop ran dry while the case was waiting for a call of the code under test");
    flush();
  });
  const runCase = async (s: Scenario, index: number) => {
    const obs = new Obs(rep);
    current = { scenario: s.name, index, obs };
    sim.reset();
    const rnd = new Rng("math", seed, s.name, index);
    Math.random = () => rnd.float();
    rep.evaluations++;
    rep.scenarios[s.name] = (rep.scenarios[s.name] || 0) + 1;
    try {
      await s.run(new Rng(seed, s.name, index), obs, index);
      await sim.settle(3);
      if (!opts.allowUnhandled && sim.unhandled.length) throw new Violation("unhandled", `unhandled: unhandled rejection or exception: ${show(sim.unhandled[0])}`);
    } catch (e: any) {
      if (e instanceof Violation) violate(current, e.key, e.message);
      else violate(current, "exception", `exception: unexpected exception ${e?.stack ?? show(e)}`);
    }
    if (obs.nontrivial) sigs.add(hash(s.name + ":" + obs.sig));
    if (obs.nontrivial && rep.samples.length < 6 && rep.samples.filter((x) => x.scenario === s.name).length < 2)
      rep.samples.push({ scenario: s.name, index, seed, signature: obs.sig.slice(0, 400), case: safe(obs.note ?? obs.trace.slice(0, 12)) });
    current = null;
  };
  const main = async () => {
    const keep = real.setTimeout(() => {}, 0x7fffffff); // replaced below by unref: only there to make intent explicit
    (keep as any).unref();
    if (env.VH_REPLAY) {
      const v = JSON.parse(readFileSync(env.VH_REPLAY, "utf8"));
      const s = scenarios.find((x) => x.name === v.scenario)!;
      await runCase(s, v.index);
    } else {
      const t0 = real.now();
      const stop = env.VH_FAST ? 1 : 30;
      const budget = tier === "quick" ? 150_000 : 1_500_000;
      const todo = scenarios.filter((s) => !env.VH_SCENARIO || s.name === env.VH_SCENARIO).map((s) => ({ s, n: env.VH_COUNT ? Number(env.VH_COUNT) : tier === "quick" ? Math.ceil((s.quickExact ?? s.quick * 8) * Number(env.VH_SCALE || 1)) : s.thorough ?? s.quick * 200, i: worker }));
      // round-robin in slices, so that the budget is shared by all scenarios
      let more = true;
      while (more && real.now() - t0 < budget && rep.violations.length < stop) {
        more = false;
        for (const x of todo) {
          const slice = Math.max(1, Math.ceil(x.n / 20));
          for (let k = 0; k < slice && x.i < x.n && rep.violations.length < stop; k++, x.i += workers) await runCase(x.s, x.i);
          if (x.i < x.n) more = true;
        }
      }
      if (more && rep.violations.length < stop) rep.counters["budget-exhausted"] = 1;
    }
    finished = true;
    flush();
    process.exit(0);
  };
  void main().catch((e) => { finished = true; process.stdout.write("harness error " + (e?.stack ?? e) + "\n"); process.exit(3); });
}
