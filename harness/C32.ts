import { sim, defineCheck, Rng, Obs, show } from "../lib/check";
import { setEnv, makeTracing, KEYS } from "../lib/env";
import { Logger, LogLevel, createLogger, getGlobalLogger, configureGlobalLogger, resetGlobalLogger, logger as singleton } from "@langfuse/core";
import { LangfuseClient } from "@langfuse/client";
import { startObservation, updateActiveObservation, propagateAttributes } from "@langfuse/tracing";
import { spawnSync } from "node:child_process";

const LEVELS = ["debug", "info", "warn", "error"] as const;
const NAMES = ["DEBUG", "INFO", "WARN", "ERROR", "NONE"];
const VAL: Record<string, number> = { DEBUG: LogLevel.DEBUG, INFO: LogLevel.INFO, WARN: LogLevel.WARN, ERROR: LogLevel.ERROR, NONE: LogLevel.NONE };
type Model = { level: number; prefix?: string; ts: boolean };

/** Calls every log method and compares what reached the console with the model. */
function probe(o: Obs, lg: Logger, m: Model, r: Rng, what: string) {
  for (const method of r.shuffle([...LEVELS])) {
    const rank = LEVELS.indexOf(method);
    const message = r.weighted<any>([[4, "msg " + r.text(10)], [1, ""], [1, "%s %d %o"], [1, r.text(200)], [1, "line1\nline2"]]);
    const cyc: any = { a: 1 }; cyc.self = cyc;
    const args = r.list(r.int(0, 3), () => r.pick<any>([1, "x", null, undefined, { a: [1] }, new Error("e"), cyc, Symbol("s"), 10n, Object.create(null), () => 1, NaN]));
    const before = sim.logs.length;
    let ret: any, threw: any;
    try { ret = (lg as any)[method](message, ...args); } catch (e) { threw = { e }; }
    o.check(!threw, "throws", () => `${what}.${method} threw ${show(threw.e)}`);
    const out = sim.logs.slice(before);
    const on = rank >= m.level;
    o.equal(lg.isLevelEnabled(rank as any), on, "level-enabled", `${what} ${method} at level ${NAMES[m.level]}`);
    o.equal(out.length, on ? 1 : 0, "one-line", `${what}.${method} at level ${NAMES[m.level]} wrote ${show(out)}`);
    o.count(on ? "written" : "suppressed");
    if (!on) continue;
    o.equal(out[0].level, method, "method", what);
    const line = out[0].args[0];
    o.check(typeof line === "string", "line", () => show(line));
    const prefix = m.prefix || "[Langfuse SDK]", lvl = `[${method.toUpperCase()}]`;
    const tail = [prefix, lvl, message].filter((x) => x !== "").join(" ");
    o.check(line.endsWith(tail), "line", () => `${what}: ${show(line)} should end with ${show(tail)}`);
    const head = line.slice(0, line.length - tail.length);
    if (m.ts) o.check(/^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}Z $/.test(head) && new Date(head.trim()).getTime() === Date.now(), "timestamp", () => show(line));
    else o.equal(head, "", "timestamp", what);
    o.equal(out[0].args.length, 1 + args.length, "arguments", what);
    args.forEach((a, i) => o.check(Object.is(out[0].args[i + 1], a), "arguments", () => `argument ${i}`));
  }
  o.equal(lg.getLevel(), m.level, "get-level", what);
}

const config = (r: Rng) => {
  const level = r.int(0, 4);
  const prefix = r.pick<any>([undefined, undefined, "", "  ", "[App]", "p " + r.plain(), "%s"]);
  const ts = r.pick<any>([undefined, true, false]);
  const cfg: any = { level };
  if (prefix !== undefined) cfg.prefix = prefix;
  if (ts !== undefined) cfg.enableTimestamp = ts;
  return { cfg, m: { level, prefix, ts: ts !== false } as Model };
};

async function histories(r: Rng, o: Obs) {
  setEnv({});
  resetGlobalLogger();
  const own: { lg: Logger; m: Model }[] = [];
  let glob: Model = { level: LogLevel.INFO, ts: true };
  let held: { lg: Logger; m: Model } | undefined;
  const shape: string[] = [];
  for (let k = r.int(3, 15); k > 0; k--) {
    const op = r.weighted<string>([[3, "create"], [2, "default"], [3, "configure"], [1, "reset"], [3, "setLevel"], [2, "setGlobal"], [1, "time"]]);
    shape.push(op[0] + op[3]);
    if (op === "create") { const { cfg, m } = config(r); own.push({ lg: r.bool() ? createLogger(cfg) : new Logger(cfg), m }); if (r.bool(0.3)) { const l = r.int(0, 4); own.push({ lg: createLogger(cfg), m: { ...m } }); own[own.length - 1].lg.setLevel(l); own[own.length - 1].m.level = l; } }
    else if (op === "default") own.push({ lg: r.bool() ? createLogger() : new Logger(), m: { level: LogLevel.INFO, ts: true } });
    else if (op === "configure") { const { cfg, m } = config(r); configureGlobalLogger(cfg); glob = m; }
    else if (op === "reset") { resetGlobalLogger(); glob = { level: LogLevel.INFO, ts: true }; }
    else if (op === "setLevel" && own.length) { const x = r.pick(own), l = r.int(0, 4); x.lg.setLevel(l); x.m.level = l; }
    else if (op === "setGlobal") { const l = r.int(0, 4); getGlobalLogger().setLevel(l); glob.level = l; }
    else if (op === "time") await sim.advance(r.int(1, 100000));
    for (const x of own) if (r.bool(0.6)) probe(o, x.lg, x.m, r, "own");
    probe(o, getGlobalLogger(), glob, r, "global");
    if (r.bool(0.3)) o.check(singleton.getInstance() === getGlobalLogger(), "singleton");
  }
  resetGlobalLogger();
  o.seen(shape.join(""));
}

/** The SDK itself, under failures, writes nothing below the configured level. */
async function sdk(r: Rng, o: Obs) {
  const level = r.int(0, 4);
  setEnv({});
  configureGlobalLogger({ level });
  sim.logs.length = 0;
  sim.onFetch = () => r.pick<any>([{ status: 500, body: "x" }, { error: new TypeError("fetch failed") }, { status: 200, body: "<html>" }, { status: 401, body: {} }, { status: 200, body: {} }]);
  const job = (async () => {
    const { processor } = makeTracing({ mask: () => { throw new Error("mask"); }, ...(r.bool(0.3) ? { publicKey: "", secretKey: "" } : {}) }, () => r.pick<any>([{ code: 1 }, {}]));
    updateActiveObservation({ input: 1 } as any);
    propagateAttributes({ userId: "x".repeat(300), metadata: { a: 5 as any } }, () => { const s = startObservation("x", { input: "data:image/png;base64,AAAA" }); s.end(); });
    await processor.forceFlush().catch(() => {});
    const client = new LangfuseClient(r.bool(0.3) ? {} : KEYS);
    for (let k = r.int(1, 3); k > 0; k--) client.score.create({ traceId: "t", name: "n", value: 1 });
    await client.flush().catch(() => {});
    await client.prompt.get("p", { fallback: "fb", maxRetries: 0 }).catch(() => {});
    if (r.bool()) await client.experiment.run({ name: "e", data: [{ input: 1 }, { input: 2 }], task: async () => { throw new Error("task"); }, evaluators: [async () => { throw new Error("ev"); }] }).catch(() => {});
    await client.shutdown().catch(() => {});
  })();
  await sim.drive(job);
  await sim.drain(60_000);
  for (const l of sim.logs) {
    const rank = LEVELS.indexOf(l.level as any);
    o.check(rank >= level, "sdk-level", () => `at level ${NAMES[level]} the SDK wrote console.${l.level}(${show(l.args)})`);
    o.count("sdk-lines");
  }
  if (level === LogLevel.NONE) o.count("sdk-silent");
  resetGlobalLogger();
  o.seen(level + ":" + sim.logs.length);
}

// Level from the environment: read when the module loads, so each case is a process of its own.
const CHILD = process.env.VH_C32_CHILD;
function child() {
  const out: any = {};
  for (const m of LEVELS) { const b = sim.logs.length; (getGlobalLogger() as any)[m]("m"); out[m] = sim.logs.slice(b).map((l) => l.level); }
  out.own = createLogger().getLevel();
  configureGlobalLogger({ level: Number(CHILD) });
  out.configured = getGlobalLogger().getLevel();
  process.stdout.write(JSON.stringify(out));
  process.exit(0);
}
async function environment(r: Rng, o: Obs, i: number) {
  const debug = r.weighted<any>([[4, undefined], [1, "true"], [1, "TRUE"], [1, "True"], [1, "false"], [1, "1"], [1, ""], [0.5, "truex"], [0.5, "yes"], [0.5, " true"]]);
  const lvl = r.weighted<any>([[1, undefined], ...NAMES.map((n) => [1, n] as [number, any]), ...NAMES.map((n) => [0.5, n.toLowerCase()] as [number, any]), [0.5, "Warn"], [0.5, "verbose"], [0.5, ""], [0.5, "3"], ...["errors", "warning", "INFORMATION", " INFO", "debug ", "none!", "ERR", "off", "0", "true", "LogLevel.ERROR"].map((n) => [0.6, n] as [number, any])]);
  const env: any = { PATH: process.env.PATH, VH_C32_CHILD: String(r.int(0, 4)) };
  if (debug !== undefined) env.SET_DEBUG = debug;
  if (lvl !== undefined) env.SET_LEVEL = lvl;
  const want = debug?.toLowerCase() === "true" ? LogLevel.DEBUG : VAL[(lvl ?? "").toUpperCase()] ?? LogLevel.INFO;
  // sim.ts removes LANGFUSE_* of the parent: hand them over with a preload
  const boot = `const e=process.env;if(e.SET_DEBUG!==undefined)e.LANGFUSE_DEBUG=e.SET_DEBUG;if(e.SET_LEVEL!==undefined)e.LANGFUSE_LOG_LEVEL=e.SET_LEVEL;const k=Object.keys;Object.keys=(x)=>x===e?k(x).filter((n)=>!/^LANGFUSE_/.test(n)):k(x);require(${JSON.stringify(process.argv[1])})`;
  const p = spawnSync(process.execPath, ["-e", boot], { env, encoding: "utf8", timeout: 60_000 });
  let out: any;
  try { out = JSON.parse(p.stdout); } catch { throw new Error(`child failed: ${p.status} ${p.stderr} ${p.stdout}`); }
  LEVELS.forEach((m, k) => o.equal(out[m], k >= want ? [m] : [], "env-level", `LANGFUSE_DEBUG=${debug} LANGFUSE_LOG_LEVEL=${lvl}, global ${m}`));
  o.equal(out.own, LogLevel.INFO, "own-default");
  o.equal(out.configured, Number(env.VH_C32_CHILD), "configure-wins");
  o.count("processes");
  o.seen(`${debug}/${lvl}`);
}

if (CHILD !== undefined) child();
else defineCheck("C32", {
  rule: "a case is non-trivial when it logged at every level through at least one logger; distinct by configuration history",
  assumptions: ["console methods are replaced by recorders"],
  required: ["written", "suppressed", "sdk-lines", "sdk-silent", "processes"],
}, [
  { name: "histories", quick: 500, run: histories },
  { name: "sdk", quick: 150, run: sdk },
  { name: "environment", quick: 40, quickExact: 160, thorough: 400, run: environment },
]);
