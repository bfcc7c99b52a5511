export class Rng {
  private s: Uint32Array;
  constructor(...parts: (string | number)[]) {
    // xmur3 -> sfc32
    const str = parts.join("/");
    let h = 1779033703 ^ str.length;
    for (let i = 0; i < str.length; i++) { h = Math.imul(h ^ str.charCodeAt(i), 3432918353); h = (h << 13) | (h >>> 19); }
    const next = () => { h = Math.imul(h ^ (h >>> 16), 2246822507); h = Math.imul(h ^ (h >>> 13), 3266489909); return (h ^= h >>> 16) >>> 0; };
    this.s = new Uint32Array([next(), next(), next(), next()]);
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32(): number {
    const s = this.s;
    const t = (((s[0] + s[1]) | 0) + s[3]) | 0;
    s[3] = (s[3] + 1) | 0;
    s[0] = s[1] ^ (s[1] >>> 9);
    s[1] = (s[2] + (s[2] << 3)) | 0;
    s[2] = (s[2] << 21) | (s[2] >>> 11);
    s[2] = (s[2] + t) | 0;
    return t >>> 0;
  }
  float() { return this.u32() / 4294967296; }
  /** inclusive */
  int(lo: number, hi: number) { return lo + Math.floor(this.float() * (hi - lo + 1)); }
  bool(p = 0.5) { return this.float() < p; }
  pick<T>(a: readonly T[]): T { return a[this.int(0, a.length - 1)]; }
  weighted<T>(a: readonly [number, T][]): T {
    let tot = 0; for (const [w] of a) tot += w;
    let x = this.float() * tot;
    for (const [w, v] of a) { if ((x -= w) < 0) return v; }
    return a[a.length - 1][1];
  }
  shuffle<T>(a: T[]): T[] { const b = a.slice(); for (let i = b.length - 1; i > 0; i--) { const j = this.int(0, i); [b[i], b[j]] = [b[j], b[i]]; } return b; }
  subset<T>(a: readonly T[], p = 0.5): T[] { return a.filter(() => this.bool(p)); }
  list<T>(n: number, f: (i: number) => T): T[] { return Array.from({ length: n }, (_, i) => f(i)); }
  hex(n: number) { let s = ""; while (s.length < n) s += this.u32().toString(16).padStart(8, "0"); return s.slice(0, n); }
  word() { return this.pick(["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]) + this.int(0, 99); }
  /** Text with hostile characters. */
  text(max = 12): string {
    const n = this.int(0, max);
    let s = "";
    for (let i = 0; i < n; i++)
      s += this.weighted<() => string>([
        [6, () => this.pick([..."abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"])],
        [3, () => this.pick([..." .,:;-_/\\|@#%&=+?!*()[]<>'\"`~^$"])],
        [1, () => this.pick(["\n", "\t", "é", "ß", "漢", "😀", "\u0000", "\u200b", "ÿ", "{", "}", "\r\n", "\r", "e\u0301", "\u00a0", "\u2028", "\ufeff", "&amp;", "İ"])],
      ])();
    return s;
  }
  plain(lo = 1, hi = 10): string { return this.list(this.int(lo, hi), () => this.pick([..."abcdefghijklmnopqrstuvwxyz0123456789"])).join(""); }
  json(depth = 3): any {
    const leaf = () => this.weighted<() => any>([
      [3, () => this.text(10)], [2, () => this.int(-1000, 1000)], [1, () => this.float() * 1e3], [1, () => true], [1, () => false], [1, () => null],
      [0.5, () => ""], [0.5, () => 0],
    ])();
    if (depth <= 0 || this.bool(0.35)) return leaf();
    if (this.bool(0.4)) return this.list(this.int(0, 4), () => this.json(depth - 1));
    const o: any = {};
    for (let i = this.int(0, 4); i > 0; i--) o[this.bool(0.8) ? this.plain(1, 6) : this.text(6) || "k"] = this.json(depth - 1);
    return o;
  }
}
