// Lists planted bugs that change only lines added by our own /repo commits (they do not count).
import { execFileSync } from "node:child_process";
import { readFileSync, readdirSync } from "node:fs";
const W = "/tmp/ownlines-wt";
const git = (...a) => execFileSync("git", a, { encoding: "utf8", maxBuffer: 1 << 28, stdio: ["ignore", "pipe", "pipe"] });
git("-C", "/repo", "worktree", "add", "--detach", W, "HEAD");
const BASE = "171104f";
const blame = new Map();
const own = (f) => {
  if (!blame.has(f)) {
    const out = execFileSync("git", ["-C", "/repo", "blame", "-s", `${BASE}..HEAD`, "--", f], { encoding: "utf8", maxBuffer: 1 << 28 });
    blame.set(f, out.split("\n").map((l) => !l.startsWith("^")));
  }
  return blame.get(f);
};
for (const id of readdirSync("/verif/seeded")) {
  try { git("-C", W, "apply", `/verif/seeded/${id}/patch.diff`); } catch { console.log("NOAPPLY ", id); continue; }
  const d = git("-C", W, "diff").split("\n");
  git("-C", W, "checkout", "--", ".");
  let f, n, removed = 0, mine = 0, added = 0, nearOrig = 0;
  for (const l of d) {
    let m;
    if ((m = /^--- a\/(.*)/.exec(l))) f = m[1];
    else if (l.startsWith("+++")) continue;
    else if ((m = /^@@ -(\d+)/.exec(l))) n = Number(m[1]);
    else if (l.startsWith("-")) { removed++; if (own(f)[n - 1]) mine++; n++; }
    else if (l.startsWith("+")) added++;
    else if (l.startsWith(" ")) n++;
  }
  if (removed && removed === mine) console.log("OWN     ", id, removed);
  else if (!removed) console.log("INSERT  ", id, added);
}
git("-C", "/repo", "worktree", "remove", "--force", W);
