// main.mjs PROPERTY --tier quick|thorough --out FILE --limit SECONDS [--replay EXPLORATION n:c,n:c...]
import { isMainThread, workerData } from "node:worker_threads";
import fs from "node:fs";
import { runMain, runWorker } from "./mc.mjs";
import * as W from "./world.mjs";
const load = async (code, prop) => { W.setCode(code); W.install(); if (code.page) (await import("./page.mjs")).setPage(code.page); const P = await import("./props.mjs"); await P.register(prop); };
if (isMainThread) {
  const o = { property: "", tier: "quick", out: "", limit: 240, replay: null }, a = process.argv.slice(2);
  for (let i = 0; i < a.length; i++) {
    if (a[i] === "--tier") o.tier = a[++i]; else if (a[i] === "--out") o.out = a[++i]; else if (a[i] === "--limit") o.limit = +a[++i];
    else if (a[i] === "--replay") { o.replay = [a[i + 1], (a[i + 2] || "").split(",").filter(Boolean).map((x) => x.split(":").map(Number))]; i += 2; }
    else o.property = a[i];
  }
  let code; try { code = await W.bundle(); if (o.property === "C22") code.page = await (await import("./page.mjs")).bundlePage(); } catch (e) { W.say("the TypeScript sources do not bundle: " + (e && e.message || e)); process.exit(2); }
  o.code = code;
  fs.mkdirSync(W.scratchRoot, { recursive: true });
  const cleanup = () => fs.rmSync(W.scratchRoot, { recursive: true, force: true });
  const main = await import("./mc.mjs"); main.setConf?.(o);
  try { await load(code, o.property); } catch (e) { W.say("harness error: " + (e && e.stack || e)); cleanup(); process.exit(2); }
  await runMain(new URL(import.meta.url), o, W.say, cleanup);
} else await runWorker((prop) => load(workerData.conf.code, prop));
