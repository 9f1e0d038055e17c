// Runner of the concrete leg. argv: OPTIONS (JSON). Prints one JSON object per line.
import * as G from 'ghost';
import 'internals';
import 'contract-file';
const opt = JSON.parse(process.argv[2] ?? '{}');
(process as any).exit = ((code: any) => { throw new G.ExitSignal(code); }) as any;
const quiet = () => {}; console.log = quiet; console.error = quiet; console.warn = quiet; console.debug = quiet; console.info = quiet;
const out = (o: any) => { require('fs').writeSync(1, JSON.stringify(o) + '\n'); };
process.on('unhandledRejection', () => {});
const main = async () => {
  if (opt.dict) G.setDict(opt.dict);
  if (opt.nums) G.setNums(opt.nums);
  const cs = G.contracts.filter((c) => (!opt.property || c.id === opt.property) && (!opt.label || c.label === opt.label) && (!opt.labels || opt.labels.includes(c.label)) && !(opt.not_labels ?? []).includes(c.label));
  const per = (opt.seconds ?? 10) / Math.max(1, cs.length);
  for (const c of cs) {
    G.resetStats();
    const t0 = Date.now(); let n = 0, skips = 0, ens = 0, fails = 0; const distinct = new Set<number>(); const samples: any[] = [];
    const first = opt.first ?? 0; const max = opt.iterations ?? 1e9;
    out({ start: c.label });
    const seenFail = new Set<string>();
    for (let i = 0; i < max && (Date.now() - t0) / 1000 < per; i++) {
      const seed = (opt.seed ?? 1) * 1000003 + first + i;
      out_progress(c.label, seed);
      const r = await G.runOne(c, seed);
      n++; ens += r.n ?? 0; if (r.skip) skips++;
      if (r.n && n < 30000) { distinct.add(G.digest()); if (samples.length < 3) samples.push(G.lastInputs()); }
      if (!r.ok) { if (!seenFail.has(r.label)) { seenFail.add(r.label); out({ fail: { property: c.id, contract: c.label, label: r.label, seed: opt.seed ?? 1, iteration: first + i, detail: r.detail, inputs: r.inputs } }); } if (++fails > 40) break; }
    }
    const st = G.stats();
    out({ done: c.label, runs: n, skips, checks: ens, distinct: distinct.size, samples, labels: st.labels, covers: st.covers, seconds: (Date.now() - t0) / 1000 });
  }
};
let lastP = 0;
const out_progress = (l: string, s: number) => { const t = Date.now(); if (t - lastP > 500) { lastP = t; out({ at: l, seed: s }); } };
main().then(() => process.reallyExit?.(0), (e) => { out({ crash: String(e?.stack ?? e) }); (process as any).reallyExit(3); });
