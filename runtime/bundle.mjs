// Bundles a contract file with the real sources of /repo (cross-package imports go to packages/*/src, never to dist).
import { createRequire } from 'node:module';
import fs from 'node:fs'; import path from 'node:path'; import { fileURLToPath } from 'node:url';
const require = createRequire('/opt/veriftools/node/node_modules/x.js');
const esbuild = require('esbuild');
const here = path.dirname(fileURLToPath(import.meta.url));
const [, , contract, outfile] = process.argv;
const REPO = process.env.VERIF_REPO ?? '/repo';
const src = fs.readFileSync(contract, 'utf8');
const internals = [...new Set([...src.matchAll(/internal\(\s*'([^']+)'/g)].map((m) => m[1]))];
const absent = (process.env.VERIF_ABSENT ?? '').split(',').filter(Boolean);
const names = {};
for (const m of src.matchAll(/internal\(\s*'([^']+)'\s*,\s*'([^']+)'/g)) (names[m[1]] ??= new Set()).add(m[2]);
const plugin = {
  name: 'verif',
  setup(b) {
    b.onResolve({ filter: /^ghost$/ }, () => ({ path: path.join(here, 'ghost.ts') }));
    b.onResolve({ filter: /^contract-file$/ }, () => ({ path: path.resolve(contract) }));
    b.onResolve({ filter: /^repo\// }, (a) => ({ path: path.join(REPO, 'packages', a.path.slice(5)) }));
    b.onResolve({ filter: /^@api-ts\// }, (a) => ({ path: path.join(REPO, 'packages', a.path.slice(8), 'src/index.ts') }));
    // optional packages made unavailable to the code of /repo (not to the contracts)
    b.onResolve({ filter: /./ }, (a) => (absent.includes(a.path) && a.importer.startsWith(REPO + '/') ? { path: a.path, namespace: 'absent' } : undefined));
    b.onLoad({ filter: /.*/, namespace: 'absent' }, (a) => ({ contents: `throw Object.assign(new Error("Cannot find module '${a.path}'"), { code: 'MODULE_NOT_FOUND' });`, loader: 'js' }));
    b.onResolve({ filter: /^internals$/ }, () => ({ path: 'internals', namespace: 'internals' }));
    b.onLoad({ filter: /.*/, namespace: 'internals' }, () => ({ resolveDir: here, loader: 'ts',
      contents: internals.map((p, i) => `import * as m${i} from 'repo/${p}';`).join('\n') + `\n(globalThis as any).__internals = {${internals.map((p, i) => `${JSON.stringify(p)}: (m${i} as any).__verif ?? m${i}`).join(', ')}};` }));
    b.onLoad({ filter: /packages\/[^/]+\/src\/.*\.ts$/ }, (a) => {
      let code = fs.readFileSync(a.path, 'utf8');
      const rel = path.relative(path.join(REPO, 'packages'), a.path);
      if (names[rel]) {
        const ns = [...names[rel]];
        // expose module-private functions under test; the code itself is unchanged
        code += `\nexport const __verif = {${ns.map((n) => `get ${n}() { try { return (eval(${JSON.stringify(n)})) } catch { return undefined } }`).filter((_, i) => new RegExp(`\\b(function|const|let|class)\\s+${ns[i]}\\b`).test(code)).map((g, i) => g).join(', ')}};\n`;
        code = code.replace(/get (\w+)\(\) \{ try \{ return \(eval\("\w+"\)\) \} catch \{ return undefined \} \}/g, 'get $1() { return $1; }');
      }
      return { contents: code, loader: 'ts', resolveDir: path.dirname(a.path) };
    });
  },
};
await esbuild.build({
  entryPoints: [path.join(here, 'main.ts')], inject: [], bundle: true, platform: 'node', format: 'cjs', outfile, logLevel: 'error', packages: undefined, target: 'node22',
  plugins: [plugin, { name: 'ext', setup(b) { b.onResolve({ filter: /^[^./]/ }, (a) => (/^(ghost|contract-file|internals|repo\/|@api-ts\/)/.test(a.path) ? undefined : a.kind === 'entry-point' ? undefined : { path: a.path, external: true })); } }],
  banner: { js: '' }, sourcemap: false, treeShaking: false,
  tsconfigRaw: { compilerOptions: { target: 'es2022', useDefineForClassFields: true } },
  ...(internals.length ? { stdin: undefined } : {}),
});
