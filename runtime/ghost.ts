// Concrete leg of the specification vocabulary: the contract files, compiled together with the real code of /repo and the
// real libraries, are run on generated inputs. Same contract text as the symbolic leg (engine/ghost.py).
export class Violation extends Error { constructor(public label: string, public detail: any) { super(label); } }
export class Skip extends Error {}
export class ExitSignal extends Error { constructor(public code: any) { super('process.exit(' + code + ')'); } }

// ---- random
let state = 1;
const rnd = () => { state |= 0; state = (state + 0x6d2b79f5) | 0; let t = Math.imul(state ^ (state >>> 15), 1 | state); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
const int = (n: number) => Math.floor(rnd() * n);
const pick = <T>(a: T[]): T => a[int(a.length)]!;
const chance = (p: number) => rnd() < p;
export const seedRandom = (s: number) => { state = s; rnd(); rnd(); };

const TRICKY = ['', 'a', 'b', 'key', '0', '1', '200', '400', '404', '500', '$&', '$$', "$'", '$1', '{a}', '{b}', '{', '}', '*', '/', '//', '/x', ' ', 'a b', 'é', '😀', 'a😀b', '\n', '"', "'", '\\', 'undefined', 'null', 'true', 'false', 'x-1', 'A', 'Aa', 'id', 'name', 'ok', 'get', 'post', 'put', 'delete', 'patch', 'GET', 'POST', '1.5', '-1', 'length', 'a,b', 'type', 'value'];
const PROTO = new Set(['constructor', 'hasOwnProperty', 'toString', 'valueOf', '__proto__', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString', '__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__']);
let dict: string[] = [];
let nums: number[] = [];
export const setNums = (n: number[]) => { nums = n; };
export const setDict = (d: string[]) => { dict = d.filter((x) => !PROTO.has(x)); };
let pool: string[] = [];
let vals: any[] = [];
let inputs: [string, any][] = [];
let choices: string[] = [];
const CH = 'abcxyz019${}*/-. é😀\n&';
const genStr = (): string => {
  const r = rnd();
  let s: string;
  if (r < 0.3 && pool.length) return pick(pool);
  if (r < 0.55) s = pick(TRICKY);
  else if (r < 0.75 && dict.length) s = pick(dict);
  else if (r < 0.85) s = pick(TRICKY) + pick(TRICKY);
  else { s = ''; const cs = [...CH]; for (let n = int(6); n >= 0; n--) s += pick(cs); }
  if (PROTO.has(s)) s = 'p';
  if (pool.length < 12) pool.push(s); else if (chance(0.2)) pool[int(pool.length)] = s;
  return s;
};
const genInt = () => (chance(0.6) ? int(4) : nums.length && chance(0.25) ? pick(nums) : chance(0.5) ? pick([200, 201, 204, 301, 400, 404, 500, 503, -1, 10, 100]) : int(2000) - 500);
const genAny = (d: number): any => {
  const r = int(d > 2 ? 8 : 11);
  switch (r) {
    case 0: return undefined; case 1: return null; case 2: return chance(0.5); case 3: case 4: return genInt();
    case 5: case 6: case 7: return genStr();
    case 8: return Array.from({ length: int(3) }, () => genAny(d + 1));
    case 9: if (vals.length && chance(0.3)) return pick(vals);
    default: { const o: any = {}; for (let n = int(3); n > 0; n--) o[genStr()] = genAny(d + 1); return o; }
  }
};
const genJson = (d: number): any => {
  const r = int(d > 2 ? 6 : 8);
  switch (r) {
    case 0: return null; case 1: return chance(0.5); case 2: case 3: return genInt(); case 4: case 5: return genStr();
    case 6: return Array.from({ length: int(3) }, () => genJson(d + 1));
    default: { const o: any = {}; for (let n = int(3); n > 0; n--) o[genStr()] = genJson(d + 1); return o; }
  }
};
// ---- shapes
type Sh = any;
const shapes: Record<string, Sh> = {};
export const defShape = (name: string, sh: Sh) => { shapes[name] = sh; };
const mk = (k: string, extra: any = {}) => ({ __shape: k, ...extra });
export const S: any = {
  any: mk('any'), json: mk('json'), str: mk('str'), num: mk('int'), int: mk('int'), nat: mk('nat'), bool: mk('bool'), undef: mk('undef'), null: mk('null'), big: mk('big'),
  lit: (...vs: any[]) => mk('lit', { vs }), opt: (inner: Sh) => mk('opt', { inner }), obj: (props: any, open = false) => mk('obj', { props, open }),
  record: (inner: Sh, key?: Sh) => mk('record', { inner, key }), array: (inner: Sh, min = 0, max?: number) => mk('array', { inner, min, max }),
  union: (...alts: Sh[]) => mk('union', { alts }), tagged: (tag: string, variants: any) => mk('tagged', { tag, variants }),
  promise: (inner: Sh, rejects = false) => mk('promise', { inner, rejects }), ref: (name: string) => mk('ref', { name }), fn: (o: any = {}) => mk('fn', o),
};
const ids = new WeakMap<object, number>(); let idc = 0;
const keyOf = (v: any, seen: any[] = []): string => {
  switch (typeof v) {
    case 'undefined': return 'u'; case 'string': return JSON.stringify(v); case 'bigint': return v + 'n'; case 'number': case 'boolean': return String(v);
    case 'symbol': return v.toString(); case 'function': { if (!ids.has(v)) ids.set(v, ++idc); return 'f' + ids.get(v); }
  }
  if (v === null) return 'null';
  if (seen.includes(v)) return 'cyc';
  if (Array.isArray(v)) return '[' + v.map((x) => keyOf(x, [...seen, v])).join() + ']';
  const pr = Object.getPrototypeOf(v);
  if (pr !== Object.prototype && pr !== null) { if (!ids.has(v)) ids.set(v, ++idc); return 'o' + ids.get(v); }
  return '{' + Object.keys(v).sort().map((k) => JSON.stringify(k) + ':' + keyOf(v[k], [...seen, v])).join() + '}';
};
const genProps = (props: any, d: number, o: any) => {
  for (const k of Object.keys(props)) {
    const p = props[k];
    if (p.__shape === 'opt') { if (chance(d > 3 ? 0.15 : 0.5)) o[k] = gen(p.inner, d + 1); } else o[k] = gen(p, d + 1);
  }
};
const cheap = (sh: Sh): boolean => {
  const k = sh.__shape;
  if (k === 'ref') return false;
  if (k === 'union') return sh.alts.some(cheap);
  if (k === 'obj') return Object.values(sh.props).every((p: any) => p.__shape === 'opt' || cheap(p));
  if (k === 'tagged') return true;
  return true;
};
export const gen = (sh: Sh, d = 0): any => {
  switch (sh.__shape) {
    case 'any': { const v = genAny(d); if (v !== null && typeof v === 'object') vals.push(v); return v; }
    case 'json': return genJson(d);
    case 'str': return genStr(); case 'int': return genInt(); case 'nat': return Math.abs(genInt()); case 'bool': return chance(0.5);
    case 'undef': return undefined; case 'null': return null; case 'big': return BigInt(genInt());
    case 'lit': return pick(sh.vs);
    case 'opt': return chance(0.5) ? undefined : gen(sh.inner, d);
    case 'ref': return gen(shapes[sh.name], d);
    case 'obj': { const o: any = {}; genProps(sh.props, d, o); if (sh.open) for (let n = int(3); n > 0; n--) { const k = genStr(); if (!(k in o) && !(k in sh.props)) o[k] = genAny(d + 1); } return shuffle(o); }
    case 'record': { const o: any = {}; const m = d > 4 ? 1 : 4; for (let n = int(m); n > 0; n--) o[sh.key ? String(gen(sh.key, d + 1)) : genStr()] = gen(sh.inner, d + 1); return o; }
    case 'array': { const mx = sh.max ?? (d > 4 ? sh.min : Math.max(sh.min, 4)); const n = sh.min + int(mx - sh.min + 1); const a: any[] = []; for (let i = 0; i < n; i++) { const p = i > 0 && chance(0.15) ? pick(a) : undefined; a.push(p !== undefined && (typeof p !== 'object' || p === null) ? p : gen(sh.inner, d + 1)); } return a; }
    case 'union': { const alts = d > 4 ? sh.alts.filter(cheap) : sh.alts; return gen(pick(alts.length ? alts : sh.alts), d); }
    case 'tagged': {
      let names = Object.keys(sh.variants);
      if (d > 3) { const c = names.filter((n) => Object.values(sh.variants[n]).every((p: any) => p.__shape === 'opt' || cheap(p) && p.__shape !== 'array' && p.__shape !== 'record')); if (c.length) names = c; }
      const v = pick(names); const o: any = { [sh.tag]: v }; genProps(sh.variants[v], d, o); return o;
    }
    case 'promise': { if (sh.rejects && chance(0.3)) { const p = Promise.reject(genAny(1)); p.catch(() => {}); return p; } return Promise.resolve(gen(sh.inner, d + 1)); }
    case 'fn': {
      const memo = new Map<string, any>();
      const compute = () => { if (sh.throws && chance(0.25)) return { t: true, v: sh.exc ? gen(sh.exc, 1) : chance(0.5) ? new Error(genStr()) : genAny(1) }; return { t: false, v: sh.result ? gen(sh.result, Math.max(1, d)) : genAny(1) }; };
      const f = function (this: any, ...args: any[]) {
        let r: any;
        if (sh.pure === false) r = compute();
        else { const k = (sh.useThis ? keyOf(this) + '|' : '') + (sh.args === undefined ? args : args.slice(0, sh.args)).map((a) => keyOf(a)).join('|'); r = memo.get(k); if (!r) { r = compute(); memo.set(k, r); } }
        if (r.t) throw r.v;
        return r.v;
      };
      return f;
    }
  }
  throw new Error('shape ' + JSON.stringify(sh));
};
const shuffle = (o: any) => { if (chance(0.7)) return o; const ks = Object.keys(o); for (let i = ks.length - 1; i > 0; i--) { const j = int(i + 1); [ks[i], ks[j]] = [ks[j]!, ks[i]!]; } const r: any = {}; for (const k of ks) r[k] = o[k]; return r; };
const log = (n: string, v: any) => { inputs.push([n, v]); return v; };
// values whose keys follow those of an earlier input (declarations and the data they describe)
const isPlain = (v: any) => v !== null && typeof v === 'object' && !Array.isArray(v);
const mirror = (skel: any, sh: Sh, d: number): any => {
  const k = sh.__shape;
  if (!isPlain(skel) || d > 3) return gen(sh, d);
  if (k === 'union') { const a = sh.alts.filter((x: any) => ['record', 'any', 'obj'].includes(x.__shape)); return a.length ? mirror(skel, pick(a), d) : gen(sh, d); }
  const o: any = {};
  if (k === 'any' || k === 'record') {
    for (const n of Object.keys(skel)) if (chance(0.9)) o[sh.key ? String(n) : n] = mirror(skel[n], k === 'any' ? sh : sh.inner, d + 1);
    return chance(0.2) ? { ...gen(k === 'any' ? mk('record', { inner: sh }) : sh, d + 1), ...o } : o;
  }
  if (k === 'obj') { genProps(sh.props, d, o); for (const n of Object.keys(sh.props)) if (n in o && n in skel) o[n] = mirror(skel[n], sh.props[n].__shape === 'opt' ? sh.props[n].inner : sh.props[n], d + 1); return o; }
  return gen(sh, d);
};
const follows = (sh: Sh): boolean => sh.__shape === 'any' || (sh.__shape === 'record' && !sh.key && follows(sh.inner)) || (sh.__shape === 'union' && sh.alts.some(follows)) || (sh.__shape === 'obj' && Object.values(sh.props).some((p: any) => follows(p)));
let fnInputs: [Sh, any][] = [];
export const any = (name: string, sh: Sh) => {
  if (follows(sh) && chance(0.5)) { const ms = inputs.filter(([, v]) => isPlain(v) && Object.keys(v).length); if (ms.length) return log(name, mirror(pick(ms)[1], sh, 0)); }
  if (sh.__shape === 'fn') { const same = fnInputs.filter((x) => x[0] === sh); if (same.length && chance(0.15)) return log(name, pick(same)[1]); const v = gen(sh); fnInputs.push([sh, v]); return log(name, v); }
  return log(name, gen(sh));
};
export const choose = (name: string) => log(name, chance(0.5));
export const oneOf = (name: string, opts: any[]) => { const v = pick(opts); log(name, v); return v; };
export const split = (b: any) => b;
export const fork = (v: any) => v;
const ownKeys = (o: any) => (o !== null && typeof o === 'object' ? Object.keys(o) : []);
export const anyKey = (name: string, o: any) => { const ks = ownKeys(o); if (!ks.length) throw new Skip(); return log(name, pick(ks)); };
export const anyIndex = (name: string, a: any[]) => { if (!a.length) throw new Skip(); return log(name, int(a.length)); };
const collect = (v: any, out: Set<string>, d: number) => { if (d > 4 || v === null || v === undefined) return; if (typeof v === 'string') { out.add(v); return; } if (typeof v !== 'object') return; if (Array.isArray(v)) { v.forEach((x) => collect(x, out, d + 1)); return; } for (const k of Object.keys(v)) { out.add(k); collect(v[k], out, d + 1); } };
export const anyString = (name: string, of?: any) => {
  if (of !== null && typeof of === 'object' && chance(0.8)) { const ks = Object.keys(of); if (ks.length) return log(name, pick(ks)); }
  if (chance(0.75)) { const s = new Set<string>(); for (const [, v] of inputs) collect(v, s, 0); const a = [...s]; if (a.length) return log(name, pick(a)); }
  return log(name, genStr());
};
export const assume = (c: any) => { if (!c) throw new Skip(); };
let nens = 0; const seenLabels = new Map<string, number>(); const covers = new Map<string, number>();
export const ensures = (label: string, c: any) => { nens++; seenLabels.set(label, (seenLabels.get(label) ?? 0) + 1); if (!c) throw new Violation(label, undefined); };
const deepSame = (a: any, b: any, seen: any[] = []): boolean => {
  if (Object.is(a, b) || a === b) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false;
  if (seen.length > 50) return true;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x: any, i: number) => deepSame(x, b[i], [...seen, a]));
  const pa = Object.getPrototypeOf(a), pb = Object.getPrototypeOf(b);
  if (pa !== pb && !(pa === null || pb === null)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && deepSame(a[k], b[k], [...seen, a]));
};
export const same = (label: string, a: any, b: any) => { nens++; seenLabels.set(label, (seenLabels.get(label) ?? 0) + 1); if (!deepSame(a, b)) throw new Violation(label, { got: a, expected: b }); };
export const cover = (label: string) => { covers.set(label, (covers.get(label) ?? 0) + 1); };
export const isObject = (v: any) => (typeof v === 'object' && v !== null) || typeof v === 'function';
export const specFn = (_n: string, f: any, _o?: any) => f;
export const useContract = (_k: string, _f: any) => {};
export const bodyOf = (f: any) => f;
export const arrayIncludes = (a: any[], v: any) => a.includes(v);
export const internal = (path: string, name: string): any => { const m = (globalThis as any).__internals?.[path]; if (!m) throw new Error('internal module ' + path + ' not bundled'); return m[name]; };
const tick = () => new Promise<void>((r) => setImmediate(r));
export const settled = async (f: any): Promise<any> => {
  let p: any;
  try { p = f(); } catch (e) { if (e instanceof Skip || e instanceof Violation || e instanceof ExitSignal) throw e; return { state: 'rejected', value: e }; }
  let r: any = { state: 'pending', value: undefined };
  Promise.resolve(p).then((v) => { r = { state: 'fulfilled', value: v }; }, (e) => { r = { state: 'rejected', value: e }; });
  for (let i = 0; i < 40 && r.state === 'pending'; i++) await tick();
  if (r.state === 'rejected' && (r.value instanceof Skip || r.value instanceof Violation)) throw r.value;
  return r;
};
export const attempt = (f: any): any => {
  try { return { state: 'returned', value: f() }; }
  catch (e) { if (e instanceof Skip || e instanceof Violation) throw e; if (e instanceof ExitSignal) return { state: 'exit', value: e.code }; return { state: 'threw', value: e }; }
};
// ---- running
export type C = { id: string; label: string; f: any; opts: any };
export const contracts: C[] = [];
export const contract = (id: string, label: string, f: any, opts: any = {}) => { contracts.push({ id, label, f, opts }); };
const show = (v: any, d = 0): any => {
  if (v === undefined) return { $undefined: 1 };
  if (typeof v === 'bigint') return { $bigint: String(v) };
  if (typeof v === 'function') return { $function: v.name || 'opaque' };
  if (v === null || typeof v !== 'object') return v;
  if (d > 7) return '…';
  if (v instanceof Error) return { $error: String(v.message) };
  if (Array.isArray(v)) return v.map((x) => show(x, d + 1));
  if (v instanceof Promise) return { $promise: 1 };
  const o: any = {}; for (const k of Object.keys(v)) o[k] = show(v[k], d + 1); return o;
};
const hash = (s: string) => { let h = 2166136261; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619); return h >>> 0; };
export const runOne = async (c: C, seed: number): Promise<any> => {
  pool = []; vals = []; inputs = []; fnInputs = []; choices = [];
  seedRandom((hash(c.id + c.label) ^ Math.imul(seed, 2654435761)) | 0);
  nens = 0;
  try { await c.f(); return { ok: true, n: nens }; }
  catch (e: any) {
    if (e instanceof Skip) return { ok: true, n: nens, skip: true };
    if (e instanceof Violation) return { ok: false, label: e.label, detail: show(e.detail), inputs: inputs.map(([n, v]) => [n, show(v)]) };
    return { ok: false, label: 'contract runs to completion (' + (e instanceof ExitSignal ? 'process exit' : 'unexpected exception') + ')', detail: String(e?.stack ?? e).split('\n').slice(0, 6).join('\n'), inputs: inputs.map(([n, v]) => [n, show(v)]) };
  }
};
export const digest = () => hash(JSON.stringify(inputs.map(([n, v]) => [n, show(v)])));
export const stats = () => ({ labels: Object.fromEntries(seenLabels), covers: Object.fromEntries(covers) });
export const resetStats = () => { seenLabels.clear(); covers.clear(); };
export const lastInputs = () => inputs.map(([n, v]) => [n, show(v)]);
