// C23: the generated document contains every route and component exactly once.
// @check {"seconds": 15, "budget": 300, "size_bounded": ["routes", "order of paths", "order of nested paths", "order of methods"], "assumptions": ["component names and paths are not names of Object.prototype members"]}
import { contract, ensures, same, cover, assume, any, anyKey, oneOf, specFn, useContract, internal, attempt, S } from 'ghost';
import { schemaToOpenAPI, convertRoutesToOpenAPI } from 'repo/openapi-generator/src/openapi.ts';

const routeToOpenAPI = internal('openapi-generator/src/openapi.ts', 'routeToOpenAPI');
let names: any;
const described: any = specFn('described', (s: any) => schemaToOpenAPI(s, names), { result: S.opt(S.union(S.obj({ $ref: S.str }), S.obj({ type: S.opt(S.str), description: S.opt(S.str), title: S.opt(S.str) }))) });
const operation: any = specFn('operation', (r: any) => (routeToOpenAPI as any)(r, names)[2], { result: S.any });
const schema = S.obj({ type: S.lit('string', 'number', 'boolean', 'undefined') });
const plainRoute = (methods: any) => S.obj({ path: S.str, method: methods, parameters: S.array(S.obj({ name: S.str, type: S.lit('path', 'query'), required: S.bool, schema })), body: S.opt(schema), response: S.record(schema, S.lit('200', '404')) });
const setUp = () => {
  names = any('component names', S.opt(S.record(S.record(S.str))));
  useContract('openapi-generator/src/openapi.ts#schemaToOpenAPI', (s: any) => described(s));
  useContract('openapi-generator/src/openapi.ts#routeToOpenAPI', (r: any) => [r.path, r.method.toLowerCase(), operation(r)]);
};
const head = S.obj({ title: S.str, version: S.str });
const generate = (routes: any[], schemas: any, info: any = { title: 't', version: '1' }, servers: any = []) => (convertRoutesToOpenAPI as any)(info, servers, routes, schemas, names);

contract('C23', 'components', () => {
  setUp();
  const schemas: any = any('component schemas', S.record(S.obj({ type: S.lit('string', 'number', 'undefined') })));
  const info: any = any('info', head);
  const servers: any = any('servers', S.array(S.obj({ url: S.str })));
  const d: any = generate([], schemas, info, servers);
  cover('document');
  same('info', d.info, info);
  same('servers', d.servers, servers.length === 0 ? undefined : servers);
  const expected: any = {};
  for (const name of Object.keys(schemas)) {
    const s = described(schemas[name]);
    if (s !== undefined) expected[name] = '$ref' in s ? { allOf: [{ title: name }, s] } : { title: name, ...s };
  }
  same('components', d.components, { schemas: expected });
  same('no paths', d.paths, {});
  ensures('nothing else', Object.keys(d).every((k: string) => ['openapi', 'info', 'servers', 'paths', 'components'].includes(k)));
});

contract('C23', 'routes', () => {
  setUp();
  const n = oneOf('number of routes', [0, 1, 2, 3]);
  const m = S.union(S.lit('get', 'PUT'), S.str);
  const r: any[] = [];
  for (let i = 0; i < n; i++) r.push(any('route ' + i, plainRoute(m)));
  for (let i = 0; i < n; i++) for (let j = 0; j < i; j++) assume(!(r[i].path === r[j].path && r[i].method.toLowerCase() === r[j].method.toLowerCase()));
  const d: any = generate(r, {});
  cover('document');
  const expected: any = {};
  for (let i = 0; i < n; i++) expected[r[i].path] = { ...(expected[r[i].path] ?? {}), [r[i].method.toLowerCase()]: operation(r[i]) };
  same('paths', d.paths, expected);
});

const order = (...where: [string, string][]) => {
  setUp();
  const d: any = generate(where.map(([path, method], i) => ({ ...any('route ' + i, plainRoute(S.lit('get'))), path, method })), {});
  cover('document');
  const sorted = (k: string[]) => k.every((p: string, i: number) => i === 0 || k[i - 1]!.localeCompare(p) < 0);
  ensures('paths are sorted', sorted(Object.keys(d.paths)));
  for (const [path] of where) ensures('methods are sorted', sorted(Object.keys(d.paths[path])));
};
contract('C23', 'order of paths', () => order(['/b', 'put'], ['/a', 'put'], ['/c', 'get']));
contract('C23', 'order of nested paths', () => order(['/b/{x}', 'get'], ['/b', 'put'], ['/B', 'get'], ['/a', 'post']));
contract('C23', 'order of methods', () => order(['/b', 'put'], ['/b', 'get'], ['/a', 'get'], ['/b', 'delete']));
