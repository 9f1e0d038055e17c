// C27: a route request becomes exactly its query, path and header parameters and body.
// @check {"seconds": 15, "budget": 240, "size_bounded": ["unions: queries and bodies", "unions: headers and path"], "assumptions": ["parts of a request are taken at the contract being proved (structural induction over finite schemas and finite chains of names)", "codecs referred to by name are taken at the contracts of C25 and C31"]}
import { contract, ensures, same, cover, assume, any, defShape, specFn, useContract, bodyOf, fork, internal, oneOf, anyString, S } from 'ghost';
import { parseRoute, resolveStringProperty } from 'repo/openapi-generator/src/route.ts';
import { findSymbolInitializer } from 'repo/openapi-generator/src/resolveInit.ts';
import { parseCodecInitializer } from 'repo/openapi-generator/src/codec.ts';
import { agree, errorsByContract } from './lib/generator';

const parseRequestSchema = internal('openapi-generator/src/route.ts', 'parseRequestSchema');
let project: any;
const tagged = (right: any) => S.tagged('_tag', { Left: { left: S.any }, Right: { right } });
const parameter = S.obj({ type: S.lit('path', 'query', 'header'), name: S.str, schema: S.any, required: S.bool });
const request: any = specFn('request', (s: any) => parseRequestSchema(project, s), { result: tagged(S.obj({ parameters: S.array(parameter), body: S.opt(S.any) })) });
const text: any = specFn('text', (s: any, what: any) => resolveStringProperty(project, s, what), { result: tagged(S.str) });
const codec: any = specFn('codec', (file: any, init: any) => parseCodecInitializer(project, file, init), { result: tagged(S.ref('schema')) });
const declared: any = specFn('declared', (file: any, name: any) => findSymbolInitializer(project, file, name), { result: tagged(S.array(S.any, 3, 3)) });
const setUp = () => {
  errorsByContract();
  useContract('openapi-generator/src/route.ts#parseRequestSchema', (_p: any, s: any) => request(s));
  useContract('openapi-generator/src/route.ts#resolveStringProperty', (_p: any, s: any, what: any) => text(s, what));
  useContract('openapi-generator/src/codec.ts#parseCodecInitializer', (_p: any, file: any, init: any) => codec(file, init));
  useContract('openapi-generator/src/resolveInit.ts#findSymbolInitializer', (_p: any, file: any, n: any) => declared(file, n));
  const known: any = any('known codec', S.opt(tagged(S.union(S.ref('schema'), sections))));
  project = {
    get: any('get', S.fn({ pure: true, result: S.opt(sourceFile) })),
    resolveEntryPoint: () => ({ _tag: 'Left', left: '' }),
    resolveKnownImport: () => known === undefined ? undefined : () => known,
  };
};

const name = S.lit('a', 'b', 'c');
const expression = S.obj({ type: S.lit('Identifier', 'StringLiteral'), value: S.lit('codec', 'other') });
const sourceFile = S.obj({
  path: S.lit('/a.ts', '/b.ts'),
  symbols: S.obj({
    imports: S.array(S.obj({ type: S.lit('named'), importedName: S.lit('codec'), localName: S.lit('codec'), from: S.lit('lib') }), 1, 1),
    declarations: S.array(S.obj({ name, init: expression, comment: S.opt(S.obj({ description: S.str })) })),
    exports: S.array(S.any, 0, 0), exportStarFiles: S.array(S.any, 0, 0),
  }),
});
const section = S.obj({ type: S.lit('object'), properties: S.record(S.ref('schema'), S.union(name, S.str)), required: S.array(S.union(name, S.str)) });
const sections = S.obj({ type: S.lit('object'), properties: S.obj({ query: S.opt(S.union(section, S.ref('schema'))), params: S.opt(S.union(section, S.ref('schema'))), headers: S.opt(S.union(section, S.ref('schema'))), body: S.opt(S.ref('schema')) }) });
defShape('schema', S.union(
  S.obj({ type: S.lit('any', 'undefined', 'number', 'boolean') }),
  S.obj({ type: S.lit('string'), enum: S.opt(S.array(S.str)) }),
  S.obj({ type: S.lit('object'), properties: S.record(S.ref('schema')), required: S.array(S.str) }),
));

// the parameters of a section
const fields = (type: string, s: any) => Object.keys(s.properties).map((n) => ({ type, name: n, schema: s.properties[n], required: s.required.includes(n) }));

contract('C27', 'sections', () => {
  setUp();
  const s: any = any('request', sections);
  const { query, params, headers, body } = s.properties;
  const r: any = bodyOf(parseRequestSchema)(project, s);
  if ((query && query.type !== 'object') || (params && params.type !== 'object') || (headers && headers.type !== 'object')) {
    cover('wrong kind');
    ensures('sections that are not objects are errors', r._tag === 'Left');
  } else {
    cover('parameters');
    ensures('a request', r._tag === 'Right');
    same('body', r.right.body, body);
    same('parameters', r.right.parameters, [...(query ? fields('query', query) : []), ...(params ? fields('path', params) : []), ...(headers ? fields('header', headers) : [])]);
  }
});

contract('C27', 'intersections', () => {
  setUp();
  const s: any = any('request', S.obj({ type: S.lit('intersection'), schemas: S.array(S.union(sections, S.obj({ type: S.lit('string') }))) }));
  const r: any = bodyOf(parseRequestSchema)(project, s);
  const parts = s.schemas.map((m: any) => request(m));
  if (parts.some((p: any) => p._tag === 'Left')) {
    cover('wrong member');
    ensures('members that are no requests are errors', r._tag === 'Left');
  } else {
    cover('parameters');
    ensures('a request', r._tag === 'Right');
    same('the parameters of all members', r.right.parameters, parts.flatMap((p: any) => p.right.parameters));
    const bodies = parts.filter((p: any) => p.right.body !== undefined).map((p: any) => p.right.body);
    if (bodies.length === 0) ensures('no body', r.right.body === undefined);
    else same('the bodies of all members', r.right.body, { type: 'intersection', schemas: bodies });
  }
});

contract('C27', 'other kinds', () => {
  setUp();
  const s: any = any('request', S.obj({ type: S.lit('any', 'undefined', 'string', 'number', 'integer', 'boolean', 'null', 'array', 'record', 'tuple') }));
  ensures('are errors', (bodyOf(parseRequestSchema)(project, s) as any)._tag === 'Left');
});

// unions of one to three members, given directly or by name
const plainSection = S.opt(section);
const member = S.obj({ type: S.lit('object'), properties: S.obj({ query: S.opt(S.ref('schema')), params: plainSection, headers: plainSection, body: S.opt(S.ref('schema')) }) });
const members = (sizes: number[]) => {
  const n = oneOf('members', sizes);
  const a = any('first', member), b = any('second', member), c = any('third', member);
  return n === 1 ? [a] : n === 2 ? [a, b] : [a, b, c];
};
const defined = (xs: any[]) => xs.filter((x: any) => x !== undefined);

contract('C27', 'unions: queries and bodies', () => {
  setUp();
  const ms: any[] = members([1, 2, 3]);
  const comment = any('comment', S.opt(S.obj({ description: S.str })));
  const r: any = bodyOf(parseRequestSchema)(project, { type: 'union', schemas: ms, ...(comment !== undefined ? { comment } : {}) });
  cover('request');
  ensures('a request', r._tag === 'Right');
  const queries = defined(ms.map((m: any) => m.properties.query));
  const bodies = defined(ms.map((m: any) => m.properties.body));
  if (bodies.length === 0) ensures('no body', r.right.body === undefined);
  else same('one of the bodies', r.right.body, { type: 'union', schemas: bodies, ...(comment !== undefined ? { comment } : {}) });
  const query = r.right.parameters.filter((p: any) => p.type === 'query');
  if (queries.length === 0) ensures('no query', query.length === 0);
  else same('one of the queries', query, [{ type: 'query', name: 'union', explode: true, required: true, schema: { type: 'union', schemas: queries } }]);
});

contract('C27', 'unions: headers and path', () => {
  setUp();
  const ms: any[] = members([1, 2]);
  const r: any = bodyOf(parseRequestSchema)(project, { type: 'union', schemas: ms });
  cover('request');
  const of = (type: string) => r.right.parameters.filter((p: any) => p.type === type);
  const withPath = ms.find((m: any) => m.properties.params !== undefined);
  same('the path parameters of the first member that has any', of('path'), withPath === undefined ? [] : fields('path', withPath.properties.params));
  const h = anyString('header', ms[0].properties.headers?.properties);
  const owner = ms.find((m: any) => m.properties.headers !== undefined && h in m.properties.headers.properties);
  const named = (p: any) => p.type === 'header' && p.name === h;
  if (owner === undefined) ensures('no other headers', !r.right.parameters.some(named));
  else {
    const { properties, required } = owner.properties.headers;
    const right = (p: any) => p.schema === properties[h] && p.required === required.includes(h);
    ensures('each header is listed', r.right.parameters.some((p: any) => named(p) && right(p)));
    ensures('as in the first member that has it', !r.right.parameters.some((p: any) => named(p) && !right(p)));
  }
});

// named requests, and members of unions given by name
const target = S.obj({ type: S.lit('object'), properties: S.obj({ query: S.opt(S.ref('schema')), params: plainSection, headers: plainSection, body: S.opt(S.ref('schema')) }) });
contract('C27', 'requests given by name', () => {
  setUp();
  const ref: any = any('request', S.obj({ type: S.lit('ref'), name, location: S.lit('/a.ts', '/b.ts') }));
  const r: any = bodyOf(parseRequestSchema)(project, ref);
  const file: any = project.get(ref.location);
  if (file === undefined) { ensures('unknown files are errors', r._tag === 'Left'); return; }
  const d = declared(file, ref.name);
  if (d._tag === 'Left') { ensures('unknown names are errors', r._tag === 'Left'); return; }
  const c = codec(d.right[0], d.right[1]);
  if (c._tag === 'Left') ensures('unknown codecs are errors', r._tag === 'Left');
  else {
    cover('resolved');
    agree('the request of that name', r, request(c.right));
  }
});

contract('C27', 'texts', () => {
  setUp();
  const s: any = fork(any('text', S.opt(S.union(S.ref('schema'), S.obj({ type: S.lit('ref'), name, location: S.lit('/a.ts', '/b.ts') })))));
  const what: any = any('what', S.lit('path', 'method'));
  const r: any = bodyOf(resolveStringProperty)(project, s, what);
  if (s !== undefined && s.type === 'string' && s.enum !== undefined && s.enum.length === 1) {
    cover('literal');
    same('the text', r, { _tag: 'Right', right: s.enum[0] });
  } else if (s !== undefined && s.type === 'ref' && project.get(s.location) !== undefined) {
    const d = declared(project.get(s.location), s.name);
    const c = d._tag === 'Left' ? d : codec(d.right[0], d.right[1]);
    if (c._tag === 'Left') ensures('unknown names are errors', r._tag === 'Left');
    else {
      cover('named');
      agree('the text of that name', r, text(c.right, what));
    }
  } else ensures('anything else is an error', r._tag === 'Left');
});

contract('C27', 'routes', () => {
  setUp();
  const s: any = any('route', S.obj({
    type: S.lit('object', 'string'),
    properties: S.obj({ path: S.opt(S.ref('schema')), method: S.opt(S.ref('schema')), request: S.opt(S.union(sections, S.ref('schema'))), response: S.opt(S.union(S.obj({ type: S.lit('object'), properties: S.record(S.any) }), S.obj({ type: S.lit('string', 'union') }))) }),
    comment: S.opt(S.obj({ description: S.str })),
  }));
  const r: any = parseRoute(project, s);
  const p = text(s.properties.path, 'path');
  const m = text(s.properties.method, 'method');
  const { request: q, response } = s.properties;
  if (s.type !== 'object' || p._tag === 'Left' || m._tag === 'Left' || q === undefined || request(q)._tag === 'Left' || response === undefined || response.type !== 'object') {
    cover('refused');
    ensures('missing parts and wrong kinds are errors', r._tag === 'Left');
  } else {
    cover('route');
    const { parameters, body } = request(q).right;
    same('every part', r, { _tag: 'Right', right: { path: p.right, method: m.right, parameters, response: response.properties, ...(body !== undefined ? { body } : {}), ...(s.comment !== undefined ? { comment: s.comment } : {}) } });
  }
});
