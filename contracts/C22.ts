// C22: each route becomes an operation with all of its parameters and responses.
// @check {"seconds": 15, "budget": 240, "assumptions": ["status codes are written as numbers (200, not 0200)"]}
import { STATUS_CODES } from 'http';
import { contract, ensures, same, cover, assume, any, defShape, specFn, useContract, internal, attempt, S } from 'ghost';
import { schemaToOpenAPI } from 'repo/openapi-generator/src/openapi.ts';
import { parseCommentBlock } from 'repo/openapi-generator/src/jsdoc.ts';

const routeToOpenAPI = internal('openapi-generator/src/openapi.ts', 'routeToOpenAPI');
let names: any;
const described: any = specFn('described', (s: any) => schemaToOpenAPI(s, names), { result: S.opt(S.record(S.any)) });
const documentation: any = specFn('documentation', parseCommentBlock, { result: S.obj({ summary: S.opt(S.str), description: S.opt(S.str), tags: S.opt(S.record(S.str)) }) });
const schemaOf = (s: any) => {
  const r = described(s);
  return r === undefined ? undefined : { ...r };
};
const setUp = () => {
  names = any('component names', S.opt(S.record(S.record(S.str))));
  useContract('openapi-generator/src/openapi.ts#schemaToOpenAPI', schemaOf);
  useContract('openapi-generator/src/jsdoc.ts#parseCommentBlock', documentation);
};
const line = S.union(
  S.obj({ source: S.lit(' * text'), tokens: S.obj({ tag: S.lit('', '@private', '@public', '@unstable', '@operationId', '@tag', '@url', '@custom', '@other', '@summary', '@deprecated'), name: S.str, description: S.str }) }),
  S.obj({ source: S.lit(' * @example 12', ' * @example "quoted"', ' * @example [1]', ' * @example {"a": 1}'), tokens: S.obj({ tag: S.lit('@example'), name: S.lit(''), description: S.lit('') }) }),
);
const block = S.obj({ description: S.str, source: S.array(line) });
const schema = S.obj({ type: S.lit('string', 'number', 'boolean', 'any', 'undefined'), comment: S.opt(block) });
const parameter = S.obj({ name: S.str, type: S.lit('path', 'query', 'header'), required: S.bool, explode: S.opt(S.bool), schema });
const plain = S.obj({ type: S.lit('string', 'number', 'boolean', 'any', 'undefined') });
const plainRoute = S.obj({ path: S.str, method: S.lit('get', 'GET'), parameters: S.array(S.obj({ name: S.str, type: S.lit('path', 'query', 'header'), required: S.bool, schema: plain })), body: S.opt(plain), response: S.record(plain, S.lit('200', '404')), comment: S.opt(block) });
const route = S.obj({ path: S.str, method: S.lit('get', 'GET', 'Post'), parameters: S.array(parameter), body: S.opt(schema), response: S.record(schema, S.lit('200', '404', '500')), comment: S.opt(block) });

const operation = (r: any) => attempt(() => (routeToOpenAPI as any)(r, names));
const without = (o: any, ...keys: string[]) => {
  const r = { ...o };
  for (const k of keys) delete r[k];
  return r;
};

contract('C22', 'requests and responses', () => {
  setUp();
  const r: any = any('route', route);
  assume(Object.keys(r.response).every((c: string) => String(Number(c)) === c));
  const o: any = operation(r);
  if (o.state !== 'returned') return;
  cover('operation');
  const [path, method, op] = o.value;
  ensures('path', path === r.path);
  ensures('method', method === r.method.toLowerCase());
  const example = r.comment === undefined ? undefined : documentation(r.comment).tags?.example;
  same('a body exactly when declared', op.requestBody, r.body === undefined ? undefined : { content: { 'application/json': { schema: schemaOf(r.body) } } });
  const responses: any = {};
  for (const code of Object.keys(r.response)) responses[code] = { description: STATUS_CODES[code] ?? '', content: { 'application/json': { schema: schemaOf(r.response[code]), ...(example !== undefined ? { example } : {}) } } };
  same('one response per status', op.responses, responses);
});

contract('C22', 'parameters', () => {
  setUp();
  const r: any = any('route', route);
  const o: any = operation(r);
  if (o.state !== 'returned') return;
  const op = o.value[2];
  const described = op.parameters.map((p: any) => p);
  ensures('one parameter each', described.length === r.parameters.length);
  const expected = r.parameters.map((p: any) => {
    const s = schemaOf(p.schema);
    return {
      name: p.name,
      in: p.type,
      ...(p.schema.comment?.description !== undefined ? { description: p.schema.comment.description } : {}),
      ...(p.required ? { required: true } : {}),
      ...(p.explode ? { style: 'form', explode: true } : {}),
      ...(s !== undefined && 'x-internal' in s ? { 'x-internal': s['x-internal'] } : {}),
      schema: s === undefined ? undefined : without(s, 'description', 'x-internal'),
    };
  });
  cover('parameters');
  same('parameters', op.parameters, expected);
});

contract('C22', 'documentation', () => {
  setUp();
  const r: any = any('route', plainRoute);
  const d: any = r.comment === undefined ? {} : documentation(r.comment);
  const tags: any = d.tags ?? {};
  const o: any = operation(r);
  ensures('contradiction rejected', (o.state !== 'returned') === (tags.private !== undefined && tags.public !== undefined));
  if (o.state !== 'returned') return;
  cover('documented');
  const op = o.value[2];
  same('summary', op.summary, d.summary);
  same('description', op.description, d.description);
  same('operation id', op.operationId, tags.operationId);
  same('tag', op.tags, tags.tag === undefined || tags.tag === '' ? undefined : [tags.tag]);
  same('visibility', op['x-internal'], tags.private !== undefined ? true : tags.public !== undefined ? false : undefined);
  same('stability', op['x-unstable'], tags.unstable !== undefined ? true : undefined);
});

contract('C22', 'unknown tags', () => {
  setUp();
  const r: any = any('route', plainRoute);
  const d: any = r.comment === undefined ? {} : documentation(r.comment);
  const tags: any = d.tags ?? {};
  const o: any = operation(r);
  if (o.state !== 'returned') return;
  cover('documented');
  const unknown: any = {};
  for (const k of Object.keys(tags)) {
    if (k !== 'operationId' && k !== 'summary' && k !== 'private' && k !== 'public' && k !== 'unstable' && k !== 'example' && k !== 'tag' && k !== 'description' && k !== 'url') unknown[k] = tags[k] || true;
  }
  same('carried over', o.value[2]['x-unknown-tags'], Object.keys(unknown).length === 0 ? undefined : unknown);
});
