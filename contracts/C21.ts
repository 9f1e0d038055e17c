// C21: generated schema objects state the declared type and constraints.
// @check {"seconds": 20, "budget": 500, "assumptions": ["element, property and alternative schemas are taken at the contract being proved (structural induction over finite schemas)", "simplification (optimize) is taken at the contract of C20", "component names and property names are not names of Object.prototype members", "a type that allows null and undefined besides one other type is described as that other type; unknown alternatives are left out of a union that has others"]}
import { contract, ensures, same, cover, assume, any, anyKey, defShape, specFn, useContract, bodyOf, oneOf, attempt, S } from 'ghost';
import { schemaToOpenAPI } from 'repo/openapi-generator/src/openapi.ts';
import { parseCommentBlock } from 'repo/openapi-generator/src/jsdoc.ts';
import { optimize } from 'repo/openapi-generator/src/optimize.ts';

let names: any;
const described: any = specFn('described', (s: any) => schemaToOpenAPI(s, names), { result: S.opt(S.union(S.obj({ $ref: S.str }), S.obj({ type: S.lit('string', 'number', 'object'), description: S.opt(S.str), enum: S.opt(S.array(S.str)) }))) });
let documentation: any;
const fully: any = specFn('documentation', (c: any) => parseCommentBlock(c), { result: S.obj({ summary: S.opt(S.str), description: S.opt(S.str), tags: S.opt(tagged()) }) });
// what a call describes, kept apart by what is described
const descriptionOf: any = specFn('descriptionOf', (s: any) => schemaToOpenAPI(s, names), { as: (s: any) => ({ of: s }) });
const structural = () => useContract('openapi-generator/src/openapi.ts#schemaToOpenAPI', (s: any) => descriptionOf(without(s, 'nullable')));
const brief: any = specFn('brief documentation', (c: any) => parseCommentBlock(c), { result: S.obj({ tags: S.opt(S.obj({ title: S.opt(S.str) })) }) });
const briefly = () => {
  documentation = brief;
  useContract('openapi-generator/src/jsdoc.ts#parseCommentBlock', (c: any) => brief(c));
};
// (real runs) simplification leaves the schema as it is
const simple: any = specFn('simple', (s: any) => JSON.stringify(optimize(s)) === JSON.stringify(s), { result: S.lit(true) });
const simplified: any = specFn('simplified', (s: any) => optimize(s), { result: S.obj({ type: S.lit('ref'), name: S.str, location: S.str }) });
function tagged() {
  const t = S.opt(S.str);
  return S.obj({ default: t, deprecated: t, example: S.opt(S.union(S.str, S.array(S.any), S.obj({ a: S.num }))), maxLength: t, minLength: t, pattern: t, minimum: t, maximum: t, minItems: t, maxItems: t, minProperties: t, maxProperties: t, exclusiveMinimum: t, exclusiveMaximum: t, multipleOf: t, uniqueItems: t, readOnly: t, writeOnly: t, format: t, title: t, private: t, public: t });
}
const setUp = () => {
  documentation = fully;
  names = any('component names', S.opt(S.record(S.record(S.str))));
  useContract('openapi-generator/src/openapi.ts#schemaToOpenAPI', (s: any) => described(s));
  useContract('openapi-generator/src/jsdoc.ts#parseCommentBlock', (c: any) => documentation(c));
  useContract('openapi-generator/src/optimize.ts#optimize', (s: any) => s);
};
const line = S.union(
  S.obj({ source: S.lit(' * text'), tokens: S.obj({ tag: S.lit('', '@private', '@public', '@deprecated', '@minimum', '@maxLength', '@multipleOf', '@title', '@readOnly', '@exclusiveMinimum', '@uniqueItems', '@default', '@pattern'), name: S.lit('', '0', '12', 'true', 'false', 'text', '"quoted"'), description: S.lit('', 'text') }) }),
  S.obj({ source: S.lit(' * @example 12', ' * @example "quoted"', ' * @example [1]', ' * @example {"a": 1}'), tokens: S.obj({ tag: S.lit('@example'), name: S.lit(''), description: S.lit('') }) }),
);
const documented = (o: any) => S.obj({ ...o, comment: S.opt(block) });
const block = S.obj({ description: S.str, source: S.array(line), tags: S.array(S.any, 0, 0), problems: S.array(S.any, 0, 0) });
const n = S.opt(S.num), f = S.opt(S.bool), t = S.opt(S.str);
const constrained = (o: any) => S.obj({ ...o, comment: S.opt(block), description: t, default: t, example: t, maxLength: n, minLength: n, pattern: t, minimum: n, maximum: n, minItems: n, maxItems: n, minProperties: n, maxProperties: n, exclusiveMinimum: f, exclusiveMaximum: f, multipleOf: n, uniqueItems: f, readOnly: f, writeOnly: f, format: t, title: t, deprecated: f });
defShape('schema', S.obj({ type: S.lit('string', 'number', 'any', 'undefined', 'null'), description: t }));

const numeric = ['maxLength', 'minLength', 'minimum', 'maximum', 'minItems', 'maxItems', 'minProperties', 'maxProperties', 'multipleOf'];
const texts = ['pattern', 'format', 'title'];
const flags = ['exclusiveMinimum', 'exclusiveMaximum', 'uniqueItems', 'readOnly', 'writeOnly'];
const tagsOf = (s: any) => documentation(s.comment ?? { description: '', tags: [], source: [], problems: [] }).tags ?? {};
const set = (v: any) => v !== undefined && v !== '';
const valued = (s: any, v: any) => s.type === 'number' || s.type === 'integer' ? Number(v) : s.type === 'boolean' ? v === 'true' : s.type === 'string' && typeof v === 'string' ? v.replace(/^"(.*)"$/, '$1') : v;
// the constraints and annotations of a schema
const constraints = (s: any) => {
  const d = tagsOf(s);
  const r: any = {};
  for (const k of numeric) if (set(d[k] ?? s[k])) r[k] = Number(d[k] ?? s[k]);
  for (const k of texts) if (d[k] ?? s[k]) r[k] = d[k] ?? s[k];
  for (const k of flags) if ((d[k] ?? s[k]) === '' || (d[k] ?? s[k]) === true || (typeof d[k] === 'string' && d[k] !== 'false')) r[k] = true;
  for (const k of ['default', 'example']) if (d[k] ?? s[k]) r[k] = valued(s, d[k] ?? s[k]);
  if ('deprecated' in d || s.deprecated) r.deprecated = true;
  if (s.comment?.description ?? s.description) r.description = s.comment?.description ?? s.description;
  if ('private' in d) r['x-internal'] = true;
  else if ('public' in d) r['x-internal'] = false;
  return r;
};
const contradictory = (s: any) => 'private' in tagsOf(s) && 'public' in tagsOf(s);
const describe = (s: any) => bodyOf(schemaToOpenAPI)(s, names);
const without = (o: any, ...keys: string[]) => {
  const r = { ...o };
  for (const k of keys) delete r[k];
  return r;
};

contract('C21', 'constraints', () => {
  setUp();
  const s: any = any('schema', constrained({ type: S.lit('any') }));
  const o: any = attempt(() => describe(s));
  ensures('contradiction rejected', (o.state !== 'returned') === contradictory(s));
  if (o.state !== 'returned') return;
  cover('constrained');
  same('constraints', o.value, constraints(s));
});

const primitive = { enum: S.opt(S.array(S.union(S.str, S.num))), enumDescriptions: S.opt(S.record(S.str)), enumsDeprecated: S.opt(S.array(S.str)) };
contract('C21', 'primitive types', () => {
  setUp();
  const s: any = any('schema', constrained({ type: S.lit('string', 'number', 'integer', 'boolean'), ...primitive }));
  assume(simple(s));
  if (contradictory(s)) return;
  const r: any = describe(s);
  cover('described');
  same('described', r, {
    type: s.type === 'integer' ? 'number' : s.type,
    ...(s.enum === undefined ? {} : { enum: s.enum, ...(s.enumDescriptions === undefined ? {} : { 'x-enumDescriptions': s.enumDescriptions }), ...(s.enumsDeprecated === undefined ? {} : { 'x-enumsDeprecated': s.enumsDeprecated }) }),
    ...constraints(s),
  });
});

contract('C21', 'null and undefined', () => {
  setUp();
  const s: any = any('schema', constrained({ type: S.lit('null', 'undefined') }));
  assume(simple(s));
  if (contradictory(s)) return;
  cover('described');
  same('described', describe(s), s.type === 'null' ? { nullable: true, enum: [] } : undefined);
});

const reference = (s: any) => {
  const of = { $ref: '#/components/schemas/' + (names?.[s.location]?.[s.name] ?? s.name) };
  const c = constraints(s);
  return Object.keys(c).length === 0 ? of : { allOf: [of], ...c };
};
contract('C21', 'references', () => {
  setUp();
  const s: any = any('schema', constrained({ type: S.lit('ref'), name: S.str, location: S.str }));
  assume(simple(s));
  if (contradictory(s)) return;
  cover('described');
  same('described', describe(s), reference(s));
});

contract('C21', 'arrays', () => {
  setUp();
  const s: any = any('schema', constrained({ type: S.lit('array'), items: S.ref('schema') }));
  assume(simple(s));
  if (contradictory(s)) return;
  const r: any = describe(s);
  const items = described(s.items);
  if (items === undefined) {
    same('nothing to describe', r, undefined);
    return;
  }
  cover('described');
  const c = constraints(s);
  const own = ['minItems', 'maxItems', 'uniqueItems', ...(Array.isArray(c.example) ? ['example'] : [])];
  const rest = without(c, ...own);
  const expected: any = { type: 'array', items: '$ref' in items && Object.keys(rest).length > 0 ? { allOf: [items], ...rest } : { ...items, ...rest } };
  for (const k of own) if (k in c) expected[k] = c[k];
  same('described', r, expected);
});

contract('C21', 'objects', () => {
  setUp();
  const s: any = any('schema', documented({ type: S.lit('object'), properties: S.record(S.ref('schema')), required: S.array(S.str) }));
  assume(simple(s));
  if (contradictory(s)) return;
  const r: any = describe(s);
  const properties: any = {};
  for (const k of Object.keys(s.properties)) if (described(s.properties[k]) !== undefined) properties[k] = described(s.properties[k]);
  const required = s.required.filter((k: string) => k in properties);
  cover('described');
  same('described', r, { type: 'object', ...constraints(s), properties, ...(required.length === 0 ? {} : { required }) });
});

contract('C21', 'intersections', () => {
  setUp();
  const s: any = any('schema', documented({ type: S.lit('intersection'), schemas: S.array(S.ref('schema')) }));
  assume(simple(s));
  if (contradictory(s)) return;
  const parts = s.schemas.map((m: any) => described(m)).filter((m: any) => m !== undefined);
  cover('described');
  same('described', describe(s), { allOf: parts, ...constraints(s) });
});

contract('C21', 'records', () => {
  setUp();
  const s: any = any('schema', documented({ type: S.lit('record'), domain: S.opt(S.obj({ type: S.lit('string'), enum: S.opt(S.array(S.str)) })), codomain: S.ref('schema') }));
  assume(simple(s));
  if (contradictory(s)) return;
  const keys = s.domain === undefined ? undefined : described(s.domain);
  assume(s.domain === undefined || keys !== undefined);
  const r: any = describe(s);
  const value = described(s.codomain);
  if (value === undefined) {
    same('nothing to describe', r, undefined);
    return;
  }
  cover('described');
  if (keys !== undefined && keys.type === 'string' && keys.enum !== undefined) {
    const properties: any = {};
    for (const k of keys.enum) properties[k] = value;
    same('described', r, { type: 'object', ...constraints(s), properties, required: keys.enum });
  } else same('described', r, { type: 'object', ...constraints(s), additionalProperties: value });
});

contract('C21', 'simplification', () => {
  setUp();
  useContract('openapi-generator/src/optimize.ts#optimize', (s: any) => simplified(s));
  const s: any = any('schema', S.obj({ type: S.lit('union', 'intersection'), schemas: S.array(S.obj({ type: S.lit('ref'), name: S.str, location: S.str }), 1, 1) }));
  if (contradictory(simplified(s))) return;
  cover('simplified');
  same('described', describe(s), reference(simplified(s)));
});

const has = (s: any, type: string) => s.schemas.some((m: any) => m.type === type);
const except = (s: any, type: string) => s.schemas.filter((m: any) => m.type !== type);
const alone = (s: any, m: any) => descriptionOf({ ...m, ...(s.comment === undefined ? {} : { comment: s.comment }) });

contract('C21', 'optional types', () => {
  setUp();
  structural();
  briefly();
  const s: any = any('schema', documented({ type: S.lit('union'), schemas: S.array(S.ref('schema')) }));
  assume(simple(s));
  if (contradictory(s) || !has(s, 'undefined')) return;
  const rest = except(s, 'undefined');
  const others = rest.filter((m: any) => m.type !== 'null');
  if (rest.length === 0) return;
  const r: any = describe(s);
  if (others.length > 1) {
    cover('several');
    same('the other alternatives', r, descriptionOf({ type: 'union', schemas: rest, comment: s.comment }));
  } else {
    cover('one');
    same('the other alternative', r, alone(s, others[0] ?? rest[0]));
  }
});

contract('C21', 'unions with unknown', () => {
  setUp();
  structural();
  briefly();
  const s: any = any('schema', documented({ type: S.lit('union'), schemas: S.array(S.ref('schema')) }));
  assume(simple(s));
  if (contradictory(s) || has(s, 'undefined') || !has(s, 'any')) return;
  const others = except(s, 'any');
  if (others.length === 0) return;
  const r: any = describe(s);
  if (others.length > 1) {
    cover('several');
    same('the other alternatives', r, descriptionOf({ type: 'union', schemas: others, comment: s.comment }));
  } else {
    cover('one');
    same('the other alternative', r, alone(s, others[0]));
  }
});

contract('C21', 'unions', () => {
  setUp();
  briefly();
  const s: any = any('schema', documented({ type: S.lit('union'), schemas: S.array(S.ref('schema')) }));
  assume(simple(s));
  if (contradictory(s) || has(s, 'undefined') || (has(s, 'any') && except(s, 'any').length > 0)) return;
  const r: any = describe(s);
  const parts: any[] = [];
  for (const m of s.schemas) if (m.type !== 'null' && described(m) !== undefined) parts.push(described(m));
  const nullable = has(s, 'null') ? { nullable: true } : {};
  if (parts.length === 0) {
    same('nothing to describe', r, undefined);
  } else if (parts.length === 1) {
    cover('one');
    same('one', r, '$ref' in parts[0] ? { ...nullable, allOf: [parts[0]], ...constraints(s) } : { ...nullable, ...parts[0], ...constraints(s) });
  } else {
    cover('several');
    same('several', r, { ...nullable, oneOf: parts, ...constraints(s) });
  }
});
