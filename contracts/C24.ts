// C24: getRefs collects exactly the references that occur in a schema.
// @check {"seconds": 15, "budget": 200, "assumptions": ["getRefs: calls on parts of a schema are taken at the contract being proved (structural induction over finite schemas)", "the file system does not change during a call"]}
import * as fs from 'fs';
import { contract, ensures, same, cover, any, defShape, specFn, useContract, bodyOf, fork, anyIndex, anyKey, S } from 'ghost';
import { getRefs } from 'repo/openapi-generator/src/ref.ts';

// the references of a part, in order
const refsOf: any = specFn('refsOf', getRefs, { result: S.array(S.any) });
const byInduction = () => useContract('openapi-generator/src/ref.ts#getRefs', refsOf);

const META = { comment: S.any, description: S.any };
defShape('schema', S.union(
  S.obj({ type: S.lit('any', 'undefined', 'string', 'number', 'integer', 'boolean', 'null'), ...META }),
  S.obj({ type: S.lit('array'), items: S.ref('schema'), ...META }),
  S.obj({ type: S.lit('union', 'intersection', 'tuple'), schemas: S.array(S.ref('schema')), ...META }),
  S.obj({ type: S.lit('object'), properties: S.record(S.ref('schema')), required: S.array(S.str), ...META }),
  S.obj({ type: S.lit('record'), codomain: S.ref('schema'), domain: S.opt(S.ref('schema')), ...META }),
  S.obj({ type: S.lit('ref'), name: S.lit('A', 'B', 'C'), location: S.lit('/', '/etc', '/dev/null', '/nowhere', '@scope/lib'), ...META }),
));
const types = S.record(S.union(S.lit('/', '/lib.ts'), S.str), S.lit('A', 'B', 'C'));

contract('C24', 'a reference', () => {
  byInduction();
  const ref: any = any('reference', S.obj({ type: S.lit('ref'), name: S.lit('A', 'B', 'C'), location: S.lit('/', '/etc', '/dev/null', '/nowhere', '@scope/lib'), ...META }));
  const typeMap: any = any('type map', types);
  const r = bodyOf(getRefs)(ref, typeMap);
  if (fs.existsSync(ref.location)) {
    cover('of a file');
    same('itself', r, [ref]);
  } else if (typeMap[ref.name]) {
    cover('of a module');
    same('itself, located', r, [{ ...ref, location: typeMap[ref.name] }]);
  } else same('not locatable', r, []);
});

const concat = (parts: any[]) => parts.flatMap((x: any) => x);
contract('C24', 'everything else', () => {
  byInduction();
  const s: any = fork(any('schema', S.ref('schema')));
  const typeMap: any = any('type map', types);
  const r = bodyOf(getRefs)(s, typeMap);
  if (s.type === 'array') {
    cover('array');
    same('of the items', r, refsOf(s.items, typeMap));
  } else if (s.type === 'union' || s.type === 'intersection' || s.type === 'tuple') {
    cover('combination');
    same('of every member, in order', r, concat(s.schemas.map((x: any) => refsOf(x, typeMap))));
  } else if (s.type === 'object') {
    cover('object');
    same('of every property, in order', r, concat(Object.keys(s.properties).map((k) => refsOf(s.properties[k], typeMap))));
  } else if (s.type === 'record') {
    cover('record');
    same('of the values', r, refsOf(s.codomain, typeMap));
  } else if (s.type !== 'ref') {
    cover('other');
    same('none', r, []);
  }
});
