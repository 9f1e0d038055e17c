// C25: identifiers resolve to the declaration the module system would pick.
// @check {"seconds": 15, "budget": 240, "assumptions": ["calls on other modules are taken at the contract being proved (induction over chains of imports and exports, which are finite in programs that run)", "star exports are only cut short by modules already being searched, which hold no explicit export of the name"]}
import { dirname } from 'node:path';
import { contract, ensures, same, cover, assume, any, specFn, useContract, bodyOf, internal, anyIndex, S } from 'ghost';
import { findSymbolInitializer, resolveLiteralOrIdentifier } from 'repo/openapi-generator/src/resolveInit.ts';
import { agree, errorsByContract } from './lib/generator';

const findExportedDeclaration = internal('openapi-generator/src/resolveInit.ts', 'findExportedDeclaration');
let world: any;
const either = S.tagged('_tag', { Left: { left: S.any }, Right: { right: S.any } });
// what a module exports under a name, and what a name means in a module
const exported: any = specFn('exported', (file: any, name: any) => findExportedDeclaration(world, file, name), { result: either });
const declared: any = specFn('declared', (file: any, name: any) => findSymbolInitializer(world, file, name), { result: S.tagged('_tag', { Left: { left: S.any }, Right: { right: S.array(S.any, 3, 3) } }) });
const byInduction = () => {
  errorsByContract();
  useContract('openapi-generator/src/resolveInit.ts#findExportedDeclaration', (_p: any, file: any, name: any) => exported(file, name));
  useContract('openapi-generator/src/resolveInit.ts#findSymbolInitializer', (_p: any, file: any, name: any) => declared(file, name));
};

const name = S.union(S.lit('A', 'B', 'C', 'default'), S.str);
const path = S.union(S.lit('./a', '../b', '.', '@scope/lib', 'lib'), S.str);
const imp = S.union(S.obj({ type: S.lit('named'), importedName: name, localName: name, from: path }), S.obj({ type: S.lit('star'), localName: name, from: path }));
const sourceFile = S.obj({
  path: S.lit('/a.ts', '/b/index.ts'),
  symbols: S.obj({
    imports: S.array(imp),
    exports: S.array(S.obj({ type: S.lit('named'), exportedName: name, localName: name })),
    exportStarFiles: S.array(path),
    declarations: S.array(S.obj({ name, init: S.obj({ type: S.lit('ObjectExpression', 'CallExpression', 'StringLiteral'), value: S.any }), comment: S.any })),
  }),
});
const setUp = () => {
  world = {
    resolve: any('resolve', S.fn({ pure: true, result: S.tagged('_tag', { Left: { left: S.any }, Right: { right: S.lit('/x.ts', '/y.ts') } }) })),
    resolveEntryPoint: any('resolveEntryPoint', S.fn({ pure: true, result: S.tagged('_tag', { Left: { left: S.any }, Right: { right: S.lit('/x.ts', '/z.ts') } }) })),
    get: any('get', S.fn({ pure: true, result: S.opt(other) })),
  };
  byInduction();
};
// modules reached from the one looked at: their own imports and exports are beyond the step being proved
const other = S.obj({
  path: S.lit('/x.ts', '/y.ts', '/z.ts'),
  symbols: S.obj({ imports: S.array(imp, 0, 0), exports: S.array(S.obj({ type: S.lit('named'), exportedName: name, localName: name })), exportStarFiles: S.array(path, 0, 0), declarations: S.array(S.obj({ name, init: S.obj({ type: S.lit('ObjectExpression', 'CallExpression', 'StringLiteral'), value: S.any }), comment: S.any })) }),
});
// the module an import path stands for
const moduleOf = (file: any, from: string) => {
  const r: any = from.startsWith('.') ? world.resolve(dirname(file.path), from) : world.resolveEntryPoint(dirname(file.path), from);
  return r._tag === 'Left' ? undefined : world.get(r.right);
};

contract('C25', 'names', () => {
  setUp();
  const file: any = any('file', sourceFile);
  const n: any = any('name', name);
  const r: any = bodyOf(findSymbolInitializer)(world, file, n);
  const local = file.symbols.declarations.find((d: any) => d.name === n);
  const imported = file.symbols.imports.find((i: any) => i.type !== 'star' && i.localName === n);
  if (local !== undefined) {
    cover('declared here');
    same('the declaration in the file', r, { _tag: 'Right', right: [file, local.init, local.comment] });
  } else if (imported !== undefined) {
    const m = moduleOf(file, imported.from);
    if (m !== undefined) {
      cover('imported');
      agree('what the module exports under the imported name', r, exported(m, imported.importedName));
    } else ensures('unknown modules are errors', r._tag === 'Left');
  } else ensures('unknown names are errors', r._tag === 'Left');
});

contract('C25', 'members of namespaces', () => {
  setUp();
  const file: any = any('file', sourceFile);
  const member: any = any('member', name);
  const n = file.symbols.imports[anyIndex('import', file.symbols.imports)].localName;
  const star = file.symbols.imports.find((i: any) => i.type === 'star' && i.localName === n);
  assume(star !== undefined);
  const r: any = bodyOf(findSymbolInitializer)(world, file, [n, member]);
  const m = moduleOf(file, star.from);
  if (m !== undefined) {
    cover('resolved');
    agree('what the module exports under the name', r, exported(m, member));
  } else ensures('unknown modules are errors', r._tag === 'Left');
});

contract('C25', 'members of anything else', () => {
  setUp();
  const file: any = any('file', sourceFile);
  const n: any = any('object', name);
  const member: any = any('member', name);
  assume(file.symbols.imports.every((i: any) => i.type !== 'star' || i.localName !== n));
  const r: any = bodyOf(findSymbolInitializer)(world, file, [n, member]);
  const plain: any = bodyOf(findSymbolInitializer)(world, file, n);
  ensures('as the object itself', r._tag === plain._tag);
  if (r._tag === 'Right' && plain._tag === 'Right') same('its initializer', r, plain);
});

contract('C25', 'exports', () => {
  setUp();
  const file: any = any('file', sourceFile);
  const n = file.symbols.exports[anyIndex('export', file.symbols.exports)].exportedName;
  const r: any = bodyOf(findExportedDeclaration)(world, file, n);
  const explicit = file.symbols.exports.find((e: any) => e.exportedName === n);
  assume(explicit !== undefined);
  cover('exported');
  agree('what the exported name means in the module', r, declared(file, explicit.localName));
});

contract('C25', 'star exports', () => {
  setUp();
  const file: any = any('file', sourceFile);
  const n: any = any('name', name);
  assume(file.symbols.exports.every((e: any) => e.exportedName !== n));
  const r: any = bodyOf(findExportedDeclaration)(world, file, n);
  // the first star export that is unresolved or has the name decides
  const first = file.symbols.exportStarFiles.find((p: any) => {
    const m = moduleOf(file, p);
    return m === undefined || exported(m, n)._tag === 'Right';
  });
  const m = first === undefined ? undefined : moduleOf(file, first);
  if (m !== undefined) {
    cover('found');
    agree('what the module star-exported first exports', r, exported(m, n));
  } else ensures('an error otherwise', r._tag === 'Left');
});

contract('C25', 'modules already being searched', () => {
  setUp();
  const file: any = any('file', sourceFile);
  const n: any = any('name', name);
  assume(file.symbols.exports.every((e: any) => e.exportedName !== n));
  ensures('are not searched again', bodyOf(findExportedDeclaration)(world, file, n, [file.path])._tag === 'Left');
});

const expr = S.union(
  S.obj({ type: S.lit('Identifier'), value: name }),
  S.obj({ type: S.lit('MemberExpression'), object: S.obj({ type: S.lit('Identifier', 'ThisExpression'), value: name }), property: S.obj({ type: S.lit('Identifier', 'Computed'), value: name }) }),
  S.obj({ type: S.lit('ObjectExpression', 'CallExpression', 'StringLiteral') }),
);
const resolved: any = specFn('resolved', (file: any, e: any, c: any) => resolveLiteralOrIdentifier(world, file, e, c), { result: either });
contract('C25', 'expressions', () => {
  setUp();
  useContract('openapi-generator/src/resolveInit.ts#resolveLiteralOrIdentifier', (_p: any, file: any, e: any, c: any) => resolved(file, e, c));
  const file: any = any('file', sourceFile);
  const e: any = any('expression', expr);
  const comment = any('comment', S.any);
  const r: any = bodyOf(resolveLiteralOrIdentifier)(world, file, e, comment);
  if (e.type !== 'Identifier' && e.type !== 'MemberExpression') {
    cover('literal');
    same('itself, with its comment', r, { _tag: 'Right', right: [file, e, comment] });
  } else if (e.type === 'MemberExpression' && (e.object.type !== 'Identifier' || e.property.type !== 'Identifier')) ensures('other members are errors', r._tag === 'Left');
  else {
    const d: any = declared(file, e.type === 'Identifier' ? e.value : [e.object.value, e.property.value]);
    if (d._tag === 'Right') {
      cover('identifier');
      agree('its initializer, resolved where it is declared', r, resolved(d.right[0], d.right[1], d.right[2]));
    } else ensures('unresolved names are errors', r._tag === 'Left');
  }
});
