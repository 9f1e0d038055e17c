// Mechanical lowering of TypeScript source to a small JSON syntax tree.
// What is dropped: types, type-only imports/exports, `as`, `!`, `satisfies`, parentheses, modifiers other than
// async/static/export, comments. Nothing else: every remaining construct is kept or reported as {k:'unsupported'}.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const K = ts.SyntaxKind;
let sf;
const line = (n) => sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1;
const un = (n, why) => ({ k: 'unsupported', why: why || K[n.kind], l: line(n) });
const has = (n, kind) => !!(n.modifiers && n.modifiers.some((m) => m.kind === kind));
function strip(n) {
  while (true) {
    if (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression(n) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n))) n = n.expression;
    else return n;
  }
}
function key(n) {
  if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return { k: 'str', v: n.text };
  if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return { k: 'str', v: n.text };
  if (ts.isNumericLiteral(n)) return { k: 'str', v: String(Number(n.text)) };
  if (ts.isComputedPropertyName(n)) return E(n.expression);
  return un(n);
}
function pat(n) {
  if (ts.isIdentifier(n)) return { k: 'id', n: n.text };
  if (ts.isObjectBindingPattern(n)) {
    const props = []; let rest = null;
    for (const e of n.elements) {
      if (e.dotDotDotToken) { rest = pat(e.name); continue; }
      props.push({ key: e.propertyName ? key(e.propertyName) : { k: 'str', v: e.name.text }, target: pat(e.name), def: e.initializer ? E(e.initializer) : null });
    }
    return { k: 'objpat', props, rest };
  }
  if (ts.isArrayBindingPattern(n)) {
    const el = []; let rest = null;
    for (const e of n.elements) {
      if (ts.isOmittedExpression(e)) { el.push(null); continue; }
      if (e.dotDotDotToken) { rest = pat(e.name); continue; }
      el.push({ target: pat(e.name), def: e.initializer ? E(e.initializer) : null });
    }
    return { k: 'arrpat', el, rest };
  }
  return un(n);
}
function lval(n) {
  n = strip(n);
  if (ts.isIdentifier(n) || ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) return E(n);
  if (ts.isArrayLiteralExpression(n)) return { k: 'arrpat', el: n.elements.map((e) => ts.isOmittedExpression(e) ? null : (ts.isBinaryExpression(e) ? { target: lval(e.left), def: E(e.right) } : { target: lval(e), def: null })), rest: null };
  if (ts.isObjectLiteralExpression(n)) return { k: 'objpat', props: n.properties.map((p) => ts.isShorthandPropertyAssignment(p) ? { key: { k: 'str', v: p.name.text }, target: { k: 'id', n: p.name.text }, def: p.objectAssignmentInitializer ? E(p.objectAssignmentInitializer) : null } : { key: key(p.name), target: lval(p.initializer), def: null }), rest: null };
  return un(n);
}
function fn(n, name) {
  const params = [];
  for (const p of n.parameters) {
    if (ts.isIdentifier(p.name) && p.name.text === 'this') continue;
    params.push({ target: pat(p.name), def: p.initializer ? E(p.initializer) : null, rest: !!p.dotDotDotToken });
  }
  const r = { k: 'fn', name: name || (n.name && ts.isIdentifier(n.name) ? n.name.text : ''), params, async: has(n, K.AsyncKeyword), gen: !!n.asteriskToken, arrow: ts.isArrowFunction(n), l: line(n) };
  if (!n.body) return null;
  if (ts.isBlock(n.body)) r.body = { k: 'block', b: SS(n.body.statements), l: line(n.body) };
  else r.body = { k: 'return', e: E(n.body), l: line(n.body) };
  return r;
}
function args(list) { return list.map((a) => ts.isSpreadElement(a) ? { k: 'spread', e: E(a.expression) } : E(a)); }
function isChain(n) { return !!(n.flags & ts.NodeFlags.OptionalChain); }
function E(n0, inChain) {
  const n = strip(n0);
  if (isChain(n) && !inChain) return { k: 'chain', e: E(n, true) };
  const l = line(n);
  switch (n.kind) {
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return { k: 'str', v: n.text };
    case K.NumericLiteral: return { k: 'num', v: Number(n.text) };
    case K.BigIntLiteral: return { k: 'big', v: n.text };
    case K.TrueKeyword: return { k: 'bool', v: true };
    case K.FalseKeyword: return { k: 'bool', v: false };
    case K.NullKeyword: return { k: 'null' };
    case K.ThisKeyword: return { k: 'this' };
    case K.SuperKeyword: return { k: 'super' };
    case K.RegularExpressionLiteral: { const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(n.text); return { k: 'regex', src: m[1], flags: m[2] }; }
    case K.Identifier: return n.text === 'undefined' ? { k: 'undef' } : { k: 'id', n: n.text, l };
    case K.ArrayLiteralExpression: return { k: 'arr', el: n.elements.map((e) => ts.isOmittedExpression(e) ? { k: 'undef' } : ts.isSpreadElement(e) ? { k: 'spread', e: E(e.expression) } : E(e)), l };
    case K.ObjectLiteralExpression: {
      const props = [];
      for (const p of n.properties) {
        if (ts.isPropertyAssignment(p)) {
          const kk = key(p.name); let v = E(p.initializer);
          if (v.k === 'fn' && !v.name && kk.k === 'str') v.name = kk.v;
          props.push({ k: 'kv', key: kk, v });
        } else if (ts.isShorthandPropertyAssignment(p)) props.push({ k: 'kv', key: { k: 'str', v: p.name.text }, v: p.name.text === 'undefined' ? { k: 'undef' } : { k: 'id', n: p.name.text, l } });
        else if (ts.isSpreadAssignment(p)) props.push({ k: 'spread', e: E(p.expression) });
        else if (ts.isMethodDeclaration(p)) props.push({ k: 'kv', key: key(p.name), v: Object.assign(fn(p, p.name.text), { method: true }) });
        else props.push(un(p));
      }
      return { k: 'obj', props, l };
    }
    case K.ArrowFunction: case K.FunctionExpression: return fn(n);
    case K.CallExpression: {
      if (n.expression.kind === K.ImportKeyword) return { k: 'dynimport', a: args(n.arguments), l };
      return { k: 'call', f: E(n.expression, isChain(n)), a: args(n.arguments), opt: !!n.questionDotToken, l };
    }
    case K.NewExpression: return { k: 'new', f: E(n.expression), a: args(n.arguments || []), l };
    case K.PropertyAccessExpression: return { k: 'prop', o: E(n.expression, isChain(n)), n: n.name.text, opt: !!n.questionDotToken, l };
    case K.ElementAccessExpression: return { k: 'idx', o: E(n.expression, isChain(n)), i: E(n.argumentExpression), opt: !!n.questionDotToken, l };
    case K.ConditionalExpression: return { k: 'cond', c: E(n.condition), t: E(n.whenTrue), f: E(n.whenFalse), l };
    case K.TemplateExpression: { const parts = [{ k: 'str', v: n.head.text }]; for (const s of n.templateSpans) { parts.push(E(s.expression)); parts.push({ k: 'str', v: s.literal.text }); } return { k: 'tmpl', parts, l }; }
    case K.PrefixUnaryExpression: {
      if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) return { k: 'upd', op: n.operator === K.PlusPlusToken ? '+' : '-', pre: true, t: lval(n.operand), l };
      return { k: 'un', op: ts.tokenToString(n.operator), e: E(n.operand), l };
    }
    case K.PostfixUnaryExpression: return { k: 'upd', op: n.operator === K.PlusPlusToken ? '+' : '-', pre: false, t: lval(n.operand), l };
    case K.TypeOfExpression: return { k: 'typeof', e: E(n.expression), l };
    case K.VoidExpression: return { k: 'voidx', e: E(n.expression), l };
    case K.DeleteExpression: return { k: 'delete', t: lval(n.expression), l };
    case K.AwaitExpression: return { k: 'await', e: E(n.expression), l };
    case K.BinaryExpression: {
      const op = ts.tokenToString(n.operatorToken.kind);
      if (op === ',') return { k: 'seq', a: E(n.left), b: E(n.right) };
      if (op === '&&' || op === '||' || op === '??') return { k: 'logic', op, a: E(n.left), b: E(n.right), l };
      if (op === '=') { const v = E(n.right); const t = lval(n.left); if (v.k === 'fn' && !v.name && t.k === 'id') v.name = t.n; return { k: 'assign', op: '', t, v, l }; }
      if (/^(\+|-|\*|\/|%|\?\?|&&|\|\|)=$/.test(op)) return { k: 'assign', op: op.slice(0, -1), t: lval(n.left), v: E(n.right), l };
      return { k: 'bin', op, a: E(n.left), b: E(n.right), l };
    }
    case K.ClassExpression: return cls(n);
    case K.SpreadElement: return { k: 'spread', e: E(n.expression) };
    default: return un(n);
  }
}
function cls(n) {
  const members = []; let ctor = null;
  let ext = null;
  for (const h of n.heritageClauses || []) if (h.token === K.ExtendsKeyword) ext = E(h.types[0].expression);
  for (const m of n.members) {
    if (ts.isConstructorDeclaration(m)) {
      if (!m.body) continue;
      ctor = fn(m, 'constructor');
      const pp = m.parameters.filter((p) => p.modifiers && p.modifiers.length).map((p) => p.name.text);
      ctor.paramProps = pp;
    } else if (ts.isMethodDeclaration(m)) { const f = fn(m, m.name.text); if (f) members.push({ k: 'method', key: key(m.name), v: Object.assign(f, { method: true }), static: has(m, K.StaticKeyword) }); }
    else if (ts.isPropertyDeclaration(m)) { if (m.initializer) members.push({ k: 'field', key: key(m.name), v: E(m.initializer), static: has(m, K.StaticKeyword) }); }
    else if (ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) { /* nothing */ }
    else members.push(un(m));
  }
  return { k: 'class', name: n.name ? n.name.text : '', ext, ctor, members, l: line(n) };
}
function decls(list) {
  const out = [];
  for (const d of list.declarations) {
    let init = d.initializer ? E(d.initializer) : null;
    const t = pat(d.name);
    if (init && (init.k === 'fn' || init.k === 'class') && !init.name && t.k === 'id') init.name = t.n;
    out.push({ t, init, l: line(d) });
  }
  const f = list.flags; return { k: 'var', kind: f & ts.NodeFlags.Const ? 'const' : f & ts.NodeFlags.Let ? 'let' : 'var', d: out, l: line(list) };
}
function SS(list) { const out = []; for (const s of list) { const r = Stmt(s); if (r) { if (Array.isArray(r)) out.push(...r); else out.push(r); } } return out; }
function blk(s) { const r = Stmt(s); if (r === null) return { k: 'block', b: [] }; return r; }
function Stmt(n) {
  const l = line(n);
  switch (n.kind) {
    case K.VariableStatement: if (has(n, K.DeclareKeyword)) return null; { const d = decls(n.declarationList); d.exported = has(n, K.ExportKeyword); return d; }
    case K.ExpressionStatement: return { k: 'expr', e: E(n.expression), l };
    case K.IfStatement: return { k: 'if', c: E(n.expression), t: blk(n.thenStatement), f: n.elseStatement ? blk(n.elseStatement) : null, l };
    case K.Block: return { k: 'block', b: SS(n.statements), l };
    case K.ReturnStatement: return { k: 'return', e: n.expression ? E(n.expression) : null, l };
    case K.ThrowStatement: return { k: 'throw', e: E(n.expression), l };
    case K.BreakStatement: return { k: 'break', label: n.label ? n.label.text : null, l };
    case K.ContinueStatement: return { k: 'continue', label: n.label ? n.label.text : null, l };
    case K.LabeledStatement: return { k: 'label', name: n.label.text, s: blk(n.statement), l };
    case K.ForStatement: return { k: 'for', init: n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? decls(n.initializer) : { k: 'expr', e: E(n.initializer) }) : null, c: n.condition ? E(n.condition) : null, u: n.incrementor ? E(n.incrementor) : null, b: blk(n.statement), l };
    case K.ForOfStatement: return { k: 'forof', t: ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : lval(n.initializer), decl: ts.isVariableDeclarationList(n.initializer), e: E(n.expression), b: blk(n.statement), aw: !!n.awaitModifier, l };
    case K.ForInStatement: return { k: 'forin', t: ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : lval(n.initializer), decl: ts.isVariableDeclarationList(n.initializer), e: E(n.expression), b: blk(n.statement), l };
    case K.WhileStatement: return { k: 'while', c: E(n.expression), b: blk(n.statement), l };
    case K.DoStatement: return { k: 'dowhile', c: E(n.expression), b: blk(n.statement), l };
    case K.TryStatement: return { k: 'try', b: Stmt(n.tryBlock), p: n.catchClause && n.catchClause.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : null, h: n.catchClause ? Stmt(n.catchClause.block) : null, fin: n.finallyBlock ? Stmt(n.finallyBlock) : null, l };
    case K.SwitchStatement: return { k: 'switch', e: E(n.expression), cs: n.caseBlock.clauses.map((c) => ({ c: ts.isDefaultClause(c) ? null : E(c.expression), b: SS(c.statements), l: line(c) })), l };
    case K.FunctionDeclaration: { if (has(n, K.DeclareKeyword)) return null; const f = fn(n); if (!f) return null; return { k: 'fndecl', name: n.name ? n.name.text : 'default', v: f, exported: has(n, K.ExportKeyword), isDefault: has(n, K.DefaultKeyword), l }; }
    case K.ClassDeclaration: return { k: 'classdecl', name: n.name ? n.name.text : 'default', v: cls(n), exported: has(n, K.ExportKeyword), l };
    case K.EnumDeclaration: return un(n);
    case K.EmptyStatement: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.NotEmittedStatement: return null;
    case K.ModuleDeclaration: return null;
    case K.ImportDeclaration: {
      const c = n.importClause; if (!c) return { k: 'import', from: n.moduleSpecifier.text, b: [], l };
      if (c.isTypeOnly) return null;
      const b = [];
      if (c.name) b.push({ imported: 'default', local: c.name.text });
      if (c.namedBindings) {
        if (ts.isNamespaceImport(c.namedBindings)) b.push({ imported: '*', local: c.namedBindings.name.text });
        else for (const s of c.namedBindings.elements) if (!s.isTypeOnly) b.push({ imported: (s.propertyName || s.name).text, local: s.name.text });
      }
      return { k: 'import', from: n.moduleSpecifier.text, b, l };
    }
    case K.ExportDeclaration: {
      if (n.isTypeOnly) return null;
      const from = n.moduleSpecifier ? n.moduleSpecifier.text : null;
      if (!n.exportClause) return { k: 'exportstar', from, l };
      if (ts.isNamespaceExport(n.exportClause)) return { k: 'exportns', from, name: n.exportClause.name.text, l };
      return { k: 'exportnamed', from, b: n.exportClause.elements.filter((s) => !s.isTypeOnly).map((s) => ({ local: (s.propertyName || s.name).text, exported: s.name.text })), l };
    }
    case K.ExportAssignment: return { k: 'exportdefault', e: E(n.expression), l };
    default: return un(n);
  }
}
const out = {};
const files = JSON.parse(fs.readFileSync(0, 'utf8'));
for (const f of files) {
  const text = fs.readFileSync(f, 'utf8');
  sf = ts.createSourceFile(f, text, ts.ScriptTarget.ESNext, true, f.endsWith('x') ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
  const lits = new Set();
  (function walk(n) { if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) lits.add(n.text); ts.forEachChild(n, walk); })(sf);
  out[f] = { body: SS(sf.statements), errors: (sf.parseDiagnostics || []).map((d) => String(d.messageText)), lits: [...lits] };
}
process.stdout.write(JSON.stringify(out));
