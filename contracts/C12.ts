// C12: routes are registered at their declared path, method and aliases, in order. The path conversion is defined by the
// first two contracts, by induction over the number of placeholders.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, assume, cover, any, anyString, oneOf, choose, S, anyIndex, attempt } from 'ghost';
import { route, methodKey, request, handler, hooks, mountedAt, wrapped, mockResponse, ownParts, runOwn } from './lib/router';

const braceFree = (s: string) => !s.includes('{') && !s.includes('}');

contract('C12', 'paths without parameters are mounted unchanged', () => {
  const text = any('text', S.str);
  assume(braceFree(text));
  cover('plain');
  ensures('unchanged', mountedAt(text) === text);
});

contract('C12', 'each path parameter is converted', () => {
  const text = any('text', S.str);
  const key = any('key', S.str);
  const rest = any('rest', S.str);
  assume(braceFree(text) && /^\w+$/.test(key));
  cover('parameter');
  ensures('the parameter is renamed, the rest converted independently', mountedAt(text + '{' + key + '}' + rest) === text + ':' + key + mountedAt(rest));
});

const registration = (kind: string) => {
  const spec = any('spec', S.record(S.record(route, methodKey)));
  const method = oneOf('method', ['get', 'post', 'put', 'delete', 'patch']) as string;
  const api = anyString('api', spec);
  const routeOptions = any('routeOptions', S.opt(S.obj({ routeAliases: S.opt(S.array(S.str)) })));
  const handlers = any('handlers', S.array(handler));
  const m1 = any('m1', handler);
  const m2 = any('m2', handler);
  const m3 = any('m3', handler);
  assume(m1 !== m2 && m2 !== m3 && m1 !== m3);
  const { w, registered } = wrapped(spec, {});
  w.use(m1);
  w.use(m2);
  const outcome = attempt(() => w[method + kind](api, handlers, routeOptions));
  w.use(m3);
  if (!(api in spec && method in spec[api])) {
    cover('operation not in the specification');
    ensures('refused', outcome.state === 'threw');
    ensures('nothing is mounted', registered.length === 0);
  } else {
    cover('declared operation');
    const aliases: any = routeOptions?.routeAliases ?? [];
    ensures('accepted', outcome.state === 'returned');
    ensures('mounted once per path', registered.length === 1 + aliases.length);
    const k = any('mount', S.nat);
    assume(k < registered.length);
    ensures('under the method of the operation', registered[k].method === method);
    if (k === 0) {
      cover('declared path');
      ensures('at the declared path, converted', registered[k].path === mountedAt(spec[api][method].path));
    } else {
      cover('alias');
      ensures('at the alias verbatim', registered[k].path === aliases[k - 1]);
    }
    const chain = registered[0].chain;
    ensures('the same chain everywhere', registered[k].chain === chain);
    const at1 = [0, 1, 2, 3, 4, 5].find((i) => chain[i] === m1) as number;
    ensures('middleware in registration order', chain[at1 + 1] === m2);
    ensures('middleware before the handlers', at1 + 2 <= chain.length - handlers.length);
    ensures('decoding comes before the middleware', at1 >= 1);
    const req = any('request', request);
    const early: any[] = [];
    for (let i = 0; i < at1; i++) early.push(i);
    const run = runOwn(chain, early, req, mockResponse());
    ensures('the request reaches the middleware decoded', run.reached === 1);
    ensures('the middleware sees the decode result', req.decoded === spec[api][method].request.decode({ body: req.body, headers: req.headers, params: req.params, query: req.query }));
    const j = any('handler', S.nat);
    if (j < handlers.length) {
      cover('handlers');
      ensures('handlers last and in order', chain[chain.length - handlers.length + j] === handlers[j]);
    }
    const p = any('position', S.nat);
    if (p < chain.length - handlers.length) ensures('middleware added later is not part of the chain', chain[p] !== m3);
  }
};
contract('C12', 'checked registration', () => registration(''));
contract('C12', 'unchecked registration', () => registration('Unchecked'));

contract('C12', 'a middleware added twice is mounted twice', () => {
  const m = any('middleware', handler);
  const { w, registered } = wrapped({ op: { get: { path: '/op', method: 'GET', request: {}, response: {} } } }, {});
  w.use(m);
  w.use(m);
  w.get('op', []);
  const chain = registered[0].chain;
  cover('mounted');
  ensures('both', chain.filter((x: any) => x === m).length === 2);
});
