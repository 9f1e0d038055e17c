// C15: middleware chains run in order, merge results left to right, stop on failure.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, assume, cover, any, oneOf, S, same, settled } from 'ghost';
import { runMiddlewareChain } from 'repo/express-wrapper/src/middleware.ts';
import { routerForApiSpec, routeHandler } from 'repo/express-wrapper/src/index.ts';
import { SUCCEED, FAIL, makeMiddleware } from './lib/middleware';
import { mockRequest, mockResponse, runRoute } from './lib/server';

const result = S.opt(S.record(S.any));
const error = S.union(S.obj({ message: S.str }), S.lit('failed', 1, true));

const run = async (kinds: string[]) => {
  const log: any = { calls: 0, finished: 0, inTurn: true };
  const input = any('input', S.record(S.any));
  const before = { ...input };
  const results = kinds.map((_k, i) => any('result ' + i, result));
  const errors = kinds.map((_k, i) => any('error ' + i, error));
  const chain: any = kinds.map((k, i) => makeMiddleware(i, k, results[i], errors[i], log));
  const outcome = await settled(() => runMiddlewareChain(input, chain, {} as any, {} as any));
  const failing = kinds.findIndex((k) => FAIL.includes(k));
  same('the input is not changed', input, before);
  ensures('each middleware runs in turn, after the previous one finished', log.inTurn);
  if (failing === -1) {
    ensures('every middleware runs once', log.calls === kinds.length && log.finished === kinds.length);
    ensures('the chain succeeds', outcome.state === 'fulfilled');
    let merged: any = before;
    for (const r of results) merged = { ...merged, ...r };
    same('input extended with the results, later results winning', outcome.value, merged);
  } else {
    ensures('nothing runs after a failure', log.calls === failing + 1 && log.finished === failing);
    ensures('the chain fails with that very error', outcome.state === 'rejected' && outcome.value === errors[failing]);
  }
};
const ALL = [...SUCCEED, ...FAIL];
const kind = (i: number) => oneOf('kind ' + i, ALL) as string;
// the types admit chains of at most seven middlewares
contract('C15', 'no middleware', () => run([]));
contract('C15', 'one middleware', () => run([kind(0)]));
contract('C15', 'two middlewares', () => run([kind(0), kind(1)]));
contract('C15', 'three middlewares', () => run([kind(0), kind(1), kind(2)]));
contract('C15', 'four middlewares', () => run([kind(0), kind(1), kind(2), kind(3)]));
contract('C15', 'five middlewares', () => run([kind(0), kind(1), kind(2), kind(3), kind(4)]));
contract('C15', 'six middlewares', () => run([kind(0), kind(1), kind(2), kind(3), kind(4), kind(5)]));
contract('C15', 'seven middlewares', () => run([kind(0), kind(1), kind(2), kind(3), kind(4), kind(5), kind(6)]));

// through a route: the handler gets the extended request
const route = async (kinds: string[]) => {
  const log: any = { calls: 0, finished: 0, inTurn: true };
  const decoded = any('decoded', S.record(S.any));
  const before = { ...decoded };
  const results = kinds.map((_k, i) => any('result ' + i, result));
  const errors = kinds.map((_k, i) => any('error ' + i, error));
  const chain: any = kinds.map((k, i) => makeMiddleware(i, k, results[i], errors[i], log));
  const seen: any[] = [];
  const handler = (input: any) => {
    seen.push(input);
    return { type: 200, payload: 'done' };
  };
  const res = await serve(chain, handler, decoded);
  const failing = kinds.findIndex((k) => FAIL.includes(k));
  if (failing === -1) {
    cover('handled');
    same('the decoded request is not changed', decoded, before);
    ensures('the handler runs once', seen.length === 1);
    let merged: any = before;
    for (const r of results) merged = { ...merged, ...r };
    same('the handler gets the extended request', seen[0], merged);
    ensures('answered', res.log.sent === 1 && res.log.status === 200);
  } else {
    cover('failed');
    ensures('the handler does not run', seen.length === 0);
  }
};
const serve = async (middleware: any, handler: any, decoded: any) => {
  const codec: any = { is: () => true, encode: (x: any) => x, name: 'any' };
  const spec: any = { op: { get: { path: '/op', method: 'GET', request: { decode: () => ({ _tag: 'Right', right: decoded }) }, response: { 200: codec } } } };
  const router = routerForApiSpec({ spec, routeHandlers: { op: { get: routeHandler({ middleware, handler }) } } });
  return runRoute(router.stack[0], mockRequest(), mockResponse());
};
contract('C15', 'route without middleware', () => route([]));
contract('C15', 'route with one middleware', () => route([kind(0)]));
contract('C15', 'route with two middlewares', () => route([kind(0), kind(1)]));
