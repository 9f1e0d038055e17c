// C17: a failing handler or middleware is never reported as success.
// @check {"seconds": 20, "budget": 300, "note": "middlewares that send a response themselves and then fail are outside the contract"}
import { contract, ensures, assume, cover, any, oneOf, choose, S } from 'ghost';
import { routerForApiSpec, routeHandler } from 'repo/express-wrapper/src/index.ts';
import { SUCCEED, FAIL, makeMiddleware } from './lib/middleware';
import { mockRequest, mockResponse, runRoute } from './lib/server';

const error = S.union(S.obj({ message: S.str }), S.lit('failed', 1, true));
const codec: any = { name: 'any', is: () => true, encode: (x: any) => x };

const serve = (handler: any, res: any) => {
  const spec: any = { op: { get: { path: '/op', method: 'GET', request: { decode: () => ({ _tag: 'Right', right: {} }) }, response: { 200: codec } } } };
  return runRoute(routerForApiSpec({ spec, routeHandlers: { op: { get: handler } } }).stack[0], mockRequest(), res);
};
const answered = (res: any, chosen: any) => {
  ensures('an error status', res.log.status >= 400);
  ensures('500, or the error status the code chose itself', res.log.status === (chosen >= 400 ? chosen : 500));
  ensures('one empty response', res.log.sent === 1 && res.log.empty === true);
  ensures('not handed on to later routes', res.log.nexts === 0);
};
const withMiddleware = (branded: boolean, middleware: any, handler: any): any => (branded ? routeHandler({ middleware, handler }) : { middleware, handler });

const failingMiddleware = async (branded: boolean, n: number) => {
  const log: any = { calls: 0, finished: 0, inTurn: true };
  const kinds = [0, 1, 2, 3, 4, 5, 6].slice(0, n).map((i) => oneOf('kind ' + i, [...SUCCEED, ...FAIL]) as string);
  assume(kinds.some((k) => FAIL.includes(k)));
  const res = mockResponse();
  let chosen: any = any('status chosen by the middleware', S.union(S.undef, S.nat));
  const middleware = kinds.map((k, i) => makeMiddleware(i, k, {}, any('error ' + i, error), log));
  const first = middleware[0];
  const choosing: any = (req: any, r: any, next: any) => {
    if (chosen !== undefined) r.status(chosen);
    return first(req, r, next);
  };
  const runs: any = { n: 0 };
  const handler = () => {
    runs.n = runs.n + 1;
    return { type: 200, payload: 'done' };
  };
  await serve(withMiddleware(branded, [choosing, ...middleware.slice(1)], handler), res);
  cover('failed');
  ensures('the handler does not run', runs.n === 0);
  answered(res, chosen === undefined ? 200 : chosen);
};
contract('C17', 'failing middleware, routeHandler, one', () => failingMiddleware(true, 1));
contract('C17', 'failing middleware, routeHandler, two', () => failingMiddleware(true, 2));
contract('C17', 'failing middleware, routeHandler, three', () => failingMiddleware(true, 3));
contract('C17', 'failing middleware, routeHandler, seven', () => failingMiddleware(true, 7));
contract('C17', 'failing middleware, handler object, seven', () => failingMiddleware(false, 7));
contract('C17', 'failing middleware, handler object, one', () => failingMiddleware(false, 1));
contract('C17', 'failing middleware, handler object, two', () => failingMiddleware(false, 2));
contract('C17', 'failing middleware, handler object, three', () => failingMiddleware(false, 3));

const failingHandler = async (form: string) => {
  const res = mockResponse();
  const chosen: any = any('status chosen by the handler', S.union(S.undef, S.nat));
  const e = any('error', S.any);
  const act = () => {
    if (chosen !== undefined) res.status(chosen);
  };
  const sync = () => {
    act();
    throw e;
  };
  const later = async () => {
    act();
    await undefined;
    throw e;
  };
  const fn: any = choose('asynchronously') ? later : sync;
  const passing = [makeMiddleware(0, oneOf('middleware kind', SUCCEED) as string, {}, undefined, { calls: 0, finished: 0, inTurn: true })];
  const handler: any = form === 'function' ? fn : form === 'object' ? { middleware: passing, handler: fn } : routeHandler({ middleware: passing as any, handler: fn });
  await serve(handler, res);
  cover('failed');
  answered(res, chosen === undefined ? 200 : chosen);
};
contract('C17', 'failing function', () => failingHandler('function'));
contract('C17', 'failing handler object', () => failingHandler('object'));
contract('C17', 'failing routeHandler', () => failingHandler('routeHandler'));

// middlewares of a handler object run in order, and the handler gets the decoded request unchanged
const ignoring = async (n: number) => {
  const log: any = { calls: 0, finished: 0, inTurn: true };
  const kinds = [0, 1, 2, 3, 4, 5, 6].slice(0, n).map((i) => oneOf('kind ' + i, SUCCEED) as string);
  const middleware = kinds.map((k, i) => makeMiddleware(i, k, { extra: 1 }, undefined, log));
  const runs: any = { n: 0 };
  const handler = () => {
    runs.n = runs.n + 1;
    runs.after = log.finished;
    return { type: 200, payload: 'done' };
  };
  const res = mockResponse();
  await serve({ middleware, handler }, res);
  ensures('each middleware runs in turn', log.inTurn && log.finished === n);
  ensures('then the handler once', runs.n === 1 && runs.after === n);
  ensures('success is reported as such', res.log.sent === 1 && res.log.status === 200 && res.log.body === 'done');
};
contract('C17', 'succeeding middleware, handler object, one', () => ignoring(1));
contract('C17', 'succeeding middleware, handler object, three', () => ignoring(3));
