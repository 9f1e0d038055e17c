// C11: hooks resolve route over router over default, independently of each other; hooks of other routes never apply.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, assume, cover, any, anyString, oneOf, choose, S, same } from 'ghost';
import * as PathReporter from 'io-ts/lib/PathReporter';
import { createRouter } from 'repo/typed-express-router/src/index.ts';
import { codec, either, request, wrapped, mockResponse, ownParts, runOwn } from './lib/router';

const given = (n: string, codes: any, log: any) => ({
  decodeErrorFormatter: choose(n + ' decode format') ? () => n : undefined,
  getDecodeErrorStatusCode: choose(n + ' decode status') ? () => codes.decode : undefined,
  encodeErrorFormatter: choose(n + ' encode format') ? () => n : undefined,
  getEncodeErrorStatusCode: choose(n + ' encode status') ? () => codes.encode : undefined,
  afterEncodedResponseSent: choose(n + ' after')
    ? () => {
        log.after = log.after + n + ' ';
      }
    : undefined,
});
const expected = (name: string, routeHooks: any, routerHooks: any) =>
  routeHooks !== undefined && routeHooks[name] !== undefined ? 'route' : routerHooks[name] !== undefined ? 'router' : 'default';

const two = (kind: string, otherFirst: boolean, created: boolean) => {
  const r = { path: created ? '/path' : any('path', S.str), method: 'GET', request: { decode: any('decode', S.fn({ result: either })) }, response: { 200: any('codec', codec) } };
  const spec = { mine: { get: r }, other: { get: r } };
  const log: any = { after: '' };
  const routerHooks: any = given('router', { decode: 601, encode: 602 }, log);
  const routeHooks: any = choose('route options given') ? given('route', { decode: 611, encode: 612 }, log) : undefined;
  const otherHooks: any = given('other', { decode: 621, encode: 622 }, log);
  const made: any = created ? { w: createRouter(spec as any, routerHooks) } : wrapped(spec, routerHooks);
  const w = made.w;
  if (otherFirst) w['get' + kind]('other', [], otherHooks);
  w['get' + kind]('mine', [], routeHooks);
  if (!otherFirst) w['get' + kind]('other', [], otherHooks);
  const k = otherFirst ? 1 : 0;
  const chain = created ? w.stack[k].route.stack.map((l: any) => l.handle) : made.registered[k].chain;
  const req = any('request', request);
  const res = mockResponse();
  const run = runOwn(chain, ownParts(chain, [], []), req, res);
  return { run, res, req, r, log, routeHooks, routerHooks };
};

const decodeHooks = (otherFirst: boolean, created: boolean) => {
  const { run, res, req, r, routeHooks, routerHooks } = two('', otherFirst, created);
  const decoded: any = r.request.decode({ body: req.body, headers: req.headers, params: req.params, query: req.query });
  assume(decoded._tag === 'Left');
  const f = expected('decodeErrorFormatter', routeHooks, routerHooks);
  const s = expected('getDecodeErrorStatusCode', routeHooks, routerHooks);
  cover('decode error');
  ensures('not reached', run.reached === 0);
  ensures('status hook: route over router over 400', res.log.status === (s === 'route' ? 611 : s === 'router' ? 601 : 400));
  if (f === 'default') same('default format: the messages of the errors', res.log.body, PathReporter.failure(decoded.left));
  else ensures('format hook: route over router', res.log.body === f);
};
contract('C11', 'decode-error hooks, other route before', () => decodeHooks(true, false));
contract('C11', 'decode-error hooks, other route after', () => decodeHooks(false, false));

const replyHooks = (otherFirst: boolean, created: boolean) => {
  const { run, res, r, log, routeHooks, routerHooks } = two('Unchecked', otherFirst, created);
  assume(run.reached === 1);
  const payload = any('payload', S.any);
  const is = r.response[200].is(payload);
  assume(!is);
  res.sendEncoded(200, payload);
  const f = expected('encodeErrorFormatter', routeHooks, routerHooks);
  const s = expected('getEncodeErrorStatusCode', routeHooks, routerHooks);
  cover('encode error');
  ensures('status hook: route over router over 500', res.log.status === (s === 'route' ? 612 : s === 'router' ? 602 : 500));
  same('format hook: route over router over empty object', res.log.body, f === 'default' ? {} : f);
  ensures('no after-send hook', log.after === '');
};
contract('C11', 'encode-error hooks, other route before', () => replyHooks(true, false));
contract('C11', 'encode-error hooks, other route after', () => replyHooks(false, false));

const afterHooks = (otherFirst: boolean, created: boolean) => {
  const { run, res, log, routeHooks, routerHooks } = two('Unchecked', otherFirst, created);
  assume(run.reached === 1);
  res.sendEncoded(200, any('payload', S.any));
  assume(res.log.status === 200);
  const a = expected('afterEncodedResponseSent', routeHooks, routerHooks);
  cover('sent');
  ensures('after-send hook: route over router over none', log.after === (a === 'default' ? '' : a + ' '));
};
contract('C11', 'after-send hooks, other route before', () => afterHooks(true, false));
contract('C11', 'after-send hooks, other route after', () => afterHooks(false, false));

contract('C11', 'decode-error hooks of a created router', () => decodeHooks(true, true));
contract('C11', 'encode-error hooks of a created router', () => replyHooks(true, true));
contract('C11', 'after-send hooks of a created router', () => afterHooks(true, true));
