// C18: the server mounts every declared operation with its own handler.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, assume, cover, any, anyString, anyIndex, oneOf, fork, S, same } from 'ghost';
import { routerForApiSpec, createServer } from 'repo/express-wrapper/src/index.ts';
import { either } from './lib/router';
import { mockRequest, mockResponse, runRoute, chainOf } from './lib/server';

const route = S.obj({ path: S.lit('/a', '/b', '/a/c'), method: S.str, request: S.obj({ decode: S.fn({ result: either }) }), response: S.record(S.any) });
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const key = S.union(S.lit('get', 'post', 'put', 'delete', 'patch'), S.str);

const declared = (handler: any) => {
  const spec: any = any('spec', S.record(S.record(route, key)));
  const handlers: any = any('handlers', S.record(S.record(handler)));
  for (const a of Object.keys(spec)) for (const m of Object.keys(spec[a])) assume(a in handlers && m in handlers[a]);
  return { spec, handlers };
};

contract('C18', 'exactly the declared operations are mounted', () => {
  const { spec, handlers } = declared(S.fn({}));
  const router: any = routerForApiSpec({ spec, routeHandlers: handlers });
  const expected: any[] = [];
  for (const a of Object.keys(spec)) for (const m of Object.keys(spec[a])) if (METHODS.includes(m)) expected.push({ path: spec[a][m].path, method: m });
  same('each declared operation once, nothing else', router.stack.map((l: any) => ({ path: l.route.path, method: l.route.stack[0].method })), expected);
});

// one object is both the specification and the table of handlers: each operation comes with its own handler
const ownHandler = S.obj({
  path: S.lit('/a', '/b', '/a/c'),
  method: S.str,
  request: S.obj({ decode: S.fn({ result: either }) }),
  response: S.record(S.any),
  middleware: S.array(S.any, 0, 0),
  handler: S.fn({ result: S.obj({ type: S.nat, payload: S.any }) }),
});
contract('C18', 'each operation is served by its own handler', async () => {
  const spec: any = any('spec', S.record(S.record(ownHandler, key)));
  const log: any[] = [];
  const encoder: any = (r: any, answer: any) => (_req: any, res: any) => {
    log.push({ route: r, answer });
    res.status(200).end();
  };
  const router: any = routerForApiSpec({ spec, routeHandlers: spec, encoder });
  const i = anyIndex('mounted route', router.stack);
  const mounted = fork(router.stack[i]);
  const layer = mounted.route;
  const method = layer.stack[0].method;
  const req = mockRequest();
  const res = await runRoute(mounted, req, mockResponse());
  const api = req.apiName;
  ensures('a declared operation', api in spec && method in spec[api] && spec[api][method].path === layer.path);
  const decoded = spec[api][method].request.decode({ body: {}, headers: {}, params: {}, query: {} });
  if (decoded._tag === 'Right') {
    cover('decoded');
    ensures('answered once, with the configured encoder', log.length === 1);
    ensures('by its own handler on the decoded request', log[0].answer === spec[api][method].handler(decoded.right));
    ensures('with its own route', log[0].route === spec[api][method]);
  } else ensures('not handled', log.length === 0);
});

const oneRoute = (decode: any, handler: any): any => ({
  spec: { op: { get: { path: '/op', method: 'GET', request: { decode }, response: { 200: { name: 'any', is: () => true, encode: (x: any) => x } } } } },
  routeHandlers: { op: { get: handler } },
});
contract('C18', 'requests that do not decode are answered as configured', async () => {
  const errors = any('errors', S.any);
  const runs: any = { n: 0 };
  const handler = () => {
    runs.n = runs.n + 1;
    return { type: 200, payload: 'done' };
  };
  const configured = oneOf('configured', [true, false]);
  const decodeErrorFormatter: any = any('decodeErrorFormatter', S.fn({ pure: true, result: S.any }));
  const getDecodeErrorStatusCode: any = any('getDecodeErrorStatusCode', S.fn({ pure: true, result: S.nat }));
  const left = { _tag: 'Left', left: configured ? errors : [] };
  const options = oneRoute(() => left, handler);
  if (configured) {
    options.decodeErrorFormatter = decodeErrorFormatter;
    options.getDecodeErrorStatusCode = getDecodeErrorStatusCode;
  }
  const req = mockRequest();
  const res = await runRoute(routerForApiSpec(options).stack[0], req, mockResponse());
  ensures('the handler does not run', runs.n === 0);
  ensures('one response, not handed on', res.log.sent === 1 && res.log.nexts === 0);
  if (configured) {
    ensures('the configured status', res.log.status === getDecodeErrorStatusCode(errors, req));
    ensures('the configured body', res.log.body === decodeErrorFormatter(errors, req));
  } else {
    ensures('400', res.log.status === 400);
    same('the report', res.log.body, { error: '' });
  }
});

contract('C18', 'answers that do not conform are reported as configured', async () => {
  const body = any('body', S.any);
  const status = any('status', S.nat);
  const payload = any('payload', S.any);
  const form = oneOf('configured', ['nothing', 'hooks', 'hooks and decode hooks']);
  const options = oneRoute(() => ({ _tag: 'Right', right: {} }), () => ({ type: 200, payload }));
  options.spec.op.get.response[200] = { name: 'none', is: () => false, encode: (x: any) => x };
  options.encoder = (_route: any, answer: any) => (_req: any, res: any) => res.sendEncoded(answer.type, answer.payload);
  if (form !== 'nothing') {
    options.encodeErrorFormatter = () => body;
    options.getEncodeErrorStatusCode = () => status;
  }
  if (form === 'hooks and decode hooks') {
    options.decodeErrorFormatter = () => 'decode';
    options.getDecodeErrorStatusCode = () => 400;
  }
  const res = await runRoute(routerForApiSpec(options).stack[0], mockRequest(), mockResponse());
  ensures('one response', res.log.sent === 1 && res.log.nexts === 0);
  if (form !== 'nothing') {
    cover('configured');
    ensures('the configured status', res.log.status === status);
    ensures('the configured body', res.log.body === body);
  } else {
    ensures('500', res.log.status === 500);
    same('an empty object', res.log.body, {});
  }
});

contract('C18', 'createServer mounts the router on the configured application', async () => {
  const answer = any('answer', S.any);
  const { spec, routeHandlers } = oneRoute(() => ({ _tag: 'Right', right: {} }), () => ({ type: 200, payload: answer }));
  const seen: any[] = [];
  const first = () => {};
  const app: any = createServer(spec, (a: any) => {
    seen.push(a);
    a.use(first);
    return routeHandlers;
  });
  ensures('configured once, with the application itself', seen.length === 1 && seen[0] === app);
  // the layers express keeps for what is mounted (besides its own)
  const mounted = app._router.stack.map((l: any) => l.handle).filter((h: any) => h === first || 'stack' in h);
  ensures('what the configuration mounts comes first', mounted.length === 2 && mounted[0] === first);
  const res = await runRoute(mounted[1].stack[0], mockRequest(), mockResponse());
  ensures('served', mounted[1].stack.length === 1 && res.log.sent === 1 && res.log.status === 200 && res.log.body === answer);
});
