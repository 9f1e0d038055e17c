// Common parts of the contracts on typed-express-router: shapes, a recording router, request and response.
import { S, any, assume, oneOf, ensures, anyIndex } from 'ghost';
import { wrapRouter } from 'repo/typed-express-router/src/index.ts';

const error = S.obj({
  value: S.json,
  context: S.array(S.obj({ key: S.str, type: S.obj({ name: S.str }) }), 1),
  message: S.opt(S.lit('bad', 'not a number')),
});
export const either = S.union(S.obj({ _tag: S.lit('Right'), right: S.any }), S.obj({ _tag: S.lit('Left'), left: S.array(error, 1) }));
export const codec = S.obj({ name: S.str, is: S.fn({ result: S.bool }), encode: S.fn({ result: S.any, throws: true }) });
export const statusKey = S.union(S.lit('200', '400', '404', '500', 'ok', 'notFound', 'noSuchStatus', 'internalServerError'), S.str);
export const route = S.obj({
  path: S.str,
  method: S.str,
  request: S.obj({ decode: S.fn({ result: either }) }),
  response: S.record(codec, statusKey),
});
export const methodKey = S.lit('get', 'post', 'put', 'delete', 'patch');
export const hooks = S.obj({
  decodeErrorFormatter: S.opt(S.fn({ result: S.json })),
  getDecodeErrorStatusCode: S.opt(S.fn({ result: S.nat })),
  encodeErrorFormatter: S.opt(S.fn({ result: S.json })),
  getEncodeErrorStatusCode: S.opt(S.fn({ result: S.nat })),
  afterEncodedResponseSent: S.opt(S.fn({ result: S.undef })),
});
export const request = S.obj({ body: S.any, headers: S.any, params: S.any, query: S.any });
export const handler = S.fn({ pure: true });

export const mockResponse = () => {
  const log: any = { sent: 0, status: 200 };
  const res: any = { log };
  res.status = (c: any) => {
    log.status = c;
    return res;
  };
  res.json = (b: any) => {
    log.sent = log.sent + 1;
    log.body = b;
    return res;
  };
  res.send = res.json;
  res.end = () => {
    if (log.sent === 0) {
      log.sent = 1;
      log.empty = true;
    }
    return res;
  };
  return res;
};

// registers `handlers` (and `mws` before) and returns what reached the underlying router
export const register = (spec: any, options: any, mws: any, name: string, api: string, handlers: any, routeOptions: any) => {
  const registered: any[] = [];
  const rec = (method: string) => (path: any, ...rest: any[]) => {
    registered.push({ method, path, chain: Array.isArray(rest[0]) ? rest[0] : rest });
  };
  const router: any = { get: rec('get'), post: rec('post'), put: rec('put'), delete: rec('delete'), patch: rec('patch') };
  const w: any = wrapRouter(router, spec, options);
  for (const m of mws) w.use(m);
  w[name](api, handlers, routeOptions);
  return registered;
};

// positions of the router's own functions in a chain [own..., middleware..., own..., handlers...]
export const ownParts = (chain: any, mws: any, handlers: any) => {
  const end = chain.length - handlers.length;
  const first = mws.length > 0 ? [0, 1, 2, 3, 4].find((i) => chain[i] === mws[0]) : end;
  const own: number[] = [];
  for (let i = 0; i < end; i++) if (i < (first as number) || i >= (first as number) + mws.length) own.push(i);
  return own;
};

// runs the router's own functions of the chain one after the other; middleware and handlers are not run, only reached
export const runOwn = (chain: any, own: number[], req: any, res: any) => {
  const log: any = { reached: 0, failed: false };
  const go = (k: number) => {
    if (k === own.length) log.reached = log.reached + 1;
    else
      chain[own[k]](req, res, (err: any) => {
        if (err) {
          log.failed = true;
          log.error = err;
        } else go(k + 1);
      });
  };
  go(0);
  return log;
};

// a hook that records its calls in log[name] and answers with what the caller-chosen function answers
export const recording = (log: any, name: string, f: any) => (...args: any[]) => {
  log[name] = log[name] + 1;
  log[name + 'Args'] = args;
  return f(...args);
};

// the path under which a route with this declared path is mounted
export const mountedAt = (path: string) => register({ op: { get: { path, method: 'GET', request: {}, response: {} } } }, {}, [], 'get', 'op', [], undefined)[0].path;

// a wrapped router over a recording one
export const wrapped = (spec: any, options: any) => {
  const registered: any[] = [];
  const rec = (method: string) => (path: any, ...rest: any[]) => {
    registered.push({ method, path, chain: Array.isArray(rest[0]) ? rest[0] : rest });
  };
  const router: any = { get: rec('get'), post: rec('post'), put: rec('put'), delete: rec('delete'), patch: rec('patch') };
  return { w: wrapRouter(router, spec, options) as any, registered };
};
