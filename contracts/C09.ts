// C09: checked handlers run only on successfully decoded requests.
// @check {"seconds": 20, "budget": 240, "note": "error formatting hooks and the request codec are assumed not to throw (they are called outside any try block)"}
import { contract, ensures, assume, cover, any, anyString, oneOf, S, anyIndex, same } from 'ghost';
import * as PathReporter from 'io-ts/lib/PathReporter';
import { route, hooks, request, handler, methodKey, mockResponse, register, ownParts, runOwn } from './lib/router';

const checked = (mws: any) => {
  const spec = any('spec', S.record(S.record(route, methodKey)));
  const method = oneOf('method', ['get', 'post', 'put', 'delete', 'patch']) as string;
  const api = anyString('api', spec);
  assume(api in spec && method in spec[api]);
  const options = any('options', hooks);
  const routeOptions = any('routeOptions', S.opt(hooks));
  const handlers = any('handlers', S.array(handler));
  const req = any('request', request);
  const decode = spec[api][method].request.decode;
  const decoded = decode({ body: req.body, headers: req.headers, params: req.params, query: req.query });
  const res = mockResponse();
  const registered = register(spec, options, mws, method, api, handlers, routeOptions);
  const chain = registered[0].chain;
  const own = ownParts(chain, mws, handlers);
  const i = anyIndex('i', handlers);
  ensures('the handlers come last', chain[chain.length - handlers.length + i] === handlers[i]);
  const run = runOwn(chain, own, req, res);
  ensures('the chain does not fail', run.failed === false);
  if (decoded._tag === 'Right') {
    cover('decoded');
    ensures('a decoded request reaches the handlers once', run.reached === 1);
    ensures('the handlers see the decoded value', req.decoded === decoded.right);
    ensures('nothing is sent before the handlers run', res.log.sent === 0);
  } else {
    cover('not decoded');
    const format = routeOptions?.decodeErrorFormatter ?? options.decodeErrorFormatter ?? PathReporter.failure;
    const status = routeOptions?.getDecodeErrorStatusCode ?? options.getDecodeErrorStatusCode ?? (() => 400);
    ensures('no handler runs on a failed decode', run.reached === 0);
    ensures('exactly one response on a failed decode', res.log.sent === 1);
    ensures('status from the effective hook', res.log.status === status(decoded.left, req));
    same('body from the effective hook', res.log.body, format(decoded.left, req));
  }
};

contract('C09', 'no middleware', () => checked([]));
contract('C09', 'with middleware', () => checked([any('first middleware', handler), any('second middleware', handler)]));
