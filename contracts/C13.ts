// C13: unchecked routes always run their handlers and expose the decode result.
// @check {"seconds": 15, "budget": 300}
import { contract, ensures, assume, cover, any, anyString, oneOf, S, anyIndex } from 'ghost';
import { route, hooks, request, handler, methodKey, mockResponse, register, ownParts, runOwn } from './lib/router';

const unchecked = (mws: any) => {
  const spec = any('spec', S.record(S.record(route, methodKey)));
  const method = oneOf('method', ['get', 'post', 'put', 'delete', 'patch']) as string;
  const api = anyString('api', spec);
  assume(api in spec && method in spec[api]);
  const options = any('options', hooks);
  const routeOptions = any('routeOptions', S.opt(hooks));
  const handlers = any('handlers', S.array(handler));
  const req = any('request', request);
  const { body, headers, params, query } = req;
  const decoded = spec[api][method].request.decode({ body, headers, params, query });
  const res = mockResponse();
  const registered = register(spec, options, mws, method + 'Unchecked', api, handlers, routeOptions);
  const chain = registered[0].chain;
  const run = runOwn(chain, ownParts(chain, mws, handlers), req, res);
  if (decoded._tag === 'Right') cover('decoded');
  else cover('not decoded');
  ensures('the handlers are reached exactly once', run.reached === 1 && run.failed === false);
  ensures('nothing is sent on their behalf', res.log.sent === 0);
  ensures('the decode result is available', req.decoded === decoded);
  ensures('the operation name and route are available', req.apiName === api && req.httpRoute === spec[api][method]);
  ensures('the reply encoder is available', typeof res.sendEncoded === 'function');
  ensures('the request is otherwise untouched', req.body === body && req.headers === headers && req.params === params && req.query === query);
};
contract('C13', 'no middleware', () => unchecked([]));
contract('C13', 'with middleware', () => unchecked([any('first middleware', handler), any('second middleware', handler)]));
