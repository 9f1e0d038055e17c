// C16: handler results are answered with their own status and encoded payload.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, cover, any, oneOf, S, attempt } from 'ghost';
import { KeyToHttpStatus } from '@api-ts/io-ts-http';
import { routerForApiSpec, routeHandler } from 'repo/express-wrapper/src/index.ts';
import { mockRequest, mockResponse, runRoute } from './lib/server';

const codec = S.obj({ name: S.str, is: S.fn({ result: S.bool }), encode: S.fn({ result: S.any, throws: true }) });
const statusKey = S.union(S.lit('200', '201', '400', '404', '500', 'ok', 'noSuchStatus'), S.str);
const typeName = S.union(S.lit('ok', 'created', 'invalidRequest', 'notFound', 'internalError', 'noSuchStatus', '200'), S.str);

const answer = async (form: string, type: any) => {
  const response = any('declared responses', S.record(codec, statusKey)) as any;
  const payload = any('payload', S.any);
  const fn = form === 'async function' || form === 'async handler' ? async () => ({ type, payload }) : () => ({ type, payload });
  const handler: any =
    form === 'function' || form === 'async function' ? fn : form === 'object' ? { middleware: [], handler: fn } : routeHandler({ handler: fn as any });
  const spec: any = { op: { get: { path: '/op', method: 'GET', request: { decode: () => ({ _tag: 'Right', right: {} }) }, response } } };
  const router = routerForApiSpec({ spec, routeHandlers: { op: { get: handler } } });
  const res = await runRoute(router.stack[0], mockRequest(), mockResponse());
  const status: any = typeof type === 'number' ? type : (KeyToHttpStatus as any)[type];
  const c = status !== undefined && status in response ? response[status] : undefined;
  const encoded: any = c === undefined ? undefined : attempt(() => c.encode(payload));
  ensures('a single response', res.log.sent === 1);
  if (c !== undefined && encoded.state === 'returned') {
    cover('answered');
    ensures('the status of the result', res.log.status === status);
    ensures('the encoded payload', res.log.empty === false && res.log.body === encoded.value);
  } else {
    cover('refused');
    ensures('status 500', res.log.status === 500);
    ensures('an empty response', res.log.empty === true);
  }
};
contract('C16', 'function, named status', () => answer('function', any('type', typeName)));
contract('C16', 'function, status code', () => answer('function', any('type', S.nat)));
contract('C16', 'async function, named status', () => answer('async function', any('type', typeName)));
contract('C16', 'handler object, status code', () => answer('object', any('type', S.nat)));
contract('C16', 'async routeHandler, named status', () => answer('async handler', any('type', typeName)));
contract('C16', 'routeHandler, status code', () => answer('handler', any('type', S.nat)));
