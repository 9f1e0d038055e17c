// C10: an encoded reply always conforms to the declared response type.
// @check {"seconds": 20, "budget": 300, "note": "the hooks are assumed not to throw; the underlying response object accepts every status and body"}
import { contract, ensures, assume, cover, any, anyString, oneOf, choose, S, same, attempt } from 'ghost';
import { KeyToHttpStatus } from '@api-ts/io-ts-http';
import { route, methodKey, statusKey, request, mockResponse, register, ownParts, runOwn } from './lib/router';

const reply = (kind: string, named: boolean) => {
  const spec = any('spec', S.record(S.record(route, methodKey)));
  const method = oneOf('method', ['get', 'post', 'put', 'delete', 'patch']) as string;
  const api = anyString('api', spec);
  assume(api in spec && method in spec[api]);
  const theRoute = spec[api][method];
  const log: any = { after: 0, status: 0, format: 0, other: 0 };
  const statusOf = any('statusOf', S.fn({ result: S.nat }));
  const formatOf = any('formatOf', S.fn({ result: S.json }));
  const mk = (n: string) => ({
    afterEncodedResponseSent: choose('after ' + n)
      ? (...a: any[]) => {
          log.after = log.after + 1;
          log.afterArgs = a;
          log.afterBy = n;
          log.sentBeforeAfter = res.log.sent;
        }
      : undefined,
    getEncodeErrorStatusCode: choose('status ' + n)
      ? (e: any, r: any) => {
          log.status = log.status + 1;
          log.statusArgs = [e, r];
          return statusOf(n);
        }
      : undefined,
    encodeErrorFormatter: choose('format ' + n)
      ? (e: any, r: any) => {
          log.format = log.format + 1;
          log.formatArgs = [e, r];
          return formatOf(n);
        }
      : undefined,
  });
  const req = any('request', request);
  const res = mockResponse();
  const routerHooks: any = mk('router');
  const routeHooks: any = mk('route');
  const registered = register(spec, routerHooks, [], method + kind, api, [], routeHooks);
  const chain = registered[0].chain;
  const run = runOwn(chain, ownParts(chain, [], []), req, res);
  assume(run.reached === 1);
  ensures('nothing is sent before the reply', res.log.sent === 0);
  const status: any = named ? any('status name', statusKey) : any('status code', S.nat);
  const payload = any('payload', S.any);
  const codec = status in theRoute.response ? theRoute.response[status] : undefined;
  const code = named ? (KeyToHttpStatus as any)[status] : status;
  const isPayload = codec !== undefined && codec.is(payload);
  const encoded: any = isPayload ? attempt(() => codec.encode(payload)) : undefined;
  const sending = attempt(() => res.sendEncoded(status, payload));
  ensures('sending does not throw', sending.state === 'returned');
  ensures('exactly one response is written', res.log.sent === 1);
  if (isPayload && code !== undefined && encoded.state === 'returned') {
    cover('conforming reply');
    ensures('the declared status is sent', res.log.status === code);
    ensures('the encoded payload is sent', res.log.body === encoded.value);
    const by = routeHooks.afterEncodedResponseSent ? 'route' : routerHooks.afterEncodedResponseSent ? 'router' : undefined;
    ensures('the after-send hook runs once', log.after === (by === undefined ? 0 : 1));
    if (by !== undefined) {
      cover('after-send hook');
      ensures('the after-send hook of the route comes first', log.afterBy === by);
      ensures('the after-send hook sees status, payload, request and response', log.afterArgs[0] === code && log.afterArgs[1] === payload && log.afterArgs[2] === req && log.afterArgs[3] === res);
      ensures('the after-send hook runs after sending', log.sentBeforeAfter === 1);
    }
    ensures('no error hook runs for a conforming reply', log.status === 0 && log.format === 0);
  } else {
    cover('non-conforming reply');
    const statusBy = routeHooks.getEncodeErrorStatusCode ? 'route' : routerHooks.getEncodeErrorStatusCode ? 'router' : undefined;
    const formatBy = routeHooks.encodeErrorFormatter ? 'route' : routerHooks.encodeErrorFormatter ? 'router' : undefined;
    ensures('error status from the effective hook', res.log.status === (statusBy === undefined ? 500 : statusOf(statusBy)));
    same('error body from the effective hook', res.log.body, formatBy === undefined ? {} : formatOf(formatBy));
    if (statusBy !== undefined) ensures('the status hook sees the request', log.statusArgs[1] === req);
    if (formatBy !== undefined) ensures('the format hook sees the request', log.formatArgs[1] === req);
    if (encoded !== undefined && encoded.state === 'threw' && code !== undefined) {
      if (statusBy !== undefined) ensures('the status hook sees the encoding error', log.statusArgs[0] === encoded.value);
      if (formatBy !== undefined) ensures('the format hook sees the encoding error', log.formatArgs[0] === encoded.value);
    }
    ensures('no after-send hook for a failed reply', log.after === 0);
  }
};
contract('C10', 'unchecked route, named status', () => reply('Unchecked', true));
contract('C10', 'unchecked route, status code', () => reply('Unchecked', false));
contract('C10', 'checked route, named status', () => reply('', true));
contract('C10', 'checked route, status code', () => reply('', false));
