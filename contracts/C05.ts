// C05: what the client sends is exactly what the route's encoder produced.
// @check {"assumptions":["the superagent-like request returns itself or a successor from query/set/send (mock in the contract)","URL and path.posix.join: models/whatwg-url.ts, models/path.ts"]}
import { contract, ensures, assume, cover, any, anyString, S } from 'ghost';
import { posix } from 'node:path';
import { URL } from 'whatwg-url';
import { requestForRoute, superagentRequestFactory, supertestRequestFactory } from 'repo/superagent-wrapper/src/request.ts';

const mock = (log: any) => {
  const req: any = Promise.resolve({ status: 200, body: {}, text: '' });
  req.query = (q: any) => {
    log.queries = log.queries + 1;
    log.query = q;
    return req;
  };
  req.set = (name: string, value: any) => {
    if (name in log.headers) log.repeated = true;
    log.headers[name] = value;
    return req;
  };
  req.send = (b: any) => {
    log.sends = log.sends + 1;
    log.body = b;
    return req;
  };
  req.ok = (f: any) => {
    log.okAll = f;
    return req;
  };
  return req;
};

contract('C05', 'the encoded request is sent', () => {
  const encoded = any(
    'encoded',
    S.obj({
      params: S.record(S.str),
      query: S.record(S.union(S.str, S.array(S.str))),
      headers: S.opt(S.record(S.str)),
      body: S.opt(S.json),
    }),
  );
  const params = any('params', S.any);
  assume(!('headers' in encoded) || !('content-type' in encoded.headers));
  const log: any = { calls: 0, queries: 0, sends: 0, headers: {}, repeated: false };
  const route: any = {
    path: '/p',
    method: 'POST',
    request: {
      encode: (p: any) => {
        log.encoded = p;
        return encoded;
      },
    },
    response: {},
  };
  const factory = (r: any, p: any) => {
    log.calls = log.calls + 1;
    log.route = r;
    log.params = p;
    return mock(log);
  };
  requestForRoute(factory as any, route)(params);
  cover('sent');
  ensures('the arguments are encoded', log.encoded === params);
  ensures('one request for this route', log.calls === 1 && log.route === route);
  ensures('with the encoded path parameters', log.params === encoded.params);
  ensures('one query', log.queries === 1);
  ensures('the encoded query', log.query === encoded.query);
  ensures('no header twice', log.repeated === false);
  const h = anyString('header', encoded.headers);
  const hasHeader = encoded.headers !== undefined && h in encoded.headers;
  if (hasHeader) {
    cover('header');
    ensures('header sent', h in log.headers && log.headers[h] === encoded.headers[h]);
  }
  if (encoded.body !== undefined) {
    cover('body');
    ensures('the body is sent once, as JSON', log.sends === 1 && log.body === JSON.stringify(encoded.body));
    ensures('declared as JSON', log.headers['content-type'] === 'application/json');
    ensures('no other header', hasHeader || h === 'content-type' || !(h in log.headers));
  } else {
    cover('no body');
    ensures('no body', log.sends === 0);
    ensures('no header that was not encoded', hasHeader || !(h in log.headers));
  }
  ensures('no status makes the request fail', log.okAll({ status: 500 }) === true);
});

contract('C05', 'method and url', () => {
  const method = any('method', S.lit('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'get', 'post', 'put', 'delete', 'patch'));
  const text = any('text', S.str);
  assume(!text.includes('{') && !text.includes('}'));
  const log: any = { calls: 0 };
  const send = (m: string) => (u: string) => {
    log.calls = log.calls + 1;
    log.method = m;
    log.url = u;
    return log;
  };
  const agent: any = { get: send('get'), post: send('post'), put: send('put'), delete: send('delete'), patch: send('patch') };
  const path = '/' + text;
  const r = supertestRequestFactory(agent)({ path, method } as any, {}) as any;
  cover('supertest');
  ensures('the request is returned', r === log);
  ensures('one request', log.calls === 1);
  ensures('with the method of the route', log.method === method.toLowerCase());
  ensures('to the path of the route', log.url === path);
});

contract('C05', 'under the base url', () => {
  const method = any('method', S.lit('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'get', 'post', 'put', 'delete', 'patch'));
  const text = any('text', S.str);
  const base = any('base', S.lit('http://example.com', 'http://example.com/', 'https://example.com:8080/api', 'http://example.com/api/v1/'));
  assume(!text.includes('{') && !text.includes('}'));
  const log: any = { calls: 0 };
  const send = (m: string) => (u: string) => {
    log.calls = log.calls + 1;
    log.method = m;
    log.url = u;
    return log;
  };
  const agent: any = { get: send('get'), post: send('post'), put: send('put'), delete: send('delete'), patch: send('patch') };
  const path = '/' + text;
  const expected = new URL(base);
  expected.pathname = posix.join(expected.pathname, path);
  const r = superagentRequestFactory(agent, base)({ path, method } as any, {}) as any;
  cover('superagent');
  ensures('the request is returned', r === log);
  ensures('one request', log.calls === 1);
  ensures('with the method of the route', log.method === method.toLowerCase());
  ensures('to the path of the route under the path of the base', log.url === expected.toString());
});

contract('C05', 'large integers in the body are sent as text', () => {
  const body = any('body', S.big);
  const log: any = { calls: 0, queries: 0, sends: 0, headers: {}, repeated: false };
  const route: any = { path: '/p', method: 'POST', request: { encode: () => ({ params: {}, query: {}, body }) }, response: {} };
  requestForRoute((() => mock(log)) as any, route)({} as any);
  cover('sent');
  ensures('sent once', log.sends === 1);
  ensures('as text', log.body === JSON.stringify(body.toString()));
});
