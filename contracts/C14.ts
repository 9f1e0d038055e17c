// C14: tracing is balanced and has no effect on behaviour.
// @check {"seconds": 24, "budget": 300, "absent": {"decoding without tracing, checked": ["@opentelemetry/api"], "decoding without tracing, unchecked": ["@opentelemetry/api"], "reply without tracing": ["@opentelemetry/api"]}, "note": "hooks and decoders are assumed not to throw; operation names and paths are not empty"}
import { contract, ensures, assume, cover, any, anyString, oneOf, choose, S, same, attempt } from 'ghost';
import { trace } from '@opentelemetry/api';
import { KeyToHttpStatus } from '@api-ts/io-ts-http';
import * as PathReporter from 'io-ts/lib/PathReporter';
import { codec, either, route, hooks, request, handler, methodKey, statusKey, mockResponse, register, ownParts, runOwn } from './lib/router';

// a tracing provider that records every span and what happens to it
const traced: any = { spans: [] };
const provider: any = {
  getTracer: () => ({
    startSpan: (name: any, options: any) => {
      const span: any = { name, attributes: { ...(options?.attributes ?? {}) }, ended: 0, late: 0, errors: 0, code: 0 };
      const touch = () => {
        if (span.ended > 0) span.late = span.late + 1;
      };
      const handle: any = {
        setAttributes: (a: any) => {
          touch();
          span.attributes = { ...span.attributes, ...a };
          return handle;
        },
        setAttribute: (k: any, v: any) => {
          touch();
          span.attributes = { ...span.attributes, [k]: v };
          return handle;
        },
        recordException: () => {
          touch();
          span.errors = span.errors + 1;
        },
        setStatus: (s: any) => {
          touch();
          span.code = s.code;
          return handle;
        },
        addEvent: () => handle,
        updateName: () => handle,
        isRecording: () => true,
        end: () => {
          span.ended = span.ended + 1;
        },
      };
      traced.spans.push(span);
      return handle;
    },
  }),
};
trace.setGlobalTracerProvider(provider);

const described = (span: any, api: string, r: any) =>
  span.attributes['api_ts.operation_id'] === api && span.attributes['api_ts.method'] === r.method && span.attributes['api_ts.path'] === r.path;

const decoding = (kind: string, tracing: boolean) => {
  traced.spans = [];
  const method = oneOf('method', ['get', 'post', 'put', 'delete', 'patch']) as string;
  const r = { path: any('path', S.str), method: any('declared method', S.str), request: { decode: any('decode', S.fn({ result: either })) }, response: {} };
  const api = any('api', S.str);
  assume(api !== '' && r.path !== '' && r.method !== '');
  const spec: any = { [api]: { [method]: r } };
  const options = any('options', hooks);
  const routeOptions = any('routeOptions', S.opt(hooks));
  const req = any('request', request);
  const decoded = r.request.decode({ body: req.body, headers: req.headers, params: req.params, query: req.query });
  const res = mockResponse();
  const chain = register(spec, options, [], method + kind, api, [], routeOptions)[0].chain;
  const run = runOwn(chain, ownParts(chain, [], []), req, res);
  const status = (routeOptions?.getDecodeErrorStatusCode ?? options.getDecodeErrorStatusCode ?? (() => 400))(decoded.left, req);
  const ok = decoded._tag === 'Right';
  ensures('handlers reached as without tracing', run.reached === (ok || kind === 'Unchecked' ? 1 : 0) && run.failed === false);
  ensures('responses as without tracing', res.log.sent === 1 - run.reached && (res.log.sent === 0 || res.log.status === status));
  if (!tracing) ensures('no span is touched', traced.spans.length === 0);
  else {
    ensures('one span', traced.spans.length === 1);
    const span = traced.spans[0];
    ensures('ended exactly once', span.ended === 1);
    ensures('complete when ended', span.late === 0);
    ensures('carries operation, method and path', described(span, api, r));
    if (ok) {
      cover('decoded');
      ensures('no error recorded', span.errors === 0 && span.code !== 2);
    } else {
      cover('not decoded');
      ensures('error recorded', span.errors === 1 && span.code === 2);
      ensures('status code recorded', span.attributes['api_ts.status_code'] === status);
    }
  }
};
contract('C14', 'decoding with tracing, checked', () => decoding('', true));
contract('C14', 'decoding with tracing, unchecked', () => decoding('Unchecked', true));
contract('C14', 'decoding without tracing, checked', () => decoding('', false));
contract('C14', 'decoding without tracing, unchecked', () => decoding('Unchecked', false));

const replying = (tracing: boolean) => {
  const method = oneOf('method', ['get', 'post', 'put', 'delete', 'patch']) as string;
  const r = {
    path: any('path', S.str),
    method: any('declared method', S.str),
    request: { decode: any('decode', S.fn({ result: either })) },
    response: any('responses', S.record(codec, statusKey)) as any,
  };
  const api = any('api', S.str);
  assume(api !== '' && r.path !== '' && r.method !== '');
  const options = any('options', hooks);
  const req = any('request', request);
  const res = mockResponse();
  const chain = register({ [api]: { [method]: r } }, options, [], method + 'Unchecked', api, [], undefined)[0].chain;
  const run = runOwn(chain, ownParts(chain, [], []), req, res);
  assume(run.reached === 1);
  const status: any = any('status', S.union(statusKey, S.nat));
  const payload = any('payload', S.any);
  const isCode = typeof status === 'number';
  const codec_ = status in r.response ? r.response[status] : undefined;
  const code = isCode ? status : (KeyToHttpStatus as any)[status];
  const isPayload = codec_ !== undefined && codec_.is(payload);
  const encoded: any = isPayload ? attempt(() => codec_.encode(payload)) : undefined;
  const conforms = isPayload && code !== undefined && encoded.state === 'returned';
  traced.spans = [];
  res.sendEncoded(status, payload);
  ensures('one response', res.log.sent === 1);
  if (conforms) ensures('the reply as without tracing', res.log.status === code && res.log.body === encoded.value);
  if (!tracing) ensures('no span is touched', traced.spans.length === 0);
  else {
    ensures('one span', traced.spans.length === 1);
    const span = traced.spans[0];
    ensures('ended exactly once', span.ended === 1);
    ensures('complete when ended', span.late === 0);
    ensures('carries operation, method and path', described(span, api, r));
    ensures('status code recorded', span.attributes['api_ts.status_code'] === res.log.status);
    if (conforms) {
      cover('conforming');
      ensures('no error recorded', span.errors === 0 && span.code !== 2);
    } else {
      cover('not conforming');
      ensures('error recorded', span.errors === 1 && span.code === 2);
    }
  }
};
contract('C14', 'reply with tracing', () => replying(true));
contract('C14', 'reply without tracing', () => replying(false));

// two requests to one route, the second arriving while the middleware of the first is still waiting
const interleaved = (kind: string) => {
  traced.spans = [];
  const r = { path: '/path', method: 'GET', request: { decode: any('decode', S.fn({ result: either })) }, response: { 200: any('codec', codec) } };
  const waiting: any[] = [];
  const wait = (_req: any, _res: any, next: any) => {
    waiting.push(next);
  };
  const handled: any[] = [];
  const answer = (req: any, res: any) => {
    handled.push(req);
    res.sendEncoded(200, any('payload', S.any));
  };
  const chain = register({ op: { get: r } }, {}, [wait], 'get' + kind, 'op', [answer], undefined)[0].chain;
  const start = (req: any, res: any) => {
    const go = (k: number) => {
      if (k < chain.length) chain[k](req, res, () => go(k + 1));
    };
    go(0);
  };
  start({ body: any('first body', S.any), headers: {}, params: {}, query: {} }, mockResponse());
  start({ body: any('second body', S.any), headers: {}, params: {}, query: {} }, mockResponse());
  ensures('both wait', waiting.length === 2);
  const order = choose('second resumes first');
  waiting[order ? 1 : 0]();
  waiting[order ? 0 : 1]();
  cover('both done');
  const k = any('span', S.nat);
  assume(k < traced.spans.length);
  ensures('one span per decode and per reply', traced.spans.length === 2 + handled.length);
  ensures('every span ended exactly once', traced.spans[k].ended === 1);
};
contract('C14', 'overlapping requests, checked', () => interleaved(''));
contract('C14', 'overlapping requests, unchecked', () => interleaved('Unchecked'));

// spans are ended even if decoders or hooks throw (what else happens then is not specified)
const failing = S.obj({
  decodeErrorFormatter: S.opt(S.fn({ result: S.json, throws: true })),
  getDecodeErrorStatusCode: S.opt(S.fn({ result: S.nat, throws: true })),
  encodeErrorFormatter: S.opt(S.fn({ result: S.json, throws: true })),
  getEncodeErrorStatusCode: S.opt(S.fn({ result: S.nat, throws: true })),
  afterEncodedResponseSent: S.opt(S.fn({ result: S.undef, throws: true })),
});
const failingDecode = (name: string) => {
  traced.spans = [];
  const r = { path: '/path', method: 'GET', request: { decode: any('decode', S.fn({ result: either, throws: true })) }, response: {} };
  const req = any('request', request);
  const chain = register({ op: { get: r } }, any('options', failing), [], name, 'op', [], undefined)[0].chain;
  const outcome = attempt(() => runOwn(chain, ownParts(chain, [], []), req, mockResponse()));
  if (outcome.state === 'threw') cover('failed');
  ensures('one span', traced.spans.length === 1);
  ensures('ended exactly once', traced.spans[0].ended === 1);
};
contract('C14', 'failing hooks and decoders, checked', () => failingDecode('get'));
contract('C14', 'failing hooks and decoders, unchecked', () => failingDecode('getUnchecked'));
contract('C14', 'failing hooks, reply', () => {
  const r = { path: '/path', method: 'GET', request: { decode: () => ({ _tag: 'Right', right: {} }) }, response: any('responses', S.record(codec, statusKey)) as any };
  const res = mockResponse();
  const chain = register({ op: { get: r } }, any('options', failing), [], 'getUnchecked', 'op', [], undefined)[0].chain;
  const run = runOwn(chain, ownParts(chain, [], []), any('request', request), res);
  assume(run.reached === 1);
  traced.spans = [];
  const outcome = attempt(() => res.sendEncoded(any('status', S.union(statusKey, S.nat)), any('payload', S.any)));
  if (outcome.state === 'threw') cover('failed');
  ensures('one span', traced.spans.length === 1);
  ensures('ended exactly once', traced.spans[0].ended === 1);
});
