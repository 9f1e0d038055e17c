// C07: decodeExpecting resolves only with an accepted response of the expected status, and otherwise fails with a DecodeError.
import { contract, ensures, assume, cover, any, S, settled } from 'ghost';
import { requestForRoute, DecodeError } from 'repo/superagent-wrapper/src/request.ts';

// a codec reports at least one error, and never an empty message
const error = S.obj({
  value: S.any,
  context: S.array(S.obj({ key: S.str, type: S.obj({ name: S.str }) }), 1),
  message: S.opt(S.lit('bad', 'not a number')),
});
const either = S.union(S.obj({ _tag: S.lit('Right'), right: S.any }), S.obj({ _tag: S.lit('Left'), left: S.array(error, 1) }));
const codec = S.obj({ decode: S.fn({ result: either }) });
const status = S.union(S.lit(200, 201, 404, 500), S.nat);

const mock = (res: any) => {
  const req: any = Promise.resolve(res);
  req.query = () => req;
  req.set = () => req;
  req.send = () => req;
  req.ok = () => req;
  return req;
};

contract('C07', 'decodeExpecting', async () => {
  const responses = any('responses', S.record(S.union(codec, codec, S.undef), S.lit('200', '201', '400', '404', '500')));
  const res = any('res', S.obj({ body: S.opt(S.json), text: S.opt(S.str), status }));
  const expected = any('expected', status);
  const encode = any('encode', S.fn({ result: S.obj({ params: S.record(S.str), query: S.record(S.any) }) }));
  const route: any = { path: '/p', method: 'GET', request: { encode }, response: responses };
  const req = requestForRoute((() => mock(res)) as any, route)({} as any) as any;
  const r = await settled(() => req.decodeExpecting(expected));
  const received = res.body === undefined || res.body === null ? res.text : res.body;
  const c = responses[res.status];
  const e = c === undefined ? undefined : c.decode(received);
  if (res.status === expected && e !== undefined && e._tag === 'Right') {
    cover('expected');
    ensures('resolves', r.state === 'fulfilled');
    ensures('with the expected status', r.value.status === expected);
    ensures('with the decoded body', r.value.body === e.right);
    ensures('with the original response', r.value.original === res);
  } else {
    cover('unexpected');
    ensures('rejects', r.state === 'rejected');
    ensures('with a DecodeError', r.value instanceof DecodeError);
    ensures('that explains', typeof r.value.message === 'string' && r.value.message.length > 0);
    const d = r.value.decodedResponse;
    ensures('carrying the decoded response', d.original === res);
    if (e !== undefined && e._tag === 'Right') {
      cover('other status');
      ensures('of the status received', d.status === res.status && d.body === e.right);
    } else {
      cover('undecodable');
      ensures('a decode error', d.status === 'decodeError' && d.body === received);
      ensures('with its explanation', typeof d.error === 'string' && d.error.length > 0);
    }
  }
});
