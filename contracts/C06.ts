// C06: classification of a received response.
import { contract, ensures, assume, cover, any, S, settled } from 'ghost';
import { requestForRoute } from 'repo/superagent-wrapper/src/request.ts';

// a codec reports at least one error, and never an empty message
const error = S.obj({
  value: S.any,
  context: S.array(S.obj({ key: S.str, type: S.obj({ name: S.str }) }), 1),
  message: S.opt(S.lit('bad', 'not a number')),
});
const either = S.union(S.obj({ _tag: S.lit('Right'), right: S.any }), S.obj({ _tag: S.lit('Left'), left: S.array(error, 1) }));
const codec = S.obj({ decode: S.fn({ result: either }) });

const mock = (res: any) => {
  const req: any = Promise.resolve(res);
  req.query = () => req;
  req.set = () => req;
  req.send = () => req;
  req.ok = () => req;
  return req;
};

contract('C06', 'classification', async () => {
  const responses = any('responses', S.record(S.union(codec, codec, S.undef), S.lit('200', '201', '400', '404', '500')));
  const status = any('status', S.union(S.lit(200, 201, 404, 500), S.nat));
  const res = any('res', S.union(S.obj({ body: S.any, text: S.any }), S.obj({ body: S.undef, text: S.str }), S.obj({ text: S.str })));
  res.status = status;
  const encode = any('encode', S.fn({ result: S.obj({ params: S.record(S.str), query: S.record(S.any) }) }));
  const route: any = { path: '/p', method: 'GET', request: { encode }, response: responses };
  const req = requestForRoute((() => mock(res)) as any, route)({} as any) as any;
  const r = await settled(() => req.decode());
  ensures('decode settles successfully', r.state === 'fulfilled');
  const d: any = r.value;
  const received = res.body === undefined || res.body === null ? res.text : res.body;
  ensures('the original response is attached', d.original === res);
  const c = responses[status];
  if (c === undefined) {
    cover('no codec');
    ensures('decode error without codec', d.status === 'decodeError');
    ensures('undecoded body kept', d.body === received);
    ensures('explained', typeof d.error === 'string' && d.error.length > 0);
  } else {
    const e = c.decode(received);
    if (e._tag === 'Right') {
      cover('accepted');
      ensures('the status of the response', d.status === status);
      ensures('the decoded body', d.body === e.right);
      ensures('no error', d.error === undefined);
    } else {
      cover('rejected');
      ensures('decode error when rejected', d.status === 'decodeError');
      ensures('undecoded body kept when rejected', d.body === received);
      ensures('explanation', typeof d.error === 'string' && d.error.length > 0);
    }
  }
});
