// C08: the client's structure mirrors the specification; each entry is bound to its own route.
import { contract, ensures, assume, cover, any, anyString, S, attempt } from 'ghost';
import { buildApiClient } from 'repo/superagent-wrapper/src/index.ts';

const method = S.union(S.lit('get', 'post', 'put', 'delete', 'patch'), S.str);

contract('C08', 'client keys', () => {
  const route = S.obj({ path: S.str, method: S.str });
  const spec = any('spec', S.record(S.record(S.union(route, route, route, S.undef), method)));
  const factory = any('factory', S.fn({ pure: true }));
  const r = attempt(() => buildApiClient(factory as any, spec as any));
  const a = anyString('api', spec);
  const m = anyString('method', spec[a]);
  const isMethod = m === 'get' || m === 'post' || m === 'put' || m === 'delete' || m === 'patch';
  if (r.state === 'returned') {
    cover('built');
    const c: any = r.value;
    ensures('same operations', (a in c) === (a in spec));
    if (a in c) {
      ensures('exactly the declared http methods', (m in c[a]) === (m in spec[a] && isMethod));
      if (m in c[a]) ensures('callable', typeof c[a][m] === 'function');
    }
  } else {
    cover('refused');
  }
  assume(a in spec);
  assume(m in spec[a] && isMethod && spec[a][m] === undefined);
  ensures('undefined method refused', r.state === 'threw');
});

contract('C08', 'each entry calls its own route', () => {
  const request = S.obj({
    params: S.record(S.str),
    query: S.record(S.any),
    headers: S.opt(S.record(S.str)),
    body: S.opt(S.any),
  });
  const route = S.obj({ path: S.str, method: S.str, request: S.obj({ encode: S.fn({ result: request }) }), response: S.record(S.any) });
  const spec = any('spec', S.record(S.record(route, method)));
  const params = any('params', S.any);
  let used: any;
  let calls = 0;
  const req: any = { query: () => req, set: () => req, send: () => req, ok: () => req };
  const factory = (route: any) => {
    used = route;
    calls = calls + 1;
    return req;
  };
  const client: any = buildApiClient(factory as any, spec as any);
  const a = anyString('api', spec);
  const m = anyString('method', spec[a]);
  assume(a in spec && m in spec[a]);
  assume(m === 'get' || m === 'post' || m === 'put' || m === 'delete' || m === 'patch');
  cover('entry');
  ensures('nothing is requested before the entry is called', calls === 0);
  client[a][m](params);
  ensures('one request', calls === 1);
  ensures('for the route declared there', used === spec[a][m]);
});
