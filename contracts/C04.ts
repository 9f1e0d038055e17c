// C04: substitution of path parameters. The two equations below define the substitution of every template
// text0 {key1} text1 {key2} ... textN (texts and keys without braces), for any number of placeholders, by induction.
import { contract, ensures, assume, cover, any, S } from 'ghost';
import { substitutePathParams, superagentRequestFactory, supertestRequestFactory } from 'repo/superagent-wrapper/src/request.ts';

const braceFree = (s: string) => !s.includes('{') && !s.includes('}');

contract('C04', 'text without placeholders is unchanged', () => {
  const text = any('text', S.str);
  const params = any('params', S.record(S.str));
  assume(braceFree(text));
  cover('plain');
  ensures('unchanged', substitutePathParams(text, params) === text);
});

contract('C04', 'each placeholder is replaced by its own value verbatim', () => {
  const text = any('text', S.str);
  const key = any('key', S.str);
  const rest = any('rest', S.str);
  const params = any('params', S.record(S.str));
  assume(braceFree(text));
  assume(braceFree(key));
  const value = key in params ? params[key] : '{' + key + '}';
  if (key in params) cover('given');
  else cover('missing');
  ensures(
    'value inserted verbatim, rest substituted independently',
    substitutePathParams(text + '{' + key + '}' + rest, params) === text + value + substitutePathParams(rest, params),
  );
});

contract('C04', 'templates with two placeholders', () => {
  const t0 = any('t0', S.str);
  const t1 = any('t1', S.str);
  const t2 = any('t2', S.str);
  const k1 = any('k1', S.str);
  const k2 = any('k2', S.str);
  const params = any('params', S.record(S.str));
  assume(braceFree(t0) && braceFree(t1) && braceFree(t2) && braceFree(k1) && braceFree(k2));
  cover('two');
  const v1 = k1 in params ? params[k1] : '{' + k1 + '}';
  const v2 = k2 in params ? params[k2] : '{' + k2 + '}';
  ensures(
    'both values verbatim',
    substitutePathParams(t0 + '{' + k1 + '}' + t1 + '{' + k2 + '}' + t2, params) === t0 + v1 + t1 + v2 + t2,
  );
});

contract('C04', 'the request goes to the substituted path', () => {
  const k1 = any('k1', S.str);
  const t0 = any('t0', S.str);
  const params = any('params', S.record(S.str));
  const method = any('method', S.lit('GET', 'POST', 'PUT', 'DELETE', 'PATCH'));
  assume(braceFree(t0) && braceFree(k1));
  let url: any;
  let calls = 0;
  const send = (u: string) => {
    url = u;
    calls = calls + 1;
    return {};
  };
  const agent: any = { get: send, post: send, put: send, delete: send, patch: send };
  const path = '/' + t0 + '{' + k1 + '}';
  supertestRequestFactory(agent)({ path, method } as any, params);
  cover('sent');
  ensures('one request', calls === 1);
  ensures('substituted path', url === '/' + t0 + (k1 in params ? params[k1] : '{' + k1 + '}'));
});
