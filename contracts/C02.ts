// C02: request encoding puts every field in its declared section and nothing else.
// @check {"seconds": 20, "budget": 400}
import { contract, ensures, assume, cover, any, anyKey, anyString, S } from 'ghost';
import * as t from 'io-ts';
import { httpRequest, flattened } from 'repo/io-ts-http/src/index.ts';
import { codec } from './lib/codec';
import { optionalizedByContract } from './lib/optionalized';

const sections = S.record(S.record(codec));

contract('C02', 'every field goes to its section', () => {
  optionalizedByContract();
  const props: any = any('sections', sections);
  const a: any = any('value', S.record(S.any));
  const e: any = (flattened('request', props) as any).encode(a);
  const s: any = anyKey('section', props);
  ensures('every declared section is produced', s in e);
  const k: any = anyKey('field', props[s]);
  cover('encoded');
  ensures('present when the value carries it', k in e[s] === k in a);
  if (k in a) ensures('with its encoding', e[s][k] === props[s][k].encode(a[k]));
});

contract('C02', 'nothing else is produced', () => {
  optionalizedByContract();
  const props: any = any('sections', sections);
  const a: any = any('value', S.record(S.any));
  const e: any = (flattened('request', props) as any).encode(a);
  const s: any = anyString('section', e);
  ensures('no undeclared section', s in e === s in props);
  if (s in e) {
    const k: any = anyString('field', e[s]);
    ensures('no undeclared or absent field', !(k in e[s]) || (k in props[s] && k in a));
  }
});

const parts = S.obj({ query: S.opt(S.record(codec)), params: S.opt(S.record(codec)), headers: S.opt(S.record(codec)), body: S.opt(S.record(codec)) });
contract('C02', 'httpRequest', () => {
  optionalizedByContract();
  const props: any = any('request', parts);
  const a: any = any('value', S.record(S.any));
  const e: any = (httpRequest(props) as any).encode(a);
  ensures('path and query sections are always produced', 'params' in e && 'query' in e);
  const s: any = anyString('section', e);
  ensures('the declared sections, and no other', s in e === (s in props || s === 'params' || s === 'query'));
  if (s in e) {
    const k: any = anyString('field', e[s]);
    const declared = s in props && k in props[s];
    ensures('the declared fields the value carries, and no other', k in e[s] === (declared && k in a));
    if (declared && k in a) ensures('with its encoding', e[s][k] === props[s][k].encode(a[k]));
  }
});

contract('C02', 'encoded requests are objects of their own', () => {
  const a: any = any('value', S.record(S.any));
  const e: any = (httpRequest({ query: { a: t.string }, body: { b: t.unknown } } as any) as any).encode(a);
  ensures('sections', Object.keys(e).length === 3 && e.query !== a && e.body !== a);
  ensures('identity codecs', e.query.a === a.a && e.body.b === a.b && 'b' in e.body === 'b' in a);
});
