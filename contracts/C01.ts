// C01: request decoding returns exactly the declared fields, flattened.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, assume, cover, any, anyKey, anyString, S } from 'ghost';
import { httpRequest, flattened } from 'repo/io-ts-http/src/index.ts';
import { codec, input } from './lib/codec';
import { accepts, decoded, isRecord, optionalizedByContract } from './lib/optionalized';

// sections with pairwise different field names (the types make clashing declarations unusable)
const sections = S.record(S.record(codec));

contract('C01', 'flattened', () => {
  optionalizedByContract();
  const props: any = any('sections', sections);
  const u: any = any('input', input);
  const r = (flattened('request', props) as any).decode(u);
  const s: any = anyKey('section', props);
  const k: any = anyKey('field', props[s]);
  for (const o of Object.keys(props)) assume(o === s || !(k in props[o]));
  if (r._tag === 'Right') {
    cover('decoded');
    ensures('the sections are records', isRecord(u) && isRecord(u[s]));
    ensures('accepted', accepts(props[s][k], u[s][k]));
    const value = decoded(props[s][k], u[s][k]);
    ensures('present, unless optional and undefined', k in r.right === (!props[s][k].is(undefined) || value !== undefined));
    ensures('its decoded value', r.right[k] === value);
  }
});

contract('C01', 'requests whose fields are all accepted decode', () => {
  optionalizedByContract();
  const props: any = any('sections', sections);
  const u: any = any('input', S.record(S.any));
  for (const s of Object.keys(props)) {
    assume(isRecord(u[s]));
    for (const k of Object.keys(props[s])) assume(accepts(props[s][k], u[s][k]));
  }
  cover('accepted');
  ensures('decoded', (flattened('request', props) as any).decode(u)._tag === 'Right');
});

contract('C01', 'nothing else gets through', () => {
  optionalizedByContract();
  const props: any = any('sections', sections);
  const u: any = any('input', input);
  const r = (flattened('request', props) as any).decode(u);
  assume(r._tag === 'Right');
  const k: any = anyString('field', r.right);
  for (const s of Object.keys(props)) assume(!(k in props[s]));
  ensures('undeclared fields are dropped', !(k in r.right));
});

const parts = S.obj({ query: S.opt(S.record(codec)), params: S.opt(S.record(codec)), headers: S.opt(S.record(codec)), body: S.opt(S.record(codec)) });
const request = S.obj({ query: S.record(S.any), params: S.record(S.any), headers: S.record(S.any), body: S.any });
const PARTS = ['query', 'params', 'headers', 'body'];
const section = (s: string) => {
  optionalizedByContract();
  const props: any = any('request', parts);
  assume(s in props);
  const k: any = anyKey('field', props[s]);
  for (const o of PARTS) if (o !== s && o in props) assume(!(k in props[o]));
  const u: any = any('input', request);
  const r = (httpRequest(props) as any).decode(u);
  if (r._tag === 'Right') {
    cover('decoded');
    ensures('the section is a record', isRecord(u[s]));
    ensures('accepted', accepts(props[s][k], u[s][k]));
    const value = decoded(props[s][k], u[s][k]);
    ensures('present, unless optional and undefined', k in r.right === (!props[s][k].is(undefined) || value !== undefined));
    ensures('its decoded value', r.right[k] === value);
  }
};
contract('C01', 'httpRequest, query', () => section('query'));
contract('C01', 'httpRequest, params', () => section('params'));
contract('C01', 'httpRequest, headers', () => section('headers'));
contract('C01', 'httpRequest, body', () => section('body'));
