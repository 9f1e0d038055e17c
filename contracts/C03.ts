// C03: a field is optional exactly when its codec accepts undefined.
// @check {"seconds": 20, "budget": 300}
import { contract, ensures, assume, cover, any, anyKey, anyString, S } from 'ghost';
import * as t from 'io-ts';
import { optionalized, optional } from 'repo/io-ts-http/src/index.ts';
import { codec, input } from './lib/codec';
import { accepts, decoded, isRecord } from './lib/optionalized';

contract('C03', 'decoding', () => {
  const props: any = any('props', S.record(codec));
  const u: any = any('input', input);
  const r = (optionalized(props) as any).decode(u);
  const k: any = anyKey('field', props);
  const isOptional = props[k].is(undefined);
  if (r._tag === 'Right') {
    cover('decoded');
    ensures('a record', isRecord(u));
    ensures('accepted by its codec, or optional and absent', accepts(props[k], u[k]));
    const value = decoded(props[k], u[k]);
    ensures('present, unless optional and undefined', k in r.right === (!isOptional || value !== undefined));
    ensures('its decoded value', r.right[k] === value);
  }
});

contract('C03', 'decoding succeeds when every field is accepted', () => {
  const props: any = any('props', S.record(codec));
  const u: any = any('input', S.record(S.any));
  for (const k of Object.keys(props)) assume(accepts(props[k], u[k]));
  cover('accepted');
  ensures('decoded', (optionalized(props) as any).decode(u)._tag === 'Right');
});

contract('C03', 'undeclared fields', () => {
  const props: any = any('props', S.record(codec));
  const u: any = any('input', S.record(S.any));
  const k = anyKey('field', u);
  assume(!(k in props));
  const r = (optionalized(props) as any).decode(u);
  if (r._tag === 'Right') ensures('only the input has them', r.right[k] === u[k]);
  const x = anyString('other', u);
  if (r._tag === 'Right' && x in r.right) ensures('nothing invented', x in u || x in props);
});

contract('C03', 'encoding', () => {
  const a: any = any('value', S.record(S.any));
  // one of the codecs may be one that encodes values as themselves
  const plain = anyKey('field with an identity codec', a);
  const props: any = { ...any('props', S.record(codec)), [plain]: t.string };
  const e = (optionalized(props) as any).encode(a);
  const k: any = anyKey('field', props);
  const isOptional = props[k].is(undefined);
  cover('encoded');
  const value = isOptional && a[k] === undefined ? undefined : props[k].encode(a[k]);
  ensures('present, unless optional and undefined', k in e === (!isOptional || value !== undefined));
  ensures('its encoded value', e[k] === value);
});

contract('C03', 'recognising values', () => {
  const props: any = any('props', S.record(codec));
  const u: any = any('value', input);
  const yes = (optionalized(props) as any).is(u);
  const k: any = anyKey('field', props);
  if (yes) {
    ensures('a record', isRecord(u));
    ensures('required fields are present', k in u || props[k].is(undefined));
    ensures('each is a value of its codec, or optional and absent', props[k].is(u[k]) || (props[k].is(undefined) && u[k] === undefined));
  }
});

contract('C03', 'values with every field are recognised', () => {
  const props: any = any('props', S.record(codec));
  const u: any = any('value', S.record(S.any));
  for (const k of Object.keys(props)) assume((props[k].is(undefined) && u[k] === undefined) || (k in u && props[k].is(u[k])));
  ensures('recognised', (optionalized(props) as any).is(u));
});

contract('C03', 'optional', () => {
  const c: any = any('codec', codec);
  const o: any = optional(c);
  const v = any('value', S.any);
  ensures('accepts undefined', o.is(undefined) && o.decode(undefined)._tag === 'Right');
  ensures('accepts what its codec accepts', o.is(v) === (v === undefined || c.is(v)));
  const own = c.validate(v, []);
  ensures('decodes as its codec', own._tag === 'Right' ? o.decode(v).right === own.right : v === undefined || o.decode(v)._tag === 'Left');
});
