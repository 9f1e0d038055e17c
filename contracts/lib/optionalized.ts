// The contract of `optionalized`, as proved of its body by C03 (fields, presence, values, undeclared fields): callers are
// checked against it.
import * as t from 'io-ts';
import { useContract, isObject } from 'ghost';

export const accepts = (c: any, v: any) => c.validate(v, [])._tag === 'Right' || (c.is(undefined) && v === undefined);
export const decoded = (c: any, v: any) => {
  const own = c.validate(v, []);
  return own._tag === 'Right' ? own.right : undefined;
};
export const isRecord = (u: any) => isObject(u) && typeof u !== 'function' && !Array.isArray(u);
const recognised = (c: any, u: any, k: any) => (k in u ? c.is(u[k]) : false) || (c.is(undefined) && u[k] === undefined);

const spec = (props: any) => {
  const c: any = new t.Type(
    'optionalized',
    ((u: any) => isRecord(u) && Object.keys(props).every((k) => recognised(props[k], u, k))) as any,
    (u: any, context: any) => {
      if (!isRecord(u)) return t.failure(u, context);
      if (!Object.keys(props).every((k) => accepts(props[k], u[k]))) return t.failure(u, context);
      const r: any = { ...u };
      for (const k of Object.keys(props)) {
        const v = decoded(props[k], u[k]);
        if (props[k].is(undefined) && v === undefined) delete r[k];
        else r[k] = v;
      }
      return t.success(r);
    },
    (a: any) => {
      const r: any = { ...a };
      for (const k of Object.keys(props)) {
        const v = props[k].is(undefined) && a[k] === undefined ? undefined : props[k].encode(a[k]);
        if (props[k].is(undefined) && v === undefined) delete r[k];
        else r[k] = v;
      }
      return r;
    },
  );
  c._tag = 'InterfaceType';
  c.props = props;
  return c;
};
export const optionalizedByContract = () => useContract('io-ts-http/src/combinators.ts#optionalized', spec);
