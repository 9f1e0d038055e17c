// Assumed contract of io-ts 2.1.3 (dependency; not verified here).
// Written after its source; cross-checked on every run by the concrete leg, which uses the real io-ts.
const left = (e: any) => ({ _tag: 'Left', left: e });
const right = (a: any) => ({ _tag: 'Right', right: a });
export const identity = (a: any) => a;
export const success = right;
export const failures = left;
export const failure = (value: any, context: any, message?: any) =>
  left([{ value: value, context: context, message: message }]);
export const appendContext = (c: any, key: any, decoder: any, actual?: any) =>
  [...c, { key: key, type: decoder, actual: actual }];
export class Type {
  name: any; is: any; validate: any; encode: any; decode: any;
  constructor(name: any, is: any, validate: any, encode: any) {
    this.name = name; this.is = is; this.validate = validate; this.encode = encode;
    this.decode = (i: any) => validate(i, [{ key: '', type: this, actual: i }]);
  }
  pipe(ab: any, name?: any) {
    return new Type(name || 'pipe', ab.is, (i: any, c: any) => {
      const e = this.validate(i, c);
      return e._tag === 'Left' ? e : ab.validate(e.right, c);
    }, (b: any) => this.encode(ab.encode(b)));
  }
}
const prim = (name: any, is: any) =>
  new Type(name, is, (u: any, c: any) => (is(u) ? success(u) : failure(u, c)), identity);
const undefinedType = prim('undefined', (u: any) => u === undefined);
export { undefinedType as undefined };
const nullType = prim('null', (u: any) => u === null);
export { nullType as null };
export const string = prim('string', (u: any) => typeof u === 'string');
export const number = prim('number', (u: any) => typeof u === 'number');
export const boolean = prim('boolean', (u: any) => typeof u === 'boolean');
export const bigint = prim('bigint', (u: any) => typeof u === 'bigint');
export const unknown = prim('unknown', (u: any) => true);
export const any = prim('any', (u: any) => true);
const isRec = (u: any) => u !== null && typeof u === 'object' && !Array.isArray(u);
export const UnknownRecord = prim('UnknownRecord', isRec);
export const UnknownArray = prim('UnknownArray', (u: any) => Array.isArray(u));

export const type = (props: any, name?: any) => {
  const t: any = new Type(
    name || 'type',
    (u: any) => {
      if (!isRec(u)) return false;
      for (const k of Object.keys(props)) {
        const uk = u[k];
        if ((uk === undefined && !Object.prototype.hasOwnProperty.call(u, k)) || !props[k].is(uk)) return false;
      }
      return true;
    },
    (u: any, c: any) => {
      if (!isRec(u)) return failure(u, c);
      const errors: any[] = [];
      const a: any = { ...u };
      for (const k of Object.keys(props)) {
        const r = props[k].validate(u[k], appendContext(c, k, props[k], u[k]));
        if (r._tag === 'Left') errors.push(...r.left);
        else if (r.right !== u[k] || (r.right === undefined && !Object.prototype.hasOwnProperty.call(u, k))) a[k] = r.right;
      }
      return errors.length > 0 ? failures(errors) : success(a);
    },
    (a: any) => {
      const s: any = { ...a };
      for (const k of Object.keys(props)) {
        if (props[k].encode !== identity) s[k] = props[k].encode(a[k]);
      }
      return s;
    },
  );
  t._tag = 'InterfaceType';
  t.props = props;
  return t;
};
export class PartialType extends Type {
  props: any; _tag: any;
  constructor(name: any, is: any, validate: any, encode: any, props: any) {
    super(name, is, validate, encode);
    this.props = props;
    this._tag = 'PartialType';
  }
}
export const partial = (props: any, name?: any) =>
  new PartialType(
    name || 'Partial',
    (u: any) => {
      if (!isRec(u)) return false;
      for (const k of Object.keys(props)) {
        const uk = u[k];
        if (uk !== undefined && !props[k].is(uk)) return false;
      }
      return true;
    },
    (u: any, c: any) => {
      if (!isRec(u)) return failure(u, c);
      const errors: any[] = [];
      const a: any = { ...u };
      for (const k of Object.keys(props)) {
        const ak = u[k];
        const r = props[k].validate(ak, appendContext(c, k, props[k], ak));
        if (r._tag === 'Left') {
          if (ak !== undefined) errors.push(...r.left);
        } else if (r.right !== ak) a[k] = r.right;
      }
      return errors.length > 0 ? failures(errors) : success(a);
    },
    (a: any) => {
      const s: any = { ...a };
      for (const k of Object.keys(props)) {
        if (a[k] !== undefined) s[k] = props[k].encode(a[k]);
      }
      return s;
    },
    props,
  );
const allProps = (codec: any): any => {
  if (codec._tag === 'IntersectionType') {
    let r: any = {};
    for (const c of codec.types) r = { ...r, ...allProps(c) };
    return r;
  }
  return codec.props;
};
const stripKeys = (o: any, props: any) => {
  const r: any = {};
  for (const k of Object.keys(o)) {
    if (Object.prototype.hasOwnProperty.call(props, k)) r[k] = o[k];
  }
  return r;
};
export const exact = (codec: any, name?: any) => {
  const props = allProps(codec);
  const t: any = new Type(
    name || 'exact',
    codec.is,
    (u: any, c: any) => {
      if (!isRec(u)) return failure(u, c);
      const ce = codec.validate(u, c);
      return ce._tag === 'Left' ? ce : right(stripKeys(ce.right, props));
    },
    (a: any) => codec.encode(stripKeys(a, props)),
  );
  t._tag = 'ExactType';
  t.type = codec;
  return t;
};
export const strict = (props: any, name?: any) => exact(type(props, name), name);
// merge of two results obtained from the same base object
const merge2 = (base: any, x: any, y: any) => {
  if (x === base && y === base) return base;
  if (!isRec(x) || !isRec(y)) return y;
  const r: any = { ...x };
  for (const k of Object.keys(y)) {
    if (y[k] !== base[k] || !Object.prototype.hasOwnProperty.call(r, k)) r[k] = y[k];
  }
  return r;
};
export class IntersectionType extends Type {
  types: any; _tag: any;
  constructor(name: any, is: any, validate: any, encode: any, types: any) {
    super(name, is, validate, encode);
    this.types = types;
    this._tag = 'IntersectionType';
  }
}
export const intersection = (codecs: any, name?: any) => {
  const t: any = new IntersectionType(
    name || 'intersection',
    (u: any) => {
      for (const c of codecs) if (!c.is(u)) return false;
      return true;
    },
    (u: any, c: any) => {
      const rs = codecs.map((c0: any, i: any) => c0.validate(u, appendContext(c, String(i), c0, u)));
      if (rs.some((r: any) => r._tag === 'Left')) return failures(rs.flatMap((r: any) => (r._tag === 'Left' ? r.left : [])));
      let acc = rs[0].right;
      for (let i = 1; i < codecs.length; i++) acc = merge2(u, acc, rs[i].right);
      return success(acc);
    },
    (a: any) => {
      let acc = codecs[0].encode(a);
      for (let i = 1; i < codecs.length; i++) acc = merge2(a, acc, codecs[i].encode(a));
      return acc;
    },
    codecs,
  );
  return t;
};
export const union = (codecs: any, name?: any) => {
  const t: any = new Type(
    name || 'union',
    (u: any) => {
      for (const c of codecs) if (c.is(u)) return true;
      return false;
    },
    (u: any, c: any) => {
      const errors: any[] = [];
      for (let i = 0; i < codecs.length; i++) {
        const r = codecs[i].validate(u, appendContext(c, String(i), codecs[i], u));
        if (r._tag === 'Right') return r;
        errors.push(...r.left);
      }
      return failures(errors);
    },
    (a: any) => {
      for (const c of codecs) {
        if (c.encode === identity) { if (c.is(a)) return a; }
        else if (c.is(a)) return c.encode(a);
      }
      throw new Error('no codec found to encode value in union type');
    },
  );
  t._tag = 'UnionType';
  t.types = codecs;
  return t;
};
export const array = (item: any, name?: any) =>
  new Type(
    name || 'Array',
    (u: any) => Array.isArray(u) && u.every(item.is),
    (u: any, c: any) => {
      if (!Array.isArray(u)) return failure(u, c);
      const errors: any[] = [];
      const a: any[] = [];
      for (const x of u) {
        const r = item.validate(x, c);
        if (r._tag === 'Left') errors.push(...r.left);
        else a.push(r.right);
      }
      return errors.length > 0 ? failures(errors) : success(a);
    },
    (a: any) => a.map(item.encode),
  );
export const record = (dom: any, cod: any, name?: any) =>
  new Type(
    name || 'Record',
    (u: any) => isRec(u) && Object.keys(u).every((k) => dom.is(k) && cod.is(u[k])),
    (u: any, c: any) => {
      if (!isRec(u)) return failure(u, c);
      const errors: any[] = [];
      const a: any = {};
      for (const k of Object.keys(u)) {
        const r = cod.validate(u[k], c);
        if (r._tag === 'Left') errors.push(...r.left);
        else a[k] = r.right;
      }
      return errors.length > 0 ? failures(errors) : success(a);
    },
    (a: any) => {
      const r: any = {};
      for (const k of Object.keys(a)) r[k] = cod.encode(a[k]);
      return r;
    },
  );
export const literal = (value: any, name?: any) => prim(name || 'literal', (u: any) => u === value);
export const keyof = (keys: any, name?: any) => {
  const t: any = prim(name || 'keyof', (u: any) => typeof u === 'string' && Object.prototype.hasOwnProperty.call(keys, u));
  t._tag = 'KeyofType';
  t.keys = keys;
  return t;
};
