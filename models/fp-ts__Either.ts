// Assumed contract of fp-ts/Either 2.x (the functions the repository uses).
export const left = (e: any) => ({ _tag: 'Left', left: e });
export const right = (a: any) => ({ _tag: 'Right', right: a });
export const isLeft = (e: any) => e._tag === 'Left';
export const isRight = (e: any) => e._tag === 'Right';
export const map = (f: any) => (e: any) => (e._tag === 'Left' ? e : right(f(e.right)));
export const mapLeft = (f: any) => (e: any) => (e._tag === 'Left' ? left(f(e.left)) : e);
export const chain = (f: any) => (e: any) => (e._tag === 'Left' ? e : f(e.right));
export const flatMap = chain;
export const getOrElse = (f: any) => (e: any) => (e._tag === 'Left' ? f(e.left) : e.right);
export const getOrElseW = getOrElse;
export const fold = (f: any, g: any) => (e: any) => (e._tag === 'Left' ? f(e.left) : g(e.right));
export const match = fold;
export const matchW = fold;
export const orElse = (f: any) => (e: any) => (e._tag === 'Left' ? f(e.left) : e);
export const fromNullable = (f: any) => (a: any) => (a === null || a === undefined ? left(f) : right(a));
export const toUnion = (e: any) => (e._tag === 'Left' ? e.left : e.right);
export const sequenceArray = (es: any) => {
  const out: any[] = [];
  for (const e of es) {
    if (e._tag === 'Left') return e;
    out.push(e.right);
  }
  return right(out);
};
