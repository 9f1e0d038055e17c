// Assumed contract of fp-ts/Record.
export const map = (f: any) => (r: any) => {
  const out: any = {};
  for (const k of Object.keys(r)) out[k] = f(r[k]);
  return out;
};
