export const pipe = (a: any, ...fs: any[]) => {
  let r = a;
  for (const f of fs) r = f(r);
  return r;
};
