// Assumed contract of node:path (posix): pure functions of their arguments.
import { specFn, S } from 'ghost';
const join = specFn('path.join', (a: any, b: any) => a + b, { result: S.str });
export const posix = { join: join };
export const dirname = specFn('path.dirname', (a: any) => a, { result: S.str });
export const extname = specFn('path.extname', (a: any) => a, { result: S.str });
