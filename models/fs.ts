// Assumed contract of fs: the file system does not change while a schema is inspected.
import { specFn, S } from 'ghost';
export const existsSync: any = specFn('fs.existsSync', () => false, { result: S.bool });
export const readFileSync: any = specFn('fs.readFileSync', () => '');
export default { existsSync, readFileSync };
