// Assumed contract of whatwg-url: the path of the base is a function of the base, the text one of base and path.
import { specFn, S } from 'ghost';
const pathOf = specFn('URL.pathname', (b: any) => b, { result: S.str });
const show = specFn('URL.toString', (b: any, p: any) => b + p, { result: S.str });
export class URL {
  pathname: any;
  base: any;
  constructor(base: any) {
    this.base = base;
    this.pathname = pathOf(base);
  }
  toString() {
    return show(this.base, this.pathname);
  }
}
