import { Type, success } from 'io-ts';
export const Json: any = new Type('Json', (u: any) => true, (u: any, c: any) => success(u), (a: any) => a);
