// Assumed contract of http: a fixed table of status texts.
import { any, S } from 'ghost';
export const STATUS_CODES: any = any('http.STATUS_CODES', S.record(S.str));
export default { STATUS_CODES };
