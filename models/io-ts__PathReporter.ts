// Assumed contract of io-ts/PathReporter: one message per error, the error's own message if it has one.
import { specFn, S } from 'ghost';
const shown = specFn('PathReporter.shown', (e: any) => String(e), { result: S.str });
const message = (e: any) =>
  e.message !== undefined ? e.message : 'Invalid value ' + shown(e.value) + ' supplied to ' + shown(e.context);
export const failure = (es: any) => es.map((e: any) => message(e));
export const success = () => ['No errors!'];
