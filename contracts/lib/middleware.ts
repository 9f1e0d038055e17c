// Middlewares of every kind for the contracts on express-wrapper.
import { S, any, oneOf, assume } from 'ghost';
import { middlewareFn } from 'repo/express-wrapper/src/middleware.ts';

export const SUCCEED = ['next', 'next later', 'middlewareFn'];
export const FAIL = ['throws', 'error', 'error later', 'rejects'];
const later = (f: any) => {
  Promise.resolve(undefined).then(f);
};
// a middleware of this kind; log.order records the calls, log.finished the successful ends
export const makeMiddleware = (i: number, kind: string, result: any, error: any, log: any) => {
  const called = () => {
    log.inTurn = log.inTurn && log.finished === i && log.calls === i;
    log.calls = log.calls + 1;
  };
  const done = () => {
    log.finished = log.finished + 1;
  };
  if (kind === 'middlewareFn')
    return middlewareFn((async () => {
      called();
      await undefined;
      done();
      return result;
    }) as any);
  if (kind === 'rejects')
    return middlewareFn((async () => {
      called();
      throw error;
    }) as any);
  return (_req: any, _res: any, next: any) => {
    called();
    if (kind === 'throws') throw error;
    if (kind === 'error') next(error);
    if (kind === 'error later') later(() => next(error));
    if (kind === 'next') {
      done();
      next(undefined, result);
    }
    if (kind === 'next later')
      later(() => {
        done();
        next(undefined, result);
      });
  };
};
