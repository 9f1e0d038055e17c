// Common parts of the contracts on express-wrapper: recording request and response, running the chain of a mounted route.
import { S, any } from 'ghost';

export const mockRequest = () => ({ body: {}, headers: {}, params: {}, query: {} }) as any;

export const mockResponse = () => {
  const log: any = { sent: 0, status: 200, empty: false, nexts: 0 };
  const res: any = { log, statusCode: 200 };
  res.status = (c: any) => {
    log.status = c;
    res.statusCode = c;
    return res;
  };
  res.sendStatus = (c: any) => {
    res.status(c);
    return res.end();
  };
  res.json = (b: any) => {
    log.sent = log.sent + 1;
    log.body = b;
    return res;
  };
  res.send = res.json;
  res.end = () => {
    if (log.sent === 0) {
      log.sent = 1;
      log.empty = true;
    }
    return res;
  };
  return res;
};

// the functions mounted for the layer of a router
export const chainOf = (layer: any) => layer.route.stack.map((l: any) => l.handle);

// runs them as express does and waits for the asynchronous ones; log.nexts counts requests handed on to later routes
export const runRoute = async (layer: any, req: any, res: any) => {
  const chain = chainOf(layer);
  const pending: any[] = [];
  const go = (i: number) => {
    if (i === chain.length) res.log.nexts = res.log.nexts + 1;
    else pending.push(chain[i](req, res, () => go(i + 1)));
  };
  go(0);
  for (const p of pending) await p;
  return res;
};
