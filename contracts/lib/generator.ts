// Common parts of the contracts on openapi-generator.
import { useContract, specFn, ensures, same, S } from 'ghost';

const withTrace = specFn('withTrace', (m: any) => m, { result: S.str });
// errorLeft as proved in C25: a Left with a text (the stack trace it appends is not specified)
export const errorsByContract = () => useContract('openapi-generator/src/error.ts#errorLeft', (m: any) => ({ _tag: 'Left', left: withTrace(m) }));

// equal results; the text of errors is not compared
export const agree = (what: string, r: any, expected: any) => {
  ensures(what + ', or an error with it', r._tag === expected._tag);
  if (r._tag === 'Right') same(what, r, expected);
};
