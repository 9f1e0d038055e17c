// Assumed contract of util.
export const promisify = (f: any) => async (...args: any[]) => f(...args);
