// Assumed contract of @opentelemetry/api: tracers forward to the registered provider, also when it is registered later.
let provider: any = undefined;
const nothing: any = { setAttributes: () => nothing, setAttribute: () => nothing, recordException: () => {}, setStatus: () => nothing, addEvent: () => nothing, updateName: () => nothing, isRecording: () => false, end: () => {} };
export const trace = {
  getTracer: (name: any) => ({
    startSpan: (n: any, o: any, c: any) => (provider === undefined ? nothing : provider.getTracer(name).startSpan(n, o, c)),
  }),
  setGlobalTracerProvider: (p: any) => {
    provider = p;
    return true;
  },
};
export const SpanStatusCode = { UNSET: 0, OK: 1, ERROR: 2 };
