// Assumed contract of express routers: Router() keeps the registered routes, in order, in `stack`, each with its path and
// its flattened list of handlers.
const make = () => {
  const stack: any[] = [];
  const router: any = { stack };
  const add = (method: string) => (path: any, chain: any) => {
    stack.push({ route: { path, method, stack: chain.map((handle: any) => ({ handle, method })) } });
    return router;
  };
  router.get = add('get');
  router.post = add('post');
  router.put = add('put');
  router.delete = add('delete');
  router.patch = add('patch');
  return router;
};
export const Router = (_options: any) => make();
// an application keeps a layer for everything mounted on it, in order
const express: any = () => {
  const app: any = { _router: { stack: [] } };
  app.use = (handle: any) => {
    app._router.stack.push({ handle });
    return app;
  };
  return app;
};
express.Router = Router;
export default express;
