From 4bf32bc38c7fd282aa48f48fa12002db1411fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 01/22] fix: substitute path parameters verbatim, in a single
 pass

---
 packages/superagent-wrapper/src/request.ts | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..fe6254b 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -64,14 +64,12 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
   send(body: string): this;
 }
 
-export const substitutePathParams = (path: string, params: Record<string, string>) => {
-  for (const key in params) {
-    if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
-    }
-  }
-  return path;
-};
+export const substitutePathParams = (path: string, params: Record<string, string>) =>
+  // A single pass with a replacer function: values are inserted verbatim, so neither `$` patterns
+  // nor placeholders inside of a value are ever interpreted.
+  path.replace(/\{([^{}]*)\}/g, (placeholder: string, key: string) =>
+    params.hasOwnProperty(key) ? params[key] : placeholder,
+  );
 
 export type RequestFactory<Req> = <Route extends h.HttpRoute>(
   route: Route,
-- 
2.43.0


From 3c995a9311f9ad84f828a55c45d9b6e565f2286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 02/22] fix: decode falsy response bodies instead of the raw
 text

---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index fe6254b..9d276db 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -126,7 +126,7 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      const bodyOrText = body ?? text;
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
-- 
2.43.0


From 92c4f83271f6c339374714c56ad0dc5d8576060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 03/22] fix: send falsy request bodies

---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 9d276db..0098de4 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -205,7 +205,7 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From 3dd4479299596bc068a1ecda2f2d48796eb470b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 04/22] fix: respond with an error status when a handler or
 middleware fails

---
 packages/express-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..0261efa 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,7 +144,8 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        // Express initializes the status code to 200
+        if (!res.statusCode || res.statusCode < 400) {
           res.status(500);
         }
         res.end();
-- 
2.43.0


From 251c29069b95a36b4db7bb0aeb226b77a675ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 05/22] fix: do not run the handler after a middleware passed
 on an error

---
 packages/express-wrapper/src/middleware.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..010cc4e 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -208,9 +208,17 @@ export async function runMiddlewareChainIgnoringResults<
   res: express.Response,
 ): Promise<Input> {
   for (const middleware of chain) {
-    await new Promise((resolve, reject) => {
+    await new Promise<void>((resolve, reject) => {
+      const next = (err?: unknown) => {
+        if (err) {
+          reject(err);
+        } else {
+          resolve();
+        }
+      };
+
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, next);
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From cab9dfceebc18367b7c4466d46e4dc2601a87ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 06/22] fix: do not pass a failed request on to later routes

After answering a failed handler or middleware the request was handed to the
next matching route, so the handler of another operation with an overlapping
path ran for it as well.
---
 packages/express-wrapper/src/request.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index 0261efa..266b52f 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -149,8 +149,6 @@ export const handleRequest = (
           res.status(500);
         }
         res.end();
-        next();
-        return;
       }
     },
   );
-- 
2.43.0


From 74e41db5259c56ed9e3839bc39ddd4fbd9c1912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 07/22] fix: drop undefined optional properties next to
 transformed ones

---
 packages/io-ts-http/src/combinators.ts | 79 +++++++++++---------------
 1 file changed, 33 insertions(+), 46 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..42c2466 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -3,7 +3,6 @@ import * as E from 'fp-ts/Either';
 import * as R from 'fp-ts/Record';
 import * as t from 'io-ts';
 import {
-  DefinedValues,
   Flattened,
   NestedType,
   NestedOutputType,
@@ -14,47 +13,22 @@ import {
   Simplify,
 } from './utils';
 
-const partialWithoutUndefined = <P extends t.Props>(
-  props: P,
-  name?: string,
-): t.PartialType<
-  P,
-  DefinedValues<t.TypeOfPartialProps<P>>,
-  DefinedValues<t.OutputOfPartialProps<P>>,
-  unknown
-> => {
-  const partialCodec = t.partial(props, name);
-  return new t.PartialType(
-    partialCodec.name,
-    (i): i is DefinedValues<t.TypeOfPartialProps<P>> => partialCodec.is(i),
-    (i, ctx) => {
-      return pipe(
-        partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
-      );
-    },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
-      }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
-    props,
+/** Removes the given keys where their value is `undefined`, leaving its argument untouched */
+const omitUndefined = <T>(value: T, keys: string[]): T => {
+  if (typeof value !== 'object' || value === null) {
+    return value;
+  }
+  const undefinedKeys = keys.filter(
+    (key) => key in value && (value as any)[key] === void 0,
   );
+  if (undefinedKeys.length === 0) {
+    return value;
+  }
+  const result: any = { ...value };
+  for (const key of undefinedKeys) {
+    delete result[key];
+  }
+  return result;
 };
 
 export const optional = <C extends t.Mixed>(codec: C): t.UnionC<[C, t.UndefinedC]> =>
@@ -75,15 +49,28 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
+  const optionalKeys = Object.keys(optionalProps);
+  const codec = t.intersection([
     t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
       RequiredProps<P>
     >,
-    partialWithoutUndefined(
-      optionalProps,
-      name ? `optional_${name}` : undefined,
-    ) as t.PartialC<OptionalProps<P>>,
+    t.partial(optionalProps, name ? `optional_${name}` : undefined) as t.PartialC<
+      OptionalProps<P>
+    >,
   ]);
+  // `t.partial` keeps optional properties that are present with the value `undefined`. They have to be removed from the
+  // merged result, since `t.type` lets properties it does not know of through as well.
+  return new t.IntersectionType(
+    codec.name,
+    codec.is,
+    (i, ctx) =>
+      pipe(
+        codec.validate(i, ctx),
+        E.map((result) => omitUndefined(result, optionalKeys)),
+      ),
+    (a) => omitUndefined(codec.encode(a), optionalKeys),
+    codec.types,
+  );
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From fad3675f41d2fdb2c4954e756f75fa8ef162d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 08/22] fix: end the decode span when decoding or an error hook
 throws

---
 packages/typed-express-router/src/index.ts | 47 +++++++++++++---------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index cb7c0f6..d2671a3 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -116,13 +116,17 @@ export function wrapRouter<Spec extends ApiSpec>(
         // Intentionally passing explicit arguments here instead of decoding
         // req by itself because of issues that arise while using Node 16
         // See https://github.com/BitGo/api-ts/pull/394 for more information.
-        const decoded = route.request.decode({
-          body: req.body,
-          headers: req.headers,
-          params: req.params,
-          query: req.query,
-        });
-        req.decoded = decoded;
+        try {
+          req.decoded = route.request.decode({
+            body: req.body,
+            headers: req.headers,
+            params: req.params,
+            query: req.query,
+          });
+        } catch (err) {
+          endSpan(decodeSpan);
+          throw err;
+        }
         req.apiName = apiName;
         req.httpRoute = route;
         res.sendEncoded = (
@@ -176,19 +180,22 @@ export function wrapRouter<Spec extends ApiSpec>(
       };
 
       const endDecodeSpanMiddleware: UncheckedRequestHandler = (req, _res, next) => {
-        pipe(
-          req.decoded,
-          E.getOrElseW((errs) => {
-            const decodeErrorMessage = (
-              options?.decodeErrorFormatter ?? decodeErrorFormatter
-            )(errs, req);
-            const statusCode = (
-              options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
-            )(errs, req);
-            recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
-          }),
-        );
-        endSpan(decodeSpan);
+        try {
+          pipe(
+            req.decoded,
+            E.getOrElseW((errs) => {
+              const decodeErrorMessage = (
+                options?.decodeErrorFormatter ?? decodeErrorFormatter
+              )(errs, req);
+              const statusCode = (
+                options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
+              )(errs, req);
+              recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
+            }),
+          );
+        } finally {
+          endSpan(decodeSpan);
+        }
         next();
       };
 
-- 
2.43.0


From 315c18837d83b7d5433491fe619f9e4d0c54cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 09/22] fix: keep re-exported names apart from local and other
 re-exported names

---
 packages/openapi-generator/src/symbol.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..3412d63 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -81,16 +81,19 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   decl.specifiers.forEach((specifier) => {
     switch (specifier.type) {
       case 'ExportSpecifier':
+        const exportedName = specifier.exported?.value ?? specifier.orig.value;
+        // A re-export does not create a binding in this file, so it must not be found under a name used by another one
+        const localName = decl.source ? `export ${exportedName}` : specifier.orig.value;
         result.exports.push({
           type: 'named',
-          exportedName: specifier.exported?.value ?? specifier.orig.value,
-          localName: specifier.orig.value,
+          exportedName,
+          localName,
         });
         if (decl.source) {
           result.imports.push({
             type: 'named',
             importedName: specifier.orig.value,
-            localName: specifier.orig.value,
+            localName,
             from: decl.source.value,
           });
         }
-- 
2.43.0


From e69995106524cad0021b464fa456542a1909cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 10/22] fix: resolve exports through modules that star-export
 each other

---
 packages/openapi-generator/src/resolveInit.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..55a2aec 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -35,18 +35,26 @@ function findExportedDeclaration(
   project: Project,
   sourceFile: SourceFile,
   name: string,
+  searched: string[] = [],
 ): E.Either<string, ResolvedInitializer> {
   for (const exp of sourceFile.symbols.exports) {
     if (exp.exportedName === name) {
       return findSymbolInitializer(project, sourceFile, exp.localName);
     }
   }
+  if (searched.includes(sourceFile.path)) {
+    // Modules may re-export each other in a circle
+    return errorLeft(`Unknown identifier ${name}`);
+  }
   for (const starExport of sourceFile.symbols.exportStarFiles) {
     const starSourceFile = resolveImportPath(project, sourceFile, starExport);
     if (E.isLeft(starSourceFile)) {
       return errorLeft(`Cannot resolve * export from '${starExport}'`);
     }
-    const starExportE = findExportedDeclaration(project, starSourceFile.right, name);
+    const starExportE = findExportedDeclaration(project, starSourceFile.right, name, [
+      ...searched,
+      sourceFile.path,
+    ]);
     if (E.isRight(starExportE)) {
       return starExportE;
     }
-- 
2.43.0


From 52599cfc6655ff0e059eb17fe07ff33420e76a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 11/22] fix: take header and path parameters from referenced
 members of a request union

---
 packages/openapi-generator/src/route.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..f2f317e 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -128,6 +128,7 @@ function parseRequestUnion(
   const parameters: Parameter[] = [];
   const querySchema: Schema = { type: 'union', schemas: [] };
   const headerSchema: Schema = { type: 'union', schemas: [] };
+  const subSchemas: Schema[] = [];
   let body: Schema | undefined;
 
   for (let subSchema of schema.schemas) {
@@ -142,6 +143,7 @@ function parseRequestUnion(
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
     }
+    subSchemas.push(subSchema);
     if (subSchema.properties['query'] !== undefined) {
       querySchema.schemas.push(subSchema.properties['query']);
     }
@@ -172,7 +174,7 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
+    for (const subSchema of subSchemas) {
       if (
         subSchema.type === 'object' &&
         subSchema.properties['headers']?.type === 'object'
@@ -196,7 +198,7 @@ function parseRequestUnion(
   }
 
   // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
+  for (const subSchema of subSchemas) {
     if (subSchema.type === 'object') {
       const pathSchema = subSchema.properties['params'];
       if (pathSchema !== undefined && pathSchema.type === 'object') {
-- 
2.43.0


From b0dbec1a585682e1890edfbdc2b117ff9c05719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 12/22] fix: keep minimum and maximum of built-in codecs on
 their own side

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..d90b03e 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -300,8 +300,8 @@ export function schemaToOpenAPI(
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
     const minLength = jsdoc?.tags?.minLength ?? schema.minLength;
     const pattern = jsdoc?.tags?.pattern ?? schema.pattern;
-    const minimum = jsdoc?.tags?.minimum ?? schema.maximum;
-    const maximum = jsdoc?.tags?.maximum ?? schema.minimum;
+    const minimum = jsdoc?.tags?.minimum ?? schema.minimum;
+    const maximum = jsdoc?.tags?.maximum ?? schema.maximum;
     const minItems = jsdoc?.tags?.minItems ?? schema.minItems;
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
-- 
2.43.0


From 5483cbc3f650785d971a754f72d0ff46f0d1f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 13/22] fix: keep bounds of zero in generated schemas

---
 packages/openapi-generator/src/openapi.ts | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index d90b03e..c3d7472 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -105,8 +105,8 @@ export function schemaToOpenAPI(
 
         return {
           type: 'array',
-          ...(minItems ? { minItems } : {}),
-          ...(maxItems ? { maxItems } : {}),
+          ...(minItems !== undefined ? { minItems } : {}),
+          ...(maxItems !== undefined ? { maxItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
@@ -315,6 +315,8 @@ export function schemaToOpenAPI(
     const format = jsdoc?.tags?.format ?? schema.format ?? schema.format;
     const title = jsdoc?.tags?.title ?? schema.title;
 
+    // zero is a bound like any other, a tag without a value is not
+    const isSet = (value: unknown) => value !== undefined && value !== '';
     const keys = Object.keys(jsdoc?.tags || {});
 
     const deprecated = keys.includes('deprecated') || !!schema.deprecated;
@@ -330,18 +332,18 @@ export function schemaToOpenAPI(
       ...(deprecated ? { deprecated: true } : {}),
       ...(description ? { description } : {}),
       ...(example ? { example: parseField(schema, example) } : {}),
-      ...(maxLength ? { maxLength: Number(maxLength) } : {}),
-      ...(minLength ? { minLength: Number(minLength) } : {}),
+      ...(isSet(maxLength) ? { maxLength: Number(maxLength) } : {}),
+      ...(isSet(minLength) ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum ? { minimum: Number(minimum) } : {}),
-      ...(maximum ? { maximum: Number(maximum) } : {}),
-      ...(minItems ? { minItems: Number(minItems) } : {}),
-      ...(maxItems ? { maxItems: Number(maxItems) } : {}),
-      ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-      ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
+      ...(isSet(minimum) ? { minimum: Number(minimum) } : {}),
+      ...(isSet(maximum) ? { maximum: Number(maximum) } : {}),
+      ...(isSet(minItems) ? { minItems: Number(minItems) } : {}),
+      ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
+      ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
+      ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
       ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
       ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
-      ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
+      ...(isSet(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
       ...(uniqueItems ? { uniqueItems: true } : {}),
       ...(readOnly ? { readOnly: true } : {}),
       ...(writeOnly ? { writeOnly: true } : {}),
-- 
2.43.0


From e78a2a7d1858f566b6458e40db3b2082f6658e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 14/22] fix: keep every alternative of an optional union

---
 packages/openapi-generator/src/openapi.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index c3d7472..ad5f47a 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -144,7 +144,11 @@ export function schemaToOpenAPI(
 
         // If there are two schemas and one of the schemas is undefined, that means the union is a case of `optional` type
         const undefinedSchema = schema.schemas.find((s) => s.type === 'undefined');
-        const nonUndefinedSchema = schema.schemas.find((s) => s.type !== 'undefined');
+        const nonUndefinedSchemas = schema.schemas.filter(
+          (s) => s.type !== 'undefined',
+        );
+        const definedSchemas = nonUndefinedSchemas.filter((s) => s.type !== 'null');
+        const nonUndefinedSchema = definedSchemas[0] ?? nonUndefinedSchemas[0];
         // If nullSchema exists, that means that the union is also nullable
         const nullSchema = schema.schemas.find((s) => s.type === 'null');
 
@@ -154,7 +158,12 @@ export function schemaToOpenAPI(
         // and we can just return the other schema (while attaching the comment to that schema)
         const isOptional =
           schema.schemas.length >= 2 && undefinedSchema && nonUndefinedSchema;
-        if (isOptional) {
+        if (isOptional && definedSchemas.length > 1) {
+          return schemaToOpenAPI(
+            { type: 'union', schemas: nonUndefinedSchemas, comment: schema.comment },
+            componentNameMapping,
+          );
+        } else if (isOptional) {
           return schemaToOpenAPI(
             {
               ...nonUndefinedSchema,
-- 
2.43.0


From 0941800b81c37e312103eea8d3916342ab0cdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 15/22] fix: keep the item counts of an array when it is
 optimized

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..33cda1e 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -254,7 +254,7 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ type: 'array', items: optimized }, schema);
+    return withComment({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
     return withComment(
       {
-- 
2.43.0


From 66287bcf4632dd0c2fc65abb5f96c3caa680e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 16/22] fix: only require properties that are described

---
 packages/openapi-generator/src/openapi.ts | 26 ++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index ad5f47a..96b7032 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -111,21 +111,23 @@ export function schemaToOpenAPI(
           items,
         };
       case 'object':
+        const properties = Object.entries(schema.properties).reduce(
+          (acc, [name, prop]) => {
+            const innerSchema = schemaToOpenAPI(prop, componentNameMapping);
+            if (innerSchema === undefined) {
+              return acc;
+            }
+
+            return { ...acc, [name]: innerSchema };
+          },
+          {} as Record<string, OpenAPIV3.SchemaObject | OpenAPIV3.ReferenceObject>,
+        );
+        const required = schema.required.filter((name) => name in properties);
         return {
           type: 'object',
           ...defaultOpenAPIObject,
-          properties: Object.entries(schema.properties).reduce(
-            (acc, [name, prop]) => {
-              const innerSchema = schemaToOpenAPI(prop, componentNameMapping);
-              if (innerSchema === undefined) {
-                return acc;
-              }
-
-              return { ...acc, [name]: innerSchema };
-            },
-            {} as Record<string, OpenAPIV3.SchemaObject | OpenAPIV3.ReferenceObject>,
-          ),
-          ...(schema.required.length > 0 ? { required: schema.required } : {}),
+          properties,
+          ...(required.length > 0 ? { required } : {}),
         };
       case 'intersection':
         return {
-- 
2.43.0


From 66eee7e83a28d5f7a189cb0c4af78d7adae9101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 17/22] fix: optimize the only member of a union

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 33cda1e..cd6f294 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -56,7 +56,7 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
 
 function consolidateUnion(schema: Schema): Schema {
   if (schema.type !== 'union') return schema;
-  if (schema.schemas.length === 1) return schema.schemas[0]!;
+  if (schema.schemas.length === 1) return optimize(schema.schemas[0]!);
   if (schema.schemas.length === 0) return { type: 'undefined' };
 
   const consolidatableTypes = ['boolean', 'number', 'string'];
-- 
2.43.0


From ad2356129fd72a5443e1dd099892c7c0da414e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 18/22] fix: combine properties that several members of an
 intersection declare

---
 packages/openapi-generator/src/optimize.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cd6f294..6c76e6e 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -17,8 +17,18 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
-      Object.assign(combinedObject.properties, innerSchema.properties);
-      combinedObject.required.push(...innerSchema.required);
+      for (const [key, prop] of Object.entries(innerSchema.properties)) {
+        const previous = combinedObject.properties[key];
+        combinedObject.properties[key] =
+          previous === undefined || JSON.stringify(previous) === JSON.stringify(prop)
+            ? prop
+            : { type: 'intersection', schemas: [previous, prop] };
+      }
+      for (const key of innerSchema.required) {
+        if (!combinedObject.required.includes(key)) {
+          combinedObject.required.push(key);
+        }
+      }
     } else if (result.type === 'intersection') {
       result.schemas.push(innerSchema);
     } else {
-- 
2.43.0


From b7fca3793fd985b755587f5070667498771648b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 19/22] fix: accept structured examples for strings

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 96b7032..d00a5b7 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -294,9 +294,9 @@ export function schemaToOpenAPI(
       return fieldValue === 'true';
     } else if (schema.type === 'null') {
       return null;
-    } else if (schema.type === 'string') {
+    } else if (schema.type === 'string' && typeof fieldValue === 'string') {
       // Remove extraneous double quotes around the fieldValue
-      return fieldValue?.replace(/^"(.*)"$/, '$1');
+      return fieldValue.replace(/^"(.*)"$/, '$1');
     } else {
       return fieldValue;
     }
-- 
2.43.0


From 1c305b2d0480675102c6e92c534207ab251a2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 20/22] fix: honour documentation flags written without a value

---
 packages/openapi-generator/src/openapi.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index d00a5b7..7afd3dd 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -328,6 +328,9 @@ export function schemaToOpenAPI(
 
     // zero is a bound like any other, a tag without a value is not
     const isSet = (value: unknown) => value !== undefined && value !== '';
+    // a flag is set by its tag alone, unless the tag says otherwise
+    const isFlagged = (value: unknown) =>
+      value === '' || (!!value && value !== 'false');
     const keys = Object.keys(jsdoc?.tags || {});
 
     const deprecated = keys.includes('deprecated') || !!schema.deprecated;
@@ -352,12 +355,12 @@ export function schemaToOpenAPI(
       ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
       ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
       ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
-      ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
-      ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
+      ...(isFlagged(exclusiveMinimum) ? { exclusiveMinimum: true } : {}),
+      ...(isFlagged(exclusiveMaximum) ? { exclusiveMaximum: true } : {}),
       ...(isSet(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
-      ...(uniqueItems ? { uniqueItems: true } : {}),
-      ...(readOnly ? { readOnly: true } : {}),
-      ...(writeOnly ? { writeOnly: true } : {}),
+      ...(isFlagged(uniqueItems) ? { uniqueItems: true } : {}),
+      ...(isFlagged(readOnly) ? { readOnly: true } : {}),
+      ...(isFlagged(writeOnly) ? { writeOnly: true } : {}),
       ...(format ? { format } : {}),
       ...(title ? { title } : {}),
       ...(isPrivate ? { 'x-internal': true } : isPublic ? { 'x-internal': false } : {}),
-- 
2.43.0


From 06454772ca5ee1d4304d64d19e6565b3f3539282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 21/22] fix: state unique items on the array, not on its items

---
 packages/openapi-generator/src/openapi.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 7afd3dd..d1526f4 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -79,7 +79,8 @@ export function schemaToOpenAPI(
           return undefined;
         }
 
-        const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
+        const { example, minItems, maxItems, uniqueItems, ...rest } =
+          defaultOpenAPIObject;
         const isArrayExample = example && Array.isArray(example);
 
         const siblings = {
@@ -107,6 +108,7 @@ export function schemaToOpenAPI(
           type: 'array',
           ...(minItems !== undefined ? { minItems } : {}),
           ...(maxItems !== undefined ? { maxItems } : {}),
+          ...(uniqueItems !== undefined ? { uniqueItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
-- 
2.43.0


From c8780622f8be063b217c6dfe34e013f1c029ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 22/22] fix: keep the documentation of the only alternative of
 an optional type

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index d1526f4..31dc762 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -171,7 +171,7 @@ export function schemaToOpenAPI(
           return schemaToOpenAPI(
             {
               ...nonUndefinedSchema,
-              comment: schema.comment,
+              ...(schema.comment ? { comment: schema.comment } : {}),
               ...(nullSchema ? { nullable: true } : {}),
             },
             componentNameMapping,
@@ -189,7 +189,7 @@ export function schemaToOpenAPI(
             return schemaToOpenAPI(
               {
                 ...nonUnknownSchemas[0],
-                comment: schema.comment,
+                ...(schema.comment ? { comment: schema.comment } : {}),
                 ...(nullSchema ? { nullable: true } : {}),
               },
               componentNameMapping,
-- 
2.43.0

