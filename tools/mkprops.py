#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, not the jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

IO='packages/io-ts-http/src/'; SA='packages/superagent-wrapper/src/'; TR='packages/typed-express-router/src/'
EW='packages/express-wrapper/src/'; OG='packages/openapi-generator/src/'; RE='packages/response/src/'

prop('C01','Request decoding returns exactly the declared fields, flattened',
 'Decoding a request with a flattening request codec succeeds exactly when every declared field of every section is accepted by its own codec (an absent field counts as undefined), and otherwise reports failure. On success the result holds, at one level, each declared field that is present with the value its codec decoded it to, and nothing else: no undeclared input field and no section name leaks into it.',
 ['inputs','programs'],'all route declarations (any sections, any field names, any codecs) and all incoming values',
 'Unit tests decode a few hand-written requests with one or two fields; the claim ranges over arbitrary declarations and arbitrary untrusted input.',
 [IO+'combinators.ts',IO+'httpRequest.ts'],[('flattened: nested strict codec, then merge of the sections',IO+'combinators.ts'),('httpRequest defaults',IO+'httpRequest.ts')],
 ['httpRequest(...).decode','flattened(...).decode'])
prop('C02','Request encoding puts every field in its declared section and nothing else',
 'Encoding a typed request yields one object per declared section, and each declared field that the value carries appears in its own section with the value its codec encodes it to. Fields the value does not carry, fields that are not declared, and sections that are not declared never appear; path and query sections are always produced for a request codec.',
 ['inputs','programs'],'all route declarations and all values of the decoded type',
 'Tests encode fixed examples; the claim is about every declaration and every value, including absent optional fields and falsy values.',
 [IO+'combinators.ts',IO+'httpRequest.ts'],[('flattened: encode loop',IO+'combinators.ts')],['httpRequest(...).encode'])
prop('C03','A field is optional exactly when its codec accepts undefined',
 'In an optionalized object codec a field may be missing exactly when its codec accepts undefined; every other field is required and its absence makes decoding fail. Neither decoding nor encoding ever produces an optional field that is present with the value undefined, and defined values, including falsy ones, are never dropped.',
 ['inputs','programs'],'all field maps and all inputs',
 'Tests use two or three fields; the split into required and optional parts must be right for every field map.',
 [IO+'combinators.ts'],[('optionalized',IO+'combinators.ts'),('partialWithoutUndefined',IO+'combinators.ts')],['optionalized(...).decode / encode / is'])
prop('C04','Path parameters are substituted verbatim into the route template',
 'Substituting path parameters into a route template replaces the placeholder of each given parameter by exactly that parameter\'s value and leaves all other text of the template unchanged. A value is never reinterpreted: whatever characters it contains, it is neither treated as a replacement pattern nor searched for further placeholders.',
 ['inputs'],'all templates and all parameter values (arbitrary strings)',
 'The tests substitute simple words; the claim is about arbitrary strings, including ones with replacement metacharacters or braces.',
 [SA+'request.ts'],[('substitutePathParams',SA+'request.ts')],['substitutePathParams','URL handed to superagent/supertest'])
prop('C05','The client sends exactly the encoded request',
 'Calling a route of the client issues one request with the route\'s HTTP method to the route\'s path with its parameters substituted (under the base URL\'s path where there is one), carrying exactly the encoded query, each encoded header once under its own name, and the encoded body as JSON with a JSON content type whenever the encoded request has a body, and no body otherwise. Nothing is sent that the route\'s encoder did not produce.',
 ['inputs','programs'],'all routes, all typed requests, all encoders',
 'Integration tests send a handful of requests to one server; the claim covers every number of headers and parameters and every body, including falsy ones.',
 [SA+'request.ts'],[('requestForRoute',SA+'request.ts'),('superagentRequestFactory, supertestRequestFactory',SA+'request.ts')],['calls on the superagent-like request object'])
prop('C06','Decoding a response classifies it soundly and never loses the original',
 'Decoding a received response yields the response\'s status with the decoded body when the route declares a codec for that status and the codec accepts the received body, and otherwise a decode error that carries the undecoded body and a non-empty explanation; in both cases the original response is attached. The body that is decoded is the parsed body the server sent, whatever its value, and the raw text is used only when there is no parsed body (null counts as none).',
 ['inputs','programs'],'all routes, statuses, bodies (including false, 0, null and the empty string) and codecs',
 'Tests exercise three canned server answers; the claim is for every status and body a server can send.',
 [SA+'request.ts'],[('patchRequest.decode',SA+'request.ts'),('hasCodecForStatus',SA+'request.ts')],['request.decode()'])
prop('C07','Asserting an expected status only succeeds on that status, decoded',
 'Decoding a response while expecting a status resolves only if the response carried exactly that status and its body was accepted by the codec declared for it, and then resolves to that decoded response. In every other case it rejects with a decode error that carries the decoded response; it never resolves to a value of another status or to an undecoded body.',
 ['inputs','programs'],'all routes, expected statuses, received statuses and bodies',
 'Tests check one success, one wrong status and one bad body; the claim is for every combination.',
 [SA+'request.ts'],[('patchRequest.decodeExpecting',SA+'request.ts')],['request.decodeExpecting()'])
prop('C08','The API client offers exactly the routes of its specification',
 'A client built from a specification has one entry per operation of the specification and, in it, one callable per declared HTTP method, bound to that operation\'s own route; entries that are not HTTP methods are ignored and nothing else is added. A method explicitly declared as undefined is refused when the client is built.',
 ['programs','inputs'],'all specifications (any operations, any subset of methods)',
 'Tests build clients for one small specification.',
 [SA+'routes.ts'],[('buildApiClient',SA+'routes.ts')],['buildApiClient result'])
prop('C09','Checked handlers run only on successfully decoded requests',
 'On a checked route no handler of the route runs unless the request decoded successfully, and then it sees the decoded value. When decoding fails, no handler of the route runs and exactly one response is sent, with the status and body computed by the effective decode-error hooks from the decode errors and the request.',
 ['inputs','programs','histories'],'all specifications, requests, hooks, router-level middleware and handler chains',
 'Tests run a few requests against fixed specs with the default hooks or one override.',
 [TR+'index.ts',TR+'errors.ts'],[('validateMiddleware',TR+'index.ts'),('wrapReqAndRes',TR+'index.ts')],['res.status/json calls','handler invocations'])
prop('C10','An encoded reply always conforms to the declared response type',
 'Sending an encoded reply writes a response only with a status the route declares (given as a number or a named status), and only if the payload belongs to the declared response type; what is written is that status and the codec\'s encoding of the payload, after which the after-send hook runs once with that status, payload, request and response. In all other cases (undeclared status, unknown name, mismatching payload, failing encoder) exactly one response is written, with the status and body computed by the effective encode-error hooks, and the payload is never written.',
 ['inputs','programs'],'all routes, statuses, payloads, codecs and hooks, including codecs that throw',
 'Tests cover one good payload and one bad payload.',
 [TR+'index.ts',TR+'errors.ts'],[('res.sendEncoded',TR+'index.ts')],['res.status/json/end calls','hook calls'])
prop('C11','Hooks resolve route over router over default',
 'For each of the five hooks (decode-error formatter and status, encode-error formatter and status, after-send) the one given for the route is used when there is one, else the one given for the router, else the documented default; the hooks are chosen independently of each other. A hook of another route never applies.',
 ['configurations','programs'],'all 3^5 ways of giving or omitting hooks per route and router, for every route',
 'Tests override single hooks; the independence of all combinations is never sampled.',
 [TR+'index.ts',TR+'errors.ts'],[('options?.x ?? x',TR+'index.ts'),('wrapRouter defaults',TR+'index.ts'),('createRouter option split',TR+'index.ts')],['hook calls'])
prop('C12','Routes are registered at their declared path, method and aliases, in order',
 'Registering a handler for an operation mounts one chain on the underlying router, under the operation\'s own method at its declared path converted to the router\'s parameter syntax, and mounts the same chain under the same method at each alias verbatim. Within the chain decoding comes first, then the router-level middleware registered so far in registration order, then the handlers in the given order; registering for an operation the specification lacks is refused.',
 ['programs','histories'],'all specifications, handler lists, alias lists and interleavings of use() and route registrations',
 'Tests register one or two routes; order and completeness for arbitrary lists are not settled by samples.',
 [TR+'index.ts',TR+'path.ts'],[('makeAddUncheckedRoute',TR+'index.ts'),('apiTsPathToExpress',TR+'path.ts')],['calls on the underlying router'])
prop('C13','Unchecked routes always run their handlers and expose the decode result',
 'On an unchecked route the middleware and handlers run whether or not the request decodes, nothing is sent on their behalf, and they can read the decode result (failure or success) of decoding exactly the request\'s body, headers, path parameters and query, together with the operation name and route. The reply encoder is available to them on every request.',
 ['inputs','programs'],'all routes, requests and decode outcomes',
 'Tests cover one failing and one succeeding request.',
 [TR+'index.ts'],[('wrapReqAndRes',TR+'index.ts'),('endDecodeSpanMiddleware',TR+'index.ts')],['req.decoded, req.apiName, req.httpRoute, res.sendEncoded at the first handler'])
prop('C14','Tracing is balanced and has no effect on behaviour',
 'With tracing available every span started for decoding a request or sending an encoded reply is ended exactly once, carries the operation name, method and path, and records the resulting status code, plus the error when decoding or encoding fails. With tracing unavailable no span is touched, and the responses, handler runs and hook calls visible to the client are the same in both cases.',
 ['inputs','configurations'],'all requests, outcomes and tracing on/off',
 'Tests check attributes on sampled requests; balance under every outcome (including throwing hooks and codecs) is not sampled.',
 [TR+'telemetry.ts',TR+'index.ts'],[('telemetry helpers',TR+'telemetry.ts'),('finally endSpan',TR+'index.ts')],['span operations'])
prop('C15','Middleware chains run in order, merge results left to right, stop on failure',
 'Running a typed middleware chain calls each middleware once, in order, each only after the previous one finished successfully, and passes the handler the decoded request extended with the middlewares\' results, later results replacing earlier values of the same name and everything else kept. If a middleware throws, rejects or passes an error on, no later middleware runs and the chain fails with that very error.',
 ['inputs','histories','fault_sequences'],'all chains (any length), all middleware behaviours',
 'Tests run chains of one or two middlewares with fixed behaviours.',
 [EW+'middleware.ts'],[('runMiddlewareChain',EW+'middleware.ts'),('middlewareFn',EW+'middleware.ts')],['middleware calls','handler input'])
prop('C16','Handler results are answered with their own status and encoded payload',
 'A handler result naming a status, by number or by name, is answered with exactly that status and the payload encoded by the codec the route declares for that status, in a single response. A result with an unknown status name, a status without a declared codec, or a payload that cannot be encoded is answered with an empty 500 response and never with another status or an unencoded payload.',
 ['inputs','programs'],'all routes, handler results and codecs',
 'Tests cover a few statuses with one codec each.',
 [EW+'response.ts'],[('defaultResponseEncoder',EW+'response.ts')],['res.status/json/end calls'])
prop('C17','A failing handler or middleware is never reported as success',
 'If a middleware of a route fails (throws or passes an error on) or its handler throws or rejects, the client receives an error status: 500 unless the code already chose an error status itself. The handler never runs after a failed middleware, for either way of declaring the route\'s middleware.',
 ['fault_sequences','inputs'],'all routes, middleware chains, and points of failure',
 'No test makes a handler or middleware fail.',
 [EW+'request.ts',EW+'middleware.ts'],[('handleRequest catch',EW+'request.ts'),('runMiddlewareChainIgnoringResults',EW+'middleware.ts')],['res.status/end calls'])
prop('C18','The server mounts every declared operation with its own handler',
 'A router built for a specification serves every declared operation and method with the handler given for that operation and method, and registers nothing else; the configured formatters, status hooks and response encoder apply to all of them. Handlers of one operation are never called for another.',
 ['programs'],'all specifications and handler tables',
 'Tests build one or two small servers.',
 [EW+'index.ts',EW+'request.ts'],[('routerForApiSpec',EW+'index.ts'),('getServiceFunction, getMiddleware',EW+'request.ts')],['route registrations','handler invocations'])
prop('C19','Status names and codes correspond one to one everywhere',
 'The table from status codes to names and the table from names to codes are inverse to each other, codes are the registered HTTP codes for these names, and each response helper of both helper packages tags its payload with the code or name the helper is named after and carries the payload unchanged.',
 ['inputs'],'all status codes and names, all payloads',
 'No test goes through the tables; each of 60 entries is a hand-written constant.',
 [IO+'statusCode.ts',IO+'httpResponse.ts',RE+'response.ts',RE+'keyed-response.ts'],[('HttpToKeyStatus / KeyToHttpStatus',IO+'statusCode.ts'),('Response helpers',IO+'httpResponse.ts')],['the tables and helpers'])
prop('C20','Schema simplification preserves what a schema requires and allows',
 'Simplifying a schema of an API never changes its meaning: an object keeps each property that can have a defined value and requires a property exactly when it was required and its type does not allow undefined; arrays, records, tuples and intersections keep all their parts; a union keeps every alternative and gains none, apart from merging duplicates and widening to a base type it already contains. Comments on a simplified schema are kept.',
 ['inputs'],'all schemas of any size and nesting',
 'Tests simplify about twenty small schemas.',
 [OG+'optimize.ts'],[('optimize',OG+'optimize.ts'),('foldIntersection, simplifyUnion, mergeUnions, consolidateUnion, filterUndefinedUnion',OG+'optimize.ts')],['optimize result'])
prop('C21','Generated schema objects state the declared type and constraints',
 'The OpenAPI schema generated for a type states that type\'s kind, its allowed values, element, property and alternative schemas, its required properties (always among its properties) and a reference for each named type, resolved to the component it was given. Each constraint of the type (bounds, lengths, pattern, format, multiple, counts, uniqueness, default, example, title, deprecation, visibility) appears under its own keyword with its own value, a documentation tag taking precedence over a built-in constraint, and constraints never swap or vanish.',
 ['inputs'],'all schemas and documentation tags',
 'Tests compare whole documents for sampled inputs; they do not cover bounds coming from built-in codecs, or zero and false values.',
 [OG+'openapi.ts'],[('schemaToOpenAPI',OG+'openapi.ts'),('buildDefaultOpenAPIObject',OG+'openapi.ts')],['convertRoutesToOpenAPI(...).components / parameters / bodies'])
prop('C22','Each route becomes an operation with all of its parameters and responses',
 'The operation generated for a route lists every parameter of the route once, with its own name, location, required flag and schema, has a JSON request body exactly when the route has a body, and one response per declared status under that status code with that status\'s schema. Visibility, stability, operation id, tag, summary and description come from the route\'s documentation, unknown tags are preserved, and contradictory visibility is refused.',
 ['inputs'],'all routes',
 'Tests compare documents for sampled routes.',
 [OG+'openapi.ts'],[('routeToOpenAPI',OG+'openapi.ts')],['convertRoutesToOpenAPI(...).paths'])
prop('C23','The generated document contains every route and component exactly once',
 'In the generated document every route appears under its path and lower-case method, routes that share a path share the path entry without displacing each other, and every component with a representable schema appears under its own name with that schema; nothing else is added. Paths and methods are emitted in sorted order, so the document does not depend on the order of the routes.',
 ['inputs','programs'],'all lists of routes and component tables',
 'Tests use one or two routes.',
 [OG+'openapi.ts'],[('convertRoutesToOpenAPI',OG+'openapi.ts')],['convertRoutesToOpenAPI result'])
prop('C24','Every named type a schema mentions is collected for the components',
 'Collecting the references of a schema finds every reference to a locatable named type that occurs in it at any depth, through arrays, objects, record values, unions, intersections and tuples, each with the location that defines it, and nothing that does not occur in it.',
 ['inputs'],'all schemas of any nesting',
 'Tests run the generator on small projects.',
 [OG+'ref.ts'],[('getRefs',OG+'ref.ts')],['getRefs result'])
prop('C25','Names resolve to the declaration the module system would pick',
 'Resolving an identifier used in a source file yields the initializer declared under that name in that file, or, if the name is imported, the initializer that the imported module exports under the imported name, following renamed imports and exports, re-exports, default exports, namespace imports and star exports. A local declaration wins over an import, an explicit export over a star export, and a name that resolves to nothing is an error and never another declaration.',
 ['programs'],'all symbol tables and module graphs',
 'Tests resolve a dozen fixed projects.',
 [OG+'resolveInit.ts',OG+'symbol.ts'],[('findSymbolInitializer, findExportedDeclaration',OG+'resolveInit.ts'),('parseTopLevelSymbols',OG+'symbol.ts')],['findSymbolInitializer result'])
prop('C26','Documentation comments attach to the declaration they precede',
 'The comment attached to a property or declaration is the documentation comment written immediately before it, whatever characters (multi-byte, astral) occur anywhere earlier in the file: positions reported in bytes are converted to the exact position in the text. Merging the comments of combined types keeps the outermost description and the outermost value of each tag and drops no tag.',
 ['inputs','programs'],'all source texts',
 'Tests contain a few files with accented characters.',
 [OG+'comments.ts'],[('byteOffsetToCharOffset, leadingComment',OG+'comments.ts'),('combineComments',OG+'comments.ts')],['leadingComment result','generated descriptions'])
prop('C27','A route request becomes exactly its query, path and header parameters and body',
 'Parsing a route takes its path and method from string literals, turns each field of the request\'s query, path and header sections into one parameter of that location with its own schema, required exactly when the section requires it, and keeps the body and all responses unchanged. Intersections contribute all parameters and bodies of all members; unions contribute every member\'s query and body, the header fields of every member that has a header object, and the path fields of the first member that has a path object, whether members are given directly or by name; anything else (missing parts, wrong kinds) is an error, not a partial route.',
 ['inputs','programs'],'all route schemas',
 'Tests parse a dozen fixed routes.',
 [OG+'route.ts'],[('parseRoute',OG+'route.ts'),('parseRequestObject / Union / Intersection',OG+'route.ts')],['parseRoute result'])
prop('C28','Built-in codecs are described as the types they validate',
 'For every codec and combinator the generator knows, the schema it produces describes what that codec validates: object combinators keep all properties and require all of them or none as the combinator does, optionalized and request combinators require exactly the properties that cannot be undefined, unions, intersections, tuples, arrays, records, literals and key sets keep all their members, and numeric codecs carry their bound on the correct side. A combinator applied to an argument of the wrong kind is an error.',
 ['inputs'],'all known codecs and all argument schemas',
 'Tests touch a fraction of the table with one argument each.',
 [OG+'knownImports.ts'],[('KNOWN_IMPORTS',OG+'knownImports.ts')],['KNOWN_IMPORTS entries'])
prop('C29','Distinct types never share a component name and references agree with it',
 'When several types of the same name are defined in different places, each gets its own component in the generated document, and every reference to a type points to the component generated from that type\'s own definition, including references between components and repeated references. No component overwrites another and no reference is left without its component.',
 ['programs'],'all projects, any number of colliding names, any order of discovery',
 'One test has two colliding names referenced once.',
 [OG+'cli.ts',OG+'openapi.ts',OG+'ref.ts'],[('component worklist',OG+'cli.ts'),('getUniqueComponentName',OG+'cli.ts')],['document printed by the command line tool'])
prop('C30','Documentation blocks are parsed into summary, description, tags and example',
 'Parsing a documentation block yields the first text line as summary, the following text lines as description, every tag with its full text, and the example either as the JSON value it spells, on one or several lines, or as its verbatim text. Text belonging to an example never leaks into other tags, and an incomplete example is refused.',
 ['inputs'],'all comment blocks',
 'Tests parse about ten fixed comments.',
 [OG+'jsdoc.ts'],[('parseCommentBlock',OG+'jsdoc.ts')],['parseCommentBlock result'])
prop('C31','Object, array and template expressions keep every element in order',
 'Translating source expressions keeps every property of an object literal with its own value and name (identifiers, strings, numbers, computed literals), applies spreads so that later entries win, keeps every element of an array literal in order with spreads expanded, and turns a template literal into the concatenation of its parts. Literals become single-value types of their own kind, and unsupported constructs are reported as errors rather than dropped.',
 ['programs'],'all expressions of the supported grammar',
 'Tests translate a few dozen fixed snippets.',
 [OG+'codec.ts'],[('parseObjectExpression, parseArrayExpression, parseTemplateLiteral, parsePlainInitializer',OG+'codec.ts')],['parsePlainInitializer result'])
prop('C32','Every operation of an API specification is found, in order, or it is an error',
 'Parsing an API specification yields one route per declared operation and method, in source order, with spread specifications expanded in place and identifiers resolved, each carrying its own documentation comment. Anything that cannot be understood makes the whole parse fail with an error; an operation is never silently dropped.',
 ['programs'],'all specification expressions',
 'Tests parse a few fixed specifications.',
 [OG+'apiSpec.ts'],[('parseApiSpec',OG+'apiSpec.ts')],['parseApiSpec result'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
