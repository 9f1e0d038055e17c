// C19: status names and codes correspond one to one everywhere.
// @check {"seconds": 10, "budget": 200}
import { contract, ensures, any, anyString, anyIndex, S, same } from 'ghost';
import { HttpToKeyStatus, KeyToHttpStatus, Response as HttpResponse } from 'repo/io-ts-http/src/index.ts';
import { Response, KeyedResponse } from 'repo/response/src/index.ts';

// the registered status codes under the names this project gives them (http.STATUS_CODES in lower camel case, but for
// invalidRequest, unauthenticated, permissionDenied, contentTooLarge, exceptionFailed, unprocessableContent,
// rateLimitExceeded, internalError)
const STATUS: any[] = [
  [100, 'continue'],
  [101, 'switchingProtocols'],
  [102, 'processing'],
  [200, 'ok'],
  [201, 'created'],
  [202, 'accepted'],
  [203, 'nonAuthoritativeInformation'],
  [204, 'noContent'],
  [205, 'resetContent'],
  [206, 'partialContent'],
  [207, 'multiStatus'],
  [208, 'alreadyReported'],
  [226, 'imUsed'],
  [300, 'multipleChoices'],
  [301, 'movedPermanently'],
  [302, 'found'],
  [303, 'seeOther'],
  [304, 'notModified'],
  [307, 'temporaryRedirect'],
  [308, 'permanentRedirect'],
  [400, 'invalidRequest'],
  [401, 'unauthenticated'],
  [402, 'paymentRequired'],
  [403, 'permissionDenied'],
  [404, 'notFound'],
  [405, 'methodNotAllowed'],
  [406, 'notAcceptable'],
  [407, 'proxyAuthenticationRequired'],
  [408, 'requestTimeout'],
  [409, 'conflict'],
  [410, 'gone'],
  [411, 'lengthRequired'],
  [412, 'preconditionFailed'],
  [413, 'contentTooLarge'],
  [414, 'uriTooLong'],
  [415, 'unsupportedMediaType'],
  [416, 'rangeNotSatisfiable'],
  [417, 'exceptionFailed'],
  [418, 'imATeapot'],
  [421, 'misdirectedRequest'],
  [422, 'unprocessableContent'],
  [423, 'locked'],
  [424, 'failedDependency'],
  [425, 'tooEarly'],
  [426, 'upgradeRequired'],
  [428, 'preconditionRequired'],
  [429, 'rateLimitExceeded'],
  [431, 'requestHeaderFieldsTooLarge'],
  [451, 'unavailableForLegalReasons'],
  [500, 'internalError'],
  [501, 'notImplemented'],
  [502, 'badGateway'],
  [503, 'serviceUnavailable'],
  [504, 'gatewayTimeout'],
  [505, 'httpVersionNotSupported'],
  [506, 'variantAlsoNegotiates'],
  [507, 'insufficientStorage'],
  [508, 'loopDetected'],
  [510, 'notExtended'],
  [511, 'networkAuthenticationRequired'],
];
const CODE: any = Object.fromEntries(STATUS.map(([code, name]) => [name, code]));
const NAME: any = Object.fromEntries(STATUS);
const toName: any = HttpToKeyStatus;
const toCode: any = KeyToHttpStatus;

contract('C19', 'the tables', () => {
  for (const [code, name] of STATUS) {
    ensures('the name of ' + code, toName[code] === name);
    ensures('the code of ' + name, toCode[name] === code);
  }
});
contract('C19', 'the tables have no other entries', () => {
  const code = anyString('code', HttpToKeyStatus);
  ensures('codes', code in toName === code in NAME);
  const name = anyString('name', KeyToHttpStatus);
  ensures('names', name in toCode === name in CODE);
  // the tables are inverse to each other
  if (code in toName) ensures('inverse on codes', String(toCode[toName[code]]) === code);
  if (name in toCode) ensures('inverse on names', toName[toCode[name]] === name);
});
contract('C19', 'the response helpers', () => {
  const payload = any('payload', S.any);
  for (const [code, name] of STATUS) {
    same('io-ts-http Response.' + name, (HttpResponse as any)[name](payload), { type: code, payload });
    same('response Response.' + name, (Response as any)[name](payload), { type: code, payload });
    same('response KeyedResponse.' + name, (KeyedResponse as any)[name](payload), { type: name, payload });
  }
});
contract('C19', 'there are no other helpers', () => {
  for (const [what, helpers] of [['io-ts-http', HttpResponse], ['response', Response], ['keyed response', KeyedResponse]] as any[]) {
    const name = anyString('helper', helpers);
    ensures('helpers of ' + what, name in helpers === name in CODE);
  }
});
