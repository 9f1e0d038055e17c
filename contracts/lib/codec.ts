// Arbitrary codecs: what they accept, decode and encode is uninterpreted; results do not depend on the error context.
import { S } from 'ghost';
export const either = S.union(S.obj({ _tag: S.lit('Right'), right: S.any }), S.obj({ _tag: S.lit('Left'), left: S.array(S.obj({ value: S.any }), 1) }));
export const codec = S.obj({
  name: S.str,
  is: S.fn({ pure: true, result: S.bool }),
  validate: S.fn({ pure: true, args: 1, result: either }),
  encode: S.fn({ pure: true }),
});
export const input = S.union(S.record(S.any), S.undef, S.null, S.str, S.num, S.bool, S.array(S.any));
