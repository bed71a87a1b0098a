"""base theory: machine integers with C++ semantics (generated text)"""
def base():
    o = ['''module Base
use int.Int
use int.EuclideanDivision
use int.ComputerDivision as CD
use ref.Ref
predicate canary_ int
exception Cxx_throw
type str_
val any_str () : str_
val any_int () : int
val any_bool () : bool
val beq (a b: bool) : bool ensures { result <-> (a <-> b) }
function pw2 int : int
axiom pw2_pos: forall k: int [pw2 k]. 0 <= k -> 1 <= pw2 k
axiom pw2_0: pw2 0 = 1
axiom pw2_32: pw2 32 = 4294967296
axiom pw2_63: pw2 63 = 9223372036854775808
axiom pw2_64: pw2 64 = 18446744073709551616
val ghost pw2_step (k: int) : unit requires { 0 <= k } ensures { pw2 (k + 1) = 2 * pw2 k }
val ghost pw2_add (a b: int) : unit requires { 0 <= a } requires { 0 <= b } ensures { pw2 (a + b) = pw2 a * pw2 b }
function bandf int int : int
function borf int int : int
function bxorf int int : int
axiom band_bound: forall a b: int [bandf a b]. 0 <= a -> 0 <= b -> 0 <= bandf a b <= a /\\ bandf a b <= b
axiom bor_bound: forall a b: int [borf a b]. 0 <= a -> 0 <= b -> a <= borf a b <= a + b /\\ b <= borf a b
axiom bor_disjoint: forall h l k: int [borf (h * pw2 k) l]. 0 <= h -> 0 <= k -> 0 <= l < pw2 k -> borf (h * pw2 k) l = h * pw2 k + l
axiom bor_disjoint64: forall a l: int [borf a l]. 0 <= a -> 0 <= l < 18446744073709551616 -> mod a 18446744073709551616 = 0 -> borf a l = a + l
axiom bxor_bound: forall a b: int [bxorf a b]. 0 <= a -> 0 <= b -> 0 <= bxorf a b <= a + b
val band (a b: int) : int requires { [@expl:nonnegative operands of & (or a single bit)] (0 <= a /\\ 0 <= b) \\/ a = 0 \\/ a = 1 } ensures { result = bandf a b } ensures { a = 0 -> result = 0 } ensures { a = 1 -> result = mod b 2 }
val bor (a b: int) : int requires { [@expl:nonnegative operands of |] 0 <= a /\\ 0 <= b } ensures { result = borf a b }
axiom bxor_sign: forall a b: int [bxorf a b]. bxorf a b < 0 <-> ((a < 0 /\\ 0 <= b) \\/ (0 <= a /\\ b < 0))
val bxor (a b: int) : int ensures { result = bxorf a b }
(* floor division / remainder by a positive constant: >> k and & (2^k - 1) *)
val divk (a k: int) : int requires { k > 0 } ensures { result = div a k } ensures { a = k * result + mod a k } ensures { 0 <= mod a k < k } ensures { 0 <= a -> 0 <= result <= a } ensures { a < k /\\ 0 <= a -> result = 0 }
val modk (a k: int) : int requires { k > 0 } ensures { result = mod a k } ensures { a = k * div a k + result } ensures { 0 <= result < k }
function clzf int : int
axiom clz_def: forall x: int [clzf x]. 0 < x < 18446744073709551616 -> 0 <= clzf x <= 63 /\\ 9223372036854775808 <= x * pw2 (clzf x) < 18446744073709551616
val clz64 (x: int) : int requires { [@expl:clz of nonzero] 0 < x < 18446744073709551616 } ensures { result = clzf x } ensures { 0 <= result <= 63 } ensures { 9223372036854775808 <= x * pw2 result < 18446744073709551616 }
val shl_u64 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 64 } ensures { result = mod (a * pw2 k) 18446744073709551616 } ensures { 0 <= a * pw2 k < 18446744073709551616 -> result = a * pw2 k } ensures { 0 <= result < 18446744073709551616 }
val shr_u64 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 64 } ensures { result = div a (pw2 k) } ensures { 0 <= a -> 0 <= result <= a } ensures { result * pw2 k <= a < (result + 1) * pw2 k }
val shr_i64 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 64 } ensures { result = div a (pw2 k) }
val shl_i64 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 64 } requires { [@expl:signed shift overflow] 0 <= a /\\ a * pw2 k < 9223372036854775808 } ensures { result = a * pw2 k }
val shl_i32 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 32 } requires { [@expl:signed shift overflow] 0 <= a /\\ a * pw2 k < 2147483648 } ensures { result = a * pw2 k }
val shr_i32 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 32 } ensures { result = div a (pw2 k) }
val shr_u32 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 32 } ensures { result = div a (pw2 k) }
val shl_u32 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 32 } ensures { result = mod (a * pw2 k) 4294967296 }
val shl_u128 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 128 } ensures { result = mod (a * pw2 k) 340282366920938463463374607431768211456 }
val shr_u128 (a k: int) : int requires { [@expl:shift amount] 0 <= k < 128 } ensures { result = div a (pw2 k) }
''']
    ts = [('i8', 8, True), ('u8', 8, False), ('i16', 16, True), ('u16', 16, False), ('i32', 32, True), ('u32', 32, False), ('i64', 64, True), ('u64', 64, False), ('i128', 128, True), ('u128', 128, False)]
    for n, b, sg in ts:
        lo, hi = (-(1 << (b-1)), (1 << (b-1))-1) if sg else (0, (1 << b)-1)
        M = 1 << b
        d = dict(n=n, lo='(%d)' % lo if lo < 0 else '0', hi=hi, M=M, H=M//2, e=hi+1)
        o.append('predicate in_{n} (x: int) = {lo} <= x <= {hi}'.format(**d))
        o.append('val in_range_{n} (x: int) : bool ensures {{ result <-> in_{n} x }}'.format(**d))
        o.append('val any_{n} () : int ensures {{ in_{n} result }}'.format(**d))
        o.append('val rd_{n} (x: int) : int ensures {{ result = x }} ensures {{ in_{n} result }}'.format(**d))
        if sg:
            o.append('val wrap_{n} (x: int) : int ensures {{ in_{n} result }} ensures {{ in_{n} x -> result = x }} ensures {{ mod result {M} = mod x {M} }}'.format(**d))
            for nm, op in (('add', 'a + b'), ('sub', 'a - b'), ('mul', 'a * b')):
                o.append('val {nm}_{n} (a b: int) : int requires {{ [@expl:signed overflow] in_{n} ({op}) }} ensures {{ result = {op} }}'.format(nm=nm, op=op, **d))
            o.append('val div_{n} (a b: int) : int requires {{ [@expl:division by zero] b <> 0 }} requires {{ [@expl:signed overflow] not (a = {lo} /\\ b = -1) }} ensures {{ result = CD.div a b }} ensures {{ a >= 0 /\\ b > 0 -> result = div a b }} ensures {{ in_{n} a -> in_{n} result }}'.format(**d))
            o.append('val rem_{n} (a b: int) : int requires {{ [@expl:division by zero] b <> 0 }} requires {{ [@expl:signed overflow] not (a = {lo} /\\ b = -1) }} ensures {{ result = CD.mod a b }} ensures {{ a >= 0 /\\ b > 0 -> result = mod a b }} ensures {{ a = b * CD.div a b + result }} ensures {{ in_{n} b -> in_{n} result }}'.format(**d))
        else:
            o.append('val wrap_{n} (x: int) : int ensures {{ in_{n} result }} ensures {{ in_{n} x -> result = x }} ensures {{ result = mod x {M} }}'.format(**d))
            o.append('val add_{n} (a b: int) : int ensures {{ result = (if a + b < {M} then a + b else a + b - {M}) }} ensures {{ 0 <= a < {M} /\\ 0 <= b < {M} -> in_{n} result }}'.format(**d))
            o.append('val sub_{n} (a b: int) : int ensures {{ result = (if a >= b then a - b else a - b + {M}) }} ensures {{ 0 <= a < {M} /\\ 0 <= b < {M} -> in_{n} result }}'.format(**d))
            o.append('val mul_{n} (a b: int) : int ensures {{ result = mod (a * b) {M} }} ensures {{ 0 <= a * b < {M} -> result = a * b }} ensures {{ in_{n} result }}'.format(**d))
            o.append('val div_{n} (a b: int) : int requires {{ [@expl:division by zero] b <> 0 }} ensures {{ result = div a b }} ensures {{ a >= 0 /\\ b > 0 -> 0 <= result <= a /\\ a = b * result + mod a b /\\ 0 <= mod a b < b }}'.format(**d))
            o.append('val rem_{n} (a b: int) : int requires {{ [@expl:division by zero] b <> 0 }} ensures {{ result = mod a b }} ensures {{ a >= 0 /\\ b > 0 -> 0 <= result < b /\\ result <= a /\\ a = b * div a b + result }}'.format(**d))
            o.append('val shl_{n}_k (a k: int) : int ensures {{ result = mod (a * k) {M} }} ensures {{ 0 <= a * k < {M} -> result = a * k }} ensures {{ in_{n} result }}'.format(**d))
    for n, b, sg in ts:
        for n2, b2, sg2 in ts:
            lo, hi = (-(1 << (b-1)), (1 << (b-1))-1) if sg else (0, (1 << b)-1)
            lo2, hi2 = (-(1 << (b2-1)), (1 << (b2-1))-1) if sg2 else (0, (1 << b2)-1)
            if lo2 <= lo and hi <= hi2: continue
            M2 = 1 << b2
            x = 'val cv_%s_%s (x: int) : int ensures { in_%s result } ensures { in_%s x -> result = x }' % (n, n2, n2, n2)
            if b == b2:
                if sg: x += ' ensures { x < 0 -> result = x + %d }' % M2
                else: x += ' ensures { x > %d -> result = x - %d }' % (hi2, M2)
            elif not sg2:
                x += ' ensures { result = mod x %d } ensures { x = %d * div x %d + result }' % (M2, M2, M2)
                if sg and b < b2: x += ' ensures { x < 0 -> result = x + %d }' % M2
            else:
                x += ' ensures { mod result %d = mod x %d }' % (M2, M2)
            o.append(x)
    o.append('end')
    return '\n'.join(o)
if __name__ == '__main__': print(base())
