"""Zp and inv_prime (number.hh): prime-field arithmetic on machine words."""
import re
from trans import *
from zzt import *
cfg = dict(
  tu='zp.cc',
  roots=['clpoly::Zp::*', 'clpoly::zore_check::*', 'clpoly::inv_prime', 'clpoly::pow', 'clpoly::addmul', 'clpoly::submul', 'clpoly::__div', 'clpoly::operator*'],
  abbr=[('clpoly::ZZ', 'Z'), ('clpoly::Zp', 'Zp')],
  types={'Z': INTZ, 'Zp': 'zp'},
  globals={'clpoly::Zp::_s_prime': 's_prime'},
)
cfg['prelude0'] = ZZP + '\nval ref s_prime : int\n'
cfg['modules'] = r'''
module ZP
use int.Int
use int.EuclideanDivision
use Base
use Ty0
use Ty
  constant bB : int = 18446744073709551616
  (* v is the normalised reciprocal of d: v = floor((B^2-1)/d) - B *)
  predicate isv (d v: int) = 9223372036854775808 <= d < bB /\ 0 <= v < bB /\ 1 <= bB * bB - (bB + v) * d <= d
  predicate pre_ok (p ninv norm: int) = (p = 0 /\ ninv = 0 /\ norm = 0) \/ (2 <= p < bB /\ norm = clzf p /\ isv (p * pw2 norm) ninv)
  predicate zok (z: zp) = pre_ok z.zp_p z.zp_ninv z.zp_norm /\ in_u64 z.zp_p /\ in_u64 z.zp_i /\ (z.zp_p <> 0 -> z.zp_i < z.zp_p) /\ (z.zp_p = 0 -> z.zp_i = 0)
  predicate zokn (z: zp) = zok z /\ z.zp_p <> 0
  predicate same_mod (a b: zp) = a.zp_p = b.zp_p /\ a.zp_ninv = b.zp_ninv /\ a.zp_norm = b.zp_norm
  let ghost mod_uniq (p q r: int) requires { 0 <= r < p } ensures { mod (p * q + r) p = r } ensures { div (p * q + r) p = q }
  = assert { mod (p * q + r) p = mod r p }; assert { mod r p = r }; assert { p * q + r = p * div (p*q+r) p + r }; assert { p * (q - div (p*q+r) p) = 0 }
  lemma div_mod_p: forall a p: int [mod a p]. p > 0 -> a = p * div a p + mod a p /\ 0 <= mod a p < p
  let ghost mul_le (a b c: int) requires { a <= b } requires { c >= 0 } ensures { a * c <= b * c } = ()
  let ghost mod_add_mult (a p k: int) requires { p > 0 } ensures { mod (a + p * k) p = mod a p }
  = assert { a + p * k = p * (div a p + k) + mod a p }; mod_uniq p (div a p + k) (mod a p)
  let ghost mod_mul_l (a b p: int) requires { p > 0 } ensures { mod (mod a p * b) p = mod (a * b) p }
  = assert { a * b = mod a p * b + p * (div a p * b) }; mod_add_mult (mod a p * b) p (div a p * b)
  let ghost mod_mul_both (a b p: int) requires { p > 0 } ensures { mod (mod a p * mod b p) p = mod (a * b) p }
  = mod_mul_l a (mod b p) p; assert { a * mod b p = mod b p * a }; mod_mul_l b a p; assert { b * a = a * b }
  let ghost alg (d: int) ensures { (d - 1) * d + (bB - 1) * (bB - d) - bB * d = (bB - d) * (bB - d) - bB } = assert { (d - 1) * d = d * d - d }; assert { (bB - 1) * (bB - d) = bB * bB - bB * d - bB + d }; assert { (bB - d) * (bB - d) = bB * bB - 2 * bB * d + d * d }
  let ghost lin (a b c d e x y z: int) requires { a = b + c + d - e } requires { b <= x } requires { c <= y } requires { x + y - e = z - bB } ensures { a < z + d } = ()
  (* uniqueness of quotient and remainder with modulus 2^64 *)
  let ghost moller (hi lo d v q1 q0 r: int)
    requires { isv d v } requires { 0 <= hi < d } requires { 0 <= lo < bB } requires { 0 <= q0 < bB }
    requires { q1 * bB + q0 = v * hi + hi * bB + lo }
    requires { r = hi * bB + lo - (q1 + 1) * d }
    ensures { r >= - d } ensures { r > q0 - bB } ensures { r < bB - d \/ r < q0 } ensures { r < bB } ensures { 0 <= q1 < bB }
  = let ghost k = bB * bB - (bB + v) * d in
    assert { d * (q1 * bB) = d * (v * hi + hi * bB + lo - q0) };
    assert { bB * r = hi * bB * bB + lo * bB - d * (v * hi + hi * bB + lo - q0) - bB * d };
    assert { bB * r = hi * k + lo * (bB - d) + q0 * d - bB * d };
    assert { hi * k >= 0 }; assert { lo * (bB - d) >= 0 };
    assert { bB * r >= (q0 - bB) * d };
    assert { (q0 - bB) * d >= - bB * d by q0 * d >= 0 };
    assert { r >= - d };
    assert { (bB - q0) * d < (bB - q0) * bB };
    assert { bB * r > (q0 - bB) * bB }; 
    mul_le k d hi; mul_le hi (d - 1) d; assert { hi * k <= (d - 1) * d };
    mul_le lo (bB - 1) (bB - d); assert { lo * (bB - d) <= (bB - 1) * (bB - d) };
    alg d;
    lin (bB * r) (hi * k) (lo * (bB - d)) (q0 * d) (bB * d) ((d - 1) * d) ((bB - 1) * (bB - d)) ((bB - d) * (bB - d)); assert { bB * r < (bB - d) * (bB - d) + q0 * d };
    assert { q0 <= bB - d -> q0 * d <= (bB - d) * d };
    assert { q0 <= bB - d -> bB * r < (bB - d) * bB };
    (if q0 >= bB - d then mul_le (bB - d) q0 (bB - d));
    assert { q0 >= bB - d -> bB * r < q0 * bB };
    assert { q1 * bB >= 0 - bB + 1 by v * hi >= 0 /\ hi * bB >= 0 };
    assert { bB * bB - 1 >= (bB + v) * d };
    assert { (bB + v) * hi <= (bB + v) * (d - 1) };
    assert { q1 * bB < bB * bB }
  (* the scaled product reduced modulo p * 2^n, shifted back, is the product modulo p *)
  let ghost unscale (a b p s r k: int)
    requires { p > 0 } requires { s > 0 } requires { 0 <= r < p * s } requires { a * s * b = k * (p * s) + r }
    ensures { div r s = mod (a * b) p } ensures { mod r s = 0 } ensures { 0 <= div r s < p }
  = assert { r = s * (a * b - k * p) + 0 by a * s * b = s * (a * b) /\ k * (p * s) = s * (k * p) };
    mod_uniq s (a * b - k * p) 0;
    assert { div r s = a * b - k * p };
    assert { 0 <= a * b - k * p by s * (a * b - k * p) >= 0 };
    assert { a * b - k * p < p by s * (a * b - k * p) < s * p };
    assert { a * b = p * k + (a * b - k * p) };
    mod_uniq p k (a * b - k * p)
  let ghost mul_lt2 (a b: int) requires { 0 <= a } requires { b < bB } ensures { a * b <= a * bB } = ()
  (* machine word of hi*B + lo - (q+1)*d when that difference is in (-B, B) *)
  let ghost low_word (lo hi q qw d rr r: int)
    requires { rr = hi * bB + lo - q * d } requires { - bB < rr < bB } requires { 0 <= lo < bB }
    requires { 0 <= r < bB } requires { 0 <= q <= bB } requires { qw = if q < bB then q else q - bB }
    requires { r = if lo >= mod (qw * d) bB then lo - mod (qw * d) bB else lo - mod (qw * d) bB + bB }
    ensures { r = (if rr >= 0 then rr else rr + bB) }
  = (if q < bB then mod_uniq bB 0 q else mod_uniq bB 1 0); assert { qw = mod q bB }; mod_mul_l q d bB;
    let ghost m = mod (q * d) bB in
    let ghost t = div (q * d) bB in
    assert { q * d = bB * t + m };
    assert { rr = bB * (hi - t) + (lo - m) };
    assert { -1 <= hi - t <= 1 }
  predicate dv (d a: int) = d > 0 /\ mod a d = 0
  let lemma dv_lin (d a q c: int) requires { dv d a } requires { dv d c } ensures { dv d (a * q + c) }
  = let ghost x = div a d in let ghost y = div c d in
    assert { a = d * x }; assert { c = d * y }; assert { a * q = d * (x * q) };
    assert { a * q + c = d * (x * q + y) + 0 }; mod_uniq d (x * q + y) 0
  predicate cop (a b: int) = forall d: int [dv d a, dv d b]. d > 0 -> dv d a -> dv d b -> d = 1
  let ghost cop_step (a b q c: int) requires { cop a b } requires { a = b * q + c } ensures { cop b c }
  = let lemma aux (d: int) requires { dv d b } requires { dv d c } ensures { dv d a } = dv_lin d b q c in ()
  let ghost cop_end (a b q: int) requires { cop a b } requires { a = b * q } requires { b > 0 } ensures { b = 1 }
  = mod_uniq b 1 0; assert { dv b b by b = b * 1 + 0 }; mod_uniq b q 0; assert { dv b a by a = b * q + 0 }
  let ghost mod_congr (a b c p: int) requires { p > 0 } requires { mod a p = mod b p } ensures { mod (a * c) p = mod (b * c) p }
  = let ghost x = div a p in let ghost y = div b p in let ghost r = mod a p in
    assert { a = p * x + r }; assert { b = p * y + r };
    assert { a * c = b * c + p * ((x - y) * c) }; mod_add_mult (b * c) p ((x - y) * c)
  let ghost mod_eq (a p q r: int) requires { 0 <= r < p } requires { a = p * q + r } ensures { mod a p = r } ensures { div a p = q } = mod_uniq p q r
  let ghost mod_abs (i p: int) requires { p > 0 } ensures { i < 0 -> mod i p = (if mod (- i) p = 0 then 0 else p - mod (- i) p) }
  = if i < 0 then begin let ghost q = div (- i) p in let ghost r = mod (- i) p in assert { - i = p * q + r };
      if r = 0 then mod_eq i p (- q) 0 else mod_eq i p (- q - 1) (p - r) end
  predicate isprime (p: int) = p >= 2 /\ forall d: int [dv d p]. d > 0 -> dv d p -> d = 1 \/ d = p
  let ghost prime_cop (p i: int) requires { isprime p } requires { 0 < i < p } ensures { cop p i }
  = assert { not (dv p i) by mod i p = i }
  let ghost inv_div (a b v r p: int) requires { p > 0 } requires { 0 <= a < p } requires { mod (v * b) p = 1 } requires { r = mod (a * v) p } ensures { mod (r * b) p = a }
  = mod_mul_l (a * v) b p; assert { a * v * b = v * b * a }; mod_mul_l (v * b) a p; mod_uniq p 0 a
  let ghost mul_congr (m z a b x y p: int) requires { p > 0 } requires { mod m p = mod z p } requires { mod a p = mod b p } requires { x = m * a } requires { y = z * b } ensures { mod x p = mod y p }
  = let ghost s = div m p - div z p in let ghost t = div a p - div b p in
    assert { m = z + p * s }; assert { a = b + p * t };
    assert { x = m * b + p * (m * t) }; assert { m * b = y + p * (s * b) }; assert { x = y + p * (m * t + s * b) }; mod_add_mult y p (m * t + s * b)
  function pw (z k: int) : int
  axiom pw_0: forall z: int [pw z 0]. pw z 0 = 1
  val ghost pw_s (z k: int) : unit requires { k >= 1 } ensures { pw z k = z * pw z (k-1) }
  let rec ghost power_mod (z m p k: int) requires { p > 0 } requires { k >= 0 } requires { mod m p = mod z p } ensures { mod (pw m k) p = mod (pw z k) p } variant { k }
  = if k > 0 then begin power_mod z m p (k-1); pw_s m k; pw_s z k; mul_congr m z (pw m (k-1)) (pw z (k-1)) (pw m k) (pw z k) p end else assert { k = 0 }
  let rec ghost power_dbl (z k: int) requires { k >= 0 } ensures { pw z (2 * k) = pw (z * z) k } variant { k }
  = if k > 0 then begin power_dbl z (k-1); pw_s (z * z) k; pw_s z (2 * k); pw_s z (2 * k - 1); 
       assert { pw z (2 * k) = z * (z * pw z (2 * (k-1))) } end else assert { k = 0 /\ 2 * k = 0 }
  (* one square-and-multiply step *)
  let ghost pow_step (o z k o1 z1 k1 p: int) requires { p > 1 } requires { k > 0 } requires { k1 = div k 2 }
    requires { if mod k 2 <> 0 then o1 = mod (o * z) p else o1 = o } requires { k1 > 0 -> z1 = mod (z * z) p } requires { k1 = 0 -> z1 = z }
    ensures { mod (o1 * pw z1 k1) p = mod (o * pw z k) p }
  = let ghost r = mod k 2 in assert { k = 2 * k1 + r }; assert { r = 0 \/ r = 1 };
    power_dbl z k1; if r = 1 then pw_s z k;
    let ghost sq = pw (z * z) k1 in
    (if k1 > 0 then power_mod (z * z) z1 p k1 else (assert { k1 = 0 }; assert { pw z1 k1 = 1 }; assert { sq = 1 }));
    if r = 0 then begin assert { pw z k = sq }; mul_congr o1 o (pw z1 k1) sq (o1 * pw z1 k1) (o * pw z k) p end
    else begin assert { pw z k = z * sq }; mod_uniq p (div (o * z) p) (mod (o * z) p); assert { mod o1 p = mod (o * z) p };
      assert { o * pw z k = (o * z) * sq };
      let ghost lhs = o1 * pw z1 k1 in let ghost rhs = o * pw z k in
      mul_congr o1 (o * z) (pw z1 k1) sq lhs rhs p; assert { mod lhs p = mod rhs p } end
end
'''
cfg['lemma_modules'] = []
cfg['use'] = ['ZP']
cfg['templates'] = ZZT
F = []
Z = 'clpoly::Zp::'
def fn(*a, **k): F.append(Fn(*a, **k))
fn('inv_prime', 'clpoly::inv_prime', None, ['i', 'p'],
   requires=['1 <= i < p', 'cop p i'],
   ensures=[('inverse', 'mod (result * i) p = 1'), ('range', '0 <= result < p')],
   ghost={'entry': 'let ghost ref k1 = -1 in let ghost ref k2 = 0 in',
     'loop1.begin': ['let ghost oa = a in', 'let ghost ob = b in', 'let ghost os1 = s1 in', 'let ghost os2 = s2 in', 'let ghost ok1 = k1 in'],
     'loop1.end': ['cop_step oa ob q b', 'assert { os2 * q = p * div (os2 * q) p + sq_mod }',
        'let ghost dq = div (os2 * q) p in', 'let ghost ok2 = k2 in', 'let ghost dl = (if os1 >= sq_mod then 0 else 1) in',
        'assert { s2 = os1 - os2 * q + p * dq + p * dl }',
        'assert { s2 * i = os1 * i - (os2 * i) * q + p * ((dq + dl) * i) }', 'assert { os2 * i * q = ob * q + p * (ok2 * q) }',
        'k1 <- k2', 'k2 <- ok1 - ok2 * q + (dq + dl) * i',
        'assert { s2 * i = b + p * k2 }'],
     'exit': ['cop_end a b (div a b)', 'mod_uniq p k2 1']},
   loops={1: dict(inv=['1 <= b < a', '0 <= s1 < p', '0 <= s2 < p', ('bezout a', 's1 * i = a + p * k1'), ('bezout b', 's2 * i = b + p * k2'), ('coprime', 'cop a b')], var='b')})
fn('preinvert', Z+'__preinvert_limb', None, ['pn'], requires=['9223372036854775808 <= pn < bB'], ensures=[('reciprocal', 'isv pn result')])
fn('precompute', Z+'__precompute', None, ['p', 'ninv', 'norm'], requires=['p <> 1'], ensures=[('reciprocal', 'pre_ok p ninv norm')])
fn('nmod_mul', Z+'__nmod_mul', None, ['this', 'a', 'b'], requires=['zokn this', 'a < this.zp_p'],
   ensures=[('product', 'result = mod (a * b) this.zp_p'), ('range', '0 <= result < this.zp_p')],
   ghost={'decl:a_shifted': ['let ghost sc = pw2 this.zp_norm in', 'assert { pn = this.zp_p * sc }', 'mul_le a (this.zp_p - 1) sc', 'assert { a_shifted = a * sc }'],
     'decl:prod': ['mul_le a_shifted (pn - 1) b', 'mul_lt2 (pn - 1) b', 'assert { prod = a_shifted * b }', 'assert { prod <= (pn - 1) * bB }'],
     'decl:lo': ['assert { prod = hi * bB + lo }', 'assert { 0 <= hi < pn }'],
     'decl:qm': ['assert { qm = hi * this.zp_ninv }'],
     'decl:q0': ['assert { qm = q1 * bB + q0 }', 'let ghost carry = (if q0 + lo >= bB then 1 else 0) in',
        'let ghost fq1 = q1 + hi + carry in', 'let ghost fq0 = q0 + lo - carry * bB in',
        'let ghost rr = prod - (fq1 + 1) * pn in', 'moller hi lo pn this.zp_ninv fq1 fq0 rr'],
     'decl:r': ['assert { q1 = fq1 && q0 = fq0 }', 'low_word lo hi (fq1 + 1) (if fq1 + 1 < bB then fq1 + 1 else fq1 + 1 - bB) pn rr r', 'assert { r = (if rr >= 0 then rr else rr + bB) }', 'let ghost ref kk = fq1 + 1 in', 'if rr < 0 then kk <- fq1 else if r > q0 then kk <- fq1',
        'if kk = fq1 then (if rr + pn >= pn then kk <- fq1 + 1) else (if rr >= pn then kk <- fq1 + 2)', 'let ghost fr_ = prod - kk * pn in'],
     'exit': ['assert { r = fr_ }', 'assert { 0 <= r < pn }', 'unscale a b this.zp_p sc r kk', 'assert { res_ = div r sc }']})


U='unsigned long'
def ct(nm, params, names, val, req=['p >= 2'], gh=None, **k):
    fn('z_ctor_'+nm, Z+'ctor', r'ctor\(%s\)$' % params, ['this']+names, requires=req, ensures=[('wf', 'zok this'), ('residue', val)], ghost=gh, **k)
ct('0', '', [], 'this.zp_i = 0 /\\ this.zp_p = s_prime', req=['s_prime <> 1'], reads=['s_prime'])
ct('p', U, ['p'], 'this.zp_i = 0 /\\ this.zp_p = p', req=['p <> 1'])
IP = 'this.zp_i = mod i p /\\ this.zp_p = p'
NEG = ['mod_abs i p']
ct('u', U+', '+U, ['i', 'p'], IP)
ct('i', 'long, '+U, ['i', 'p'], IP, gh={'exit': NEG})
ct('int', 'int, '+U, ['i', 'p'], IP)
ct('Z', 'const Z &, '+U, ['i', 'p'], IP)
def me(nm, sig, names, req, ens, gh=None, **k):
    fn('z_'+nm, Z+sig.split('(')[0], re.escape(sig.split('(')[0]) + r'\(' + re.escape('('.join(sig.split('(')[1:])), ['this']+names, requires=req, ensures=ens, ghost=gh, **k)
WF = ('wf', 'zok this'); SM = ('modulus kept', 'same_mod this this_0')
RW = ('wf', 'zok result'); RM = ('modulus kept', 'same_mod result this')
me('inv', 'inv(', [], ['zokn this', 'cop this.zp_p this.zp_i', 'this.zp_i <> 0'], [RW, ('modulus kept', 'result.zp_p = this.zp_p'), ('inverse', 'mod (result.zp_i * this.zp_i) this.zp_p = 1')])
AS = [WF, SM, ('residue', 'this.zp_p <> 0 -> this.zp_i = mod i this.zp_p')]
me('set_i', r'operator=(long', ['i'], ['zok this', 'this.zp_p = 0 -> i = 0'], AS, gh={'exit': ['if this.zp_p <> 0 then mod_abs i this.zp_p']})
me('set_Z', r'operator=(const Z', ['i'], ['zok this', 'this.zp_p = 0 -> i = 0'], AS)
me('norm', 'normalization(', [], ['pre_ok this.zp_p this.zp_ninv this.zp_norm', 'this.zp_p <> 0'], [WF, SM, ('residue', 'this.zp_i = mod this_0.zp_i this.zp_p')])
me('set_prime', 'prime(unsigned', ['p'], ['p <> 1', 'zok this', 'p = 0 \\/ this.zp_i < p', 'p = 0 -> this.zp_i = 0'], [WF, ('prime', 'this.zp_p = p /\\ this.zp_i = this_0.zp_i')])
me('neg', 'operator-()', [], ['zok this'], [RW, RM, ('negation', 'this.zp_p <> 0 -> result.zp_i = mod (- this.zp_i) this.zp_p')], gh={'exit': ['if this.zp_p <> 0 then (if this.zp_i = 0 then mod_uniq this.zp_p 0 0 else mod_uniq this.zp_p (-1) (this.zp_p - this.zp_i))']})
SP = 'op1.zp_p = op2.zp_p'
def bi(nm, op, sig, ens, gh=None, req=[], mem=None, names=['op1', 'op2'], w='zok'):
    fn('z_'+nm, 'clpoly::operator'+op, r'operator%s\(%s\)' % (re.escape(op), sig), names, requires=['%s op1' % w, 'zok op2', SP]+req, ensures=ens, ghost=gh)
ZZs = 'Zp, const Zp &'; B2 = 'const Zp &, const Zp &'
O = [('wf', 'zok result'), ('modulus kept', 'same_mod result op1_0')]
PP = 'op1.zp_p <> 0 -> '
ADDG = 'if op2.zp_p <> 0 then (if %s + op2.zp_i < op2.zp_p then mod_uniq op2.zp_p 0 (%s + op2.zp_i) else mod_uniq op2.zp_p 1 (%s + op2.zp_i - op2.zp_p))'
SUBG = 'if op2.zp_p <> 0 then (if %s >= op2.zp_i then mod_uniq op2.zp_p 0 (%s - op2.zp_i) else mod_uniq op2.zp_p (-1) (%s - op2.zp_i + op2.zp_p))'
A1 = 'op1_0.zp_i'
def vals(f): return [('residue', 'op1_0.zp_p <> 0 -> result.zp_i = mod (%s) op1_0.zp_p' % f)]
bi('add', '+', ZZs, O+vals('op1_0.zp_i + op2.zp_i'), gh={'exit': [ADDG % (A1, A1, A1)]})
bi('sub', '-', ZZs, O+vals('op1_0.zp_i - op2.zp_i'), gh={'exit': [SUBG % (A1, A1, A1)]})
bi('mul', '*', ZZs, O+vals('op1_0.zp_i * op2.zp_i'), w='zokn')
DIVQ = ['zokn op2', 'isprime op2.zp_p', 'op2.zp_i <> 0']
PC = {'entry': ['prime_cop op2.zp_p op2.zp_i']}
bi('div', '/', ZZs, O+[('quotient', 'mod (result.zp_i * op2.zp_i) op1_0.zp_p = op1_0.zp_i')], w='zokn', req=DIVQ, gh=dict(PC, exit=['inv_div op1_0.zp_i op2.zp_i pinv_ op1.zp_i op2.zp_p'], **{'call:inv_prime#1.post': 'let ghost pinv_ = $r in'}))
fn('z_mul_i', 'clpoly::operator*', r'operator\*\(Zp, long\)', ['op1', 'op2'], requires=['zokn op1'], ensures=O+[('residue', 'result.zp_i = mod (op1_0.zp_i * op2) op1_0.zp_p')], ghost={'exit': ['let ghost pp = op1_0.zp_p in', 'mod_mul_l op2 op1_0.zp_i pp', 'assert { mod op2 pp * op1_0.zp_i = op1_0.zp_i * mod op2 pp }', 'assert { op2 * op1_0.zp_i = op1_0.zp_i * op2 }']})
fn('z_muli2', 'clpoly::operator*', r'operator\*\(long, const Zp &\)', ['op1', 'op2'], requires=['zokn op2'], ensures=[('wf', 'zok result'), ('residue', 'result.zp_i = mod (op2.zp_i * op1) op2.zp_p')])
def co(nm, op, ens, gh=None, req=[], w='zok'):
    fn('z_'+nm, Z+'operator'+op, r'operator%s\(const Zp &\)' % re.escape(op), ['this', 'op2'], requires=['%s this' % w, 'zok op2', 'this.zp_p = op2.zp_p']+req, ensures=[WF, SM]+ens, ghost=gh, alias=[{'op2': 'this'}])
OI = 'this_0.zp_i'
T0 = 'this_0.zp_i'
def va(f): return [('residue', 'this.zp_p <> 0 -> this.zp_i = mod (%s) this.zp_p' % f)]
co('iadd', '+=', va(OI+' + op2.zp_i'), gh={'exit': [ADDG % (T0, T0, T0)]})
co('isub', '-=', va(OI+' - op2.zp_i'), gh={'exit': [SUBG % (T0, T0, T0)]})
co('imul', '*=', va(OI+' * op2.zp_i'), w='zokn')
co('idiv', '/=', [('quotient', 'mod (this.zp_i * op2.zp_i) this.zp_p = '+OI)], w='zokn', req=DIVQ, gh=dict(PC, exit=['inv_div this_0.zp_i op2.zp_i pinv_ this.zp_i op2.zp_p'], **{'call:inv_prime#1.post': 'let ghost pinv_ = $r in'}))
E1 = ['zok op1', 'zok op2', SP]
fn('z_eq', 'clpoly::operator==', r'operator==\(%s\)' % B2, ['op1', 'op2'], requires=E1, ensures=[('same residue', 'result <-> op1.zp_i = op2.zp_i')])
fn('z_ne', 'clpoly::operator!=', r'operator!=\(%s\)' % B2, ['op1', 'op2'], requires=E1, ensures=[('different residue', 'result <-> op1.zp_i <> op2.zp_i')])
fn('z_eq_i', 'clpoly::operator==', r'operator==\(const Zp &, long\)', ['op1', 'op2'], requires=['zokn op1'], ensures=[('same residue', 'result <-> op1.zp_i = mod op2 op1.zp_p')])
fn('z_ne_i', 'clpoly::operator!=', r'operator!=\(const Zp &, long\)', ['op1', 'op2'], requires=['zokn op1'], ensures=[('different residue', 'result <-> op1.zp_i <> mod op2 op1.zp_p')])
AM = ['zok op', 'zokn op1', 'zok op2', 'op1.zp_p = op2.zp_p', 'op.zp_p = 0 \\/ op.zp_p = op1.zp_p']
def am(nm, o, gh):
    fn('z_'+nm, 'clpoly::'+nm, r'clpoly::%s\(Zp &' % nm, ['op', 'op1', 'op2'], requires=AM, ensures=[('wf', 'zok op'), ('modulus', 'op.zp_p = op1.zp_p'), ('residue', 'op.zp_i = mod (op_0.zp_i %s op1.zp_i * op2.zp_i) op1.zp_p' % o)], ghost=gh)
am('addmul', '+', {'exit': ['let ghost m = mod (op1.zp_i * op2.zp_i) op1.zp_p in', 'let ghost pp = op1.zp_p in', 'mod_add_mult (op_0.zp_i + m) pp (div (op1.zp_i * op2.zp_i) pp)']})
am('submul', '-', {'exit': ['let ghost m = mod (op1.zp_i * op2.zp_i) op1.zp_p in', 'let ghost pp = op1.zp_p in', 'mod_add_mult (op_0.zp_i - m) pp (- div (op1.zp_i * op2.zp_i) pp)']})
fn('z_pow', 'clpoly::pow', r'pow\(const Zp &', ['z', 'i'], requires=['zokn z', 'i >= 0'], ensures=[('wf', 'zok result'), ('modulus', 'result.zp_p = z.zp_p'), ('power', 'result.zp_i = mod (pw z.zp_i i_0) z.zp_p')],
   loops={1: dict(inv=['0 <= i <= i_0', 'zokn o', 'zokn z_', 'o.zp_p = z.zp_p', 'z_.zp_p = z.zp_p', ('power', 'mod (o.zp_i * pw z_.zp_i i) z.zp_p = mod (pw z.zp_i i_0) z.zp_p')], var='i')},
   ghost={'loop1.begin': ['let ghost oo = o in', 'let ghost oz = z_ in', 'let ghost oi = i in'],
     'loop1.end': ['pow_step oo.zp_i oz.zp_i oi o.zp_i z_.zp_i i z.zp_p']})
fn('z_div2', 'clpoly::__div', r'__div\(Zp &, const Zp &', ['op', 'op1', 'op2'], requires=['zokn op1']+DIVQ+[SP], ensures=[('wf', 'zok op'), ('quotient', 'op.zp_p = op1.zp_p /\\ mod (op.zp_i * op2.zp_i) op1.zp_p = op1.zp_i')])
fn('z_div3', 'clpoly::__div', r'__div\(Zp &, Zp &, const Zp &', ['op', 'op_r', 'op1', 'op2'], requires=['zokn op1']+DIVQ+[SP], ensures=[('wf', 'zok op /\\ zok op_r'), ('quotient', 'op.zp_p = op1.zp_p /\\ mod (op.zp_i * op2.zp_i) op1.zp_p = op1.zp_i'), ('remainder', 'op_r.zp_i = 0 /\\ op_r.zp_p = op1.zp_p')])
fn('z_zero', 'clpoly::zore_check::operator()', r'zore_check<Zp>', ['this', 'op'], requires=['zok op'], ensures=[('zero test', 'result <-> op.zp_i = 0')])
cfg['fns'] = F
