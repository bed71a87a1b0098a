"""number-theory facts used by the contracts: stated once as axioms over abstract symbols (module NT, light for the
solvers) and proved by instantiating those symbols with the functions of the Why3 standard library (module NTP)."""
NT = r'''
module NT
use int.Int
use int.Abs
use int.EuclideanDivision
use int.ComputerDivision as CD
function gcdf int int : int
axiom gcd_nonneg: forall a b: int [gcdf a b]. 0 <= gcdf a b
axiom gcd_sym: forall a b: int [gcdf a b]. gcdf a b = gcdf b a
axiom gcd_abs: forall a b: int [gcdf a b]. gcdf a b = gcdf (abs a) b
axiom gcd_0: forall a: int [gcdf a 0]. gcdf a 0 = abs a
axiom gcd_euclid: forall a b q: int [gcdf b (a - q * b)]. gcdf a b = gcdf b (a - q * b)
axiom gcd_le: forall a b: int [gcdf a b]. b <> 0 -> gcdf a b <= abs b
axiom gcd_pos: forall a b: int [gcdf a b]. b <> 0 -> 0 < gcdf a b
axiom gcd_div: forall a b: int [gcdf a b]. b <> 0 -> mod a (gcdf a b) = 0 /\ mod b (gcdf a b) = 0
function ipow int int : int
axiom ipow_0: forall x: int [ipow x 0]. ipow x 0 = 1
axiom ipow_1: forall x: int [ipow x 1]. ipow x 1 = x
axiom ipow_z: forall n: int [ipow 0 n]. 0 < n -> ipow 0 n = 0
axiom ipow_o: forall n: int [ipow 1 n]. 0 <= n -> ipow 1 n = 1
predicate ipow_suc (x n: int)
axiom ipow_suc_def: forall x n: int. ipow_suc x n <-> ipow x (n + 1) = x * ipow x n
axiom ipow_s: forall x n: int [ipow_suc x n]. 0 <= n -> ipow_suc x n
let ghost ipow_step (x n: int) requires { 0 <= n } ensures { ipow x (n + 1) = x * ipow x n } = assert { ipow_suc x n }
end
module NTQ
use int.Int
use int.ComputerDivision as CD
function gcdf int int : int
function ipow int int : int
axiom gcd_red: forall a b: int [gcdf a b]. b <> 0 -> a = gcdf a b * CD.div a (gcdf a b) /\ b = gcdf a b * CD.div b (gcdf a b) /\ gcdf (CD.div a (gcdf a b)) (CD.div b (gcdf a b)) = 1
axiom low_uniq: forall a b c d: int [gcdf a b, gcdf c d]. gcdf a b = 1 -> gcdf c d = 1 -> b > 0 -> d > 0 -> a * d = c * b -> a = c /\ b = d
axiom ipow_pos: forall x n: int [ipow x n]. 0 < x -> 0 <= n -> 0 < ipow x n
axiom gcd_pow: forall a b n: int [gcdf (ipow a n) (ipow b n)]. gcdf a b = 1 -> 0 <= n -> gcdf (ipow a n) (ipow b n) = 1
axiom gcd_nonneg: forall a b: int [gcdf a b]. 0 <= gcdf a b
axiom gcd_neg: forall a b: int [gcdf (- a) b]. gcdf (- a) b = gcdf a b
axiom gcd_z: forall a: int [gcdf 0 a]. a >= 0 -> gcdf 0 a = a
axiom gcd_1: forall a: int [gcdf a 1]. gcdf a 1 = 1
axiom ipow_0: forall x: int [ipow x 0]. ipow x 0 = 1
end
module NTP
use int.Int
use int.Abs
use int.EuclideanDivision
use int.ComputerDivision as CD
use int.Power
use number.Divisibility
use number.Gcd
use number.Coprime
predicate psuc (x n: int) = power x (n + 1) = x * power x n
lemma pz0: forall n: int. 0 < n -> power 0 n = 0 by power 0 n = 0 * power 0 (n-1)
let rec lemma pone (n: int) requires { 0 <= n } ensures { power 1 n = 1 } variant { n } = if n > 0 then pone (n-1)
let rec lemma ppos (x n: int) requires { 0 <= n /\ x > 0 } ensures { power x n > 0 } variant { n } = if n > 0 then begin ppos x (n-1); assert { power x n = x * power x (n-1) } end
lemma gsym: forall a b: int. gcd a b = gcd b a
lemma gabs: forall a b: int. gcd a b = gcd (abs a) b
lemma geuc: forall a b q: int. gcd a b = gcd b (a - q * b)
lemma gpos: forall a b: int. b <> 0 -> 0 < gcd a b by divides (gcd a b) b
lemma gle: forall a b: int. b <> 0 -> gcd a b <= abs b by divides (gcd a b) b
lemma gred1: forall a b: int. b <> 0 -> a = gcd a b * CD.div a (gcd a b) by CD.mod a (gcd a b) = 0 by divides (gcd a b) a
lemma gred2: forall a b: int. b <> 0 -> b = gcd a b * CD.div b (gcd a b) by CD.mod b (gcd a b) = 0 by divides (gcd a b) b
lemma gz: forall a: int. a >= 0 -> gcd 0 a = a by gcd a 0 = a
lemma g1: forall a: int. gcd a 1 = 1 by divides (gcd a 1) 1
lemma gmod: forall a g: int. g > 0 -> divides g a -> mod a g = 0
let ghost dv2 (b x c: int) requires { x = c * b } ensures { divides b x } = ()
let ghost dl (c k x: int) requires { divides k x } ensures { divides (c * k) (c * x) } = let ghost q = any int ensures { x = result * k } in assert { c * x = q * (c * k) }; dv2 (c * k) (c * x) q
let ghost gred4 (a b x y: int) requires { b <> 0 } requires { a = gcd a b * x /\ b = gcd a b * y } ensures { gcd x y = 1 }
= let ghost g = pure { gcd a b } in let ghost k = pure { gcd x y } in assert { g > 0 by g <> 0 };
  assert { divides k x /\ divides k y }; dl g k x; dl g k y; assert { divides (g * k) g }; 
  let ghost q = any int ensures { g = result * (g * k) } in assert { g * (q * k - 1) = 0 }; assert { q * k = 1 }; assert { k = 1 by divides k 1 }
let lemma gred3 (a b: int) requires { b <> 0 } ensures { gcd (CD.div a (gcd a b)) (CD.div b (gcd a b)) = 1 } = gred4 a b (pure { CD.div a (gcd a b) }) (pure { CD.div b (gcd a b) })
let lemma luniq (a b c d: int) requires { gcd a b = 1 /\ gcd c d = 1 /\ b > 0 /\ d > 0 /\ a * d = c * b } ensures { a = c /\ b = d }
= dv2 b (a * d) c; assert { coprime b a }; assert { divides b d }; dv2 d (c * b) a; assert { coprime d c }; assert { divides d b }; assert { b = d }; assert { a * b = c * b }; assert { (a - c) * b = 0 }; assert { a - c = 0 }
let rec lemma copw (a b n: int) requires { gcd a b = 1 /\ 0 <= n } ensures { gcd a (power b n) = 1 } variant { n }
= if n > 0 then begin copw a b (n-1); assert { power b n = b * power b (n-1) }; assert { coprime a b }; assert { gcd a (b * power b (n-1)) = gcd a (power b (n-1)) } end else begin assert { power b 0 = 1 }; assert { divides (gcd a 1) 1 } end
let lemma copp (a b n: int) requires { gcd a b = 1 /\ 0 <= n } ensures { gcd (power a n) (power b n) = 1 }
= copw a b n; let ghost q = pure { power b n } in assert { gcd q a = 1 }; copw q a n
clone NT with function gcdf = gcd, function ipow = power, predicate ipow_suc = psuc, lemma .
clone NTQ as Q with function gcdf = gcd, function ipow = power, lemma .
end
'''
