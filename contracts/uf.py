"""univariate factorisation over Z, the exact-arithmetic kernel (polynomial_factorize_univar.hh): balanced residues,
norms and coefficient bounds, division and products modulo m, Hensel steps, primitive part."""
from trans import *
from zzt import *
import pvlib

THEO = r"""
module PV
use int.Int
use int.EuclideanDivision as ED
use int.ComputerDivision as CD
use ref.Ref
use Base
use Ty0
use Ty
  predicate lt (a b: umon) = a.umon_deg > b.umon_deg
  (* an arbitrary evaluation: x^n maps to evd n *)
  function evd int : int
  axiom evd_0: evd 0 = 1
  axiom evd_add: forall a b: int [evd (a + b)]. 0 <= a -> 0 <= b -> evd (a + b) = evd a * evd b
  function ev (m: umon) : int = evd m.umon_deg
  predicate nonneg (v: pv) = forall i: int [pv_get v i]. 0 <= i < pv_len v -> 0 <= (pv_get v i).term_first.umon_deg
""" + pvlib.theory() + r"""
  predicate canon0 (v: pv) = sorted v /\ nonneg v
  predicate cann (v: pv) = canon v /\ nonneg v
  (* canonical with coefficients reduced to 0..m-1 *)
  predicate resid (v: pv) (m: int) = sorted v /\ nonneg v /\ forall i: int [pv_get v i]. 0 <= i < pv_len v -> 0 < (pv_get v i).term_second < m
  (* every coefficient is divisible by m *)
  predicate cdivs (v: pv) (m: int) = forall i: int [pv_get v i]. 0 <= i < pv_len v -> fr (pv_get v i).term_second m = 0
  (* results of the operators: functions of their operands *)
  function padd pv pv : pv
  function psub pv pv : pv
  function pmul pv pv : pv
  (* congruence *)
  predicate cq (a b m k: int) = a = b + m * k
  predicate cong (a b m: int) = exists k: int [cq a b m k]. cq a b m k
  let ghost modstep (w z p k c r e: int) requires { w = z + p * k } requires { p <> 0 } requires { r = fr c p } ensures { w + c * e = (z + r * e) + p * (k + fq c p * e) }
  = assert { c = p * fq c p + r }; assert { c * e = (p * fq c p) * e + r * e }
  function l2f (v: pv) (n: int) : int
  axiom l2f_0: forall v: pv. l2f v 0 = 0
  axiom l2f_s: forall v: pv, n m: int [l2f v n, l2f v m]. 0 <= n /\ m = n + 1 -> l2f v m = l2f v n + (pv_get v n).term_second * (pv_get v n).term_second
  function az (a: int) : int = if a >= 0 then a else - a
  function l1f (v: pv) (n: int) : int
  axiom l1f_0: forall v: pv. l1f v 0 = 0
  axiom l1f_s: forall v: pv, n m: int [l1f v n, l1f v m]. 0 <= n /\ m = n + 1 -> l1f v m = l1f v n + az (pv_get v n).term_second
  let lemma sqnn (a: int) ensures { a * a >= 0 } = ()
  (* binomial coefficients: the product form, n (n-1) .. (n-k+1) = k! C *)
  function bin int int : int
  axiom bin_0: forall n: int [bin n 0]. bin n 0 = 1
  axiom bin_s: forall n k j: int [bin n k, bin n j]. 0 <= k < n /\ j = k + 1 -> bin n j * j = bin n k * (n - k)
  axiom bin_sym: forall n k j: int [bin n k, bin n j]. 0 <= k <= n /\ j = n - k -> bin n k = bin n j
  axiom bin_n: forall n: int [bin n n]. 0 <= n -> bin n n = 1
  axiom p2_0: p2 0 = 1
  axiom p2_add: forall a b: int [p2 a, p2 b]. 0 <= a -> 0 <= b -> p2 (a + b) = p2 a * p2 b
  axiom p2_mono: forall a b: int [p2 a, p2 b]. 0 <= a <= b -> p2 a <= p2 b
  axiom p2_pos: forall a: int [p2 a]. 0 <= a -> p2 a >= 1
  let ghost newton (n x q r y: int) requires { n > 0 } requires { x > 0 } requires { n = q * x + r } requires { 0 <= r < x } requires { q >= 0 } requires { 2 * (y + 1) >= x + q + 1 } requires { y >= 0 } ensures { (y + 1) * (y + 1) > n }
  = let ghost s = x + q + 1 in let ghost d = x - q - 1 in assert { s * s = d * d + 4 * (x * (q + 1)) }; assert { d * d >= 0 }; assert { x * (q + 1) = x * q + x }; assert { s * s > 4 * n }; let ghost t = 2 * (y + 1) in assert { t * t >= s * s }; assert { t * t = 4 * ((y + 1) * (y + 1)) }
  let ghost newton_stop (n x q: int) requires { x > 0 } requires { q * x <= n } requires { q >= x } ensures { x * x <= n } = assert { q * x >= x * x }
  let ghost valf_at (v: pv) (k: int) (c: int) (e: umon) requires { 0 <= k } requires { pv_get v k = { term_first = e; term_second = c } } ensures { valf v (k + 1) = valf v k + c * ev e }
  = assert { valf v (k + 1) = valf v k + (pv_get v k).term_second * ev (pv_get v k).term_first }; assert { (pv_get v k).term_second = c }; assert { (pv_get v k).term_first = e }
  let ghost vpush (v: pv) (x: term) ensures { value (pv_push v x) = value v + x.term_second * ev x.term_first } = value_push_l v x
  (* c = fr(m - ((x rem m) rem m)) is - x modulo m *)
  let ghost negt (x m c: int) : int requires { m > 0 } requires { c = fr (m - CD.mod (CD.mod x m) m) m } ensures { c = - x + m * result }
  = let ghost a = any int ensures { result = CD.div x m } in let ghost r1 = any int ensures { result = CD.mod x m } in let ghost b = any int ensures { result = CD.div r1 m } in let ghost r2 = any int ensures { result = CD.mod r1 m } in let ghost q = any int ensures { result = fq (m - r2) m } in
    assert { x = m * a + r1 }; assert { r1 = m * b + r2 }; assert { c = m - r2 - m * q }; assert { m * (1 - q + a + b) = m - m * q + m * a + m * b }; 1 - q + a + b
  let ghost post (x m c: int) : int requires { m > 0 } requires { c = fr x m } ensures { c = x + m * result } = let ghost q = any int ensures { result = fq x m } in assert { m * (- q) = - (m * q) }; - q
  (* one term: c = x + m t, e the evaluation of its monomial *)
  let ghost mterm (s a c x m t e: int) requires { c = x + m * t } ensures { s + c * e + m * (a - t * e) = s + x * e + m * a }
  = assert { c * e = x * e + m * (t * e) }; assert { m * (a - t * e) = m * a - m * (t * e) }
  let ghost gterm (k s g e co ed: int) requires { k = co * ed } ensures { k * (s + g * e) = k * s + (co * g) * (ed * e) } = assert { k * (s + g * e) = k * s + k * (g * e) }; assert { (co * ed) * (g * e) = (co * g) * (ed * e) }
  (* leading coefficients cancel: c0 - co * g0 = m t when co = fr (c0 * inv), g0 * inv = 1 + m b *)
  let ghost cancel (c0 co g0 inv m b u: int) : int requires { co = c0 * inv + m * u } requires { g0 * inv = 1 + m * b } ensures { c0 - co * g0 = m * result }
  = assert { co * g0 = c0 * (g0 * inv) + m * (u * g0) }; assert { c0 * (1 + m * b) = c0 + m * (c0 * b) }; - (c0 * b) - u * g0
  let ghost zerolead (c0 g0 inv m b u: int) : int requires { 0 = c0 * inv + m * u } requires { g0 * inv = 1 + m * b } ensures { c0 = m * result }
  = assert { c0 * (g0 * inv) = (c0 * inv) * g0 }; assert { (c0 * inv) * g0 = - (m * (u * g0)) }; assert { c0 * (1 + m * b) = c0 + m * (c0 * b) }; assert { m * (- (u * g0) - c0 * b) = - (m * (u * g0)) - m * (c0 * b) }; - (u * g0) - c0 * b
  (* one step of the division *)
  let ghost nozero (c0 m t: int) requires { 0 < c0 < m } requires { c0 = m * t } ensures { false } = if t >= 1 then assert { m * t >= m } else assert { m * t <= 0 }
  let ghost start (c0 co g0 m t ed eg er kk: int) requires { c0 - co * g0 = m * t } requires { er = ed * eg } requires { kk = co * ed } ensures { m * (t * er) = c0 * er - kk * (g0 * eg) }
  = assert { (co * ed) * (g0 * eg) = (co * g0) * (ed * eg) }; assert { (c0 - co * g0) * er = c0 * er - (co * g0) * er }; assert { (m * t) * er = m * (t * er) }
  let ghost neg1 (a e: int) ensures { (- a) * e = - (a * e) } = ()
  let ghost sub1 (x a e: int) ensures { (x - a) * e = x * e - a * e } = ()
  let ghost dvstep (vn vn1 vr vr1 vg vg1 gt kk co ed eg e cr cg c1 t1 m: int) requires { vn + m * gt = vr - kk * vg } requires { kk = co * ed } requires { c1 = cr - co * cg + m * t1 } requires { vn1 = vn + c1 * e } requires { vr1 = vr + cr * e } requires { vg1 = vg + cg * eg } requires { cg <> 0 -> e = ed * eg } ensures { vn1 + m * (gt - t1 * e) = vr1 - kk * vg1 }
  = let ghost a = co * cg in assert { c1 * e = cr * e - a * e + m * (t1 * e) }; assert { m * (gt - t1 * e) = m * gt - m * (t1 * e) }; assert { kk * vg1 = kk * vg + kk * (cg * eg) }; assert { cg <> 0 -> (co * ed) * (cg * eg) = (co * cg) * (ed * eg) }; assert { cg = 0 -> a * e = 0 /\ kk * (cg * eg) = 0 }; assert { kk * (cg * eg) = a * e }
  let ghost evda (a b c: int) requires { 0 <= a } requires { 0 <= b } requires { c = a + b } ensures { evd c = evd a * evd b } = assert { evd (a + b) = evd a * evd b }
  let ghost valf_first (v: pv) (c e: int) requires { (pv_get v 0).term_second = c } requires { evd (pv_get v 0).term_first.umon_deg = e } ensures { valf v 1 = c * e }
  = assert { valf v 1 = valf v 0 + (pv_get v 0).term_second * ev (pv_get v 0).term_first }
  let ghost vpushd (v w: pv) (d c k: int) requires { w = pv_push v { term_first = { umon_deg = d }; term_second = c } } requires { k = c * evd d } ensures { value w = value v + k } = vpush v { term_first = { umon_deg = d }; term_second = c }
  function dcr (r: pv) (ri rit: int) : int = if rit > ri then (pv_get r ri).term_second else 0
  function dcc (co: int) (g: pv) (gi git: int) : int = if git > gi then co * (pv_get g gi).term_second else 0
  function ddd (r: pv) (ri rit: int) (g: pv) (gi d: int) : int = if rit > ri then (pv_get r ri).term_first.umon_deg else (pv_get g gi).term_first.umon_deg + d
  function dc1 (ri rit cr cc m: int) : int = if rit > ri then fr (cr - cc) m else fr (m - CD.mod (CD.mod cc m) m) m
  function dnx (nb: pv) (dd c: int) : pv = if c = 0 then nb else pv_push nb { term_first = { umon_deg = dd }; term_second = c }
  let ghost valf_adv (v: pv) (k k1 dd: int) : unit requires { 0 <= k } requires { k1 = k \/ k1 = k + 1 } requires { k1 > k -> (pv_get v k).term_first.umon_deg = dd } ensures { valf v k1 = valf v k + dcr v k k1 * evd dd }
  = if k1 > k then valf_at v k (pv_get v k).term_second (pv_get v k).term_first else assert { 0 * evd dd = 0 }
  let ghost dnx_val (nb: pv) (dd c m: int) requires { 0 <= c < m } requires { resid nb m } requires { 0 <= dd } requires { forall i:int [pv_get nb i]. 0 <= i < pv_len nb -> (pv_get nb i).term_first.umon_deg > dd } ensures { value (dnx nb dd c) = value nb + c * evd dd } ensures { resid (dnx nb dd c) m }
  = if c = 0 then assert { 0 * evd dd = 0 } else begin vpush nb { term_first = { umon_deg = dd }; term_second = c }; assert { sorted (dnx nb dd c) }; assert { nonneg (dnx nb dd c) } end
  let ghost dvnext (nb nr r: pv) (ri rit: int) (g: pv) (gi git gt kk co d ed m: int) : int
    requires { m > 1 } requires { 0 <= ri } requires { 0 <= gi } requires { rit = ri \/ rit = ri + 1 } requires { git = gi \/ git = gi + 1 } requires { rit > ri \/ git > gi }
    requires { 0 <= d } requires { ed = evd d } requires { kk = co * ed } requires { resid nb m } requires { value nb + m * gt = valf r ri - kk * valf g gi }
    requires { git > gi -> (pv_get g gi).term_first.umon_deg >= 0 /\ (pv_get g gi).term_first.umon_deg + d = ddd r ri rit g gi d }
    requires { 0 <= ddd r ri rit g gi d } requires { forall i:int [pv_get nb i]. 0 <= i < pv_len nb -> (pv_get nb i).term_first.umon_deg > ddd r ri rit g gi d }
    requires { nr = dnx nb (ddd r ri rit g gi d) (dc1 ri rit (dcr r ri rit) (dcc co g gi git) m) }
    ensures { value nr + m * result = valf r rit - kk * valf g git } ensures { resid nr m }
  = let ghost dd = ddd r ri rit g gi d in let ghost cr = dcr r ri rit in let ghost cg = dcr g gi git in let ghost cc = dcc co g gi git in assert { cc = co * cg }; let ghost c1 = dc1 ri rit cr cc m in let ghost e = evd dd in let ghost dg = (pv_get g gi).term_first.umon_deg in
    let ghost t1 = if rit > ri then post (cr - cc) m c1 else negt cc m c1 in
    valf_adv r ri rit dd; valf_adv g gi git dg; dnx_val nb dd c1 m;
    if git > gi then begin evda d dg dd; assert { e = ed * evd dg } end else assert { cg = 0 };
    dvstep (value nb) (value nr) (valf r ri) (valf r rit) (valf g gi) (valf g git) gt kk co ed (evd dg) e cr cg c1 t1 m;
    gt - t1 * e
  let ghost zmul (c e: int) requires { c = 0 } ensures { c * e = 0 } = ()
  let ghost dstep (f q g r m k n t kk: int) requires { f = q * g + r + m * k } requires { n = r - kk * g + m * t } ensures { f = (q + kk) * g + n + m * (k - t) } = assert { (q + kk) * g = q * g + kk * g }; assert { m * (k - t) = m * k - m * t }
  let ghost ecomp (w z m p k c r e: int) : int requires { w = m * (z + p * k) } requires { m > 0 } requires { p > 0 } requires { fr c m = 0 } requires { r = fr (fq c m) p } ensures { w + c * e = m * ((z + r * e) + p * result) }
  = let ghost a = any int ensures { result = fq c m } in let ghost b = any int ensures { result = fq a p } in assert { c = m * a }; assert { a = p * b + r }; assert { c * e = (m * a) * e }; assert { (m * a) * e = m * (a * e) }; assert { a * e = (p * b) * e + r * e }; assert { (p * b) * e = p * (b * e) }; assert { (z + p * k) + (p * (b * e) + r * e) = (z + r * e) + p * (k + b * e) }; k + b * e
  (* scaling by m *)
  predicate scaled (v w: pv) (m k: int) = pv_len v = pv_len w /\ (forall i: int [pv_get v i]. 0 <= i < k -> (pv_get v i).term_first = (pv_get w i).term_first /\ (pv_get v i).term_second = (pv_get w i).term_second * m) /\ (forall i: int [pv_get v i]. k <= i < pv_len w -> pv_get v i = pv_get w i)
  let ghost sorted_frame (v w: pv) (o0: int) requires { forall i j:int. 0 <= i < j < o0 -> lt (pv_get v i).term_first (pv_get v j).term_first } requires { forall i:int [pv_get w i]. 0 <= i < o0 -> pv_get w i = pv_get v i } ensures { forall i j:int. 0 <= i < j < o0 -> lt (pv_get w i).term_first (pv_get w j).term_first } = assert { forall i j:int. 0 <= i < j < o0 -> pv_get w i = pv_get v i /\ pv_get w j = pv_get v j /\ lt (pv_get v i).term_first (pv_get v j).term_first }
  let ghost sorted_ext (v: pv) (o0 out: int) (x: umon) requires { out = o0 \/ out = o0 + 1 } requires { forall i j:int. 0 <= i < j < o0 -> lt (pv_get v i).term_first (pv_get v j).term_first } requires { forall i:int [pv_get v i]. 0 <= i < o0 -> lt (pv_get v i).term_first x } requires { out > o0 -> (pv_get v o0).term_first = x } ensures { forall i j:int. 0 <= i < j < out -> lt (pv_get v i).term_first (pv_get v j).term_first } = ()
  inductive dv (c x: int) = | dv_mk: forall c k: int. dv c (c * k)
  let ghost dv_i (c x k: int) requires { x = c * k } ensures { dv c x } = ()
  lemma dv_k: forall c x: int. dv c x -> exists k: int. x = c * k
  let ghost dv_tr (a b c: int) requires { dv a b } requires { dv b c } ensures { dv a c }
  = let ghost k = any int ensures { b = a * result } in let ghost j = any int ensures { c = b * result } in assert { c = a * (k * j) }; dv_i a c (k * j)
  axiom gcd_gr: forall a b d: int [dv d (gcd_ a b)]. dv d a -> dv d b -> dv d (gcd_ a b)
  axiom gcd_lo: forall a b: int [gcd_ a b]. dv (gcd_ a b) a /\ dv (gcd_ a b) b
  let ghost gcd_l (a b: int) ensures { dv (gcd_ a b) a } ensures { dv (gcd_ a b) b } = ()
  let ghost gcd_u (a b d: int) requires { dv d a } requires { dv d b } ensures { dv d (gcd_ a b) } = ()
  predicate dvall (c: int) (v: pv) (n: int) = forall i: int [pv_get v i]. 0 <= i < n -> dv c (pv_get v i).term_second
  let ghost dvall_s (g c: int) (v: pv) (n: int) requires { n < pv_len v } requires { dvall c v n } requires { dv g c } requires { dv g (pv_get v n).term_second } ensures { dvall g v (n + 1) }
  = let rec ghost go (i: int) requires { 0 <= i <= n } ensures { forall j: int [pv_get v j]. 0 <= j < i -> dv g (pv_get v j).term_second } variant { i } = if i > 0 then begin go (i - 1); dv_tr g c (pv_at v (i - 1)).term_second end in if n >= 0 then go n
  let ghost dv_neg (c x: int) requires { dv c x } ensures { dv (- c) x } ensures { dv c (- x) } = let ghost k = any int ensures { x = c * result } in assert { x = (- c) * (- k) }; dv_i (- c) x (- k); assert { - x = c * (- k) }; dv_i c (- x) (- k)
  let lemma dv_n (d a: int) requires { dv d a } ensures { dv d (- a) } = dv_neg d a
  let ghost dvall_neg (a c: int) (v: pv) requires { c = a \/ c = - a } requires { dvall a v (pv_len v) } ensures { dvall c v (pv_len v) } ensures { forall d: int. dv d a -> dv d c }
  = let rec ghost go (i: int) requires { 0 <= i <= pv_len v } ensures { forall j: int [pv_get v j]. 0 <= j < i -> dv c (pv_get v j).term_second } variant { i } = if i > 0 then begin go (i - 1); dv_neg a (pv_at v (i - 1)).term_second end in go (pv_len v); assert { forall d: int. dv d a -> dv d (- a) }
  (* division by c of the first k coefficients *)
  predicate unscaled (v w: pv) (c k: int) = pv_len v = pv_len w /\ (forall i: int [pv_get v i]. 0 <= i < k -> (pv_get v i).term_first = (pv_get w i).term_first /\ (pv_get w i).term_second = (pv_get v i).term_second * c) /\ (forall i: int [pv_get v i]. k <= i < pv_len w -> pv_get v i = pv_get w i)
  let ghost ediv (x c: int) requires { dv c x } requires { c <> 0 } ensures { x = CD.div x c * c } = let ghost k = any int ensures { x = c * result } in assert { CD.div (c * k) c = k }
  let ghost unscaled_step (v w u: pv) (c k: int) requires { unscaled v w c k } requires { 0 <= k < pv_len w } requires { c <> 0 } requires { dv c (pv_get w k).term_second } requires { pv_len u = pv_len v } requires { forall i:int [pv_get u i]. 0 <= i < pv_len v -> pv_get u i = if i = k then { term_first = (pv_get v k).term_first; term_second = CD.div (pv_get v k).term_second c } else pv_get v i } ensures { unscaled u w c (k + 1) }
  = assert { pv_get v k = pv_get w k }; ediv (pv_at w k).term_second c; assert { (pv_get u k).term_first = (pv_get w k).term_first }; assert { (pv_get w k).term_second = (pv_get u k).term_second * c }; assert { forall i: int [pv_get u i]. 0 <= i < k -> pv_get u i = pv_get v i }; assert { forall i: int [pv_get u i]. k < i < pv_len w -> pv_get u i = pv_get v i }
  let ghost unsc (vn vn1 wn wn1 d x c e: int) requires { wn = c * vn } requires { x = d * c } requires { vn1 = vn + d * e } requires { wn1 = wn + x * e } ensures { wn1 = c * vn1 } = assert { (d * c) * e = c * (d * e) }; assert { c * (vn + d * e) = c * vn + c * (d * e) }
  let rec ghost unscaled_val (v w: pv) (c n: int) requires { 0 <= n <= pv_len w } requires { unscaled v w c (pv_len w) } ensures { valf w n = c * valf v n } variant { n }
  = if n > 0 then begin unscaled_val v w c (n - 1); let ghost k = n - 1 in let ghost x = any int ensures { result = (pv_get w k).term_second } in let ghost e = any int ensures { result = ev (pv_get w k).term_first } in let ghost d = any int ensures { result = (pv_get v k).term_second } in
     assert { x = d * c }; assert { valf w (k + 1) = valf w k + x * e }; assert { valf v (k + 1) = valf v k + d * e }; unsc (valf v k) (valf v (k + 1)) (valf w k) (valf w (k + 1)) d x c e end
  let ghost pm (d c: int) requires { d * c > 0 } requires { c > 0 } ensures { d > 0 } = ()
  let ghost nm (d c: int) requires { d * c < 0 } requires { c < 0 } ensures { d > 0 } = ()
  let ghost nz (d c: int) requires { d * c <> 0 } ensures { d <> 0 } = ()
  let ghost unscaled_ok (v w: pv) (c: int) requires { unscaled v w c (pv_len w) } requires { c <> 0 } requires { cann w } requires { pv_len w > 0 } requires { (pv_get w 0).term_second < 0 <-> c < 0 } ensures { cann v } ensures { value w = c * value v } ensures { (pv_get v 0).term_second > 0 }
  = unscaled_val v w c (pv_len w); let ghost d = (pv_at v 0).term_second in assert { (pv_get w 0).term_second = d * c }; if c > 0 then pm d c else nm d c; assert { forall i: int [pv_get v i]. 0 <= i < pv_len v -> (pv_get v i).term_second <> 0 by (pv_get v i).term_second * c <> 0 }; assert { nonzero v }; assert { sorted v }; assert { nonneg v }
  inductive mcong (f g h m p: int) = | mcong_mk: forall f g h m p k: int. cq f (g * h) (m * p) k -> mcong f g h m p
  let ghost mcong_i (f g h m p k: int) requires { cq f (g * h) (m * p) k } ensures { mcong f g h m p } = ()
  let ghost scaled_step (v w u: pv) (m k: int) requires { scaled v w m k } requires { 0 <= k < pv_len w } requires { pv_len u = pv_len v } requires { forall i:int [pv_get u i]. 0 <= i < pv_len v -> pv_get u i = if i = k then { term_first = (pv_get v k).term_first; term_second = (pv_get v k).term_second * m } else pv_get v i } ensures { scaled u w m (k + 1) } = assert { pv_len u = pv_len w }; assert { forall i: int [pv_get u i]. 0 <= i < k -> pv_get u i = pv_get v i }; assert { forall i: int [pv_get u i]. k < i < pv_len w -> pv_get u i = pv_get v i }; assert { pv_get v k = pv_get w k }
  let ghost scs (vn vn1 wn wn1 c d m e: int) requires { vn = m * wn } requires { d = c * m } requires { vn1 = vn + d * e } requires { wn1 = wn + c * e } ensures { vn1 = m * wn1 }
  = assert { (c * m) * e = m * (c * e) }; assert { m * (wn + c * e) = m * wn + m * (c * e) }
  let rec ghost scaled_val (v w: pv) (m n: int) requires { 0 <= n <= pv_len w } requires { scaled v w m (pv_len w) } ensures { valf v n = m * valf w n } variant { n }
  = if n > 0 then begin scaled_val v w m (n - 1); let ghost k = n - 1 in let ghost c = any int ensures { result = (pv_get w k).term_second } in let ghost e = any int ensures { result = ev (pv_get w k).term_first } in let ghost d = any int ensures { result = (pv_get v k).term_second } in
     assert { d = c * m }; assert { valf w (k + 1) = valf w k + c * e }; assert { valf v (k + 1) = valf v k + d * e }; scs (valf v k) (valf v (k + 1)) (valf w k) (valf w (k + 1)) c d m e end
  let ghost scaled_ok (v w: pv) (m p: int) requires { scaled v w m (pv_len w) } requires { m > 0 } requires { resid w p } ensures { cann v } ensures { value v = m * value w } = scaled_val v w m (pv_len w); assert { forall i: int [pv_get v i]. 0 <= i < pv_len v -> (pv_get w i).term_second > 0 /\ (pv_get w i).term_second * m > 0 }; assert { nonzero v }; assert { sorted v }; assert { nonneg v }
  let ghost hens (f g h s t e tau r q gn hn m p j k1 k2 k3 k4 k5 k6: int) : int
    requires { m = p * j } requires { f - g * h = m * (e + p * k1) } requires { s * e = (q * h + r) + p * k2 } requires { t * e + q * g = tau + p * k3 } requires { s * g + t * h = 1 + p * k4 }
    requires { g + m * tau = gn + (m * p) * k5 } requires { h + m * r = hn + (m * p) * k6 }
    ensures { cq f (gn * hn) (m * p) result }
  = let ghost a = tau - p * k5 in let ghost b = r - p * k6 in
    assert { gn = g + m * a }; assert { hn = h + m * b };
    assert { gn * hn = g * h + m * (g * b + h * a) + (m * m) * (a * b) };
    assert { g * b + h * a = (g * r + h * tau) - p * (g * k6 + h * k5) };
    assert { g * r = g * (s * e) - g * (q * h) - p * (g * k2) };
    assert { h * tau = h * (t * e) + h * (q * g) - p * (h * k3) };
    assert { g * (q * h) = h * (q * g) };
    assert { g * (s * e) + h * (t * e) = e * (s * g + t * h) };
    assert { e * (1 + p * k4) = e + p * (e * k4) };
    let ghost x = e * k4 - g * k2 - h * k3 - g * k6 - h * k5 in
    assert { g * b + h * a = e + p * x };
    assert { m * (e + p * x) = m * e + (m * p) * x };
    assert { (m * m) * (a * b) = (m * p) * (j * (a * b)) };
    assert { m * (e + p * k1) = m * e + (m * p) * k1 };
    assert { (m * p) * (k1 - x - j * (a * b)) = (m * p) * k1 - (m * p) * x - (m * p) * (j * (a * b)) };
    k1 - x - j * (a * b)
  let ghost hens0 (f x m p ve ge: int) requires { f - x = m * (ve + p * ge) } requires { ve = 0 } ensures { cq f x (m * p) ge } = assert { m * (p * ge) = (m * p) * ge }
  predicate mb (r n l s: int) = s >= 0 /\ s * s >= l /\ r = bin n (CD.div n 2) * s
  let rec lemma l2_nonneg (v: pv) (n: int) requires { 0 <= n } ensures { l2f v n >= 0 } variant { n } = if n > 0 then begin l2_nonneg v (n - 1); sqnn (pv_get v (n - 1)).term_second; assert { l2f v n = l2f v (n - 1) + (pv_get v (n - 1)).term_second * (pv_get v (n - 1)).term_second } end
  let ghost exactdiv (a b c: int) requires { a * b = c } requires { b > 0 } ensures { CD.div c b = a } = assert { CD.div (a * b) b = a }
end
"""
cfg = dict(
  tu='uf.cc',
  roots=['clpoly::get_deg', 'clpoly::__symmetric_mod', 'clpoly::__upoly_*', 'clpoly::__binomial', 'clpoly::__isqrt_ceil', 'clpoly::__mignotte_bound', 'clpoly::__hensel_step*', 'clpoly::cont', 'clpoly::gcd', 'clpoly::basic_polynomial::*', 'clpoly::umonomial::*', 'clpoly::operator*', 'clpoly::operator+', 'clpoly::operator-'],
  abbr=[('clpoly::umonomial', 'M'), ('clpoly::ZZ', 'Z'), ('clpoly::uless', 'C'), ('std::pair<M, Z>', 'T'), ('std::vector<T>', 'PV'),
     ('clpoly::basic_polynomial<M, Z, C>', 'P'), ('clpoly::__hensel_node', 'HN')],
  types={'M': 'umon', 'Z': INTZ, 'C': TOpaque('cmp'), 'PV': 'pv', 'T': 'term', 'P': 'poly', 'HN': 'hnode'},
  globals={'clpoly::uless::init': 'uless_init'}, addr_of=lambda tr, l: Val('cmp_default', TPtr(l.ty), True) if l.root == 'uless_init' else None,
  elvec={'term': 'pv'},
)
cfg['prelude0'] = ZZP + r"""
type cmp
val cmp_any () : cmp
val constant cmp_default : int
predicate invertible int int
function p2 int : int
val zbits (a b: int) : int requires { b = 2 } ensures { 1 <= result <= 0x1000000000000000 } ensures { a > 0 -> a < p2 result }
val zshl (a n: int) : int requires { 0 <= n } ensures { result = a * p2 n }
val function zinvb (a m: int) : bool ensures { result <-> invertible a m }
val zinv (a m old_: int) : int requires { [@expl:modulus not zero] m <> 0 } ensures { invertible a m -> m > 1 -> exists b: int. a * result = 1 + m * b }
"""
cfg['modules'] = THEO
cfg['use'] = ['PV']
cfg['templates'] = [
  (r'^\[C\] clpoly::uless::ctor\(', '(cmp_any ())'),
  (r'^\[Z\] clpoly::ZZ::sizeinbase\(', '(zbits {0} {1})'),
  (r'^\[Z\] clpoly::ZZ::operator<<=\(', dict(set={0: '(zshl {0} {1})'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::invert\(', dict(set={0: '(zinv {1} {2} {0})'}, val='(zinvb {1} {2})')),
] + ZZT
F = []
def fn(*a, **k): F.append(Fn(*a, **k))
U = 'clpoly::__upoly_'
fn('u_deg', 'clpoly::get_deg', r'get_deg\(const P &\)', ['p'], ensures=[('degree of the leading term, 0 for zero', 'result = if pv_len p.poly_data = 0 then 0 else (pv_get p.poly_data 0).term_first.umon_deg')])
for n, op, l in (('mul', '*', 'pmul'), ('add', '+', 'padd'), ('sub', '-', 'psub')):
    b = 'p' if n != 'add' else 'p2'
    fn('p_'+n, 'clpoly::operator'+op, r'operator\%s\(const P &, const P &\)' % op, ['p1', b], requires=['cann p1.poly_data', 'cann %s.poly_data' % b],
      ensures=[('exact value', 'value result.poly_data = value p1.poly_data %s value %s.poly_data' % (op, b)), ('canonical', 'cann result.poly_data'), ('a function of the operands', 'result.poly_data = %s p1.poly_data %s.poly_data' % (l, b))], contract_only=True, note='proved in unit poly for the generic template; result named as a function of the operands')
fn('symmod', 'clpoly::__symmetric_mod', None, ['a', 'm'], ghost={'exit': ['assert { cq a res_ m (fq a m) \\/ cq a res_ m (fq a m + 1) }']}, requires=['m > 0'], ensures=[('congruent', 'cong a result m'), ('balanced range', '- m < 2 * result <= m')])
fn('usymmod', U+'symmetric_mod', None, ['f', 'm'], requires=['canon0 f.poly_data', 'm > 0'], ensures=[('congruent', 'cong (value f.poly_data) (value result.poly_data) m'), ('canonical', 'cann result.poly_data'), ('balanced coefficients', 'forall i:int. 0 <= i < pv_len result.poly_data -> - m < 2 * (pv_get result.poly_data i).term_second <= m')],
  loops={1: dict(inv=[('partial congruence', 'valf f.poly_data $k = value result_.poly_data + m * gk'), ('canonical so far', 'cann result_.poly_data'), ('balanced so far', 'forall i:int. 0 <= i < pv_len result_.poly_data -> - m < 2 * (pv_get result_.poly_data i).term_second <= m'), 'forall i j:int. 0 <= i < pv_len result_.poly_data /\\ $k <= j < pv_len f.poly_data -> lt (pv_get result_.poly_data i).term_first (pv_get f.poly_data j).term_first'])},
  ghost={'loop1.pre': ['let ghost ref gk = 0 in'], 'loop1.begin': ['let ghost nb = result_.poly_data in', 'let ghost a0 = pv_at f.poly_data $k in', 'assert { valf f.poly_data ($k + 1) = valf f.poly_data $k + a0.term_second * ev a0.term_first }', 'assert { 0 <= a0.term_first.umon_deg }', 'assert { forall i:int [pv_get nb i]. 0 <= i < pv_len nb -> lt (pv_get nb i).term_first a0.term_first }'],
    'call:symmod#1.post': ['let ghost r0 = $r in', 'let ghost q0 = any int ensures { cq a0.term_second r0 m result } in'],
    'loop1.end': ['assert { a0.term_second * ev a0.term_first = r0 * ev a0.term_first + m * (q0 * ev a0.term_first) }', 'if r0 <> 0 then vpush nb { term_first = a0.term_first; term_second = r0 }', 'gk <- gk + q0 * ev a0.term_first', 'assert { value result_.poly_data = value nb + r0 * ev a0.term_first }', 'assert { nonneg result_.poly_data }', 'assert { sorted result_.poly_data }', 'assert { nonzero result_.poly_data }'], 'loop1.post': ['assert { cq (value f.poly_data) (value result_.poly_data) m gk }']})
fn('l2', U+'norm_l2_sq', None, ['f'], ensures=[('sum of squares', 'result = l2f f.poly_data (pv_len f.poly_data)')], loops={1: dict(inv=['v_s = l2f f.poly_data $k' if 0 else 's = l2f f.poly_data $k'])})
fn('l1', U+'norm_l1', None, ['f'], ensures=[('sum of absolute values', 'result = l1f f.poly_data (pv_len f.poly_data)')], loops={1: dict(inv=['s = l1f f.poly_data $k'])})
fn('binom', 'clpoly::__binomial', None, ['n', 'k'], requires=['n < 9223372036854775807'], ensures=[('zero outside the triangle', 'k_0 < 0 \\/ k_0 > n_0 -> result = 0'), ('binomial coefficient', '0 <= k_0 <= n_0 -> result = bin n_0 k_0')],
  loops={1: dict(inv=['0 <= i <= k', 'result_ = bin n i'], var='k - i')}, ghost={'loop1.begin': ['let ghost b0 = result_ in', 'exactdiv (bin n (i + 1)) (i + 1) (b0 * (n - i))']})
fn('isqrt', 'clpoly::__isqrt_ceil', None, ['n'], ensures=[('upper bound of the square root', 'n > 0 -> result * result >= n /\\ result >= 0'), ('zero', 'n <= 0 -> result = 0'), ('not above the ceiling', 'n > 0 -> (result - 1) * (result - 1) < n')],
  loops={1: dict(inv=['x > 0', ('not below the root', '(x + 1) * (x + 1) > n')], var='x')}, ghost={'loop1.pre': ['let ghost h = CD.div (bits + 1) 2 in', 'assert { x = p2 h }', 'assert { p2 (h + h) = p2 h * p2 h }', 'assert { p2 bits <= p2 (h + h) }'], 'loop1.begin': ['let ghost x0 = x in', 'let ghost q0 = any int ensures { result = CD.div n x0 } in'], 'decl:x1': ['newton n x0 q0 (CD.mod n x0) x1', 'if x1 >= x0 then newton_stop n x0 q0']})
fn('modc', U+'mod_coeff', None, ['f', 'm'], requires=['canon0 f.poly_data', 'm > 0'], ensures=[('congruent', 'cong (value f_0.poly_data) (value f.poly_data) m'), ('residues, canonical', 'resid f.poly_data m')],
  loops={1: dict(inv=['0 <= out <= it', 'it <= pv_len f.poly_data', 'pv_len f.poly_data = pv_len f_0.poly_data', ('rest untouched', 'forall i:int. it <= i < pv_len f.poly_data -> pv_get f.poly_data i = pv_get f_0.poly_data i'),
    ('partial congruence', 'valf f_0.poly_data it = valf f.poly_data out + m * gk'), ('reduced so far', 'forall i:int. 0 <= i < out -> 0 < (pv_get f.poly_data i).term_second < m /\\ 0 <= (pv_get f.poly_data i).term_first.umon_deg'),
    ('sorted so far', 'forall i j:int. 0 <= i < j < out -> lt (pv_get f.poly_data i).term_first (pv_get f.poly_data j).term_first'), ('exponents kept', 'forall i j:int. 0 <= i < out /\\ it <= j < pv_len f_0.poly_data -> lt (pv_get f.poly_data i).term_first (pv_get f_0.poly_data j).term_first')], var='pv_len f.poly_data - it')},
  ghost={'loop1.pre': ['let ghost ref gk = 0 in'], 'loop1.begin': ['let ghost vb = f.poly_data in', 'let ghost a0 = pv_at f_0.poly_data it in', 'let ghost o0 = out in', 'assert { valf f_0.poly_data (it + 1) = valf f_0.poly_data it + a0.term_second * ev a0.term_first }'],
    'loop1.end': ['let ghost r0 = any int ensures { result = fr a0.term_second m } in', 'let ghost q0 = any int ensures { result = fq a0.term_second m * ev a0.term_first } in', 'modstep (valf f_0.poly_data it) (valf vb o0) m gk a0.term_second r0 (ev a0.term_first)', 'valf_frame_l f.poly_data vb o0', 'assert { r0 <> 0 -> pv_get f.poly_data o0 = { term_first = a0.term_first; term_second = r0 } }', 'if r0 <> 0 then valf_at f.poly_data o0 r0 a0.term_first', 'gk <- gk + q0', 'assert { r0 = 0 -> r0 * ev a0.term_first = 0 }', 'assert { valf f.poly_data out = valf f.poly_data o0 + r0 * ev a0.term_first }', 'assert { valf f_0.poly_data (it + 1) = (valf f.poly_data o0 + r0 * ev a0.term_first) + m * gk }'], 'loop1.post': ['assert { cq (value f_0.poly_data) (valf f.poly_data out) m gk }']})
DI = ['1 <= r_it <= pv_len r.poly_data', '1 <= g_it <= pv_len g.poly_data', ('partial combination', 'value new_r.poly_data + m * gt = valf r.poly_data r_it - kk * valf g.poly_data g_it'), ('residues so far', 'resid new_r.poly_data m'), ('below the rest of r', 'forall i j:int. 0 <= i < pv_len new_r.poly_data /\\ r_it <= j < pv_len r.poly_data -> lt (pv_get new_r.poly_data i).term_first (pv_get r.poly_data j).term_first'),
  ('below the rest of g', 'forall i j:int. 0 <= i < pv_len new_r.poly_data /\\ g_it <= j < pv_len g.poly_data -> (pv_get new_r.poly_data i).term_first.umon_deg > (pv_get g.poly_data j).term_first.umon_deg + d'), ('degree drops', 'forall i:int. 0 <= i < pv_len new_r.poly_data -> (pv_get new_r.poly_data i).term_first.umon_deg < dr')]
fn('divmod', U+'divmod_mod', None, ['q', 'r', 'f', 'g', 'm'], requires=['cann f.poly_data', 'cann g.poly_data', 'pv_len g.poly_data > 0', 'm > 1', 'invertible (pv_get g.poly_data 0).term_second m'],
  ensures=[('f = q g + r modulo m', 'cong (value f.poly_data) (value q.poly_data * value g.poly_data + value r.poly_data) m'), ('remainder reduced', 'resid r.poly_data m'), ('quotient reduced', 'resid q.poly_data m'), ('degree of the remainder below the divisor', 'pv_len r.poly_data > 0 -> (pv_get r.poly_data 0).term_first.umon_deg < (pv_get g.poly_data 0).term_first.umon_deg')],
  loops={1: dict(inv=[('division identity', 'value f.poly_data = value q.poly_data * value g.poly_data + value r.poly_data + m * gk'), ('residues', 'resid r.poly_data m'), ('quotient residues', 'resid q.poly_data m'), ('quotient exponents', 'forall i:int. 0 <= i < pv_len q.poly_data -> pv_len r.poly_data > 0 -> (pv_get q.poly_data i).term_first.umon_deg + deg_g > (pv_get r.poly_data 0).term_first.umon_deg')], var='if pv_len r.poly_data = 0 then 0 else (pv_get r.poly_data 0).term_first.umon_deg + 1'),
    2: dict(inv=DI, var='pv_len r.poly_data - r_it + pv_len g.poly_data - g_it')},
  ghost={'loop1.pre': ['let ghost ref gk = any int ensures { cq (value f.poly_data) (value r.poly_data) m result } in', 'let ghost g0 = (pv_at g.poly_data 0).term_second in', 'let ghost bb = any int ensures { g0 * lc_inv = 1 + m * result } in'],
    'loop1.begin': ['let ghost c0 = (pv_at r.poly_data 0).term_second in', 'let ghost dr = (pv_at r.poly_data 0).term_first.umon_deg in', 'let ghost rb = r.poly_data in', 'let ghost qb = q.poly_data in', 'let ghost co = any int ensures { result = fr (c0 * lc_inv) m } in', 'let ghost u0 = post (c0 * lc_inv) m co in', 'if co = 0 then begin let ghost z0 = zerolead c0 g0 lc_inv m bb u0 in nozero c0 m z0 end'],
   'loop2.pre': ['let ghost ed = any int ensures { result = evd d } in', 'let ghost er = any int ensures { result = evd dr } in', 'let ghost eg = any int ensures { result = evd deg_g } in', 'let ghost kk = co * ed in', 'let ghost t0 = cancel c0 co g0 lc_inv m bb u0 in', 'assert { dr = d + deg_g }', 'evda d deg_g dr', 'assert { er = ed * eg }', 'start c0 co g0 m t0 ed eg er kk',
      'valf_first r.poly_data c0 er', 'valf_first g.poly_data g0 eg', 'let ghost ref gt = t0 * er in', 'vpushd qb q.poly_data d co kk', 'assert { sorted q.poly_data }', 'assert { nonneg q.poly_data }', 'assert { 0 < co < m }', 'assert { resid q.poly_data m }', 'assert { value q.poly_data = value qb + kk }'],
   'loop2.begin': ['let ghost ri = r_it in', 'let ghost gi = g_it in', 'let ghost nb = new_r.poly_data in'],
   'loop2.end': ['assert { forall j:int [pv_get g.poly_data j]. g_it <= j < pv_len g.poly_data -> ddd r.poly_data ri r_it g.poly_data gi d > (pv_get g.poly_data j).term_first.umon_deg + d }', 'assert { dc1 ri r_it (dcr r.poly_data ri r_it) (dcc coeff g.poly_data gi g_it) m <> 0 \\/ new_r.poly_data = nb }', 'assert { g_it > gi -> (pv_get g.poly_data gi).term_first.umon_deg + d = ddd r.poly_data ri r_it g.poly_data gi d }', 'let ghost ng = dvnext nb new_r.poly_data r.poly_data ri r_it g.poly_data gi g_it gt kk coeff d ed m in', 'gt <- ng'],
   'loop2.post': ['assert { value g.poly_data = valf g.poly_data g_it }', 'assert { value rb = valf r.poly_data r_it }', 'assert { value new_r.poly_data + m * gt = value rb - kk * value g.poly_data }', 'assert { m * (- gt) = - (m * gt) }'], 'loop1.end': ['dstep (value f.poly_data) (value qb) (value g.poly_data) (value rb) m gk (value r.poly_data) (- gt) kk', 'gk <- gk + gt'], 'loop1.post': ['assert { cq (value f.poly_data) (value q.poly_data * value g.poly_data + value r.poly_data) m gk }']})
fn('mulmod', U+'mul_mod', None, ['a', 'b', 'm'], requires=['cann a.poly_data', 'cann b.poly_data', 'm > 0'], ensures=[('product modulo m', 'cong (value a.poly_data * value b.poly_data) (value result.poly_data) m'), ('residues, canonical', 'resid result.poly_data m')])
fn('constterm', U+'const_term', None, ['f'], requires=['cann f.poly_data'], ensures=[('constant coefficient', 'result = if pv_len f.poly_data > 0 && (pv_get f.poly_data (pv_len f.poly_data - 1)).term_first.umon_deg = 0 then (pv_get f.poly_data (pv_len f.poly_data - 1)).term_second else 0')])
fn('mignotte', 'clpoly::__mignotte_bound', None, ['f'], requires=['pv_len f.poly_data > 0', '0 <= (pv_get f.poly_data 0).term_first.umon_deg < 9223372036854775807'], ensures=[('binomial times a bound of the norm', 'exists s:int [mb result (pv_get f.poly_data 0).term_first.umon_deg (l2f f.poly_data (pv_len f.poly_data)) s]. s >= 0 /\\ mb result (pv_get f.poly_data 0).term_first.umon_deg (l2f f.poly_data (pv_len f.poly_data)) s')],
  ghost={'exit': ['assert { mb res_ (pv_get f.poly_data 0).term_first.umon_deg (l2f f.poly_data (pv_len f.poly_data)) norm }']})
NP = ['cann node.hnode_%s.poly_data' % x for x in 'ghst'] + ['cann f.poly_data', 'm > 1', 'pv_len node.hnode_h.poly_data > 0']
BZ = ['assert { exists k:int. cq (v_s * v_g + v_t * v_h) 1 PP k }']
def EL(n, M, PQ, it='it', out='out', e='e', E0='e0', g='ge'):
    D = e + '.poly_data'
    return {n: dict(inv=['0 <= %s <= %s' % (out, it), '%s <= pv_len %s' % (it, D), 'pv_len %s = pv_len %s' % (D, E0), ('rest untouched', 'forall i:int. %s <= i < pv_len %s -> pv_get %s i = pv_get %s i' % (it, D, D, E0)),
      ('partial quotient', 'valf %s %s = m * (valf %s %s + %s * %s)' % (E0, it, D, out, PQ, g)), ('reduced so far', 'forall i:int. 0 <= i < %s -> 0 < (pv_get %s i).term_second < %s /\\ 0 <= (pv_get %s i).term_first.umon_deg' % (out, D, PQ, D)),
      ('sorted so far', 'forall i j:int. 0 <= i < j < %s -> lt (pv_get %s i).term_first (pv_get %s j).term_first' % (out, D, D)), ('exponents kept', 'forall i j:int. 0 <= i < %s /\\ %s <= j < pv_len %s -> lt (pv_get %s i).term_first (pv_get %s j).term_first' % (out, it, E0, D, E0))], var='pv_len %s - %s' % (D, it))}
def EG(n, PQ, it='it', out='out', e='e', E0='e0', g='ge'):
    D = e + '.poly_data'
    return {'loop%d.begin' % n: ['let ghost vb = %s in' % D, 'let ghost a0 = pv_at %s %s in' % (E0, it), 'let ghost o0 = %s in' % out, 'assert { valf %s (%s + 1) = valf %s %s + a0.term_second * ev a0.term_first }' % (E0, it, E0, it), 'assert { fr a0.term_second m = 0 }'],
      'loop%d.end' % n: ['let ghost r0 = any int ensures { result = fr (fq a0.term_second m) %s } in' % PQ, 'let ghost ne = ecomp (valf %s %s) (valf vb o0) m %s %s a0.term_second r0 (ev a0.term_first) in' % (E0, it, PQ, g), 'valf_frame_l %s vb o0' % D,
        'assert { r0 <> 0 -> pv_get %s o0 = { term_first = a0.term_first; term_second = r0 } }' % D, 'if r0 <> 0 then valf_at %s o0 r0 a0.term_first' % D, '%s <- ne' % g, 'assert { r0 = 0 -> r0 * ev a0.term_first = 0 }', 'assert { valf %s %s = valf %s o0 + r0 * ev a0.term_first }' % (D, out, D), 'assert { valf %s (%s + 1) = m * (valf %s %s + %s * %s) }' % (E0, it, D, out, PQ, g),
        'assert { forall i:int [pv_get %s i]. 0 <= i < o0 -> pv_get %s i = pv_get vb i }' % (D, D), 'assert { if r0 = 0 then out = o0 else out = o0 + 1 }', 'assert { out > o0 -> (pv_get %s o0).term_first = a0.term_first }' % D, 'sorted_frame vb %s o0' % D, 'assert { r0 >= 0 }', 'assert { r0 < %s }' % PQ, 'assert { 0 <= a0.term_first.umon_deg }', 'assert { forall i:int. 0 <= i < o0 -> 0 < (pv_get %s i).term_second < %s /\\ 0 <= (pv_get %s i).term_first.umon_deg }' % (D, PQ, D), 'assert { forall i:int [pv_get %s i]. 0 <= i < o0 -> lt (pv_get %s i).term_first a0.term_first }' % (D, D), 'sorted_ext %s o0 out a0.term_first' % D, 'assert { forall j:int [pv_get %s j]. %s < j < pv_len %s -> lt a0.term_first (pv_get %s j).term_first }' % (E0, it, E0, E0)]}
def SL(n, v, w): return {n: dict(inv=[('scaled so far', 'scaled %s.poly_data %s m $k' % (v, w))])}
fn('hlin', 'clpoly::__hensel_step_linear', None, ['node', 'f', 'm', 'p'], requires=NP + ['p > 1', 'exists j:int. m = p * j', 'cdivs (psub f.poly_data (pmul node.hnode_g.poly_data node.hnode_h.poly_data)) m', 'invertible (pv_get node.hnode_h.poly_data 0).term_second p', 'cong (value node.hnode_s.poly_data * value node.hnode_g.poly_data + value node.hnode_t.poly_data * value node.hnode_h.poly_data) 1 p'],
  ensures=[('f = g h modulo m p', 'mcong (value f.poly_data) (value node.hnode_g.poly_data) (value node.hnode_h.poly_data) m p'), ('Bezout coefficients kept', 'node.hnode_s = node_0.hnode_s /\\ node.hnode_t = node_0.hnode_t')],
  loops={**EL(1, 'm', 'p_zz'), **SL(2, 'tau', 'tau0'), **SL(3, 'sigma', 'sig0')},
  ghost={'entry': ['let ghost jj = any int ensures { m = p * result } in', 'let ghost k4 = any int ensures { cq (value node.hnode_s.poly_data * value node.hnode_g.poly_data + value node.hnode_t.poly_data * value node.hnode_h.poly_data) 1 p result } in'] + ['let ghost %s = value node.hnode_%s.poly_data in' % (y, x) for x, y in (('g', 'vg'), ('h', 'vh'), ('s', 'vs'), ('t', 'v_t'))],
    'loop1.pre': ['let ghost e0 = e.poly_data in', 'assert { e0 = psub f.poly_data (pmul node.hnode_g.poly_data node.hnode_h.poly_data) }', 'let ghost ref ge = 0 in'], **EG(1, 'p_zz'),
    'loop1.post': ['let ghost ve = valf e.poly_data out in', 'assert { value f.poly_data - vg * vh = m * (ve + p * ge) }', 'assert { pv_len e.poly_data >= out }', 'let ghost eb = e.poly_data in'],

    'exit': ['if pure { pv_len e.poly_data = 0 } then begin assert { value e.poly_data = 0 }; assert { value e.poly_data = ve }; hens0 (value f.poly_data) (vg * vh) m p ve ge; mcong_i (value f.poly_data) vg vh m p ge end'],
    'call:p_mul#2.pre': ['assert { value e.poly_data = ve }', 'assert { sorted e.poly_data }', 'assert { nonneg e.poly_data }', 'assert { nonzero e.poly_data }', 'assert { cann e.poly_data }'],
    'call:p_mul#2.post': ['let ghost vse = value $r.poly_data in'],
    'call:divmod#1.post': ['let ghost vq = value q_se.poly_data in', 'let ghost vr = value sigma.poly_data in', 'let ghost sig0 = sigma.poly_data in', 'let ghost xk2 = any int ensures { cq (vs * ve) (vq * vh + vr) p result } in'],
    'call:modc#1.pre': ['let ghost uxk3 = any int ensures { result = value tau.poly_data } in', 'assert { uxk3 = v_t * ve + vq * vg }'],
    'call:modc#2.pre': ['let ghost uxk5 = any int ensures { result = value node.hnode_g.poly_data } in', 'assert { uxk5 = vg + m * vt }'],
    'call:modc#3.pre': ['let ghost uxk6 = any int ensures { result = value node.hnode_h.poly_data } in', 'assert { uxk6 = vh + m * vr }'],
    'call:modc#1.post': ['let ghost tau0 = tau.poly_data in', 'let ghost vt = value tau0 in', 'let ghost xk3 = any int ensures { cq uxk3 vt p result } in'],
    'call:modc#2.post': ['let ghost gn = value node.hnode_g.poly_data in', 'let ghost xk5 = any int ensures { cq uxk5 gn (m * p) result } in'],
    'call:modc#3.post': ['let ghost hn = value node.hnode_h.poly_data in', 'let ghost xk6 = any int ensures { cq uxk6 hn (m * p) result } in',
      'let ghost kf = hens (value f.poly_data) vg vh vs v_t ve vt vr vq gn hn m p jj ge xk2 xk3 k4 xk5 xk6 in', 'mcong_i (value f.poly_data) gn hn m p kf'],
    'loop2.begin': ['let ghost sb = tau.poly_data in', 'let ghost kb = $k in'], 'loop2.end': ['scaled_step sb tau0 tau.poly_data m kb'], 'loop3.begin': ['let ghost sb = sigma.poly_data in', 'let ghost kb = $k in'], 'loop3.end': ['scaled_step sb sig0 sigma.poly_data m kb'],
    'loop2.post': ['scaled_ok tau.poly_data tau0 m p'], 'loop3.post': ['scaled_ok sigma.poly_data sig0 m p'],
    })
fn('cont', 'clpoly::cont', r'cont\(const P &\)', ['v_G'], requires=['canon v_G.poly_data'], ensures=[('of zero', 'pv_len v_G.poly_data = 0 -> result = 1'), ('divides every coefficient', 'dvall result v_G.poly_data (pv_len v_G.poly_data)'), ('every common divisor divides it', 'forall d:int. pv_len v_G.poly_data > 0 -> dvall d v_G.poly_data (pv_len v_G.poly_data) -> dv d result'), ('nonzero', 'result <> 0')],
  loops={1: dict(inv=['1 <= ptr <= pv_len v_G.poly_data', ('divides the coefficients so far', 'dvall c v_G.poly_data ptr'), ('greatest so far', 'forall d:int. dvall d v_G.poly_data (pv_len v_G.poly_data) -> dv d c'), 'c <> 0'], var='pv_len v_G.poly_data - ptr')},
  ghost={'loop1.pre': ['assert { c = c * 1 }', 'dv_i c c 1', 'assert { forall d:int. dvall d v_G.poly_data (pv_len v_G.poly_data) -> dv d c }'], 'loop1.begin': ['let ghost c0 = c in', 'let ghost k0 = ptr in', 'let ghost a0 = (pv_at v_G.poly_data ptr).term_second in', 'gcd_l c0 a0'], 'loop1.end': ['assert { c = gcd_ c0 a0 }', 'dvall_s c c0 v_G.poly_data k0', 'assert { forall d:int. dvall d v_G.poly_data (pv_len v_G.poly_data) -> dv d c0 /\\ dv d a0 }']})
fn('prim', U+'primitive', None, ['f'], requires=['cann f.poly_data'], ensures=[('zero', 'pv_len f_0.poly_data = 0 -> result.pair_int_poly_first = 1 /\\ pv_len result.pair_int_poly_second.poly_data = 0'), ('content times primitive part', 'value f_0.poly_data = result.pair_int_poly_first * value result.pair_int_poly_second.poly_data'), ('canonical', 'cann result.pair_int_poly_second.poly_data'),
   ('same exponents', 'pv_len result.pair_int_poly_second.poly_data = pv_len f_0.poly_data'), ('positive leading coefficient', 'pv_len f_0.poly_data > 0 -> (pv_get result.pair_int_poly_second.poly_data 0).term_second > 0'), ('the content is the greatest common divisor', 'forall d:int. pv_len f_0.poly_data > 0 -> dvall d f_0.poly_data (pv_len f_0.poly_data) -> dv d (result.pair_int_poly_first)')],
  loops={1: dict(inv=[('scaled so far', 'unscaled f.poly_data f_0.poly_data c $k')])},
  ghost={'call:cont#1.post': ['let ghost c0 = $r in'], 'loop1.pre': ['let ghost v0 = f.poly_data in', 'dvall_neg c0 c v0', 'assert { (pv_get v0 0).term_second < 0 <-> c < 0 }'], 'loop1.begin': ['let ghost sb = f.poly_data in', 'let ghost kb = $k in'], 'loop1.end': ['unscaled_step sb v0 f.poly_data c kb'], 'loop1.post': ['unscaled_ok f.poly_data v0 c']})
fn('ugcd', 'clpoly::gcd', r'gcd\(const M &, const M &\)', ['v_G', 'v_F'], ensures=[('least exponent', 'result.umon_deg = if v_F.umon_deg < v_G.umon_deg then v_F.umon_deg else v_G.umon_deg')])
cfg['fns'] = F