"""dense univariate polynomials over a prime field (dense_upoly_zp.hh)."""
import importlib
from trans import *
from zzt import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__)); import zp as _zp
ARR = lambda u, t: TArrPtr(u._reg(TVec('arr', TInt(64, False))))
cfg = dict(tu='dense.cc', roots=['clpoly::dense_upoly_zp::*'],
  abbr=[('clpoly::ZZ', 'Z'), ('clpoly::Zp', 'Zp'), ('clpoly::dense_upoly_zp', 'D')],
  types={'Z': INTZ, 'D': 'dense', 'unsigned long *': ARR, 'D::word3': 'word3'}, force_types=['std::vector<clpoly::dense_upoly_zp::word3>'], elvec={'int': 'arr', 'word3': 'accs'})
cfg['prelude0'] = ZZP
_m = _zp.cfg['modules']
_a, _b = _m.index('  predicate zok (z: zp)'), _m.index('  let ghost mod_uniq')
THEO = _m[:_a] + _m[_b:]
assert 'zp_p' not in THEO
THEO = THEO[:THEO.rindex('end')].replace('module ZP', 'module DP') + r'''
  function g (a: arr) (n i: int) : int = if 0 <= i < n then arr_get a i else 0
  (* sum over j in [lo, hi) of a_j * b_(k-j), b_i being 0 outside [0, lb) *)
  function sm (a b: arr) (lb k lo hi: int) : int
  axiom sm_0: forall a b: arr, lb k lo. sm a b lb k lo lo = 0
  axiom sm_hi: forall a b: arr, lb k lo hi h1: int [sm a b lb k lo hi, sm a b lb k lo h1]. lo <= hi /\ h1 = hi + 1 -> sm a b lb k lo h1 = sm a b lb k lo hi + arr_get a hi * g b lb (k - hi)
  let rec ghost sm_lo (a b: arr) (lb k lo hi: int) requires { lo < hi } ensures { sm a b lb k lo hi = arr_get a lo * g b lb (k - lo) + sm a b lb k (lo + 1) hi } variant { hi - lo }
  = if hi > lo + 1 then begin sm_lo a b lb k lo (hi - 1); assert { sm a b lb k lo hi = sm a b lb k lo (hi - 1) + arr_get a (hi - 1) * g b lb (k - (hi - 1)) }; assert { sm a b lb k (lo + 1) hi = sm a b lb k (lo + 1) (hi - 1) + arr_get a (hi - 1) * g b lb (k - (hi - 1)) } end
    else begin assert { sm a b lb k lo lo = 0 }; assert { sm a b lb k (lo + 1) hi = 0 }; assert { sm a b lb k lo hi = sm a b lb k lo lo + arr_get a lo * g b lb (k - lo) } end
  (* only the entries with both indices in range count *)
  let rec ghost sm_zero (a b: arr) (lb k lo hi: int) requires { lo <= hi } requires { lo = hi \/ lb <= 0 \/ k < lo \/ k - hi + 1 >= lb } ensures { sm a b lb k lo hi = 0 } variant { hi - lo }
  = if hi > lo then begin sm_zero a b lb k lo (hi - 1); let ghost j = hi - 1 in assert { k - j < 0 \/ k - j >= lb }; assert { g b lb (k - j) = 0 }; assert { arr_get a j * g b lb (k - j) = 0 }; assert { sm a b lb k lo hi = sm a b lb k lo (hi - 1) + arr_get a j * g b lb (k - j) } end else assert { hi = lo }
  let rec ghost sm_cat (a b: arr) (lb k lo mid hi: int) requires { lo <= mid <= hi } ensures { sm a b lb k lo hi = sm a b lb k lo mid + sm a b lb k mid hi } variant { hi - mid }
  = if hi > mid then begin sm_cat a b lb k lo mid (hi - 1); assert { sm a b lb k lo hi = sm a b lb k lo (hi - 1) + arr_get a (hi - 1) * g b lb (k - (hi - 1)) }; assert { sm a b lb k mid hi = sm a b lb k mid (hi - 1) + arr_get a (hi - 1) * g b lb (k - (hi - 1)) } end
  let rec ghost sm_frame (a a2 b b2: arr) (lb lb2 k lo hi: int) requires { forall j: int. lo <= j < hi -> arr_get a j = arr_get a2 j } requires { forall i: int [g b lb i | g b2 lb2 i]. g b lb i = g b2 lb2 i } requires { lo <= hi }
    ensures { sm a b lb k lo hi = sm a2 b2 lb2 k lo hi } variant { hi - lo }
  = if hi > lo then begin sm_frame a a2 b b2 lb lb2 k lo (hi - 1); let ghost j = hi - 1 in assert { arr_get a j = arr_get a2 j }; assert { g b lb (k - j) = g b2 lb2 (k - j) }; assert { sm a b lb k lo hi = sm a b lb k lo (hi - 1) + arr_get a (hi - 1) * g b lb (k - (hi - 1)) }; assert { sm a2 b2 lb2 k lo hi = sm a2 b2 lb2 k lo (hi - 1) + arr_get a2 (hi - 1) * g b2 lb2 (k - (hi - 1)) } end
  (* coefficient k of the product of a (length la) and b (length lb) *)
  function conv (a: arr) (la: int) (b: arr) (lb k: int) : int = sm a b lb k 0 la
  predicate red (a: arr) (n p: int) = forall i: int [arr_get a i]. 0 <= i < n -> 0 <= arr_get a i < p
  function w3 (w: word3) : int = w.word3_lo + bB * w.word3_mid + bB * bB * w.word3_hi
  predicate w3ok (w: word3) = 0 <= w.word3_lo < bB /\ 0 <= w.word3_mid < bB /\ 0 <= w.word3_hi < bB
  predicate fld (d: dense) = 2 <= d.dense_p < bB /\ pre_ok d.dense_p d.dense_ninv d.dense_norm
  predicate dok (d: dense) = fld d /\ red d.dense_coeffs (arr_len d.dense_coeffs) d.dense_p /\ (arr_len d.dense_coeffs > 0 -> arr_get d.dense_coeffs (arr_len d.dense_coeffs - 1) <> 0)
  predicate same_field (a b: dense) = a.dense_p = b.dense_p /\ a.dense_ninv = b.dense_ninv /\ a.dense_norm = b.dense_norm
  let ghost prodb (a b p: int) requires { 0 <= a < p } requires { 0 <= b < p } ensures { 0 <= a * b <= (p - 1) * (p - 1) } = mul_le a (p - 1) b; mul_le b (p - 1) (p - 1)
  let ghost hib (s n p hi lo: int) requires { 0 <= n <= 0x2000000000000000 } requires { 2 <= p < bB } requires { 0 <= s <= p - 1 + n * ((p - 1) * (p - 1)) } requires { s = lo + bB * bB * hi } requires { 0 <= lo } ensures { hi < p }
  = let ghost m = p - 1 in assert { m * m <= m * bB }; mul_le n 0x2000000000000000 (m * m); assert { n * (m * m) <= 0x2000000000000000 * (m * bB) }; assert { p - 1 + 0x2000000000000000 * (m * bB) < bB * bB * p };
    if hi >= p then assert { bB * bB * hi >= bB * bB * p }
  (* the two words of (a*B + b) * 2^n *)
  let ghost shift64 (a b n p: int) requires { 0 <= n < 64 } requires { 0 <= b < bB } requires { 0 <= a < p } requires { p * pw2 n < bB }
    ensures { let hs = (if n > 0 then borf (a * pw2 n) (div b (pw2 (64 - n))) else a * pw2 n) in hs * bB + mod (b * pw2 n) bB = (a * bB + b) * pw2 n /\ hs < p * pw2 n }
    ensures { 0 <= a * pw2 n < bB } ensures { mod (a * pw2 n) bB = a * pw2 n }
  = let ghost s = pw2 n in let ghost t = pw2 (64 - n) in pw2_add n (64 - n); assert { s * t = bB };
    let ghost q = div b t in let ghost r = mod b t in assert { b = t * q + r };
    mul_le a (p - 1) s; assert { a * s < bB }; mod_uniq bB 0 (a * s);
    assert { b * s = bB * q + r * s by (t * q) * s = (s * t) * q }; mul_le r (t - 1) s; assert { r * s < bB }; mod_uniq bB q (r * s);
    assert { q < s by t * q < t * s };
    assert { (a * bB + b) * s = (a * s) * bB + (q * bB + r * s) };
    assert { (a + 1) * s <= p * s };
    assert { n > 0 -> borf (a * s) q = a * s + q }; assert { n = 0 -> q = 0 by s = 1 /\ t = bB }
  let ghost twostep (hi mid lo p: int) requires { p > 0 } ensures { mod (mod (hi * bB + mid) p * bB + lo) p = mod (lo + bB * mid + bB * bB * hi) p }
  = let ghost v = hi * bB + mid in let ghost q = div v p in assert { v = p * q + mod v p }; assert { v * bB + lo = lo + bB * mid + bB * bB * hi };
    assert { v * bB + lo = (mod v p * bB + lo) + p * (q * bB) }; mod_add_mult (mod v p * bB + lo) p (q * bB)
  (* the two corrections of the remainder estimate *)
  function fin (rr q0 d: int) : int = let r0 = (if rr >= 0 then rr else rr + bB) in let r1 = (if r0 > q0 then (if r0 + d >= bB then r0 + d - bB else r0 + d) else r0) in if r1 >= d then r1 - d else r1
  let ghost corr (v q1 q0 d rr: int) : int requires { rr = v - (q1 + 1) * d } requires { 9223372036854775808 <= d < bB } requires { 0 <= q0 < bB } requires { rr >= - d } requires { rr > q0 - bB } requires { rr < bB - d \/ rr < q0 } requires { rr < bB }
    ensures { fin rr q0 d = v - result * d } ensures { 0 <= fin rr q0 d < d }
  = let ghost x1 = rr + d in assert { x1 = v - q1 * d by (q1 + 1) * d = q1 * d + d };
    assert { rr < d - 0 -> rr - d < 0 };
    if rr < 0 then begin assert { rr + bB > q0 }; assert { fin rr q0 d = x1 }; q1 end
    else if rr > q0 then begin assert { rr < bB - d }; assert { rr < d }; assert { fin rr q0 d = rr }; q1 + 1 end
    else if rr >= d then begin assert { fin rr q0 d = rr - d }; assert { v - (q1 + 2) * d = rr - d by (q1 + 2) * d = (q1 + 1) * d + d }; q1 + 2 end
    else begin assert { fin rr q0 d = rr }; q1 + 1 end
  let ghost accb (n p: int) requires { 0 <= n <= 0x2000000000000000 } requires { 2 <= p < bB } ensures { n * ((p - 1) * (p - 1)) < bB * bB * bB - bB }
  = let ghost m = p - 1 in mul_le m (bB - 2) m; mul_le m (bB - 2) (bB - 2); assert { m * m <= (bB - 2) * (bB - 2) }; mul_le n 0x2000000000000000 (m * m)
  let rec ghost sm_zeroa (a b: arr) (lb k lo hi: int) requires { lo <= hi } requires { forall j: int. lo <= j < hi -> arr_get a j = 0 } ensures { sm a b lb k lo hi = 0 } variant { hi - lo }
  = if hi > lo then begin sm_zeroa a b lb k lo (hi - 1); let ghost j = hi - 1 in assert { arr_get a j = 0 }; assert { sm a b lb k lo hi = sm a b lb k lo (hi - 1) + arr_get a j * g b lb (k - j) } end else assert { hi = lo }
  function w3mod (lo mid hi p: int) : int = mod (lo + bB * mid + bB * bB * hi) p
  function mulmod (c x p: int) : int = mod (c * x) p
  lemma small_mod: forall a p: int [mod a p]. 0 <= a < p -> mod a p = a
  (* a = q * b + r over the integers modulo p, coefficient by coefficient *)
  predicate divid (a b q r: arr) (p: int) = forall k: int [g a (arr_len a) k]. 0 <= k < arr_len a -> mod (conv q (arr_len q) b (arr_len b) k + g r (arr_len r) k) p = mod (g a (arr_len a) k) p
  (* divisibility of polynomials over the field; only these three facts about it are used *)
  predicate pdv (d a: arr) (p: int)
  axiom pdv_nil: forall d a: arr, p: int [pdv d a p]. arr_len a = 0 -> pdv d a p
  axiom pdv_div: forall d a b q r: arr, p: int [divid a b q r p, pdv d b p]. divid a b q r p -> (arr_len q > 0 -> arr_len q + arr_len b - 1 <= arr_len a) -> arr_len r <= arr_len a -> pdv d b p -> (pdv d a p <-> pdv d r p)
  let ghost drstep (w w1 q b p s s1 ga: int) requires { p > 0 } requires { w1 = (if q = 0 then w else w + (p - q) * b) } requires { s1 = q * b + s } requires { mod (w + s) p = mod ga p } ensures { mod (w1 + s1) p = mod ga p }
  = if q <> 0 then begin assert { w1 + s1 = (w + s) + p * b by (p - q) * b = p * b - q * b }; mod_add_mult (w + s) p b end else assert { w1 + s1 = w + s }
  let ghost lead0 (w w1 q r v lc p: int) requires { p > 0 } requires { r = mod w p } requires { mod (v * lc) p = 1 } requires { q = mod (r * v) p } requires { w1 = (if q = 0 then w else w + (p - q) * lc) } ensures { mod w1 p = 0 }
  = inv_div r lc v q p; assert { mod (q * lc) p = r }; let ghost x = div w p in let ghost y = div (q * lc) p in assert { w = p * x + r }; assert { q * lc = p * y + r };
    if q <> 0 then begin assert { w1 = p * (x + lc - y) + 0 by (p - q) * lc = p * lc - q * lc }; mod_uniq p (x + lc - y) 0 end else begin assert { q * lc = 0 }; assert { mod 0 p = 0 } end
  let ghost conv_out (a b: arr) (la lb k: int) requires { 0 <= la } requires { 0 <= lb } requires { k >= la + lb - 1 } ensures { conv a la b lb k = 0 } = sm_zero a b lb k 0 la
  let ghost conv_pad (a b a2 b2: arr) (la lb n k: int) requires { 0 <= la <= n } requires { 0 <= lb <= n }
    requires { forall i: int. 0 <= i < la -> arr_get a2 i = arr_get a i } requires { forall i: int. la <= i < n -> arr_get a2 i = 0 } requires { forall i: int. g b2 n i = g b lb i } ensures { conv a2 n b2 n k = conv a la b lb k }
  = sm_cat a2 b2 n k 0 la n; sm_zeroa a2 b2 n k la n; sm_frame a2 a b2 b n lb k 0 la
  let rec ghost primeprod (p c a: int) requires { isprime p } requires { 0 < c < p } requires { mod (c * a) p = 0 } ensures { mod a p = 0 } variant { c }
  = if c > 1 then begin let ghost q = div p c in let ghost r = mod p c in assert { p = c * q + r }; assert { r <> 0 by not (dv c p) };
      let ghost t = div (c * a) p in assert { c * a = p * t }; assert { r * a = p * (a - q * t) + 0 by r = p - c * q /\ (c * q) * a = q * (c * a) }; mod_uniq p (a - q * t) 0; primeprod p r a end
    else assert { c * a = a }
  predicate wrow (w0 w1: accs) (b: arr) (lb ii c n: int) = accs_len w1 = n /\ forall k: int [accs_get w1 k]. 0 <= k < n -> w3ok (accs_get w1 k) /\ w3 (accs_get w1 k) = w3 (accs_get w0 k) + c * g b lb (k - ii)
  predicate dinv (a: arr) (w: accs) (q b: arr) (lb lo ql n p: int) = forall k: int [accs_get w k]. 0 <= k < n -> mod (w3 (accs_get w k) + sm q b lb k lo ql) p = mod (arr_get a k) p
  predicate wbnd (w: accs) (n p cnt: int) = forall k: int [accs_get w k]. 0 <= k < n -> w3ok (accs_get w k) /\ w3 (accs_get w k) <= p - 1 + cnt * ((p - 1) * (p - 1))
  let ghost rowstep (a: arr) (w0 w1: accs) (q0 q1 b: arr) (lb ii ql n p qi: int) requires { 2 <= p } requires { dinv a w0 q0 b lb (ii + 1) ql n p } requires { wrow w0 w1 b lb ii (if qi = 0 then 0 else p - qi) n } requires { q1 = arr_set q0 ii qi } requires { 0 <= ii < ql } requires { arr_len q0 = ql }
    ensures { dinv a w1 q1 b lb ii ql n p }
  = let lemma aux (k: int) requires { 0 <= k < n } ensures { mod (w3 (accs_get w1 k) + sm q1 b lb k ii ql) p = mod (arr_get a k) p }
    = sm_lo q1 b lb k ii ql; sm_frame q1 q0 b b lb lb k (ii + 1) ql; drstep (w3 (accs_get w0 k)) (w3 (accs_get w1 k)) qi (g b lb (k - ii)) p (sm q0 b lb k (ii + 1) ql) (sm q1 b lb k ii ql) (arr_get a k) in ()
  let ghost bndstep (w0 w1: accs) (b: arr) (lb ii c n p cnt: int) requires { 2 <= p < bB } requires { wbnd w0 n p cnt } requires { wrow w0 w1 b lb ii c n } requires { 0 <= c < p } requires { red b lb p } ensures { wbnd w1 n p (cnt + 1) }
  = let lemma aux (k: int) requires { 0 <= k < n } ensures { w3 (accs_get w1 k) <= p - 1 + (cnt + 1) * ((p - 1) * (p - 1)) } = prodb c (g b lb (k - ii)) p; let ghost pm = (p - 1) * (p - 1) in assert { (cnt + 1) * pm = cnt * pm + pm } in ()
  predicate rowp (w0 w1: accs) (b: arr) (ii j c n: int) = accs_len w1 = n /\ forall k: int [accs_get w1 k]. 0 <= k < n -> w3ok (accs_get w1 k) /\ w3 (accs_get w1 k) = w3 (accs_get w0 k) + (if ii <= k < ii + j then c * arr_get b (k - ii) else 0)
  predicate van (w: accs) (t n p: int) = forall k: int [accs_get w k]. t < k < n -> mod (w3 (accs_get w k)) p = 0
  predicate remp (r: arr) (w: accs) (n p: int) = forall k: int [arr_get r k]. 0 <= k < n -> arr_get r k = mod (w3 (accs_get w k)) p
  predicate invp (v x p: int) = mod (v * x) p = 1
  let ghost rowp0 (w0: accs) (b: arr) (ii c n p cnt: int) requires { wbnd w0 n p cnt } requires { accs_len w0 = n } ensures { rowp w0 w0 b ii 0 c n } = ()
  let ghost rowp1 (w0 w1 w2: accs) (b: arr) (ii j c n: int) requires { rowp w0 w1 b ii j c n } requires { accs_len w2 = n } requires { 0 <= ii } requires { 0 <= j } requires { ii + j < n }
    requires { forall k: int [accs_get w2 k]. 0 <= k < n -> k <> ii + j -> accs_get w2 k = accs_get w1 k } requires { w3ok (accs_get w2 (ii + j)) } requires { w3 (accs_get w2 (ii + j)) = w3 (accs_get w1 (ii + j)) + c * arr_get b j } ensures { rowp w0 w2 b ii (j + 1) c n }
  = assert { w3 (accs_get w1 (ii + j)) = w3 (accs_get w0 (ii + j)) }
  let ghost rowpd (w0 w1: accs) (b: arr) (lb ii c n: int) requires { rowp w0 w1 b ii lb c n } ensures { wrow w0 w1 b lb ii c n }
  = let lemma aux (k: int) requires { 0 <= k < n } ensures { w3 (accs_get w1 k) = w3 (accs_get w0 k) + c * g b lb (k - ii) } = assert { not (ii <= k < ii + lb) -> g b lb (k - ii) = 0 } in ()
  let ghost rowz (w0: accs) (b: arr) (lb ii n p cnt: int) requires { wbnd w0 n p cnt } requires { accs_len w0 = n } ensures { wrow w0 w0 b lb ii 0 n } = ()
  let ghost vanstep (w0 w1: accs) (b: arr) (lb ii c n p: int) requires { 0 <= ii } requires { 1 <= lb } requires { wrow w0 w1 b lb ii c n } requires { van w0 (ii + lb - 1) n p } requires { mod (w3 (accs_get w1 (ii + lb - 1))) p = 0 } ensures { van w1 (ii + lb - 2) n p }
  = let lemma aux (k: int) requires { ii + lb - 1 < k < n } requires { 0 <= k } ensures { mod (w3 (accs_get w1 k)) p = 0 } = assert { g b lb (k - ii) = 0 }; assert { w3 (accs_get w1 k) = w3 (accs_get w0 k) } in ()
  let ghost stripred (q q1: arr) (ql p: int) requires { red q ql p } requires { arr_len q1 <= ql } requires { forall k: int [g q1 (arr_len q1) k]. g q1 (arr_len q1) k = g q ql k } ensures { red q1 (arr_len q1) p }
  = let lemma aux (i: int) requires { 0 <= i < arr_len q1 } ensures { 0 <= arr_get q1 i < p } = assert { g q1 (arr_len q1) i = g q ql i }; assert { arr_get q1 i = arr_get q i } in ()
  let ghost lll3 (r x0 x1 x2 p wt: int) requires { r = w3mod x0 x1 x2 p } requires { wt = x0 + bB * x1 + bB * bB * x2 } ensures { r = mod wt p } = ()
  let ghost remstep (r0 r1: arr) (w: accs) (n p: int) requires { remp r0 w n p } requires { 0 <= n } requires { forall k: int [arr_get r1 k]. 0 <= k < n -> arr_get r1 k = arr_get r0 k } requires { arr_get r1 n = mod (w3 (accs_get w n)) p } ensures { remp r1 w (n + 1) p } = ()
  let ghost leadstep (w0 w1: accs) (b: arr) (lb ii c n p qi r v: int) requires { 2 <= p } requires { 1 <= lb } requires { wrow w0 w1 b lb ii c n } requires { 0 <= ii } requires { ii + lb - 1 < n } requires { c = if qi = 0 then 0 else p - qi } requires { r = mod (w3 (accs_get w0 (ii + lb - 1))) p } requires { invp v (arr_get b (lb - 1)) p } requires { qi = mod (r * v) p } ensures { mod (w3 (accs_get w1 (ii + lb - 1))) p = 0 }
  = let ghost w = w3 (accs_get w0 (ii + lb - 1)) in let ghost x = w3 (accs_get w1 (ii + lb - 1)) in let ghost lc = arr_get b (lb - 1) in assert { g b lb (ii + lb - 1 - ii) = lc }; assert { x = w + c * lc }; lead0 w x qi r v lc p
  let ghost topok (w: accs) (t n p cnt: int) requires { 2 <= p < bB } requires { wbnd w n p cnt } requires { 0 <= t < n } requires { 0 <= cnt <= 0x2000000000000000 } ensures { (accs_get w t).word3_hi < p }
  = let ghost top = accs_get w t in hib (w3 top) cnt p top.word3_hi (top.word3_lo + bB * top.word3_mid)
  let ghost addok (w w0: word3) (c b p1 p0 p cnt: int) requires { 2 <= p < bB } requires { w3ok w0 } requires { w3 w0 <= p - 1 + cnt * ((p - 1) * (p - 1)) } requires { 0 <= cnt <= 0x1000000000000001 } requires { w3 w = w3 w0 } requires { 0 <= c < p } requires { 0 <= b < p } requires { p0 + bB * p1 = c * b } ensures { w3 w + p0 + bB * p1 < bB * bB * bB }
  = prodb c b p; accb (cnt + 1) p; let ghost pm = (p - 1) * (p - 1) in assert { (cnt + 1) * pm = cnt * pm + pm }
  let ghost drfin (a: arr) (w: accs) (q q1 b r r1: arr) (lb ql d n p: int) requires { 2 <= p } requires { lb = d + 1 } requires { 0 <= d } requires { dinv a w q b lb 0 ql n p } requires { arr_len q = ql } requires { arr_len a = n }
    requires { forall k: int [g q1 (arr_len q1) k]. g q1 (arr_len q1) k = g q ql k } requires { arr_len q1 <= ql } requires { arr_len b = lb }
    requires { arr_len r = d } requires { remp r w d p } requires { forall k: int [g r1 (arr_len r1) k]. g r1 (arr_len r1) k = g r d k }
    requires { van w (d - 1) n p }
    ensures { divid a b q1 r1 p }
  = let ghost l1 = arr_len q1 in
    assert { forall j: int [arr_get q j]. l1 <= j < ql -> arr_get q j = 0 by g q ql j = g q1 l1 j };
    assert { forall j: int [arr_get q j]. 0 <= j < l1 -> arr_get q j = arr_get q1 j by g q ql j = g q1 l1 j };
    let lemma aux (k: int) requires { 0 <= k < n } ensures { mod (conv q1 l1 b lb k + g r1 (arr_len r1) k) p = mod (g a n k) p }
    = sm_cat q b lb k 0 l1 ql; sm_zeroa q b lb k l1 ql; sm_frame q q1 b b lb lb k 0 l1; let ghost w0 = w3 (accs_get w k) in let ghost s = conv q1 l1 b lb k in assert { mod (w0 + s) p = mod (arr_get a k) p };
      let ghost x = div w0 p in assert { w0 = p * x + mod w0 p }; assert { w0 + s = (s + mod w0 p) + p * x }; mod_add_mult (s + mod w0 p) p x; assert { g r1 (arr_len r1) k = g r d k }; assert { k < d -> g r d k = mod w0 p }; assert { k >= d -> mod w0 p = 0 }; assert { g r1 (arr_len r1) k = mod w0 p } in ()
  let ghost negstep (p q b m: int) requires { m = (p - q) * b } ensures { m = p * b - q * b } = ()
  let ghost cntstep (n n1 e s: int) requires { n1 = n + 1 } requires { 0 <= s <= e + n * (((e)) * (e)) } ensures { n1 * (e * e) = n * (e * e) + e * e } = ()
end
'''
cfg['modules'] = THEO
cfg['lemma_modules'] = []
cfg['use'] = ['DP']
cfg['templates'] = ZZT
F = []
D = 'clpoly::dense_upoly_zp::'
def fn(*a, **k): F.append(Fn(*a, **k))
fn('inv_prime', 'clpoly::inv_prime', None, ['i', 'p'], requires=['1 <= i < p', 'cop p i'], ensures=[('inverse', 'mod (result * i) p = 1'), ('range', '0 <= result < p')], contract_only=True, note='proved in unit zp')
fn('d_preinvert', D+'__preinvert_limb', None, ['pn'], requires=['9223372036854775808 <= pn < bB'], ensures=[('reciprocal', 'isv pn result')])
fn('d_precompute', D+'__precompute', None, ['this'], requires=['this.dense_p <> 1'], ensures=[('reciprocal', 'pre_ok this.dense_p this.dense_ninv this.dense_norm'), ('modulus and coefficients kept', 'this.dense_p = this_0.dense_p /\\ this.dense_coeffs = this_0.dense_coeffs')])
fn('d_nadd', D+'nmod_add', None, ['this', 'a', 'b'], requires=['fld this', 'a < this.dense_p', 'b < this.dense_p'], ensures=[('sum', 'result = mod (a + b) this.dense_p'), ('range', '0 <= result < this.dense_p')],
   ghost={'exit': ['if a + b < this.dense_p then mod_uniq this.dense_p 0 (a + b) else mod_uniq this.dense_p 1 (a + b - this.dense_p)']})
fn('d_nsub', D+'nmod_sub', None, ['this', 'a', 'b'], requires=['fld this', 'a < this.dense_p', 'b < this.dense_p'], ensures=[('difference', 'result = mod (a - b) this.dense_p'), ('range', '0 <= result < this.dense_p')],
   ghost={'exit': ['if a - b >= 0 then mod_uniq this.dense_p 0 (a - b) else mod_uniq this.dense_p (-1) (a - b + this.dense_p)']})
fn('d_strip', D+'__strip', None, ['this'], ensures=[('no trailing zero', 'arr_len this.dense_coeffs > 0 -> arr_get this.dense_coeffs (arr_len this.dense_coeffs - 1) <> 0'), ('same polynomial', 'forall k:int. g this.dense_coeffs (arr_len this.dense_coeffs) k = g this_0.dense_coeffs (arr_len this_0.dense_coeffs) k'),
   ('field kept', 'same_field this this_0'), ('not longer', 'arr_len this.dense_coeffs <= arr_len this_0.dense_coeffs')],
   loops={1: dict(inv=['same_field this this_0', 'arr_len this.dense_coeffs <= arr_len this_0.dense_coeffs', 'forall k:int. g this.dense_coeffs (arr_len this.dense_coeffs) k = g this_0.dense_coeffs (arr_len this_0.dense_coeffs) k'], var='arr_len this.dense_coeffs')})
fn('d_umul', D+'_umul128', None, ['hi', 'lo', 'a', 'b'], ensures=[('128-bit product', 'lo + bB * hi = a * b')], ghost={'entry': ['mul_le a (bB - 1) b', 'mul_le b (bB - 1) (bB - 1)']})
fn('d_addc', D+'_add_carry3', None, ['s', 'b1', 'b0'], requires=['w3ok s', 'w3 s + b0 + bB * b1 < bB * bB * bB'], ensures=[('192-bit sum', 'w3 s = w3 s_0 + b0 + bB * b1'), ('words', 'w3ok s')])
fn('d_nmul', D+'nmod_mul', None, ['this', 'a', 'b'], requires=['fld this', 'a < this.dense_p'],
   ensures=[('product', 'result = mod (a * b) this.dense_p'), ('range', '0 <= result < this.dense_p')],
   ghost={k: [x.replace('zp_', 'dense_') for x in v] for k, v in [f for f in _zp.cfg['fns'] if f.name == 'nmod_mul'][0].ghost.items()})
fn('d_ninv', D+'nmod_inv', None, ['this', 'a'], requires=['fld this', 'isprime this.dense_p', '1 <= a < this.dense_p'], ensures=[('inverse', 'mod (result * a) this.dense_p = 1'), ('range', '0 <= result < this.dense_p')], ghost={'entry': ['prime_cop this.dense_p a']})
fn('d_norm', D+'_poly_normalise', None, ['v_A', 'n'], requires=['n <= arr_len v_A'], ensures=[('length without trailing zeros', '0 <= result <= n /\\ (result > 0 -> arr_get v_A (result - 1) <> 0) /\\ forall k:int. result <= k < n -> arr_get v_A k = 0')],
   loops={1: dict(inv=['0 <= n <= n_0', 'forall k:int. n <= k < n_0 -> arr_get v_A k = 0'], var='n')})
fn('d_lll', D+'_lll_mod_preinv', None, ['hi', 'mid', 'lo', 'p', 'pinv', 'nrm'], requires=['2 <= p', 'pre_ok p pinv nrm', 'hi < p'], ensures=[('192-bit residue', 'result = w3mod lo mid hi p'), ('range', '0 <= result < p')],
   ghost={'decl:pn': ['let ghost sc = pw2 nrm in', 'assert { pn = p * sc }', 'mul_le hi (p - 1) sc', 'assert { 0 <= hi * sc < pn }', 'shift64 hi mid nrm p'],
     'decl:m_shifted': ['assert { h_shifted * bB + m_shifted = (hi * bB + mid) * sc }', 'assert { h_shifted < pn }'],
     'decl:q0': ['mul_le h_shifted (bB - 1) pinv', 'assert { qm = q1 * bB + q0 }', 'assert { qm = h_shifted * pinv }', 'let ghost fq1 = q1 + h_shifted + (if q0 + m_shifted >= bB then 1 else 0) in', 'let ghost fq0 = (if q0 + m_shifted >= bB then q0 + m_shifted - bB else q0 + m_shifted) in',
        'let ghost v1 = h_shifted * bB + m_shifted in', 'let ghost rr = v1 - (fq1 + 1) * pn in', 'moller h_shifted m_shifted pn pinv fq1 fq0 rr'],
     'decl:r': ['assert { q1 = fq1 && q0 = fq0 }', 'low_word m_shifted h_shifted (fq1 + 1) (if fq1 + 1 < bB then fq1 + 1 else fq1 + 1 - bB) pn rr r', 'assert { r = (if rr >= 0 then rr else rr + bB) }', 'let ghost kk = corr v1 fq1 fq0 pn rr in', 'let ghost rf = fin rr fq0 pn in', 'unscale (hi * bB + mid) 1 p sc rf kk', 'assert { div rf sc = mod (hi * bB + mid) p }'],
     'block1.cut': ['r1 = mod (hi * bB + mid) p'],
     'decl:pn_2': ['let ghost sc = pw2 nrm in', 'assert { pn_2 = p * sc }', 'mul_le r1 (p - 1) sc', 'assert { 0 <= r1 * sc < pn_2 }', 'shift64 r1 lo nrm p'],
     'decl:l': ['assert { h * bB + l = (r1 * bB + lo) * sc }', 'assert { h < pn_2 }'],
     'decl:q0_2': ['mul_le h (bB - 1) pinv', 'assert { qm_2 = q1_2 * bB + q0_2 }', 'assert { qm_2 = h * pinv }', 'let ghost fq1b = q1_2 + h + (if q0_2 + l >= bB then 1 else 0) in', 'let ghost fq0b = (if q0_2 + l >= bB then q0_2 + l - bB else q0_2 + l) in',
        'let ghost v2 = h * bB + l in', 'let ghost rr2 = v2 - (fq1b + 1) * pn_2 in', 'moller h l pn_2 pinv fq1b fq0b rr2'],
     'decl:r_2': ['assert { q1_2 = fq1b && q0_2 = fq0b }', 'low_word l h (fq1b + 1) (if fq1b + 1 < bB then fq1b + 1 else fq1b + 1 - bB) pn_2 rr2 r_2', 'assert { r_2 = (if rr2 >= 0 then rr2 else rr2 + bB) }', 'let ghost k2 = corr v2 fq1b fq0b pn_2 rr2 in', 'let ghost rf2 = fin rr2 fq0b pn_2 in', 'unscale (r1 * bB + lo) 1 p sc rf2 k2', 'twostep hi mid lo p', 'assert { w3mod lo mid hi p = mod (lo + bB * mid + bB * bB * hi) p }', 'assert { div rf2 sc = w3mod lo mid hi p }'],
     'exit': ['assert { 0 <= rf2 < pn_2 }', 'assert { res_ = div rf2 sc }']})
fn('d_cmul', D+'_classical_mul', None, ['this', 'v_C', 'v_A', 'la', 'v_B', 'lb'], requires=['fld this', '1 <= la <= arr_len v_A', '1 <= lb <= arr_len v_B', 'la <= 0x1000000000000000', 'lb <= 0x1000000000000000', 'la + lb - 1 <= arr_len v_C', 'red v_A la this.dense_p', 'red v_B lb this.dense_p'],
   ensures=[('every coefficient of the product', 'forall k:int. 0 <= k < la + lb - 1 -> arr_get v_C k = mod (conv v_A la v_B lb k) this.dense_p'), ('nothing else written', 'arr_len v_C = arr_len v_C_0 /\\ forall k:int. la + lb - 1 <= k < arr_len v_C -> arr_get v_C k = arr_get v_C_0 k')],
   loops={1: dict(inv=['la = la_0 /\\ lb = lb_0 /\\ v_A = v_A_0 /\\ v_B = v_B_0', 'len_c = la + lb - 1', '0 <= k <= len_c', 'arr_len v_C = arr_len v_C_0', ('coefficients so far', 'forall i:int. 0 <= i < k -> arr_get v_C i = mod (conv v_A la v_B lb i) this.dense_p'), 'forall i:int. k <= i < arr_len v_C -> arr_get v_C i = arr_get v_C_0 i'], var='len_c - k'),
     2: dict(inv=['j_min <= j <= j_max + 1', '0 <= j_min', 'w3ok acc', ('accumulator holds the partial sum', 'w3 acc = sm v_A v_B lb k 0 j'), ('accumulator bound', '0 <= w3 acc <= j * ((this.dense_p - 1) * (this.dense_p - 1))')], var='j_max + 1 - j')},
   ghost={'decl:j_min': ['sm_zero v_A v_B lb k 0 j_min'],
      'loop2.begin': ['let ghost pm = (this.dense_p - 1) * (this.dense_p - 1) in', 'assert { 0 <= k - j < lb }', 'prodb (arr_get v_A j) (arr_get v_B (k - j)) this.dense_p', 'assert { sm v_A v_B lb k 0 (j + 1) = sm v_A v_B lb k 0 j + arr_get v_A j * arr_get v_B (k - j) }', 'accb (j + 1) this.dense_p', 'assert { (j + 1) * pm = j * pm + pm }'],
      'loop2.post': ['hib (w3 acc) j this.dense_p acc.word3_hi (acc.word3_lo + bB * acc.word3_mid)', 'sm_cat v_A v_B lb k 0 j la', 'sm_zero v_A v_B lb k j la', 'assert { w3 acc = conv v_A la v_B lb k }']})

SF = lambda a, b='v_A': 'same_field %s %s' % (a, b)
ALEN = 'arr_len v_A.dense_coeffs'; BLEN = 'arr_len v_B.dense_coeffs'
def L(x): return 'arr_len %s.dense_coeffs' % x
def G(x, k='k'): return 'g %s.dense_coeffs (%s) %s' % (x, L(x), k)
fn('d_deg', D+'deg', None, ['this'], ensures=[('degree, -1 for zero', 'result = arr_len this.dense_coeffs - 1'), ('range', '-1 <= result < 0x1000000000000000')])
fn('d_size', D+'size', None, ['this'], ensures=[('length', 'result = arr_len this.dense_coeffs'), ('range', '0 <= result <= 0x1000000000000000')])
fn('d_empty', D+'empty', None, ['this'], ensures=[('zero', 'result <-> arr_len this.dense_coeffs = 0')])
fn('d_prime', D+'prime', None, ['this'], ensures=[('modulus', 'result = this.dense_p')])
fn('d_lead', D+'lead', None, ['this'], ensures=[('leading coefficient', 'result = g this.dense_coeffs (arr_len this.dense_coeffs) (arr_len this.dense_coeffs - 1)')])
fn('d_at', D+'operator[]', None, ['this', 'i'], ensures=[('coefficient', 'result = g this.dense_coeffs (arr_len this.dense_coeffs) i')])
fn('d_ctor0', D+'ctor', r'ctor\(\)$', ['this'], ensures=[('zero polynomial', 'arr_len this.dense_coeffs = 0 /\\ this.dense_p = 0 /\\ pre_ok 0 this.dense_ninv this.dense_norm')])
fn('d_ctorp', D+'ctor', r'ctor\(unsigned long\)$', ['this', 'p'], requires=['p <> 1'], ensures=[('zero polynomial over the field', 'arr_len this.dense_coeffs = 0 /\\ this.dense_p = p /\\ (p <> 0 -> dok this)')])
Qc, Rc, Bc, Ac = 'v_Q.dense_coeffs', 'v_R.dense_coeffs', 'v_B.dense_coeffs', 'v_A.dense_coeffs'
FIELDS = ['fld v_Q /\\ fld v_R', 'same_field v_Q v_A', 'same_field v_R v_A']
fn('d_divrem', D+'divrem', None, ['v_Q', 'v_R', 'v_A', 'v_B'], requires=['dok v_A', 'dok v_B', 'isprime v_A.dense_p', 'same_field v_A v_B', 'arr_len v_B.dense_coeffs > 0'], ensures=[('quotient and remainder in the field', 'dok v_Q /\\ dok v_R /\\ same_field v_Q v_A /\\ same_field v_R v_A'),
   ('remainder of smaller degree', 'arr_len v_R.dense_coeffs < arr_len v_B.dense_coeffs'), ('division identity', 'divid v_A.dense_coeffs v_B.dense_coeffs v_Q.dense_coeffs v_R.dense_coeffs v_A.dense_p'),
   ('lengths', '(arr_len v_Q.dense_coeffs > 0 -> arr_len v_Q.dense_coeffs + arr_len v_B.dense_coeffs - 1 <= arr_len v_A.dense_coeffs) /\\ arr_len v_R.dense_coeffs <= arr_len v_A.dense_coeffs')],
   loops={1: dict(inv=FIELDS+['invp inv_lc (arr_get v_B.dense_coeffs d) v_A.dense_p', '0 <= i <= r_len', 'accs_len v_R3 = r_len', ('accumulators start at the dividend', 'forall k:int. 0 <= k < i -> w3ok (accs_get v_R3 k) /\\ w3 (accs_get v_R3 k) = arr_get v_A.dense_coeffs k')], var='r_len - i'),
     2: dict(inv=FIELDS+['invp inv_lc (arr_get v_B.dense_coeffs d) p', '-1 <= i_2 < q_len', 'accs_len v_R3 = r_len', 'arr_len v_Q.dense_coeffs = q_len', 'red v_Q.dense_coeffs q_len p',
        ('dividend = accumulators + partial quotient * divisor', 'dinv v_A.dense_coeffs v_R3 v_Q.dense_coeffs v_B.dense_coeffs (d + 1) (i_2 + 1) q_len r_len p'),
        ('processed positions vanish', 'van v_R3 (i_2 + d) r_len p'),
        ('accumulator bounds', 'wbnd v_R3 r_len p (q_len - 1 - i_2)')], var='i_2 + 1'),
     3: dict(inv=FIELDS+['0 <= j <= d + 1', 'accs_len v_R3 = r_len', 'c = p - q_i',
        ('row added so far', 'rowp w0 v_R3 v_B.dense_coeffs i_2 j c r_len')], var='d + 1 - j'),
     4: dict(inv=FIELDS+['0 <= i_3 <= d', 'arr_len v_R.dense_coeffs = d', ('remainder so far', 'remp v_R.dense_coeffs v_R3 i_3 p')], var='d - i_3')},
   ghost={'loop2.pre': ['assert { wbnd v_R3 r_len p 0 }', 'assert { dinv v_A.dense_coeffs v_R3 v_Q.dense_coeffs v_B.dense_coeffs (d + 1) q_len q_len r_len p }'],
     'loop2.begin': ['let ghost w0 = v_R3 in', 'let ghost qq = v_Q.dense_coeffs in', 'let ghost top = accs_at v_R3 (i_2 + d) in', 'let ghost wt = w3 top in', 'assert { wt = top.word3_lo + bB * top.word3_mid + bB * bB * top.word3_hi }', 'topok v_R3 (i_2 + d) r_len p (q_len - 1 - i_2)'],
     'decl:r': ['lll3 r top.word3_lo top.word3_mid top.word3_hi p wt'], 'decl:inv_lc': ['assert { invp inv_lc (arr_get v_B.dense_coeffs d) v_A.dense_p }'], 'decl:q_i': ['let ghost cc = (if q_i = 0 then 0 else p - q_i) in', 'rowz w0 v_B.dense_coeffs (d + 1) i_2 r_len p (q_len - 1 - i_2)'],
     'if2.cut': ['wrow w0 v_R3 v_B.dense_coeffs (d + 1) i_2 cc r_len'],
     'loop3.pre': ['rowp0 w0 v_B.dense_coeffs i_2 c r_len p (q_len - 1 - i_2)'], 'loop3.post': ['rowpd w0 v_R3 v_B.dense_coeffs (d + 1) i_2 c r_len'],
     'loop3.end': ['rowp1 w0 wold v_R3 v_B.dense_coeffs i_2 j c r_len'],
     'loop3.begin': ['let ghost wold = v_R3 in', 'let ghost wj = accs_at v_R3 (i_2 + j) in', 'let ghost bj = arr_at v_B.dense_coeffs j in'],
     'call:d_addc#1.pre': ['addok wj (accs_at w0 (i_2 + j)) c bj p1 p0 p (q_len - 1 - i_2)'],
     'loop2.end': ['rowstep v_A.dense_coeffs w0 v_R3 qq v_Q.dense_coeffs v_B.dense_coeffs (d + 1) i_2 q_len r_len p q_i', 'bndstep w0 v_R3 v_B.dense_coeffs (d + 1) i_2 cc r_len p (q_len - 1 - i_2)', 'leadstep w0 v_R3 v_B.dense_coeffs (d + 1) i_2 cc r_len p q_i r inv_lc', 'vanstep w0 v_R3 v_B.dense_coeffs (d + 1) i_2 cc r_len p'],
     'loop4.begin': ['let ghost rold = v_R.dense_coeffs in', 'let ghost wr = accs_at v_R3 i_3 in', 'topok v_R3 i_3 r_len p q_len'], 'loop4.end': ['lll3 (arr_at v_R.dense_coeffs i_3) wr.word3_lo wr.word3_mid wr.word3_hi p (w3 wr)', 'remstep rold v_R.dense_coeffs v_R3 i_3 p'],
     'loop4.pre': ['let ghost qf = v_Q.dense_coeffs in'],
     'loop4.post': ['let ghost rf = v_R.dense_coeffs in', 'assert { red rf d p }'],
     'call:d_strip#2.post': ['let ghost q1_ = v_Q.dense_coeffs in', 'let ghost r1_ = v_R.dense_coeffs in', 'drfin v_A.dense_coeffs v_R3 qf q1_ v_B.dense_coeffs rf r1_ (d + 1) q_len d r_len p',
        'stripred qf q1_ q_len p', 'stripred rf r1_ d p']},
   alias=[{'v_A': 'v_Q'}, {'v_B': 'v_Q'}, {'v_A': 'v_R'}, {'v_B': 'v_R'}])
fn('d_smul', D+'scalar_mul', None, ['this', 'c'], requires=['dok this', 'isprime this.dense_p', 'c < this.dense_p'], ensures=[('every coefficient scaled', 'forall k:int. g this.dense_coeffs (arr_len this.dense_coeffs) k = mod (c * g this_0.dense_coeffs (arr_len this_0.dense_coeffs) k) this.dense_p'), ('canonical', 'dok this'), ('field kept', 'same_field this this_0')],
   loops={1: dict(inv=['same_field this this_0', 'arr_len this.dense_coeffs = arr_len this_0.dense_coeffs', 'forall i:int. 0 <= i < $k -> arr_get this.dense_coeffs i = mulmod c (arr_get this_0.dense_coeffs i) this.dense_p', 'forall i:int. $k <= i < arr_len this.dense_coeffs -> arr_get this.dense_coeffs i = arr_get this_0.dense_coeffs i'])},
   ghost={'loop1.begin': ['let ghost ce = arr_at this.dense_coeffs $k in'], 'loop1.end': ['assert { arr_get this_0.dense_coeffs $k = ce }', 'let ghost pr = ce * c in', 'assert { arr_get this.dense_coeffs $k = mod pr this.dense_p }', 'assert { pr = c * arr_get this_0.dense_coeffs $k }', 'assert { arr_get this.dense_coeffs $k = mulmod c (arr_get this_0.dense_coeffs $k) this.dense_p }'], 'loop1.post': ['assert { forall i:int. 0 <= i < arr_len this.dense_coeffs -> arr_get this.dense_coeffs i = mod (c * arr_get this_0.dense_coeffs i) this.dense_p }', 'if arr_len this.dense_coeffs > 0 && mod (c * arr_get this_0.dense_coeffs (arr_len this_0.dense_coeffs - 1)) this.dense_p = 0 then primeprod this.dense_p c (arr_at this_0.dense_coeffs (arr_len this_0.dense_coeffs - 1))', 'assert { red this.dense_coeffs (arr_len this.dense_coeffs) this.dense_p }', 'assert { arr_len this.dense_coeffs > 0 -> arr_get this.dense_coeffs (arr_len this.dense_coeffs - 1) <> 0 }']})
MX = '(if la >= lb then la else lb)'
def pw(nm, q, op, e):
    fn(nm, D+q, None, ['this', 'v_C', 'v_A', 'la', 'v_B', 'lb'], requires=['fld this', 'la <= arr_len v_A /\\ lb <= arr_len v_B', 'la <= 0x1000000000000000 /\\ lb <= 0x1000000000000000', MX+' <= arr_len v_C', 'red v_A la this.dense_p', 'red v_B lb this.dense_p'],
      ensures=[('coefficient-wise', 'forall k:int. 0 <= k < %s -> arr_get v_C k = mod (g v_A la k %s g v_B lb k) this.dense_p' % (MX, op)), ('length without trailing zeros', '0 <= result <= %s /\\ (result > 0 -> arr_get v_C (result - 1) <> 0) /\\ forall k:int. result <= k < %s -> arr_get v_C k = 0' % (MX, MX)), ('size kept', 'arr_len v_C = arr_len v_C_0')],
      loops=dict([(1, dict(inv=['0 <= i <= min_len', 'la = la_0 /\\ lb = lb_0 /\\ v_A = v_A_0 /\\ v_B = v_B_0', 'arr_len v_C = arr_len v_C_0', 'forall k:int. 0 <= k < i -> arr_get v_C k = mod (g v_A la k %s g v_B lb k) this.dense_p' % op], var='min_len - i'))] +
        ([(2, dict(inv=['min_len <= i <= lb', 'min_len = la', 'la = la_0 /\\ lb = lb_0 /\\ v_A = v_A_0 /\\ v_B = v_B_0', 'arr_len v_C = arr_len v_C_0', 'forall k:int. 0 <= k < i -> arr_get v_C k = mod (g v_A la k - g v_B lb k) this.dense_p'], var='lb - i'))] if op == '-' else [])),
      ghost={'loop2.begin': ['let ghost bi = arr_at v_B i in', 'if bi = 0 then assert { mod (0 - bi) this.dense_p = 0 } else mod_uniq this.dense_p (-1) (this.dense_p - bi)']} if op == '-' else None)
    fn(e, D+q.replace('_poly_', ''), None, ['v_C', 'v_A', 'v_B'], requires=['dok v_A', 'dok v_B', 'same_field v_A v_B'], ensures=[('coefficient-wise', 'forall k:int. %s = mod (%s %s %s) v_A.dense_p' % (G('v_C'), G('v_A'), op, G('v_B'))), ('canonical', 'dok v_C /\\ same_field v_C v_A')],
      alias=[{'v_A': 'v_C'}, {'v_B': 'v_C'}])
pw('d_padd', '_poly_add', '+', 'd_add')
pw('d_psub', '_poly_sub', '-', 'd_sub')
fn('d_kar', D+'_kar_mul', None, ['this', 'v_C', 'v_A', 'v_B', 'n', 'v_S'], requires=['fld this', '1 <= n <= arr_len v_A', 'n <= arr_len v_B', '2 * n - 1 <= arr_len v_C', '6 * n <= arr_len v_S', 'red v_A n this.dense_p', 'red v_B n this.dense_p'],
   ensures=[('every coefficient of the product', 'forall k:int. 0 <= k < 2 * n - 1 -> arr_get v_C k = mod (conv v_A n v_B n k) this.dense_p'), ('size kept', 'arr_len v_C = arr_len v_C_0 /\\ arr_len v_S = arr_len v_S_0')], contract_only=True, note='Karatsuba recursion: bounded differential search')
fn('d_mul', D+'mul', None, ['v_C', 'v_A', 'v_B'], requires=['dok v_A', 'dok v_B', 'same_field v_A v_B'], ensures=[('every coefficient of the product', 'forall k:int. 0 <= k -> %s = mod (conv v_A.dense_coeffs (%s) v_B.dense_coeffs (%s) k) v_A.dense_p' % (G('v_C'), ALEN, BLEN)), ('canonical', 'dok v_C /\\ same_field v_C v_A')],
   ghost={'call:d_cmul#1.post': ['let ghost c1 = v_C.dense_coeffs in', 'assert { red c1 (arr_len c1) v_A.dense_p }'],
     'call:d_strip#1.post': ['let lemma row1 (k: int) requires { 0 <= k } ensures { g v_C.dense_coeffs (arr_len v_C.dense_coeffs) k = mod (conv v_A.dense_coeffs len_a v_B.dense_coeffs len_b k) v_A.dense_p } = assert { g v_C.dense_coeffs (arr_len v_C.dense_coeffs) k = g c1 (arr_len c1) k }; if k >= len_a + len_b - 1 then conv_out v_A.dense_coeffs v_B.dense_coeffs len_a len_b k in', 'assert { red v_C.dense_coeffs (arr_len v_C.dense_coeffs) v_A.dense_p by forall i:int. 0 <= i < arr_len v_C.dense_coeffs -> arr_get v_C.dense_coeffs i = g c1 (arr_len c1) i by g v_C.dense_coeffs (arr_len v_C.dense_coeffs) i = g c1 (arr_len c1) i }'],
     'call:d_kar#1.post': ['let ghost c2 = v_C.dense_coeffs in', 'assert { red c2 (arr_len c2) v_A.dense_p }', 'assert { forall i:int. g b_pad n i = g v_B.dense_coeffs len_b i }'],
     'call:d_strip#2.post': ['let lemma row2 (k: int) requires { 0 <= k } ensures { g v_C.dense_coeffs (arr_len v_C.dense_coeffs) k = mod (conv v_A.dense_coeffs len_a v_B.dense_coeffs len_b k) v_A.dense_p } = assert { g v_C.dense_coeffs (arr_len v_C.dense_coeffs) k = g c2 (arr_len c2) k }; conv_pad v_A.dense_coeffs v_B.dense_coeffs a_pad b_pad len_a len_b n k; if k >= 2 * n - 1 then conv_out v_A.dense_coeffs v_B.dense_coeffs len_a len_b k in', 'assert { red v_C.dense_coeffs (arr_len v_C.dense_coeffs) v_A.dense_p by forall i:int. 0 <= i < arr_len v_C.dense_coeffs -> arr_get v_C.dense_coeffs i = g c2 (arr_len c2) i by g v_C.dense_coeffs (arr_len v_C.dense_coeffs) i = g c2 (arr_len c2) i }'],
     'entry': ['let lemma ez (k: int) ensures { arr_len v_A.dense_coeffs = 0 \\/ arr_len v_B.dense_coeffs = 0 -> conv v_A.dense_coeffs (arr_len v_A.dense_coeffs) v_B.dense_coeffs (arr_len v_B.dense_coeffs) k = 0 } = if arr_len v_A.dense_coeffs = 0 || arr_len v_B.dense_coeffs = 0 then sm_zero v_A.dense_coeffs v_B.dense_coeffs (arr_len v_B.dense_coeffs) k 0 (arr_len v_A.dense_coeffs) in']},
   alias=[{'v_A': 'v_C'}, {'v_B': 'v_C'}, {'v_A': 'v_C', 'v_B': 'v_C'}])
fn('d_ghgcd', D+'_gcd_hgcd', None, ['this', 'v_G', 'lg', 'v_A', 'la', 'v_B', 'lb'], requires=['fld this', 'isprime this.dense_p', 'la = arr_len v_A /\\ lb = arr_len v_B', 'la >= lb', 'lb > 0', 'arr_len v_G = la', 'red v_A la this.dense_p /\\ red v_B lb this.dense_p'],
   ensures=['arr_len v_G = arr_len v_G_0', '0 <= lg <= arr_len v_G', 'red v_G lg this.dense_p', 'lg > 0 -> arr_get v_G (lg - 1) <> 0', 'forall d:arr. pdv d (arr_take v_G lg) this.dense_p <-> pdv d v_A this.dense_p /\\ pdv d v_B this.dense_p'], contract_only=True, note='half-gcd branch (length >= 340): bounded differential search')
GC = 'forall d:arr. pdv d a.dense_coeffs v_A.dense_p /\\ pdv d b.dense_coeffs v_A.dense_p <-> pdv d v_A.dense_coeffs v_A.dense_p /\\ pdv d v_B.dense_coeffs v_A.dense_p'
fn('d_gcd', D+'gcd', None, ['v_G', 'v_A', 'v_B'], requires=['dok v_A', 'dok v_B', 'same_field v_A v_B', 'isprime v_A.dense_p'], ensures=[('common divisors are exactly the divisors of the gcd', 'forall d:arr. pdv d v_G.dense_coeffs v_A.dense_p <-> pdv d v_A.dense_coeffs v_A.dense_p /\\ pdv d v_B.dense_coeffs v_A.dense_p'), ('canonical', 'dok v_G /\\ same_field v_G v_A')],
   loops={1: dict(inv=['dok a /\\ dok b', 'same_field a v_A /\\ same_field b v_A', ('common divisors kept', GC)], var='arr_len b.dense_coeffs')}, alias=[{'v_A': 'v_G'}, {'v_B': 'v_G'}])
cfg['fns'] = F
