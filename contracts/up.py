"""univariate polynomials (upolynomial.hh, upolynomial.cc): evaluation, derivative, conversions.
ZZ is abstracted to int (unit zz), Zp and QQ to their values (units zp, qq); umonomial is its exponent."""
from trans import *
from zzt import *
import pvlib

THEO = r"""
module PV
use int.Int
use int.EuclideanDivision as ED
use int.ComputerDivision as CD
use ref.Ref
use Base
use Ty0
use Ty
  predicate lt (a b: umon) = a.umon_deg > b.umon_deg
  function ev umon : int       (* an arbitrary evaluation of monomials *)
  function pw (x n: int) : int
  axiom pw_0: forall x: int. pw x 0 = 1
  axiom pw_s: forall x n m: int [pw x n, pw x m]. 0 <= n /\ m = n + 1 -> pw x m = x * pw x n
  val zpow (a n: int) : int requires { [@expl:exponent not negative] 0 <= n } ensures { result = pw a n }
  constant xp : int            (* an arbitrary point *)
  function pev (m: umon) : int = pw xp m.umon_deg
  (* derivative of a monomial under the arbitrary evaluation *)
  function dev (m: umon) : int = if m.umon_deg = 0 then 0 else m.umon_deg * ev { umon_deg = m.umon_deg - 1 }
  predicate nonneg (v: pv) = forall i: int [pv_get v i]. 0 <= i < pv_len v -> 0 <= (pv_get v i).term_first.umon_deg
""" + pvlib.theory((('valf', 'value', 'ev'), ('pvf', 'pvalue', 'pev'), ('dvf', 'dvalue', 'dev'))) + r"""
  let ghost dstep (c d e: int) ensures { (c * d) * e = c * (d * e) } = ()
  let ghost distr3 (a b c d r: int) requires { r = a * (b + c * d) } ensures { r = a * b + (a * c) * d } = ()
  let ghost scal (w c e k nw: int) requires { nw = w * k + (c * k) * e } ensures { nw = (w + c * e) * k } = assert { (c * k) * e = (c * e) * k }
  function evp umon : int
  predicate sortedp (v: pvp) = forall i j: int [pvp_get v i, pvp_get v j]. 0 <= i < j < pvp_len v -> lt (pvp_get v i).termp_first (pvp_get v j).termp_first
  predicate canonp (v: pvp) (p: int) = sortedp v /\ forall i: int [pvp_get v i]. 0 <= i < pvp_len v -> 0 < (pvp_get v i).termp_second.zp_i < p /\ (pvp_get v i).termp_second.zp_p = p
  (* value of a polynomial over Zp read with the representatives 0..p-1 *)
  function zvf (v: pvp) (n: int) : int
  axiom zvf_0: forall v: pvp. zvf v 0 = 0
  axiom zvf_s: forall v: pvp, n m: int [zvf v n, zvf v m]. 0 <= n /\ m = n + 1 -> zvf v m = zvf v n + (pvp_get v n).termp_second.zp_i * ev (pvp_get v n).termp_first
  function zvalue (v: pvp) : int = zvf v (pvp_len v)
  let rec ghost zvf_frame (v w: pvp) (n: int) requires { 0 <= n } requires { forall i: int. 0 <= i < n -> pvp_get v i = pvp_get w i } ensures { zvf v n = zvf w n } variant { n } = if n > 0 then zvf_frame v w (n-1)
  let ghost zpush (v: pvp) (x: termp) ensures { zvalue (pvp_push v x) = zvalue v + x.termp_second.zp_i * ev x.termp_first }
  = zvf_frame (pvp_push v x) v (pvp_len v); assert { zvf (pvp_push v x) (pvp_len v + 1) = zvf (pvp_push v x) (pvp_len v) + x.termp_second.zp_i * ev x.termp_first }
  predicate isq (a b k: int)
  axiom isq_def: forall a b k: int [isq a b k]. isq a b k <-> b = a * k
  predicate dvd (a b: int) = exists k: int [isq a b k]. isq a b k
  val zlcm (a b: int) : int ensures { a > 0 -> b > 0 -> result > 0 } ensures { dvd a result } ensures { dvd b result }
  let ghost massoc (a k l b c: int) requires { b = a * k } requires { c = b * l } ensures { c = a * (k * l) } = assert { c = (a * k) * l }; assert { (a * k) * l = a * (k * l) }
  let lemma dvd_trans (a b c: int) requires { dvd a b } requires { dvd b c } ensures { dvd a c } = let ghost k = any int ensures { isq a b result } in let ghost l = any int ensures { isq b c result } in begin massoc a k l b c; let ghost m = k * l in assert { isq a c m } end
  let lemma dvd_refl (a: int) ensures { dvd a a } = assert { isq a a 1 }
  let lemma dvd_div (a b: int) requires { dvd a b } requires { a > 0 } requires { b > 0 } ensures { b = a * CD.div b a } = let ghost k = any int ensures { isq a b result } in assert { k > 0 }; assert { CD.div (a * k) a = k }
  (* value of L times a rational polynomial, for a common denominator L *)
  function qvf (v: pvq) (l n: int) : int
  axiom qvf_0: forall v: pvq, l: int. qvf v l 0 = 0
  axiom qvf_s: forall v: pvq, l n m: int [qvf v l n, qvf v l m]. 0 <= n /\ m = n + 1 -> qvf v l m = qvf v l n + ((pvq_get v n).termq_second.qq_num * CD.div l (pvq_get v n).termq_second.qq_den) * ev (pvq_get v n).termq_first
  predicate okq (v: pvq) = forall i: int [pvq_get v i]. 0 <= i < pvq_len v -> (pvq_get v i).termq_second.qq_den > 0
  predicate sortedq (v: pvq) = forall i j: int [pvq_get v i, pvq_get v j]. 0 <= i < j < pvq_len v -> lt (pvq_get v i).termq_first (pvq_get v j).termq_first
  (* the denominators times the scaled coefficients give the numerators times L: L * p exactly *)
  predicate common (v: pvq) (l: int) = l > 0 /\ forall i: int [pvq_get v i]. 0 <= i < pvq_len v -> l = (pvq_get v i).termq_second.qq_den * CD.div l (pvq_get v i).termq_second.qq_den
  let ghost modstep (w z p k c r e: int) requires { w = z + p * k } requires { p > 0 } requires { r = ED.mod c p } ensures { w + c * e = (z + r * e) + p * (k + ED.div c p * e) }
  = assert { c = p * ED.div c p + r }; assert { c * e = (p * ED.div c p) * e + r * e }
end
"""
cfg = dict(
  tu='up.cc',
  roots=['clpoly::assign', 'clpoly::derivative', 'clpoly::get_deg', 'clpoly::polynomial_mod', 'clpoly::poly_convert', 'clpoly::operator*', 'clpoly::basic_polynomial::*', 'clpoly::umonomial::*', 'clpoly::zore_check::*', 'clpoly::Zp::*'],
  abbr=[('clpoly::umonomial', 'M'), ('clpoly::ZZ', 'Z'), ('clpoly::Zp', 'Zp'), ('clpoly::QQ', 'QQ'), ('clpoly::uless', 'C'), ('std::pair<M, Z>', 'T'), ('std::pair<M, Zp>', 'TP'), ('std::pair<M, QQ>', 'TQ'), ('std::vector<T>', 'PV'),
     ('clpoly::basic_polynomial<M, Z, C>', 'P'), ('clpoly::basic_polynomial<M, Zp, C>', 'PP'), ('clpoly::basic_polynomial<M, QQ, C>', 'PQ')],
  types={'M': 'umon', 'Z': INTZ, 'C': TOpaque('cmp'), 'Zp': TOpaque('zp'), 'QQ': TOpaque('qq'), 'PV': 'pv', 'T': 'term', 'TP': 'termp', 'TQ': 'termq', 'P': 'poly', 'PP': 'polyp', 'PQ': 'polyq', 'std::vector<TP>': 'pvp', 'std::vector<TQ>': 'pvq'},
  globals={'clpoly::uless::init': 'uless_init'}, addr_of=lambda tr, l: Val('cmp_default', TPtr(l.ty), True) if l.root == 'uless_init' else None,
  trivmove=('zp',),
  convert=lambda tr, v, t: Val('(qq_z %s)' % v.t, t) if (v.ty.why, t.why) == ('int', 'qq') and not isinstance(v.ty, TInt) else None,
  elvec={'term': 'pv', 'termp': 'pvp', 'termq': 'pvq'},
)
cfg['prelude0'] = ZZP + r"""
use int.EuclideanDivision as EDV
type cmp
type zp = { zp_i: int; zp_p: int }
type qq = { qq_num: int; qq_den: int }
val cmp_any () : cmp
val qq_z (a: int) : qq ensures { result.qq_num = a } ensures { result.qq_den = 1 }
val any_zp () : zp
val any_qq () : qq
val constant cmp_default : int
val zp_new (p: int) : zp ensures { result.zp_p = p /\ result.zp_i = 0 }
val zp_setz (a: zp) (c: int) : zp requires { [@expl:modulus set] a.zp_p > 0 } ensures { result.zp_p = a.zp_p } ensures { result.zp_i = EDV.mod c a.zp_p } ensures { 0 <= result.zp_i < a.zp_p }
"""
cfg['modules'] = THEO
cfg['use'] = ['PV']
cfg['templates'] = [
  (r'^clpoly::pow\(const Z &', '(zpow {0} {1})'),
  (r'^\[C\] clpoly::uless::ctor\(', '(cmp_any ())'),
  (r'^\[Zp\] clpoly::Zp::ctor\((?:unsigned long|unsigned int)\)', '(zp_new {0})'),
  (r'^\[Zp\] clpoly::Zp::operator=\(const Z &\)', dict(set={0: '(zp_setz {0} {1})'}, ret=0)),
  (r'^\[Zp\] clpoly::Zp::conv:bool', '({0}.zp_i <> 0)'),
  (r'^\[Zp\] clpoly::Zp::number\(', '{0}.zp_i'),
  (r'^\[Zp\] clpoly::Zp::ctor\((?:const )?Zp &&?\)', '{0}'),
  (r'^\[QQ\] clpoly::QQ::get_den\(', '{0}.qq_den'),
  (r'^\[QQ\] clpoly::QQ::get_num\(', '{0}.qq_num'),
  (r'^\[QQ\] clpoly::QQ::ctor\((?:const )?Z(?: &&?)?\)', '(qq_z {0})'),
  (r'^\[QQ\] clpoly::QQ::ctor\((?:const )?QQ &&?\)', '{0}'),
] + ZZT
F = []
def fn(*a, **k): F.append(Fn(*a, **k))
fn('u_deg', 'clpoly::get_deg', r'get_deg\(const P &\)', ['p'], ensures=[('degree of the leading term, 0 for zero', 'result = if pv_len p.poly_data = 0 then 0 else (pv_get p.poly_data 0).term_first.umon_deg'), ('at least every exponent', 'sorted p.poly_data -> forall i:int. 0 <= i < pv_len p.poly_data -> (pv_get p.poly_data i).term_first.umon_deg <= result')])
fn('u_assign', 'clpoly::assign', r'assign\(const P &, const Z &\)', ['P', 'a'], requires=['nonneg v_P.poly_data', 'a = xp'], ensures=[('value at the point', 'result = pvalue v_P.poly_data')],
  loops={1: dict(inv=[('partial value', 'v_O = pvf v_P.poly_data $k')])})
fn('u_der', 'clpoly::derivative', r'derivative\(const P &\)', ['p'], requires=['canon p.poly_data', 'nonneg p.poly_data'], ensures=[('derivative, exact', 'value result.poly_data = dvalue p.poly_data'), ('canonical', 'canon result.poly_data')],
  loops={1: dict(inv=[('partial derivative', 'value v_Pout.poly_data = dvf p.poly_data $k'), ('canonical so far', 'canon v_Pout.poly_data'), ('exponents lowered by one', 'forall i:int. 0 <= i < pv_len v_Pout.poly_data -> forall j:int. $k <= j < pv_len p.poly_data -> (pv_get v_Pout.poly_data i).term_first.umon_deg > (pv_get p.poly_data j).term_first.umon_deg - 1')])},
  ghost={'loop1.begin': ['let ghost ob = v_Pout.poly_data in', 'let ghost a0 = pv_at p.poly_data $k in', 'assert { dvf p.poly_data ($k + 1) = dvf p.poly_data $k + a0.term_second * dev a0.term_first }'], 'loop1.end': ['dstep a0.term_second a0.term_first.umon_deg (ev { umon_deg = a0.term_first.umon_deg - 1 })']})
fn('u_mod', 'clpoly::polynomial_mod', r'polynomial_mod\(const P &, unsigned long\)', ['p', 'prime'], requires=['canon p.poly_data', 'prime > 1'],
  ensures=[('image in the residue ring', 'exists k:int. value p.poly_data = zvalue result.polyp_data + prime * k'), ('canonical, residues in range', 'canonp result.polyp_data prime')],
  loops={1: dict(inv=[('partial image', 'valf p.poly_data $k = zvalue new_p.polyp_data + prime * gk'), ('canonical so far', 'canonp new_p.polyp_data prime'), 'coeff.zp_p = prime', ('exponents kept', 'forall i j:int. 0 <= i < pvp_len new_p.polyp_data /\\ $k <= j < pv_len p.poly_data -> lt (pvp_get new_p.polyp_data i).termp_first (pv_get p.poly_data j).term_first')])},
  ghost={'loop1.pre': ['let ghost ref gk = 0 in'], 'loop1.begin': ['let ghost nb = new_p.polyp_data in', 'let ghost a0 = pv_at p.poly_data $k in', 'assert { valf p.poly_data ($k + 1) = valf p.poly_data $k + a0.term_second * ev a0.term_first }'],
   'loop1.end': ['let ghost r0 = any int ensures { result = ED.mod a0.term_second prime } in', 'let ghost q0 = any int ensures { result = ED.div a0.term_second prime * ev a0.term_first } in', 'modstep (valf p.poly_data $k) (zvalue nb) prime gk a0.term_second r0 (ev a0.term_first)', 'gk <- gk + q0',
     'zpush nb { termp_first = a0.term_first; termp_second = { zp_i = r0; zp_p = prime } }']})
fn('u_zp2z', 'clpoly::poly_convert', r'poly_convert\(const PP &, P &\)', ['p_in', 'p_out'], ensures=[('lift to representatives', 'value p_out.poly_data = zvalue p_in.polyp_data'), ('canonical', 'canon p_out.poly_data')],
  loops={1: dict(inv=[('partial lift', 'value p_out.poly_data = zvf p_in.polyp_data $k')])})
fn('p_norm', 'clpoly::basic_polynomial::normalization', r'^\[P\]', ['this'], ensures=[('same exact value', 'value this.poly_data = value this_0.poly_data'), ('canonical', 'canon this.poly_data')], contract_only=True, note='proved in unit poly for the generic template')
fn('u_mulc', 'clpoly::operator*', r'operator\*\(P, const Z &\)', ['O', 'c'], ensures=[('exact value', 'value result.poly_data = value v_O_0.poly_data * c'), ('canonical', 'canon result.poly_data')],
  loops={1: dict(inv=['pv_len v_O.poly_data = pv_len v_O_0.poly_data', 'valf v_O.poly_data $k = valf v_O_0.poly_data $k * c', 'forall i:int. $k <= i < pv_len v_O.poly_data -> pv_get v_O.poly_data i = pv_get v_O_0.poly_data i'])}, ghost={'loop1.begin': ['let ghost vb = v_O.poly_data in', 'let ghost a0 = pv_at v_O_0.poly_data $k in', 'assert { valf v_O_0.poly_data ($k + 1) = valf v_O_0.poly_data $k + a0.term_second * ev a0.term_first }'],
   'loop1.end': ['valf_frame_l v_O.poly_data vb $k', 'assert { valf v_O.poly_data ($k + 1) = valf v_O.poly_data $k + (pv_get v_O.poly_data $k).term_second * ev (pv_get v_O.poly_data $k).term_first }', 'scal (valf v_O_0.poly_data $k) a0.term_second (ev a0.term_first) c (valf v_O.poly_data ($k + 1))']})
DV = ('common denominator', 'den > 0 /\\ forall i:int. 0 <= i < $k -> dvd (pvq_get p_in.polyq_data i).termq_second.qq_den den')
fn('u_q2z', 'clpoly::poly_convert', r'poly_convert\(const PQ &, P &\)', ['p_in', 'p_out'], requires=['okq p_in.polyq_data'], ensures=[('a common denominator times the polynomial', 'exists l:int. common p_in.polyq_data l /\\ value p_out.poly_data = qvf p_in.polyq_data l (pvq_len p_in.polyq_data)'), ('canonical', 'canon p_out.poly_data')],
  loops={1: dict(inv=[DV]), 2: dict(inv=['common p_in.polyq_data den', ('partial value', 'value p_out.poly_data = qvf p_in.polyq_data den $k')])},
  ghost={'entry': ['assert { pvq_len p_in.polyq_data = 0 -> common p_in.polyq_data 1 }'], 'loop1.begin': ['let ghost d0 = den in', 'let ghost a0 = pvq_at p_in.polyq_data $k in', 'assert { a0.termq_second.qq_den > 0 }'], 'loop1.end': ['assert { dvd d0 den }'], 'loop2.pre': ['assert { common p_in.polyq_data den }']})
fn('u_z2q', 'clpoly::poly_convert', r'poly_convert\(const P &, PQ &\)', ['p_in', 'p_out'], requires=['canon p_in.poly_data'], ensures=[('same terms', 'pvq_len p_out.polyq_data = pv_len p_in.poly_data /\\ forall i:int. 0 <= i < pv_len p_in.poly_data -> (pvq_get p_out.polyq_data i).termq_first = (pv_get p_in.poly_data i).term_first /\\ (pvq_get p_out.polyq_data i).termq_second = { qq_num = (pv_get p_in.poly_data i).term_second; qq_den = 1 }')],
  loops={1: dict(inv=[('terms so far', 'pvq_len p_out.polyq_data = $k /\\ forall i:int. 0 <= i < $k -> (pvq_get p_out.polyq_data i).termq_first = (pv_get p_in.poly_data i).term_first /\\ (pvq_get p_out.polyq_data i).termq_second = { qq_num = (pv_get p_in.poly_data i).term_second; qq_den = 1 }')])})
fn('pq_norm', 'clpoly::basic_polynomial::normalization', r'^\[PQ\]', ['this'], ensures=['sortedq this_0.polyq_data /\\ (forall i:int. 0 <= i < pvq_len this_0.polyq_data -> (pvq_get this_0.polyq_data i).termq_second.qq_num <> 0) -> this = this_0'], contract_only=True, note='proved in unit poly for the generic template')
cfg['fns'] = F
