"""polynomial layer: sparse polynomials as sorted coefficient/monomial vectors (basic.hh, basic_polynomial.hh).
ZZ is abstracted to int (justified by unit zz), basic_monomial to an ordered monoid (unit mono)."""
from trans import *
from zzt import *
import pvlib

ORDP = '''
  function lexgt (a b: pv) (i: int) : bool
  axiom lexgt_s: forall a b: pv, i: int [lexgt a b i]. 0 <= i -> lexgt a b i = (if i >= pv_len a then False else if i >= pv_len b then True
     else if (pv_get a i).term_first <> (pv_get b i).term_first then lt (pv_get a i).term_first (pv_get b i).term_first
     else if (pv_get a i).term_second <> (pv_get b i).term_second then (pv_get a i).term_second > (pv_get b i).term_second
     else lexgt a b (i+1))
  (* a remainder term the leading term of the divisor cannot reduce any further *)
  predicate irred (g: pv) (t: term) = pv_len g > 0 /\\ (mdiv (pv_get g 0).term_first t.term_first -> fq t.term_second (pv_get g 0).term_second = 0)
  predicate eqv (a b: pv) = pv_len a = pv_len b /\\ forall i: int. 0 <= i < pv_len a -> pv_get a i = pv_get b i
  let rec ghost lex_irr (a: pv) (i: int) requires { 0 <= i } ensures { not lexgt a a i } variant { pv_len a - i } = if i < pv_len a then lex_irr a (i+1)
  let rec ghost lex_trans (a b c: pv) (i: int) requires { 0 <= i } requires { lexgt a b i } requires { lexgt b c i } ensures { lexgt a c i } variant { pv_len a - i }
  = if pure { i < pv_len a /\\ i < pv_len b /\\ i < pv_len c /\\ pv_get a i = pv_get b i /\\ pv_get b i = pv_get c i } then lex_trans a b c (i+1)
  let rec ghost lex_total (a b: pv) (i: int) requires { 0 <= i <= pv_len a } requires { i <= pv_len b } requires { not lexgt a b i } requires { not lexgt b a i } requires { forall j: int. 0 <= j < i -> pv_get a j = pv_get b j }
    ensures { eqv a b } variant { pv_len a - i }
  = if i < pv_len a && i < pv_len b then begin assert { (pv_get a i).term_first = (pv_get b i).term_first }; assert { (pv_get a i).term_second = (pv_get b i).term_second }; assert { pv_get a i = pv_get b i }; lex_total a b (i+1) end
  (* P15: the comparison of polynomials is a strict total order whose equality is equality of the canonical forms *)
  let ghost order_strict (a b c: pv) ensures { not lexgt a a 0 } ensures { lexgt a b 0 -> lexgt b c 0 -> lexgt a c 0 } ensures { not lexgt a b 0 -> not lexgt b a 0 -> eqv a b } ensures { lexgt a b 0 -> not lexgt b a 0 }
  = lex_irr a 0; (if pure { lexgt a b 0 /\\ lexgt b c 0 } then lex_trans a b c 0); (if pure { lexgt a b 0 /\\ lexgt b a 0 } then lex_trans a b a 0); if pure { not lexgt a b 0 /\\ not lexgt b a 0 } then lex_total a b 0
'''
POW = '''
  function pw (x n: int) : int
  axiom pw_0: forall x: int. pw x 0 = 1
  axiom pw_s: forall x n m: int [pw x n, pw x m]. 0 <= n /\\ m = n + 1 -> pw x m = x * pw x n
  let ghost pw1 (x n: int) requires { 0 < n } ensures { pw x n = x * pw x (n-1) } = assert { pw x ((n-1)+1) = x * pw x (n-1) }
  let rec ghost pw_dbl (z k: int) requires { k >= 0 } ensures { pw z (2 * k) = pw (z * z) k } variant { k }
  = if k > 0 then begin pw_dbl z (k-1); pw1 (z * z) k; pw1 z (2 * k); pw1 z (2 * k - 1); assert { pw z (2 * k) = z * (z * pw z (2 * (k-1))) }; assert { z * (z * pw z (2 * (k-1))) = (z * z) * pw (z * z) (k-1) } end
  (* one step of binary powering: the accumulator times the remaining power is kept *)
  let ghost pw_even (z i h q: int) requires { i = 2 * h } requires { h >= 0 } requires { q = z * z } ensures { pw q h = pw z i } = pw_dbl z h
  let ghost pw_odd (a z i h q b: int) requires { i = 2 * h + 1 } requires { h >= 0 } requires { q = z * z } requires { b = a * z } ensures { b * pw q h = a * pw z i }
  = pw_dbl z h; pw1 z i; assert { a * pw z i = a * (z * pw q h) }; assert { a * (z * pw q h) = b * pw q h }
'''
# canonical forms with the same coefficients are identical (so == decides mathematical equality)
COEF = '''
  let ghost negmul (a e: int) ensures { (- a) * e = - (a * e) } = ()
  let ghost mulstep (v a ea b eb w: int) requires { v = a * ea } ensures { v * (w + b * eb) = v * w + (a * b) * (ea * eb) } = assert { v * (w + b * eb) = v * w + v * (b * eb) }; assert { v * (b * eb) = (a * ea) * (b * eb) }; assert { (a * ea) * (b * eb) = (a * b) * (ea * eb) }
  let ghost mulstep2 (v a ea b eb w nv nb m: int) requires { v = a * ea } requires { nb = v * w } requires { m = ea * eb } requires { nv = nb + (a * b) * m } ensures { nv = v * (w + b * eb) } = mulstep v a ea b eb w
  lemma mulm_lt_inv: forall a b c: mono [lt (mulm c a) (mulm c b)]. lt (mulm c a) (mulm c b) -> lt a b
  lemma fq_fr: forall a b: int [fr a b]. b <> 0 -> fq (fr a b) b = 0
  let ghost divnum (w nb g rb a ea bs eb q r em: int) requires { w = nb * g + rb } requires { g = bs * eb } requires { ea = eb * em } requires { a = bs * q + r } ensures { w + a * ea = (nb + q * em) * g + (rb + r * ea) }
  = assert { a * ea = (bs * q) * ea + r * ea }; assert { (bs * q) * (eb * em) = (q * em) * (bs * eb) }; assert { (nb + q * em) * g = nb * g + (q * em) * g }
  let ghost divstep (dv: bool) (a b: term) (g nb nv rb rv: pv) (w: int)
    requires { w = value nb * value g + value rb } requires { value g = b.term_second * ev b.term_first } requires { b.term_second <> 0 } requires { dv -> mdiv b.term_first a.term_first }
    requires { nv = if dv && fq a.term_second b.term_second <> 0 then pv_push nb { term_first = quom a.term_first b.term_first; term_second = fq a.term_second b.term_second } else nb }
    requires { rv = if dv then (if fr a.term_second b.term_second <> 0 then pv_push rb { term_first = a.term_first; term_second = fr a.term_second b.term_second } else rb) else pv_push rb a }
    ensures { w + a.term_second * ev a.term_first = value nv * value g + value rv }
  = let ghost q = pure { fq a.term_second b.term_second } in let ghost r = pure { fr a.term_second b.term_second } in let ghost m = pure { quom a.term_first b.term_first } in
    if dv then begin
      value_push_l nb { term_first = m; term_second = q }; value_push_l rb { term_first = a.term_first; term_second = r };
      assert { value nv = value nb + q * ev m }; assert { value rv = value rb + r * ev a.term_first };
      assert { ev a.term_first = ev b.term_first * ev m };
      divnum w (value nb) (value g) (value rb) a.term_second (ev a.term_first) b.term_second (ev b.term_first) q r (ev m) end
    else value_push_l rb a
  let ghost mul_assoc (s e c t w: int) requires { t = s * c } requires { w = s * e } ensures { t * e = w * c } = assert { t * e = (s * c) * e }; assert { w * c = (s * e) * c }

  (* coefficient of monomial x in the first n entries *)
  function cf (v: pv) (n: int) (x: mono) : int
  axiom cf_0: forall v: pv, x: mono. cf v 0 x = 0
  axiom cf_s: forall v: pv, n m: int, x: mono [cf v n x, cf v m x]. 0 <= n /\\ m = n + 1 -> cf v m x = cf v n x + (if (pv_get v n).term_first = x then (pv_get v n).term_second else 0)
  function coef (v: pv) (x: mono) : int = cf v (pv_len v) x
  let rec ghost cf_none (v: pv) (n m: int) (x: mono) requires { 0 <= n <= m } requires { forall i: int. n <= i < m -> (pv_get v i).term_first <> x } ensures { cf v m x = cf v n x } variant { m - n }
  = if n < m then begin cf_none v n (m-1) x; assert { cf v m x = cf v (m-1) x + 0 } end
  let ghost coef_at (v: pv) (i: int) requires { sorted v } requires { 0 <= i < pv_len v } ensures { coef v (pv_get v i).term_first = (pv_get v i).term_second }
  = let ghost x = (pv_at v i).term_first in assert { forall j: int. 0 <= j < i -> (pv_get v j).term_first <> x }; assert { forall j: int. i+1 <= j < pv_len v -> (pv_get v j).term_first <> x };
    cf_none v 0 i x; cf_none v (i+1) (pv_len v) x; assert { cf v (i+1) x = cf v i x + (pv_get v i).term_second }
  let ghost coef_none (v: pv) (k: int) (x: mono) requires { sorted v } requires { 0 <= k <= pv_len v } requires { k < pv_len v -> lt x (pv_get v k).term_first } requires { forall i: int. 0 <= i < k -> (pv_get v i).term_first <> x } ensures { coef v x = 0 }
  = assert { forall j: int. 0 <= j < pv_len v -> (pv_get v j).term_first <> x }; cf_none v 0 (pv_len v) x
  let rec ghost same_prefix (a b: pv) (k: int) requires { canon a } requires { canon b } requires { forall x: mono. coef a x = coef b x } requires { 0 <= k <= pv_len a } requires { k <= pv_len b } requires { forall i: int. 0 <= i < k -> pv_get a i = pv_get b i }
    ensures { eqv a b } variant { pv_len a - k }
  = if k < pv_len a then begin coef_at a k;
      let ghost x = (pv_at a k).term_first in
      assert { forall i: int. 0 <= i < k -> (pv_get b i).term_first <> x };
      if k < pv_len b then begin coef_at b k; let ghost y = (pv_at b k).term_first in
        assert { forall i: int. 0 <= i < k -> (pv_get a i).term_first <> y };
        if pure { x = y } then begin assert { (pv_get a k).term_second = (pv_get b k).term_second }; assert { pv_get a k = pv_get b k }; same_prefix a b (k+1) end
        else if pure { lt x y } then coef_none b k x else coef_none a k y end
      else coef_none b k x end
    else if k < pv_len b then begin coef_at b k; let ghost y = (pv_at b k).term_first in assert { forall i: int. 0 <= i < k -> (pv_get a i).term_first <> y }; coef_none a k y end
  let rec ghost cf_prefix (a b: pv) (k: int) (x: mono) requires { 0 <= k } requires { forall i: int. 0 <= i < k -> pv_get a i = pv_get b i } ensures { cf a k x = cf b k x } variant { k }
  = if k > 0 then cf_prefix a b (k-1) x
  let ghost eqv_coef (a b: pv) (x: mono) requires { eqv a b } ensures { coef a x = coef b x } = cf_prefix a b (pv_len a) x
'''
MONO = TOpaque('mono')
CMP = TOpaque('cmp')

cfg = dict(
  tu='poly.cc',
  roots=['clpoly::pair_vec_*', 'clpoly::basic_polynomial::*', 'clpoly::operator*', 'clpoly::pow', 'clpoly::zore_check::*', 'clpoly::polynomial_div', 'clpoly::polynomial_rem'],
  abbr=[('clpoly::basic_monomial<clpoly::grlex_<clpoly::less>>', 'M'), ('clpoly::ZZ', 'Z'), ('clpoly::grlex_<clpoly::less>', 'C'),
        ('std::pair<M, Z>', 'T'), ('std::vector<T>', 'PV'), ('clpoly::basic_polynomial<M, Z, C>', 'P'), ('clpoly::basic_polynomial<basic_monomial<grlex>, ZZ, grlex>', 'P'), ('polynomial_<ZZ>', 'P'), ('clpoly::polynomial_<clpoly::ZZ>', 'P')],
  types={'M': MONO, 'Z': INTZ, 'C': CMP, 'PV': 'pv', 'std::initializer_list<T>': 'pv', 'T': 'term', 'P': 'poly'},
  globals={'clpoly::grlex_::init': 'grlex_init'}, addr_of=lambda tr, l: Val('cmp_default', TPtr(l.ty), True) if l.root == 'grlex_init' else None,
  elvec={'term': 'pv'}, sort={'pv': ('pv_sort', 'pv_is_sorted')},
)
cfg['prelude0'] = '''
''' + ZZP + '''
type mono
type cmp
val any_mono () : mono
(* admissible monomial order: strict total order, compatible with multiplication *)
predicate lt (a b: mono)   (* a precedes b in a polynomial: comp(a,b) *)
axiom lt_irr: forall a: mono. not lt a a
axiom lt_trans: forall a b c: mono. lt a b -> lt b c -> lt a c
axiom lt_total: forall a b: mono. lt a b \\/ a = b \\/ lt b a
val eqm (a b: mono) : bool ensures { result <-> a = b }
val ltm (a b: mono) : bool ensures { result <-> lt a b }
(* an arbitrary evaluation homomorphism: value below is the value of the polynomial under it *)
function ev mono : int
(* monomial product and divisibility: the laws proved in unit mono *)
val function mulm (a b: mono) : mono
axiom mulm_ev: forall a b: mono [mulm a b]. ev (mulm a b) = ev a * ev b
axiom mulm_comm: forall a b: mono. mulm a b = mulm b a
axiom mulm_lt: forall a b c: mono [mulm c a, mulm c b]. lt a b -> lt (mulm c a) (mulm c b)
predicate mdiv (b a: mono) = exists m: mono. a = mulm b m
val function quom (a b: mono) : mono   (* unspecified unless b divides a *)
axiom quom_ok: forall a b: mono [quom a b]. mdiv b a -> a = mulm b (quom a b)
val mdivb (a b: mono) : bool ensures { result <-> mdiv b a }
let lemma quom_lt (a b c: mono) requires { mdiv c a } requires { mdiv c b } requires { lt a b } ensures { lt (quom a c) (quom b c) }
= assert { lt (quom b c) (quom a c) -> lt (mulm c (quom b c)) (mulm c (quom a c)) }; assert { quom a c = quom b c -> a = b }
let ghost distr (a b c: int) ensures { a * (b + c) = a * b + a * c } = ()
let ghost distr3 (a b c d r: int) requires { r = a * (b + c * d) } ensures { r = a * b + (a * c) * d } = ()
val constant onem : mono
axiom ev_one: ev onem = 1
axiom one_least: forall m: mono. m = onem \\/ lt m onem   (* non-negative exponents *)
val is_onem (m: mono) : bool ensures { result <-> m = onem }
(* normalising a monomial keeps its value: m_norm in unit mono *)
val norm_m (m: mono) : mono ensures { ev result = ev m }
val constant cmp_default : int
val function cmp_at (p: int) : cmp
val cmp_eq (a b: cmp) : bool ensures { result <-> a = b }
'''
cfg['modules'] = '''
module PV
use int.Int
use ref.Ref
use Base
use Ty0
use Ty
''' + pvlib.theory() + pvlib.updates() + pvlib.sorttheory(pvlib.V1) + ORDP + POW + COEF + '''
end
'''
cfg['lemma_modules'] = []
cfg['use'] = ['PV']
cfg['templates'] = [
  (r'^\[C\] clpoly::grlex_::ctor\(\)', '(cmp_at cmp_default)'),
  (r'^\[C\] clpoly::grlex_::operator\(\)\(const M &, const M &\)', '(ltm {1} {2})'),
  (r'^\[M\] clpoly::basic_monomial::operator==\(const M &\)', '(eqm {0} {1})'),
  (r'^\[M\] clpoly::basic_monomial::operator!=\(const M &\)', '(not (eqm {0} {1}))'),
  (r'^clpoly::__auto_shrink', '()'),
  (r'^\[C\] clpoly::grlex_::operator==', '(cmp_eq {0} {1})'),
  (r'^\[P\] clpoly::basic_polynomial::comp\(\) const', '(cmp_at {0}.poly_comp)'),
  (r'^\[P\] clpoly::basic_polynomial::comp\(const M &, const M &\) const', '(ltm {1} {2})'),
  (r'^clpoly::comp_consistent', 'true'),
  (r'^\[M\] clpoly::basic_monomial::normalization\(\)', dict(set={0: '(norm_m {0})'})),
  (r'^\[M\] clpoly::basic_monomial::comp\(const C \*\)', '()'),
  (r'^\[M\] clpoly::basic_monomial::empty\(\)', '(is_onem {0})'),
  (r'^\[M\] clpoly::basic_monomial::ctor\(\)', 'onem'),
  (r'^\[M\] clpoly::basic_monomial::ctor\((?:const )?M &&?\)', '{0}'),
  (r'^\[M\] clpoly::basic_monomial::ctor\(std::initializer_list<std::pair<clpoly::variable, long>>\)', 'onem'),
  (r'^clpoly::operator\*\(const M &, const M &\)', '(mulm {0} {1})'),
  (r'^clpoly::is_divexact\(M &, const M &, const M &\)', dict(set={0: '(quom {1} {2})'}, val='(mdivb {1} {2})')),
  (r'^clpoly::__mono_mult__\(M &, const M &, const M &\)', dict(set={0: '(mulm {1} {2})'})),
] + ZZT
F = []
def fn(*a, **k): F.append(Fn(*a, **k))
PC = r'^clpoly::pair_vec_%s\(PV &, const PV &, const PV &, const C &\)'
F.append(pvlib.neg('pv_neg', 'clpoly::pair_vec_negate', r'^clpoly::pair_vec_negate\(PV &, const PV &\)'))
F.append(pvlib.addsub('pv_add', 'clpoly::pair_vec_add', PC % 'add', '+'))
F.append(pvlib.addsub('pv_sub', 'clpoly::pair_vec_sub', PC % 'sub', '-'))
NEGI = ['value new_T = - valf v1 $k', 'pv_len new_T = $k', 'forall i:int. 0 <= i < $k -> (pv_get new_T i).term_first = (pv_get v1 i).term_first /\\ (pv_get new_T i).term_second = - (pv_get v1 i).term_second']
fn('pv_negr', 'clpoly::pair_vec_negate', r'^clpoly::pair_vec_negate\(const PV &\)', ['v1'], requires=['canon v1'], ensures=[('exact value negated', 'value result = - value v1'), ('canonical', 'canon result')], loops={1: dict(inv=NEGI)}, ghost={'loop1.begin': ['let ghost nb = new_T in', 'let ghost a0 = pv_at v1 $k in', 'assert { valf v1 ($k + 1) = valf v1 $k + a0.term_second * ev a0.term_first }'],
  'loop1.end': ['value_push_l nb { term_first = a0.term_first; term_second = - a0.term_second }', 'negmul a0.term_second (ev a0.term_first)']})
F.append(pvlib.normal_check('pv_check', 'clpoly::pair_vec_normal_check', r'^clpoly::pair_vec_normal_check\(const PV &, const C &\)'))
F.append(pvlib.normalization('pv_norm', 'clpoly::pair_vec_normalization', r'^clpoly::pair_vec_normalization\(PV &, const clpoly::pair_compare<M, Z, C> &\)'))
fn('pv_first', 'clpoly::pair_vec_first_normalization', r'^clpoly::pair_vec_first_normalization\(PV &, const C &\)', ['v', 'comp'], ensures=[('same exact value', 'value v = value v_0')],
  loops={1: dict(inv=['pv_len v = pv_len v_0', 'valf v $k = valf v_0 $k', 'forall i:int. $k <= i < pv_len v -> pv_get v i = pv_get v_0 i'])}, ghost={'loop1.begin': ['let ghost vb = v in'], 'loop1.end': ['valf_frame_l v vb $k']})
fn('pv_equal', 'clpoly::pair_vec_equal_to', r'^clpoly::pair_vec_equal_to\(const PV &, const PV &\)', ['v1', 'v2'], ensures=[('same terms', 'result <-> eqv v1 v2')],
   loops={1: dict(inv=['0 <= v1_ptr <= v1_end', 'v2_ptr = v1_ptr', ('equal so far', 'forall i:int. 0 <= i < v1_ptr -> pv_get v1 i = pv_get v2 i')], var='v1_end - v1_ptr')})
fn('pv_comp', 'clpoly::pair_vec_comp', r'^clpoly::pair_vec_comp\(const PV &, const PV &, const C &\)', ['v1', 'v2', 'comp'], ensures=[('first difference decides', 'result <-> lexgt v1 v2 0')],
   loops={1: dict(inv=['0 <= v1_ptr <= v1_end', 'v2_ptr = v1_ptr', 'v2_ptr <= v2_end', ('equal so far', 'lexgt v1 v2 0 = lexgt v1 v2 v1_ptr')], var='v1_end - v1_ptr')})
P = 'clpoly::basic_polynomial::'
D = '.poly_data'
for n, op in (('add', '+'), ('sub', '-')):
    fn('p_'+n, 'clpoly::operator'+op, r'^clpoly::operator\%s\(const P &, const P &\)' % op, ['p1', 'p2' if n == 'add' else 'p'], requires=['canon p1.poly_data', 'canon %s.poly_data' % ('p2' if n == 'add' else 'p')],
      ensures=[('exact value', 'value result.poly_data = value p1.poly_data %s value %s.poly_data' % (op, 'p2' if n == 'add' else 'p')), ('canonical', 'canon result.poly_data'), ('order kept', 'result.poly_comp = p1.poly_comp')])
fn('p_neg', P+'operator-', r'^\[P\] .*operator-\(\) const', ['this'], requires=['canon this.poly_data'], ensures=[('exact value negated', 'value result.poly_data = - value this.poly_data'), ('canonical', 'canon result.poly_data'), ('order kept', 'result.poly_comp = this.poly_comp')])
fn('p_pos', P+'operator+', r'^\[P\] .*operator\+\(\) const', ['this'], ensures=[('same', 'result = this')])
fn('p_norm', P+'normalization', r'^\[P\]', ['this'], ensures=[('same exact value', 'value this.poly_data = value this_0.poly_data'), ('canonical', 'canon this.poly_data'), ('order kept', 'this.poly_comp = this_0.poly_comp')],
  ghost={'call:pv_norm#1.post': ['let ghost vn = this.poly_data in', 'let ghost rn = $r in'], 'exit': ['assert { forall i:int. 0 <= i < rn -> pv_get this.poly_data i = pv_get vn i }', 'valf_frame_l this.poly_data vn rn', 'assert { pv_len this.poly_data = rn }']})
fn('p_isnorm', P+'is_normal', r'^\[P\]', ['this'], ensures=[('decides canonical form', 'result <-> canon this.poly_data')])
fn('p_ctor_vec', P+'ctor', r'^\[P\].*ctor\(const PV &\)', ['this', 'v'], ensures=[('the sum of the terms', 'value this.poly_data = value v'), ('canonical', 'canon this.poly_data')])
fn('p_ctor_mvec', P+'ctor', r'^\[P\].*ctor\(PV &&\)', ['this', 'v'], ensures=[('the sum of the terms', 'value this.poly_data = value v_0'), ('canonical', 'canon this.poly_data')])
fn('p_ctor_il', P+'ctor', r'^\[P\].*ctor\(std::initializer_list<T>\)', ['this', 'init'], ensures=[('the sum of the terms', 'value this.poly_data = value init'), ('canonical', 'canon this.poly_data')])
fn('p_as_vec', P+'operator=', r'^\[P\].*operator=\(const PV &\)', ['this', 'init'], ensures=[('the sum of the terms', 'value this.poly_data = value init'), ('canonical', 'canon this.poly_data')])
fn('p_as_p', P+'operator=', r'^\[P\].*operator=\(const P &\)', ['this', 'p'], ensures=[('copy', 'this = p')], alias=[{'p': 'this'}])
fn('p_eq', P+'operator==', r'^\[P\]', ['this', 'p'], ensures=[('same terms', 'result <-> eqv this.poly_data p.poly_data')])
fn('p_ne', 'clpoly::operator!=', r'^clpoly::operator!=\(const P &, const P &\)', ['p1', 'p2'], ensures=[('not ==', 'result <-> not eqv p1.poly_data p2.poly_data')])
for n, op, e in (('gt', '>', 'lexgt this.poly_data p.poly_data 0'), ('lt', '<', 'lexgt p.poly_data this.poly_data 0'), ('le', '<=', 'not lexgt this.poly_data p.poly_data 0'), ('ge', '>=', 'not lexgt p.poly_data this.poly_data 0')):
    fn('p_'+n, P+'operator'+op, r'^\[P\].*operator%s\(const P &\)' % op, ['this', 'p'], ensures=[('one strict order', 'result <-> '+e)])
fn('p_addc', 'clpoly::operator+', r'^clpoly::operator\+\(P, Z\)', ['O', 'm'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O_0.poly_data + m_0'), ('canonical', 'canon result.poly_data')])
fn('p_cadd', 'clpoly::operator+', r'^clpoly::operator\+\(Z, P\)', ['m', 'O'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O.poly_data + m'), ('canonical', 'canon result.poly_data')])
fn('p_subc', 'clpoly::operator-', r'^clpoly::operator-\(P, const Z &\)', ['O', 'm'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O.poly_data - m'), ('canonical', 'canon result.poly_data')])
fn('p_csub', 'clpoly::operator-', r'^clpoly::operator-\(Z, P\)', ['m', 'O'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = m - value v_O.poly_data'), ('canonical', 'canon result.poly_data')])
fn('p_mulc', 'clpoly::operator*', r'^clpoly::operator\*\(P, Z\)', ['O', 'c'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O_0.poly_data * c_0'), ('canonical', 'canon result.poly_data')],
  loops={1: dict(inv=['pv_len v_O.poly_data = pv_len v_O_0.poly_data', 'valf v_O.poly_data $k = valf v_O_0.poly_data $k * c', 'forall i:int. $k <= i < pv_len v_O.poly_data -> pv_get v_O.poly_data i = pv_get v_O_0.poly_data i', 'c = c_0'])}, ghost={'loop1.begin': ['let ghost vb = v_O.poly_data in', 'assert { valf v_O_0.poly_data ($k + 1) = valf v_O_0.poly_data $k + (pv_get v_O_0.poly_data $k).term_second * ev (pv_get v_O_0.poly_data $k).term_first }'], 'loop1.end': ['valf_frame_l v_O.poly_data vb $k', 'let ghost w = (pv_at vb $k).term_second * ev (pv_at vb $k).term_first in', 'mul_assoc (pv_at vb $k).term_second (ev (pv_at vb $k).term_first) c (pv_at v_O.poly_data $k).term_second w', 'assert { (valf v_O_0.poly_data $k + w) * c = valf v_O_0.poly_data $k * c + w * c }', 'assert { valf v_O_0.poly_data ($k + 1) * c = (valf v_O_0.poly_data $k + w) * c }', 'assert { (pv_get v_O.poly_data $k).term_second = (pv_get vb $k).term_second * c }', 'assert { (pv_get v_O.poly_data $k).term_second * ev (pv_get vb $k).term_first = w * c }', 'assert { valf v_O.poly_data ($k + 1) = valf v_O.poly_data $k + (pv_get v_O.poly_data $k).term_second * ev (pv_get v_O.poly_data $k).term_first }', 'assert { (pv_get v_O.poly_data $k).term_first = (pv_get vb $k).term_first }', 'assert { valf v_O.poly_data ($k + 1) = valf v_O.poly_data $k + w * c }', 'assert { valf v_O.poly_data ($k + 1) = valf v_O_0.poly_data $k * c + w * c }', 'assert { valf v_O.poly_data ($k + 1) = valf v_O_0.poly_data ($k + 1) * c }']})
for n, t, ps, e in (('addi', '+', ['p', 'm'], 'value p.poly_data + m'), ('iadd', '+', ['m', 'p'], 'value p.poly_data + m'), ('subi', '-', ['p', 'm'], 'value p.poly_data - m'), ('isub', '-', ['m', 'p'], 'm - value p.poly_data')):
    fn('p_'+n, 'clpoly::operator'+t, r'^clpoly::operator\%s\(%s\)' % (t, ', '.join('(?:const )?P(?: &)?' if x == 'p' else 'long' for x in ps)), ps, requires=['canon p.poly_data'], ensures=[('exact value', 'value result.poly_data = '+e), ('canonical', 'canon result.poly_data')])
fn('p_addm', 'clpoly::operator+', r'^clpoly::operator\+\(P, M\)', ['O', 'm'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O_0.poly_data + ev m_0'), ('canonical', 'canon result.poly_data')])
fn('p_madd', 'clpoly::operator+', r'^clpoly::operator\+\(M, P\)', ['m', 'O'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O.poly_data + ev m'), ('canonical', 'canon result.poly_data')])
fn('p_subm', 'clpoly::operator-', r'^clpoly::operator-\(P, M\)', ['O', 'm'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = value v_O_0.poly_data - ev m_0'), ('canonical', 'canon result.poly_data')])
fn('p_msub', 'clpoly::operator-', r'^clpoly::operator-\(M, const P &\)', ['m', 'O'], requires=['canon v_O.poly_data'], ensures=[('exact value', 'value result.poly_data = ev m - value v_O.poly_data'), ('canonical', 'canon result.poly_data')])
for n, t, e in (('mm_add', '+', 'ev m1_0 + ev m2_0'), ('mm_sub', '-', 'ev m1_0 - ev m2_0')):
    fn(n, 'clpoly::operator'+t, r'^clpoly::operator\%s\(M, M\)' % t, ['m1', 'm2'], ensures=[('exact value', 'value result.poly_data = '+e), ('canonical', 'canon result.poly_data')])
for n, t, ps, e in (('mi_add', '+', ['m', 'i'], 'ev m_0 + i'), ('im_add', '+', ['i', 'm'], 'ev m_0 + i'), ('mi_sub', '-', ['m', 'i'], 'ev m_0 - i'), ('im_sub', '-', ['i', 'm'], 'i - ev m_0'), ('mi_mul', '*', ['m', 'i'], 'i * ev m_0'), ('im_mul', '*', ['i', 'm'], 'i * ev m_0')):
    fn(n, 'clpoly::operator'+t, r'^clpoly::operator\%s\(%s\)' % (t, ', '.join('M' if x == 'm' else 'long' for x in ps)), ps, ensures=[('exact value', 'value result.poly_data = '+e), ('canonical', 'canon result.poly_data')])
fn('m_neg', 'clpoly::operator-', r'^clpoly::operator-\(M\)', ['m'], ensures=[('exact value', 'value result.poly_data = - ev m_0'), ('canonical', 'canon result.poly_data')])
MULC = ['pv_len new_v = $k', ('partial product', 'value new_v = value v1_ * valf v2_ $k'),
  ('terms', 'forall i:int. 0 <= i < $k -> (pv_get new_v i).term_first = mulm (pv_get v1_ 0).term_first (pv_get v2_ i).term_first /\\ (pv_get new_v i).term_second = (pv_get v1_ 0).term_second * (pv_get v2_ i).term_second')]
fn('pv_mulpack', 'clpoly::__pair_vec_multiplies_compression', r'\(PV &, const PV &, const PV &, const C &\)', ['new_v', 'v1_', 'v2_', 'comp'], requires=['canon v1_', 'canon v2_'],
  ensures=['result -> value new_v = value v1_ * value v2_ /\\ canon new_v', 'not result -> new_v = new_v_0'], contract_only=True, note='packed heap multiplication: assumed, bounded search only')
fn('pv_mul', 'clpoly::pair_vec_multiplies', r'\(PV &, const PV &, const PV &, const C &\)', ['new_v', 'v1_', 'v2_', 'comp'], requires=['canon v1_', 'canon v2_'],
  ensures=[('exact product', 'value new_v = value v1_ * value v2_'), ('canonical', 'canon new_v')], alias=[{'v1_': 'new_v'}, {'v2_': 'new_v'}, {'v1_': 'new_v', 'v2_': 'new_v'}],
  loops={1: dict(inv=MULC)}, tail_abs={'new_v': ('pv', ['value new_v = value v1_ * value v2_', 'canon new_v'])}, variant=None,
  ghost={'loop1.pre': ['assert { valf v1_ 1 = valf v1_ 0 + (pv_get v1_ 0).term_second * ev (pv_get v1_ 0).term_first }'],
    'loop1.begin': ['let ghost nb = new_v in', 'let ghost a0 = pv_at v1_ 0 in', 'let ghost b0 = pv_at v2_ $k in', 'assert { valf v2_ ($k + 1) = valf v2_ $k + b0.term_second * ev b0.term_first }', 'mulstep (value v1_) a0.term_second (ev a0.term_first) b0.term_second (ev b0.term_first) (valf v2_ $k)', 'let ghost w0 = pure { valf v2_ $k } in'],
    'loop1.end': ['value_push_l nb { term_first = mulm a0.term_first b0.term_first; term_second = a0.term_second * b0.term_second }', 'assert { value new_v = value nb + (a0.term_second * b0.term_second) * ev (mulm a0.term_first b0.term_first) }', 'mulstep2 (value v1_) a0.term_second (ev a0.term_first) b0.term_second (ev b0.term_first) w0 (value new_v) (value nb) (ev (mulm a0.term_first b0.term_first))', 'assert { value new_v = value v1_ * (w0 + b0.term_second * ev b0.term_first) }', 'assert { valf v2_ ($k + 1) = w0 + b0.term_second * ev b0.term_first }']})
fn('pv_pow', 'clpoly::pair_vec_power', r'^clpoly::pair_vec_power\(PV &, const PV &, long, const C &\)', ['init_v', 'v', 'i', 'comp'], requires=['canon v', '0 <= i'],
  ensures=[('repeated product', 'i_0 > 0 -> value init_v = pw (value v) i_0'), ('canonical', 'i_0 > 0 -> canon init_v'), ('zeroth power left to the caller', 'i_0 = 0 -> init_v = init_v_0')],
  loops={1: dict(inv=['0 <= i <= i_0', 'b = 1 \\/ b = 0', 'canon p', 'b = 0 -> canon init_v', 'b = 1 -> i > 0', ('power', 'if b = 1 then pw (value p) i = pw (value v) i_0 else value init_v * pw (value p) i = pw (value v) i_0')], var='i')},
  ghost={'entry': ['pw1 (value v) 1'], 'loop1.begin': ['let ghost ib = i in', 'let ghost pb = p in', 'let ghost ob = init_v in', 'let ghost bb = b in'],
    'loop1.end': ['assert { ib = 2 * i \\/ ib = 2 * i + 1 }', '(if pure { i > 0 } then assert { value p = value pb * value pb })',
       '(if pure { ib = 2 * i } then pw_even (value pb) ib i (value pb * value pb) else pw_odd (if bb = 1 then 1 else value ob) (value pb) ib i (value pb * value pb) (value init_v))', '(if pure { i = 0 } then assert { pw (value p) 0 = 1 /\\ pw (value pb * value pb) 0 = 1 })']})
fn('p_pow', 'clpoly::pow', r'^clpoly::pow\(const P &, long\)', ['p', 'i'], requires=['canon p.poly_data', '0 <= i'], ensures=[('repeated product', 'value result.poly_data = pw (value p.poly_data) i_0'), ('canonical', 'canon result.poly_data')],
  ghost={'entry': ['let ghost vp = pure { value p.poly_data } in', 'pw1 vp 1', 'pw1 vp 2', 'pw1 vp 3', 'assert { pw vp 2 = vp * vp }', 'assert { pw vp 3 = vp * (vp * vp) }', 'assert { (vp * vp) * vp = vp * (vp * vp) }', '(if i > 0 then pw1 vp i)']})
DIVS = lambda q, r: [('division identity', 'value v1_ = value %s * value v2_ + value %s' % (q, r)), ('canonical', 'canon %s /\\ canon %s' % (q, r)), ('no reducible remainder term', 'forall i:int. 0 <= i < pv_len %s -> irred v2_ (pv_get %s i)' % (r, r))]
def conj(l, w='new_v', v='v_R'): return ' /\\ '.join('(%s)' % f for d, f in l)
S = r'^clpoly::%s\(PV &, PV &, const PV &, const PV &, const C &\)'
S1 = r'^clpoly::%s\(PV &, const PV &, const PV &, const C &\)'
DPRE = ['canon v1_', 'canon v2_', 'pv_len v2_ > 0']
E1 = 'exists r: pv. ' + conj(DIVS('new_v', 'r'))
fn('pv_divrpack', 'clpoly::__pair_vec_div_compression', S % '__pair_vec_div_compression', ['new_v', 'R', 'v1_', 'v2_', 'comp'], requires=DPRE, ensures=['result -> ' + conj(DIVS('new_v', 'v_R')), 'not result -> new_v = new_v_0 /\\ v_R = v_R_0'], contract_only=True, note='packed heap division: assumed, bounded search only')
fn('pv_divpack', 'clpoly::__pair_vec_div_compression', S1 % '__pair_vec_div_compression', ['new_v', 'v1_', 'v2_', 'comp'], requires=DPRE, ensures=['result -> ' + E1, 'not result -> new_v = new_v_0'], contract_only=True, note='packed heap division: assumed, bounded search only')
DINV = lambda r, part: [('partial identity', 'valf v1_ $k = value new_v * value v2_ + value %s' % r), ('canonical so far', 'canon new_v /\\ canon %s' % r), ('irreducible so far', 'forall i:int. 0 <= i < pv_len %s -> irred v2_ (pv_get %s i)' % (r, r)),
  ('quotient terms precede', 'forall i j:int. 0 <= i < pv_len new_v /\\ $k <= j < pv_len v1_ -> lt (mulm (pv_get v2_ 0).term_first (pv_get new_v i).term_first) (pv_get v1_ j).term_first'),
  ('remainder terms precede', 'forall i j:int. 0 <= i < pv_len %s /\\ $k <= j < pv_len v1_ -> lt (pv_get %s i).term_first (pv_get v1_ j).term_first' % (r, r))]
DB = lambda r: ['let ghost nb = new_v in', 'let ghost rb = %s in' % r, 'let ghost a0 = pv_at v1_ $k in', 'let ghost b0 = pv_at v2_ 0 in', 'assert { valf v1_ ($k + 1) = valf v1_ $k + a0.term_second * ev a0.term_first }',
  'let ghost dv = pure { mdiv b0.term_first a0.term_first } in', 'let ghost w0 = pure { valf v1_ $k } in']
DE = lambda r: ['divstep dv a0 b0 v2_ nb new_v rb %s w0' % r, 'assert { valf v1_ ($k + 1) = w0 + a0.term_second * ev a0.term_first }']
DP = ['assert { valf v2_ 1 = valf v2_ 0 + (pv_get v2_ 0).term_second * ev (pv_get v2_ 0).term_first }', 'assert { value v2_ = (pv_get v2_ 0).term_second * ev (pv_get v2_ 0).term_first }']
fn('pv_divr', 'clpoly::pair_vec_div', S % 'pair_vec_div', ['new_v', 'R', 'v1_', 'v2_', 'comp'], requires=['canon v1_', 'canon v2_'], throws='pv_len v2_ = 0',
  ensures=DIVS('new_v', 'v_R'), alias=[{'v1_': 'new_v'}, {'v2_': 'new_v'}, {'v1_': 'v_R'}, {'v2_': 'v_R'}, {'v1_': 'new_v', 'v2_': 'v_R'}, {'v1_': 'v_R', 'v2_': 'new_v'}],
  loops={1: dict(inv=DINV('v_R', 0))}, tail_abs={'new_v': ('pv', []), 'v_R': ('pv', [f for d, f in DIVS('new_v', 'v_R')])},
  ghost={'loop1.pre': DP, 'loop1.begin': DB('v_R'), 'loop1.end': DE('v_R')})
fn('pv_div', 'clpoly::pair_vec_div', S1 % 'pair_vec_div', ['new_v', 'v1_', 'v2_', 'comp'], requires=['canon v1_', 'canon v2_'], throws='pv_len v2_ = 0',
  ensures=[('the quotient of a division with irreducible remainder', E1)], alias=[{'v1_': 'new_v'}, {'v2_': 'new_v'}, {'v1_': 'new_v', 'v2_': 'new_v'}],
  loops={1: dict(inv=DINV('gr', 0))}, tail_abs={'new_v': ('pv', [E1])},
  ghost={'loop1.pre': DP + ['let ghost ref gr = pv_nil in'], 'loop1.begin': DB('gr'),
    'loop1.end': ['let ghost zr0 = any int ensures { result = fr a0.term_second b0.term_second } in', 'gr <- (if dv then (if pure { fr a0.term_second b0.term_second <> 0 } then pv_push rb { term_first = a0.term_first; term_second = zr0 } else rb) else pv_push rb a0)'] + DE('gr')})
fn('p_mul', 'clpoly::operator*', r'^clpoly::operator\*\(const P &, const P &\)', ['p1', 'p'], requires=['canon p1.poly_data', 'canon p.poly_data'],
  ensures=[('exact product', 'value result.poly_data = value p1.poly_data * value p.poly_data'), ('canonical', 'canon result.poly_data'), ('order kept', 'result.poly_comp = p1.poly_comp')])
def dv(q, r, a, b): return [(d, f.replace('v1_', a).replace('v2_', b)) for d, f in DIVS(q, r)]
fn('p_div', 'clpoly::operator/', r'^clpoly::operator/\(const P &, const P &\)', ['p1', 'p'], requires=['canon p1.poly_data', 'canon p.poly_data'], throws='pv_len p.poly_data = 0',
  ensures=[('the quotient of a division with irreducible remainder', 'exists r: pv. ' + conj(dv('result.poly_data', 'r', 'p1.poly_data', 'p.poly_data'))), ('order kept', 'result.poly_comp = p1.poly_comp')])
fn('pd_3', 'clpoly::polynomial_div', r'^clpoly::polynomial_div\(P &, const P &, const P &\)', ['p', 'p1', 'p2'], requires=['canon p1.poly_data', 'canon p2.poly_data'], throws='pv_len p2.poly_data = 0',
  ensures=[('the quotient of a division with irreducible remainder', 'exists r: pv. ' + conj(dv('p.poly_data', 'r', 'p1.poly_data', 'p2.poly_data'))), ('order kept', 'p.poly_comp = p1.poly_comp')])
fn('pd_4', 'clpoly::polynomial_div', r'^clpoly::polynomial_div\(P &, P &, const P &, const P &\)', ['p', 'R', 'p1', 'p2'], requires=['canon p1.poly_data', 'canon p2.poly_data'], throws='pv_len p2.poly_data = 0',
  ensures=dv('p.poly_data', 'v_R.poly_data', 'p1.poly_data', 'p2.poly_data') + [('order kept', 'p.poly_comp = p1.poly_comp /\\ v_R.poly_comp = p1.poly_comp')])
fn('p_rem', 'clpoly::polynomial_rem', r'^clpoly::polynomial_rem\(const P &, const P &\)', ['p1', 'p2'], requires=['canon p1.poly_data', 'canon p2.poly_data'], throws='pv_len p2.poly_data = 0',
  ensures=[('the remainder of a division', 'exists q: pv. ' + conj(dv('q', 'result.poly_data', 'p1.poly_data', 'p2.poly_data'))), ('order kept', 'result.poly_comp = p1.poly_comp')])
cfg['fns'] = F
